"""C31: the message of an error tells what was wrong."""
import os
import re
import shutil

import numpy as np
from hypothesis import strategies as st

import validate
from core import Sub, require
from errors import InvalidDimensionsError, InvalidShapeError, LoadError
from props import c16, c21, c24, c27
from Ring import Ring

LEVEL = "exploration"
RULE = ("numbers, arrays, shapes: generated values, restrictions and names; "
        "the message of a rejection is compared with what is wrong. calls: "
        "each argument of each public operation with each kind of invalid "
        "value, in full. overlap: a ring that does not fit into a system, at "
        "every place. load: objects whose files are damaged. Non-trivial "
        "when a message was compared.")
ASSUMPTIONS = ["messages are compared by the names, numbers and types they "
               "contain, not by their words (\"or equal\" and \"nan\" apart)",
               "with several faults the message may be about any of them",
               "restrictions that are faulty themselves are left out"]

NAMES = st.sampled_from(["value", "tilt", "x", "light_curve_gradients",
                         "num rings", "Q"])


def message(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except (TypeError, ValueError, InvalidShapeError,
            InvalidDimensionsError) as ex:
        return ex, str(ex)
    return None, None


def named(name, text, what):
    require(re.search(rf"(?<!\w){re.escape(name)}(?!\w)", text),
            lambda: f"the message for {what} does not name {name!r}: {text}")


def bounds(text, low, high, below, above, exclusive, what):
    """The broken bounds have to be in the message, the others not."""
    for bound, broken, word in ((low, below, "greater"),
                                (high, above, "less")):
        found = re.findall(word + r" than (or equal to )?(-?[\d.]+|-?inf)",
                           text)
        require(bool(found) == broken, lambda: f"the message for {what} "
                f"{'does not mention' if broken else 'mentions'} the bound "
                f"{bound}: {text}")
        if broken:
            require(found[0][1].startswith(f"{bound:.4f}")
                    and bool(found[0][0]) != exclusive, lambda:
                    f"the message for {what} does not tell the bound {bound} "
                    f"({'exclusive' if exclusive else 'inclusive'}): {text}")


def check_number(case, ctx):
    case, name = case
    value = c24.make(case["value"])
    kw, low, high, kinds = c24.restrictions(case)
    if kinds or case["faulty"]:
        return
    integer = case["integer"] is True
    exclusive = case["exclusive"] is True
    ex, text = message(validate.number, value, name, check_integer=integer,
                       exclusive=exclusive, **kw)
    if ex is None:
        return
    what = f"{value!r} ({name}, integer {integer}, {low} to {high})"
    named(name, text, what)
    right = c24.is_int(value) if integer else c24.is_number(value)
    if not right:
        word = "integer" if integer else "number"
        require(word in text, lambda: f"the message for {what} does not tell "
                f"the type {word}: {text}")
    elif value != value:
        require("nan" in text, f"the message for {what} is {text}")
    else:
        v, a, b = (c24.exact(k) for k in (value, low, high))
        below, above = ((v <= a, v >= b) if exclusive else (v < a, v > b))
        bounds(text, low, high, below, above, exclusive, what)
    ctx.nontrivial()
    ctx.label(type(ex).__name__)


def check_array(case, ctx):
    case, name = case
    a = c24.make_array(case)
    kw, low, high, kinds = c24.restrictions(case)
    if kinds or case["faulty"]:
        return
    exclusive = case["exclusive"] is True
    if case["asked"] is not None:
        kw["dtype"] = case["asked"]
    if case["dimensions"] is not None:
        kw["num_dimensions"] = case["dimensions"]
    ex, text = message(validate.array, a, name, exclusive=exclusive, **kw)
    if ex is None:
        return
    what = f"{c24.describe(a)} ({name}, {kw})"
    named(name, text, what)
    ctx.nontrivial()
    ctx.label(type(ex).__name__)
    if not isinstance(a, np.ndarray):
        require("ndarray" in text, lambda: f"the message for {what} does not "
                f"tell the type: {text}")
    elif isinstance(ex, InvalidDimensionsError):
        numbers = re.findall(r"\d+", text.replace(name, ""))
        require(sorted(numbers) == sorted([str(a.ndim),
                                           str(case["dimensions"])]),
                lambda: f"the message for {what} does not tell the "
                f"dimensions: {text}")
        require(text.rindex(str(case["dimensions"])) > text.index(
            str(a.ndim)), lambda: f"the message for {what} confuses the "
            f"dimensions: {text}")
    elif isinstance(ex, TypeError):
        require(case["asked"] in text and str(a.dtype) in text
                and text.index(str(a.dtype)) <= text.rindex(case["asked"]),
                lambda: f"the message for {what} does not tell the types: "
                f"{text}")
    else:
        flat = [c24.exact(v) for v in a.reshape(-1)]
        if any(v != v for v in flat):
            require("nan" in text, f"the message for {what} is {text}")
            return
        lowest, highest = c24.exact(low), c24.exact(high)
        below = any(v <= lowest if exclusive else v < lowest for v in flat)
        above = any(v >= highest if exclusive else v > highest for v in flat)
        bounds(text, low, high, below, above, exclusive, what)


def check_shapes(case, ctx):
    arrays = [np.ones(s, d) for s, d in zip(case["shapes"], case["dtypes"])]
    if len(arrays) < 2 or case["wrong"] is not None:
        return
    names = [f"array{k}" for k in range(len(arrays))]
    ex, text = message(validate.same_shape_arrays, arrays, names)
    if ex is None:
        return
    at = 0
    for array, name in zip(arrays, names):
        part = f"{name} {array.shape}"
        found = re.search(rf"{name}\W*{re.escape(str(array.shape))}",
                          text[at:])
        require(found, lambda: f"the message does not tell {part}: {text}")
        at += found.end()
    ctx.nontrivial()


# --------------------------------------------------------------------------
# every public operation
# --------------------------------------------------------------------------
SETTERS = {"inner_radius", "outer_radius", "transmission", "inclination",
           "tilt"}


def accepted_names(call, argument):
    if call in SETTERS:
        return {call}
    if call == "Ring" and argument == "inner_radius":
        return {"inner_radius", "outer_radius"}     # compared to each other
    if argument == "property_masked":
        return {"property_masked", "masked"}
    return {argument}


SIDES = {"below": ("greater", 1), "far below": ("greater", 1000),
         "just below": ("greater", 0), "at the bound": ("greater", 0),
         "above": ("less", -1), "far above": ("less", -1000),
         "just above": ("less", 0)}


def check_call(case, ctx):
    seen = []
    c27.check(case, ctx, lambda ex, values: seen.append((ex, values)))
    (argument, kind), = case["faults"]
    if not seen:
        return
    ex, values = seen[0]
    text = str(ex)
    what = f"{case['call']} with {case['faults']}"
    if kind.startswith("too "):
        return          # wrong with the values of other arguments only
    names = accepted_names(case["call"], argument)
    require(any(re.search(rf"(?<!\w){n}(?!\w)", text) for n in names),
            lambda: f"{what} does not name the argument: {text}")
    value = values[argument]
    if isinstance(ex, InvalidShapeError):
        told = dict(re.findall(r"([\w.]+)\W*(\([\d, ]*\))", text))
        require(argument in told and len(told) > 1,
                lambda: f"{what} does not tell the shapes: {text}")
        for name, shape in told.items():
            if isinstance(values.get(name), np.ndarray):
                require(shape == str(values[name].shape), lambda: f"{what}: "
                        f"{name} has the shape {values[name].shape}, not "
                        f"{shape}")
    elif isinstance(ex, InvalidDimensionsError):
        require(str(value.ndim) in re.findall(r"\d+", text),
                lambda: f"{what} does not tell the dimensions: {text}")
    elif isinstance(value, np.ndarray) and kind == str(value.dtype):
        require(kind in text,
                lambda: f"{what} does not tell the type: {text}")
    elif kind in SIDES and (argument in text or argument == "value"):
        word, offset = SIDES[kind]
        found = re.findall(r"(greater|less) than (or equal to )?(-?[\d.]+)",
                           text)
        require(len(found) == 1 and found[0][0] == word
                and abs(float(found[0][2]) - (value + offset)) < 1e-3,
                lambda: f"{what} ({value}) does not tell the bound: {text}")
        require(bool(found[0][1]) != exclusive(case["call"], argument),
                lambda: f"{what}: the bound is described wrongly: {text}")
    ctx.nontrivial()


def exclusive(call, argument):
    return (call, argument) in (("outer_radius", "value"),
                                ("inner_radius", "value"),
                                ("Ring", "inner_radius"),
                                ("Ring", "outer_radius"))


# --------------------------------------------------------------------------
# loading
# --------------------------------------------------------------------------
@st.composite
def strategy_load(draw):
    kind = draw(st.sampled_from(["parameters", "property", "gradient",
                                 "diagnostics"]))
    return dict(kind=kind, object=draw(c16.objects(kind)),
                folder=draw(st.sampled_from(["kept", "a folder", "x.y"])),
                missing=draw(st.integers(0, 4)))


def check_load(case, ctx):
    for name in ("kept", "a folder", "x.y"):
        shutil.rmtree(name, ignore_errors=True)
    kind, folder = case["kind"], case["folder"]
    load = c16.loader(kind, case["object"])
    words = {"parameters": ["parameters"], "diagnostics": ["diagnostics"],
             "gradient": ["Gradient"], "property": [
                 " ".join(w.capitalize() for w in
                          case["object"].get("name", "").split("_"))]}[kind]
    files = sorted(c16.needed(kind, case["object"])[0])
    if case["missing"] < len(files):
        item = c16.make(kind, case["object"])
        if kind == "gradient":
            os.mkdir(folder)
            item.save_gradient(folder, "it")
            folder += "/it"
        else:
            item.save(folder)
        os.remove(f"{folder}/{files[case['missing']]}")
        if kind in ("property", "gradient") and (
                files[case["missing"]] in c16.VECTORS):
            words = ["parameters", words[0]]    # either of them
    try:
        load(folder)
    except LoadError as ex:
        text = str(ex)
        require(folder in text, lambda: f"the message does not tell the "
                f"folder {folder}: {text}")
        require(any(w in text for w in words), lambda: f"the message does "
                f"not tell what could not be loaded ({words}): {text}")
        ctx.nontrivial()


# --------------------------------------------------------------------------
# overlapping rings
# --------------------------------------------------------------------------
@st.composite
def strategy_overlap(draw):
    return dict(system=draw(c21.systems(min_rings=1,
                                        units=(0.125, 1.0, 0.7))),
                replace=draw(st.booleans()), index=draw(st.integers(0, 12)),
                kind=draw(st.sampled_from(["over low", "over high", "cover",
                                           "same", "far", "inside"])),
                where=draw(st.integers(0, 2)), number=draw(st.integers(0, 6)))


def check_overlap(case, ctx):
    system = c21.build(case["system"])
    model = case["system"]["rings"]
    replace = case["replace"]
    index = case["index"] % (len(model) + (not replace))
    inner, outer = c21.new_ring(model, case["kind"], index, case["where"],
                                case["number"], replace)
    if not inner < outer:
        return
    after = index + 1 if replace else index
    wrong = []
    if index > 0 and inner < model[index - 1][1]:
        wrong.append(("inner", "preceding", inner, model[index - 1][1]))
    if after < len(model) and outer > model[after][0]:
        wrong.append(("outer", "succeeding", outer, model[after][0]))
    fn = system.replace_ring if replace else system.add_ring
    ex, text = message(fn, index, Ring(inner, outer, 0.5))
    if not wrong or ex is None:
        return              # whether it is rejected is decided elsewhere
    for edge, neighbour, own, other in wrong:
        first = re.search(r"(inner|outer) radius", text)
        if (neighbour in text and first and first[1] == edge
                and re.findall(r"\d+\.\d+", text)
                == [f"{own:.2f}", f"{other:.2f}"]):
            break
    else:
        require(False, f"the message for a ring from {inner} to {outer} that "
                f"overlaps ({wrong}) is: {text}")
    ctx.nontrivial()
    ctx.label(" and ".join(w[1] for w in wrong))


SUBS = [Sub("overlap", strategy_overlap, check_overlap, 600, 10000),
        Sub("numbers", lambda: st.tuples(c24.strategy_number(), NAMES),
            check_number, 1500, 30000),
        Sub("arrays", lambda: st.tuples(c24.strategy_array(), NAMES),
            check_array, 1500, 30000),
        Sub("shapes", c24.strategy_shapes, check_shapes, 500, 8000),
        Sub("load", strategy_load, check_load, 300, 5000)]
SUBS += [Sub(f"calls {part}", None, check_call, 0, 0,
             enumerate_cases=lambda part=part: c27.every(part))
         for part in range(c27.PARTS)]
