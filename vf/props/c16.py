"""C16: parameters, properties, gradients, diagnostics survive save/load."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, Violation, expect_error, in_repo, require
from errors import LoadError
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit

LEVEL = "exploration"
RULE = ("A case is a history of one to four objects saved into the same "
        "folder (names, units, special values, masks, measurements, "
        "extension states vary), the last of which is loaded and compared "
        "bitwise; then files of the folder are damaged one at a time. "
        "Non-trivial with at least two saves, or at least two files damaged "
        "that are needed.")
ASSUMPTIONS = ["the parent of the folder exists",
               "files that only exist for some objects (masks, measurements, "
               "the extension flag) may be missing without an error, then "
               "this part of the state is missing but nothing else differs",
               "damage means a missing, empty, cut or foreign file; flipped "
               "bits inside an intact file cannot be noticed"]

SPECIAL = [np.nan, -np.nan, np.inf, -np.inf, -0.0, 5e-324, 1e308, 0.1]


@st.composite
def specs(draw):
    def axis():
        low = draw(st.sampled_from([0, 0, -1.5, 0.1, -3]))
        return [low, low + draw(st.sampled_from([1, 0.3, 2.7])),
                draw(grids.seldom(st.integers(1, 3), st.integers(10, 12)))]
    return dict(x=axis(), y=axis(), rf=draw(st.integers(1, 3)),
                extended=draw(st.booleans()))


def parameters(spec):
    p = GridParameters(*spec["x"], *spec["y"], 2.5, spec["rf"])
    if spec["extended"] and p.extendable:
        p.extend_grid()
    return p


def cube(shape, seed, special):
    rng = np.random.default_rng(seed)
    data = rng.normal(0, 10.0 ** rng.integers(-3, 4), shape)
    if special:
        where = rng.random(shape) < 0.4
        data[where] = rng.choice(SPECIAL, int(where.sum()))
    if seed % 3 == 0:
        data = np.asfortranarray(data)
    elif seed % 3 == 1:
        data = np.repeat(data, 2, axis=1)[:, ::2]
    return data


def bits(a):
    a = np.asarray(a)
    return a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes()


def state_parameters(p):
    return dict(dx=bits(p.dx), dy=bits(p.dy), rf=bits(p.rf),
                rf_array=bits(p.rf_array), grid=tuple(map(int, p.grid_shape)),
                slice=tuple(map(int, p.slice_shape)),
                extendable=bool(p.extendable),
                vectors=[bits(v) for v in p.get_vectors()])


def state_property(p):
    return dict(name=p.name, unit=p.unit, data=bits(p.get_data(False)),
                mask=None if p.mask is None else bits(p.mask),
                masked=bits(p.get_data()), vmin=repr(p.vmin),
                vmax=repr(p.vmax),
                **{f"parameters {k}": v for k, v in
                   state_parameters(p.grid_parameters).items()})


VALUES = ("measured_gradient", "measured_error", "orbital_scale",
          "transmission_change")


def number(v):
    return None if v is None else np.float64(v).tobytes()


def state_gradient(g):
    return dict(position=number(g.position),
                scaled=number(g.get_scaled_gradient()),
                **{v: number(getattr(g, v)) for v in VALUES},
                **state_property(g))


def state_diagnostics(d, spec):
    p = parameters(dict(spec, extended=False))
    ny, nx = p.slice_shape
    out = dict(text=repr(d))
    for y in range(-1, 2 * ny + 1):
        for x in range(-1, 2 * nx + 1):
            try:
                out[y, x] = [bits(v) for v in d.get_diagnostic(y, x)]
            except (KeyError, ValueError) as ex:
                out[y, x] = type(ex).__name__
    try:
        d.save_diagnostic(0, 0, None, None)
        out["open"] = "accepted"
    except (TypeError, RuntimeError) as ex:
        out["open"] = type(ex).__name__
    return out


NAMES = [n.name for n in GridPropertyName]
UNITS = [u.name for u in GridPropertyUnit]


@st.composite
def objects(draw, kind, spec=None):
    case = dict(spec=spec or draw(specs()), seed=draw(st.integers(0, 10 ** 6)),
                special=draw(st.booleans()))
    if kind in ("property", "gradient"):
        case["mask"] = draw(st.sampled_from([None, None, "some", "all",
                                             "none"]))
    if kind == "property":
        case["name"] = draw(st.sampled_from(NAMES[:4] + NAMES))
        case["unit"] = draw(st.sampled_from(UNITS))
    if kind == "gradient":
        case["position"] = draw(st.one_of(
            st.sampled_from([0.1, -0.25, 0, 1, 1e-9, -0.0, 123.45678]),
            st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 123457)))
        case["measured"] = draw(st.none() | st.tuples(
            st.integers(0, 1000), st.integers(0, 10 ** 4),
            st.integers(1, 1000), st.integers(0, 999)).map(list))
        case["mask_first"] = draw(st.booleans())
    if kind == "diagnostics":
        case["extend"] = draw(st.booleans())
        case["stored"] = draw(st.lists(st.tuples(st.integers(0, 2),
            st.integers(0, 2), st.integers(0, 6)).map(list), max_size=6))
    return case


def make(kind, case):
    p = parameters(case["spec"])
    if kind == "parameters":
        return p
    if kind == "diagnostics":
        q = parameters(dict(case["spec"], extended=False))
        d = GridDiagnostics(q)
        for k, (y, x, n) in enumerate(case["stored"]):
            values = cube((n, 2), case["seed"] + k, case["special"])
            ny, nx = q.slice_shape
            d.save_diagnostic(y % ny, x % nx,
                              np.ascontiguousarray(values[:, 0]), values[:, 1])
        if case["extend"]:
            d.extend()
        return d
    data = cube(p.grid_shape, case["seed"], case["special"])
    rng = np.random.default_rng(case["seed"] + 1)
    mask = {None: None, "some": rng.random(p.grid_shape) < 0.5,
            "all": np.ones(p.grid_shape, bool),
            "none": np.zeros(p.grid_shape, bool)}[case["mask"]]
    if kind == "property":
        out = GridProperty(GridPropertyName[case["name"]],
                           GridPropertyUnit[case["unit"]], data, p)
        if mask is not None:
            out.set_mask(mask)
        return out
    out = GridGradient(data, p, case["position"])
    if mask is not None and case["mask_first"]:
        out.set_mask(mask)
    if case["measured"] is not None:
        fraction, scale, change, error = case["measured"]
        change, scale = change / 1000, scale / 7
        measured = 0.0 if scale == 0 else (
            fraction / 1001 * change / scale)
        out.determine_mask(measured, scale, change, error / 7)
    if mask is not None and not case["mask_first"]:
        out.set_mask(mask)
    return out


FOLDERS = ["saved", "a folder.with dots", "/abs", "saved/"]


@st.composite
def strategy(draw, kind):
    spec = draw(specs())
    out = dict(folder=draw(st.sampled_from(FOLDERS)),
               objects=draw(st.lists(objects(kind, spec if draw(st.booleans())
                                             else None),
                                     min_size=1, max_size=4)),
               faults=draw(st.lists(st.tuples(st.sampled_from(["remove",
                   "empty", "cut", "cut", "text"]), st.integers(1, 10 ** 4)
                   ).map(list), min_size=2, max_size=2)))
    if kind == "gradient":
        out["name"] = draw(st.sampled_from([None, "gradient_0", "one"]))
    return out


def place(case, kind):
    """Save every object in turn; returns the last with its loader, folder."""
    base = case["folder"]
    if base == "/abs":
        base = os.path.abspath("saved")
    last = None
    for k, description in enumerate(case["objects"]):
        item = make(kind, description)
        if kind == "gradient":
            before = state_gradient(item)
            if not os.path.exists(base):
                os.mkdir(base)
            if case["name"] is None:
                item.save_gradient(base)
                folder = f"{base}/gradient_{item.position:.4f}"
            else:
                item.save_gradient(base, case["name"])
                folder = f"{base}/{case['name']}"
            require(os.path.isdir(folder),
                    f"the gradient was not saved in {folder}")
            require(state_gradient(item) == before,
                    "saving changed the gradient")
            last = item, folder
        else:
            before = state(kind, item, description)
            item.save(base)
            require(state(kind, item, description) == before,
                    f"saving changed the {kind}")
            last = item, base
    return last


def state(kind, item, description):
    if kind == "parameters":
        return state_parameters(item)
    if kind == "property":
        return state_property(item)
    if kind == "gradient":
        return state_gradient(item)
    return state_diagnostics(item, description["spec"])


def loader(kind, description):
    if kind == "property":
        name = GridPropertyName[description["name"]]
        unit = GridPropertyUnit[description["unit"]]
        return lambda folder: GridProperty.load(folder, name, unit)
    return {"parameters": GridParameters, "gradient": GridGradient,
            "diagnostics": GridDiagnostics}[kind].load


VECTORS = {"dx.npy", "dy.npy", "rf.npy", "rf_array.npy"}


def needed(kind, description):
    """Files without which nothing can be loaded, and optional ones."""
    if kind == "parameters":
        return VECTORS, set()
    if kind == "diagnostics":
        return ({"fy_dict.npy", "disk_radius_dict.npy", "max_yx.npy"},
                {"extended.npy"})
    if kind == "property":
        stem = f"{description['name']}_{description['unit']}"
        return VECTORS | {stem + ".npy"}, {stem + "_mask.npy"}
    return (VECTORS | {"GRADIENT_NONE.npy", "position.npy"},
            {"GRADIENT_NONE_mask.npy", "mask_values.npy"})


# what may be missing after an optional file is gone
PARTS = {"extended.npy": None, "mask_values.npy": set(VALUES) | {"scaled",
         "mask", "masked"}}


def check(kind):
    def run(case, ctx):
        for name in os.listdir("."):
            if not name.startswith(".") and os.path.isdir(name):
                shutil.rmtree(name)
        expect_error((LoadError,), loader(kind, case["objects"][-1]),
                     "nowhere")
        item, folder = place(case, kind)
        description = case["objects"][-1]
        load = loader(kind, description)
        expected = state(kind, item, description)
        files = sorted(os.listdir(folder))
        got = load(folder)
        require(type(got) is type(item),
                f"a {type(got).__name__} was loaded")
        changed = compare(expected, state(kind, got, description))
        require(not changed, f"{changed} differ after loading")
        require(sorted(os.listdir(folder)) == files, "loading changed files")
        # earlier properties with another name or unit stay, if they have the
        # same parameters
        if kind == "property":
            seen = {}
            for d in case["objects"]:
                seen[d["name"], d["unit"]] = d
            for d in seen.values():
                if d is description or d["spec"] != description["spec"]:
                    continue
                other = loader(kind, d)(folder)
                changed = compare(state(kind, make(kind, d), d),
                                  state(kind, other, d))
                require(not changed, f"{changed} of the {d['name']} differ, "
                        "which was saved in the same folder")
                ctx.label("another property in the folder")
        # load, save and load once more
        again = f"{folder.rstrip('/')} again"
        if kind == "gradient":
            os.mkdir(again)
            got.save_gradient(again, "x")
            again += "/x"
        else:
            got.save(again)
        changed = compare(expected, state(kind, load(again), description))
        require(not changed, f"{changed} differ after two generations")
        ctx.nontrivial(len(case["objects"]) > 1)
        ctx.label(f"{len(case['objects'])} saves")
        must, may = needed(kind, description)
        for name in sorted((must | may) & set(files)):
            for how, amount in case["faults"]:
                damage(f"{folder}/{name}", how, amount)
                try:
                    broken = load(folder)
                except LoadError:
                    ctx.label(f"{name} ({how}) refused"
                              if kind != "property" else f"{how} refused")
                except Exception as ex:
                    if not in_repo(ex.__traceback__):
                        raise
                    raise Violation(f"{name} damaged ({how}) raises "
                                    f"{type(ex).__name__}: {ex}") from ex
                else:
                    require(name in may and how == "remove",
                            f"{name} damaged ({how}), but it was loaded")
                    accept(kind, name, expected,
                           state(kind, broken, description), item)
                    ctx.label("an optional file is gone")
                restore(f"{folder}/{name}")
        changed = compare(expected, state(kind, load(folder), description))
        require(not changed, f"{changed} differ after failed loads")
    return run


def compare(a, b):
    return [k for k in sorted(set(a) | set(b), key=str)
            if k not in a or k not in b or a[k] != b[k]]


def accept(kind, name, expected, got, item):
    changed = set(compare(expected, got))
    if kind == "diagnostics":
        # as in a folder of a version that did not save the flag
        return
    if name.endswith("_mask.npy"):
        allowed = {"mask", "masked"}
    else:
        allowed = PARTS[name]
        require(all(got[v] is None for v in VALUES),
                "the measurement is gone, but was loaded")
    require(changed <= allowed, f"without {name}, {sorted(changed)} differ")


BACKUP = []


def damage(path, how, amount):
    with open(path, "rb") as f:
        content = f.read()
    BACKUP[:] = [content]
    if how == "remove":
        os.remove(path)
        return
    keep = {"empty": 0, "text": 0, "cut": amount % len(content)}[how]
    with open(path, "wb") as f:
        f.write(b"this is not an array" * 3 if how == "text"
                else content[:keep])


def restore(path):
    with open(path, "wb") as f:
        f.write(BACKUP[0])


def sub(kind, quick, thorough, shards=1):
    return Sub(kind, lambda: strategy(kind), check(kind), quick, thorough,
               shards=shards, thorough_shards=4)


SUBS = [sub("parameters", 200, 5000), sub("property", 250, 6000, 2),
        sub("gradient", 250, 6000, 2), sub("diagnostics", 300, 6000)]
