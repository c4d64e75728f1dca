"""C20: a ring is valid after every history of assignments."""
import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, expect_error, require
from Ring import Ring

LEVEL = "exploration"
RULE = ("A case is a constructor call and up to 25 assignments with valid, "
        "boundary and invalid values, each accepted or rejected as a model of "
        "the five values predicts; all values are read after every step. "
        "Non-trivial when the ring exists and at least one assignment is "
        "accepted and one rejected.")
ASSUMPTIONS = ["numbers are int, float and the signed numpy types",
               "booleans are not assigned"]

TINY = 1e-16
FIELDS = ["inner_radius", "outer_radius", "transmission", "inclination",
          "tilt"]
NUMBERS = st.one_of(
    st.sampled_from([0, 0.0, -0.0, 1, 1.0, 90, 90.0, 180, -180, -180.0, 0.5,
                     2, 3.5, 1e-16, 1e-17, 5e-324, -1e-16, 1e300, 1e-9,
                     1 + 2 ** -52, 1 - 2 ** -53, 90.00001, 180.00001,
                     -180.00001, -1, -0.5, 1.5, 100]),
    st.integers(-20, 20), st.integers(-2000, 2000).map(lambda k: k / 10),
    st.integers(0, 1000).map(lambda k: k / 1000),
    st.integers(-20, 20).map(lambda k: 10.0 ** k), st.floats(-200, 200))
ODD = st.sampled_from(["nan", "inf", "-inf", "str", "none", "list", "complex",
                       "array", "empty", "dict"])
# the current value of a field, a little more or less
RELATED = st.tuples(st.sampled_from(FIELDS), st.sampled_from(["same", "more",
    "less", "half", "double", "minus"])).map(list)
VALUES = st.one_of(NUMBERS, NUMBERS, RELATED, RELATED, ODD)
TYPES = st.sampled_from(["", "", "", "float64", "float32", "int64", "int32",
                         "longdouble"])


@st.composite
def strategy(draw):
    if draw(st.integers(0, 3)):
        # also rings that start at the centre
        inner = draw(st.integers(-10, 50).map(lambda k: max(k, 0) / 10))
        # (so that smaller ones are possible)
        factor = 10.0 ** draw(grids.seldom(st.just(0), st.integers(-15, 15)))
        inner *= factor
        start = [inner, inner + factor * draw(st.integers(1, 80)) / 10,
                 draw(st.integers(0, 10)) / 10, draw(st.integers(0, 90)),
                 draw(st.integers(-180, 180))]
    else:
        start = [draw(st.one_of(NUMBERS, ODD)) for _ in range(5)]
    return dict(start=start, short=draw(st.integers(0, 2)),
                steps=draw(st.lists(st.tuples(st.sampled_from(
                    FIELDS[:2] + FIELDS), VALUES, TYPES).map(list),
                    max_size=25)))


def concrete(value, kind, model):
    if isinstance(value, list):
        base = float(model[value[0]])
        value = {"same": base, "more": float(np.nextafter(base, np.inf)),
                 "less": float(np.nextafter(base, -np.inf)),
                 "half": base / 2, "double": base * 2,
                 "minus": -base}[value[1]]
    elif isinstance(value, str):
        return {"nan": float("nan"), "inf": float("inf"),
                "-inf": float("-inf"), "str": "1", "none": None,
                "list": [0.5], "complex": 0.5 + 0j, "array": np.array([0.5]),
                "empty": "", "dict": {}}[value]
    if kind and abs(value) < 1e30:
        if "int" in kind:
            if value != int(value):
                return value
            return {"int64": np.int64, "int32": np.int32}[kind](value)
        with np.errstate(all="ignore"):
            return {"float64": np.float64, "float32": np.float32,
                    "longdouble": np.longdouble}[kind](value)
    return value


def is_number(v):
    return isinstance(v, (int, float, np.floating, np.signedinteger)) \
        and not isinstance(v, bool)


def verdict(field, value, model):
    """The value that is stored, or None when it is rejected."""
    if not is_number(value) or value != value:
        return None
    if field == "inner_radius":
        if value == 0:
            value = TINY
        outer = model.get("outer_radius", np.inf)
        return value if 0 < value < outer else None
    if field == "outer_radius":
        return value if model["inner_radius"] < value < np.inf else None
    low, high = {"transmission": (0, 1), "inclination": (0, 90),
                 "tilt": (-180, 180)}[field]
    return value if low <= value <= high else None


def agree(ring, model, what):
    for field, value in model.items():
        got = getattr(ring, field)
        require(got == value, f"{what}: {field} is {got!r}, not {value!r}")
    require(0 < ring.inner_radius < ring.outer_radius
            and 0 <= ring.transmission <= 1 and 0 <= ring.inclination <= 90
            and -180 <= ring.tilt <= 180, f"{what}: the ring is not valid")


def check(case, ctx):
    zero = dict.fromkeys(FIELDS, 1.0)
    args = [concrete(v, "", zero) for v in case["start"]]
    if case["short"]:
        args = args[:3 if case["short"] == 1 else 4]
    model, valid = {}, True
    for field, value in zip(FIELDS, args + [0, 0]):
        stored = verdict(field, value, model)
        if stored is None:
            valid = False
            break
        model[field] = stored
    if not valid:
        expect_error((TypeError, ValueError), Ring, *args)
        ctx.label("constructor rejects")
        return
    ring = Ring(*args)
    agree(ring, model, "new ring")
    accepted = rejected = 0
    for k, (field, value, kind) in enumerate(case["steps"]):
        value = concrete(value, kind, model)
        stored = verdict(field, value, model)
        what = f"after step {k} ({field} = {value!r})"
        if stored is None:
            rejected += 1
            expect_error((TypeError, ValueError), setattr, ring, field, value)
        else:
            accepted += 1
            setattr(ring, field, value)
            model[field] = stored
        agree(ring, model, what)
    ctx.nontrivial(accepted > 0 and rejected > 0)
    ctx.label("accepted", accepted)
    ctx.label("rejected", rejected)


SUBS = [Sub("history", strategy, check, 2500, 60000, thorough_shards=4)]
