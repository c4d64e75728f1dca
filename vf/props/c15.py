"""C15: grid parameters span the requested ranges and reject others."""
import numpy as np
from hypothesis import strategies as st

from core import Sub, expect_error, require
from GridParameters import GridParameters

LEVEL = "exploration"
RULE = ("vectors: ranges of any magnitude and counts up to 400 against the "
        "position of every element, then extended (up to three times). "
        "rejections: one argument of a valid call is replaced by an invalid "
        "one. Non-trivial when all three vectors have at least two different "
        "values (vectors), always for rejections.")
ASSUMPTIONS = ["limits are finite and up to 1e150, so that ranges do not "
               "overflow",
               "integers are int and the signed numpy integers (booleans are "
               "not tried as counts)"]

EPS = np.finfo(float).eps

LIMITS = st.one_of(
    st.sampled_from([0, 0.0, -0.0, 1, -1, 0.1, 0.3, 1e-3, 1e150, -1e150,
                     1e-150, 5e-324]),
    st.integers(-50, 50), st.integers(-5000, 5000).map(lambda k: k / 100),
    st.floats(-1e150, 1e150), st.floats(-10, 10))
COUNTS = st.one_of(st.integers(1, 12), st.integers(1, 400),
                   st.sampled_from([1, 2, 3]))
INTEGERS = {"int": int, "int16": np.int16, "int32": np.int32,
            "int64": np.int64}
FLOATS = {"float": lambda v: v, "float64": np.float64}


@st.composite
def axes(draw):
    kind = draw(st.sampled_from(["zero", "any", "any", "minus"]))
    if kind == "zero":
        low = draw(st.sampled_from([0, 0.0, -0.0]))
        high = draw(LIMITS.filter(lambda v: v > 0))
    else:
        low, high = draw(st.tuples(LIMITS, LIMITS).filter(
            lambda p: p[0] != p[1]).map(sorted))
    return [low, high, draw(COUNTS)]


MAX_RF = st.one_of(st.sampled_from([1, 1.0, 2, 1.5, 1 + EPS, 1e150]),
                   st.integers(100, 5000).map(lambda k: k / 100),
                   st.floats(1, 1e6))


@st.composite
def strategy(draw):
    x, y = draw(axes()), draw(axes())
    kind = draw(st.sampled_from(["any", "any", "origin", "origin", "origin",
                                 "opposite", "same", "one", "near"]))
    if kind == "origin":
        x[0] = y[0] = draw(st.sampled_from([0, 0.0]))
        x[1] = abs(x[1]) or 1.0
        y[1] = abs(y[1]) or 1.0
    elif kind == "opposite":
        y[:2] = [-x[0], -x[0] + max(1, abs(x[0]))]
    elif kind == "same":
        y[:2] = x[:2]
    elif kind in ("one", "near"):
        # 0 in one direction only, or almost
        first, second = draw(st.permutations([x, y]))
        first[0], first[1] = 0, abs(first[1]) or 1.0
        if kind == "near":
            second[0] = draw(st.sampled_from([1e-9, -1e-12, 1e-300]))
            second[1] = abs(second[1]) or 1.0
            if second[1] <= second[0]:
                second[1] = 1.0
    return dict(x=x, y=y, max_rf=draw(MAX_RF), num_rf=draw(COUNTS),
                integer=draw(st.sampled_from(sorted(INTEGERS))),
                real=draw(st.sampled_from(sorted(FLOATS))),
                times=draw(st.integers(1, 3)))


def evenly(vector, low, high, count, what):
    require(isinstance(vector, np.ndarray) and vector.shape == (count,),
            lambda: f"{what} has shape {np.shape(vector)}, not ({count},)")
    require(vector[0] == low, f"{what} starts at {vector[0]!r}, not {low!r}")
    if count == 1:
        return
    require(vector[-1] == high, f"{what} ends at {vector[-1]!r}, not {high!r}")
    k = np.arange(count)
    # two products, so that no intermediate result is larger than the limits
    expected = low * ((count - 1 - k) / (count - 1)) + high * (k / (count - 1))
    scale = max(abs(low), abs(high))
    bad = ~(np.abs(vector - expected) <= 8 * EPS * scale + 1e-320)
    require(not bad.any(), lambda: f"element {np.argmax(bad)} of {what} is "
            f"{vector[np.argmax(bad)]!r} instead of "
            f"{expected[np.argmax(bad)]!r}")


def shapes(p, ny, nx, nr):
    require(tuple(p.grid_shape) == (ny, nx, nr),
            f"grid_shape is {p.grid_shape} instead of {(ny, nx, nr)}")
    require(tuple(p.slice_shape) == (ny, nx),
            f"slice_shape is {p.slice_shape} instead of {(ny, nx)}")
    require(p.dy.shape == (ny, 1, 1) and p.dx.shape == (1, nx, 1),
            f"dy and dx have shapes {p.dy.shape} and {p.dx.shape}")
    dy, dx, rf = p.get_vectors()
    require(dy.shape == (ny,) and dx.shape == (nx,) and rf.shape == (nr,),
            "get_vectors has the wrong shapes")
    require(np.array_equal(dy, p.dy.reshape(-1))
            and np.array_equal(dx, p.dx.reshape(-1))
            and np.array_equal(rf, p.rf_array),
            "get_vectors is not (dy, dx, rf_array)")


def check_vectors(case, ctx):
    (x0, x1, nx), (y0, y1, ny) = case["x"], case["y"]
    integer, real = INTEGERS[case["integer"]], FLOATS[case["real"]]
    p = GridParameters(real(x0), real(x1), integer(nx), real(y0), real(y1),
                       integer(ny), real(case["max_rf"]),
                       integer(case["num_rf"]))
    nr = 2 * case["num_rf"] - 1
    shapes(p, ny, nx, nr)
    dy, dx, rf = (v.copy() for v in p.get_vectors())
    evenly(dx, x0, x1, nx, "dx")
    evenly(dy, y0, y1, ny, "dy")
    half = p.rf
    if case["num_rf"] > 1:
        evenly(half, 1, case["max_rf"], case["num_rf"], "rf")
    require(half.shape == (case["num_rf"],) and half[0] == 1,
            lambda: f"rf starts at {half[0]!r}")
    require(rf[case["num_rf"] - 1] == 1, "the middle of rf_array is not 1")
    require(np.array_equal(rf[case["num_rf"] - 1:], half),
            "the second half of rf_array is not rf")
    require(np.array_equal(rf, rf[::-1]),
            "rf_array is not its own mirror image")
    require(bool(p.extendable) == (x0 == 0 and y0 == 0),
            f"extendable is {p.extendable} for ranges from {x0!r} and {y0!r}")
    if not (x0 == 0 and y0 == 0):
        expect_error((AttributeError,), p.extend_grid)
        for a, b in zip((dy, dx, rf), p.get_vectors()):
            require(np.array_equal(a, b), "a refused extension changed it")
        shapes(p, ny, nx, nr)
        ctx.label("not extendable")
    else:
        p.extend_grid()
        full_x = np.concatenate((-dx[:0:-1], dx))
        full_y = np.concatenate((-dy[:0:-1], dy))
        for again in range(case["times"]):
            got_y, got_x, got_rf = p.get_vectors()
            require(np.array_equal(got_x, full_x),
                    lambda: f"dx is extended to {got_x}")
            require(np.array_equal(got_y, full_y),
                    lambda: f"dy is extended to {got_y}")
            require(np.array_equal(got_rf, rf), "extending changed rf_array")
            require(np.array_equal(p.rf, half), "extending changed rf")
            shapes(p, 2 * ny - 1, 2 * nx - 1, nr)
            once = nx == 1 and ny == 1
            require(bool(p.extendable) == once,
                    f"extendable is {p.extendable} after extending")
            if once:
                # a single point at the origin is its own mirror image
                p.extend_grid()
            else:
                expect_error((AttributeError,), p.extend_grid)
        ctx.label("extended")
    ctx.nontrivial(nx > 1 and ny > 1 and case["num_rf"] > 1
                   and case["max_rf"] > 1)
    # the arguments follow different paths for both axes
    ctx.label("different axes", case["x"] != case["y"])


NAMES = ["x0", "x1", "nx", "y0", "y1", "ny", "max_rf", "num_rf"]
FAULTS = {
    "text": lambda v: "1", "none": lambda v: None, "list": lambda v: [1],
    "array": lambda v: np.array([1.0]), "complex": lambda v: 1j,
    "zero": lambda v: 0, "negative": lambda v: -3, "float": lambda v: 3.0,
    "numpy float": lambda v: np.float64(2), "nan": lambda v: float("nan"),
    "half": lambda v: 2.5, "below": lambda v: 1 - EPS / 2,
    "far below": lambda v: -5.0, "almost": lambda v: 0.999999,
}
TYPES = ["text", "none", "list", "array", "complex"]


def faults_of(name):
    if name.startswith("n"):
        return TYPES + ["zero", "negative", "float", "numpy float", "nan",
                        "half"]
    if name == "max_rf":
        return TYPES + ["zero", "below", "far below", "almost", "nan"]
    return TYPES


ALL = NAMES + ["swap x", "swap y", "same x", "same y"]


@st.composite
def strategy_rejections(draw):
    name = draw(st.sampled_from(ALL))
    return dict(base=draw(strategy()), name=name,
                fault=draw(st.sampled_from(faults_of(name))))


def every_rejection():
    base = dict(x=[-1, 2.5, 4], y=[0, 3, 7], max_rf=2.5, num_rf=3)
    for name in ALL:
        for fault in faults_of(name):
            yield dict(base=base, name=name, fault=fault)


def check_rejections(case, ctx):
    base, name, fault = case["base"], case["name"], case["fault"]
    args = [*base["x"], *base["y"], base["max_rf"], base["num_rf"]]
    kinds = (TypeError, ValueError)
    if " " in name:
        how, axis = name.split()
        k = 0 if axis == "x" else 3
        if how == "swap":
            args[k], args[k + 1] = args[k + 1], args[k]
        else:
            args[k + 1] = args[k]
        kinds = (ValueError,)
    else:
        args[NAMES.index(name)] = FAULTS[fault](None)
        if fault in TYPES or "float" in fault:
            kinds = (TypeError,)
        elif fault != "nan" and fault != "half":
            kinds = (ValueError,)
    expect_error(kinds, GridParameters, *args)
    ctx.nontrivial()
    ctx.label(name if " " in name else f"{name}: {fault}")


SUBS = [Sub("vectors", strategy, check_vectors, 2000, 40000,
            thorough_shards=4),
        Sub("rejections", strategy_rejections, check_rejections, 1000, 16000,
            enumerate_cases=every_rejection)]
