"""C17: diagnostics return exactly what was stored for a point."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, in_repo, require
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters

LEVEL = "exploration"
RULE = ("history: stores, rejected stores, lookups, extension and reloads "
        "against a dictionary; every pair of the grid is looked up at the "
        "end. grid: the diagnostics that a finished grid keeps, against the "
        "grid. Non-trivial when values of at least two pairs are stored, one "
        "of them twice or after a rejected store (history), or with more "
        "than two points (grid).")
ASSUMPTIONS = ["indices are int or signed numpy integers, not booleans"]

KNOWN = "diagnostics-extended-key"
INTS = {"int": int, "int64": np.int64, "int32": np.int32, "int8": np.int8}


def values(seed, n):
    rng = np.random.default_rng(seed)
    a = rng.normal(0, 100, (2, n))
    a[rng.random(a.shape) < 0.1] = np.nan
    a[rng.random(a.shape) < 0.05] = np.inf
    return a[0], a[1]


WRONG = ["shape", "two", "none", "list", "int", "float32", "scalar", "swap",
         "text"]


@st.composite
def strategy(draw):
    size = grids.seldom(st.integers(1, 5), st.integers(10, 14), 10)
    shape = draw(grids.seldom(
        st.tuples(size, size), st.tuples(st.integers(1, 3), st.sampled_from(
            [101, 130, 257, 1001])) | st.tuples(st.sampled_from(
                [101, 130, 257, 1001]), st.integers(1, 3)) | st.tuples(
            st.integers(11, 14), st.integers(11, 14)), 25).map(list))
    index = st.tuples(st.integers(0, shape[0] - 1),
                      st.integers(0, shape[1] - 1)).map(list)
    if min(shape) > 10:
        # pairs with the same digits
        index = index | st.tuples(*[st.sampled_from(
            [1, 11, 10, 0, n - 1]) for n in shape]).map(list)
    outside = st.tuples(st.sampled_from(["y-", "x-", "y+", "x+", "y++", "x++",
        "yfloat", "xfloat", "yNone", "xstr", "both"])).map(lambda t: t[0])
    integer = st.sampled_from(sorted(INTS))
    op = st.one_of(
        st.tuples(st.just("store"), index, st.integers(0, 9999),
                  st.integers(0, 6), integer),
        st.tuples(st.just("store"), index, st.integers(0, 9999),
                  st.integers(0, 6), integer),
        st.tuples(st.just("again"), st.integers(0, 99), st.integers(0, 9999),
                  st.sampled_from(["fy", "radius", "both"])),
        st.tuples(st.just("wrong"), index, st.sampled_from(WRONG),
                  st.integers(0, 9999)),
        st.tuples(st.just("outside"), index, outside, st.integers(0, 9999)),
        st.tuples(st.just("get"), index, integer),
        st.tuples(st.just("reload")),
        st.tuples(st.just("print")))
    before = draw(st.lists(op, max_size=14))
    after = draw(st.lists(op, max_size=5))
    return dict(shape=shape,
                ops=[list(o) for o in before],
                extend=draw(st.booleans()),
                after=[list(o) for o in after],
                origin=draw(st.sampled_from([0, 0, 0.5])))


def equal(a, b):
    return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
            and a.dtype == b.dtype and a.shape == b.shape
            and np.array_equal(a, b, equal_nan=True))


def typed(value, integer):
    if integer == "int8" and value > 127:
        integer = "int64"
    return INTS[integer](value)


class Model:
    def __init__(self, shape):
        self.shape = shape
        self.stored = {}
        self.extended = False

    def size(self):
        return [2 * n - 1 if self.extended else n for n in self.shape]

    def expected(self, y, x, off=0):
        """The values of a pair, None without; off: the known finding."""
        if self.extended:
            y = abs(y - (self.shape[0] - 1 + off))
            x = abs(x - (self.shape[1] - 1 + off))
        return self.stored.get((y, x))


def agree(got, expected):
    if expected is None or got is None:
        return got is expected
    return len(got) == 2 and all(equal(a, b) for a, b in zip(got, expected))


def lookup(d, model, y, x, integer, ctx):
    try:
        got = d.get_diagnostic(typed(y, integer), typed(x, integer))
        require(isinstance(got, tuple) and len(got) == 2,
                f"get_diagnostic returns a {type(got).__name__}")
    except (KeyError, LookupError):
        got = None
    expected = model.expected(y, x)
    if agree(got, expected):
        # so does what was read
        for a in got or ():
            a[:] = 3
        return
    if model.extended and agree(got, model.expected(y, x, off=1)):
        ctx.known(KNOWN)
        return
    what = "no values" if expected is None else "other values or none"
    require(False, f"({y}, {x}) gives "
            + ("nothing" if got is None else "values")
            + (", but nothing was stored for it" if expected is None
               else f", not the values stored for it ({what})"))


def invalid(kind, y, x, size):
    return {"y-": (-1, x), "x-": (y, -1), "y+": (size[0], x),
            "x+": (y, size[1]), "y++": (size[0] + 7, x),
            "x++": (y, 10 ** 6), "yfloat": (float(y), x),
            "xfloat": (y, np.float64(x)), "yNone": (None, x),
            "xstr": (y, str(x)), "both": (-1, size[1])}[kind]


def run_op(d, model, op, ctx, state):
    name = op[0]
    size = model.size()
    if name == "store":
        _, (y, x), seed, n, integer = op
        fy, radius = values(seed, n)
        y, x = y % model.shape[0], x % model.shape[1]
        args = (typed(y, integer), typed(x, integer), fy, radius)
        if model.extended:
            expect_error((RuntimeError,), d.save_diagnostic, *args)
            ctx.label("store refused after extension")
        else:
            d.save_diagnostic(*args)
            state["twice"] += (y, x) in model.stored
            model.stored[y, x] = (fy.copy(), radius.copy())
            # what was handed over belongs to the caller
            fy[:] = -1
            radius[::2] = 7
    elif name == "again":
        _, number, seed, kept = op
        if model.extended or not model.stored:
            return d
        # a pair that has values gets others, in part
        pair = sorted(model.stored)[number % len(model.stored)]
        old = model.stored[pair]
        fy, radius = values(seed, len(old[0]))
        if kept != "radius":
            fy = old[0].copy()
        if kept != "fy":
            radius = old[1].copy()
        d.save_diagnostic(*pair, fy, radius)
        state["twice"] += 1
        model.stored[pair] = (fy.copy(), radius.copy())
        fy[:] = -1
    elif name == "wrong":
        _, (y, x), kind, seed = op
        fy, radius = values(seed, 4)
        bad = {"shape": radius[:3], "two": radius.reshape(2, 2),
               "none": None, "list": list(radius), "int": np.arange(4),
               "float32": radius.astype("float32"), "scalar": 1.0,
               "swap": radius.reshape(4, 1), "text": "values"}[kind]
        pair = (fy, bad) if seed % 2 else (bad, radius)
        ex = expect_error(Exception, d.save_diagnostic, y, x, *pair)
        require(in_repo(ex.__traceback__), "not rejected by the validation")
        state["rejected"] += 1
    elif name == "outside":
        _, (y, x), kind, seed = op
        bad = invalid(kind, y, x, size)
        kinds = (ValueError,) if kind[-1] in "+-" or kind == "both" else (
            TypeError,)
        expect_error(kinds, d.get_diagnostic, *bad)
        if model.extended:
            kinds += (RuntimeError,)
        expect_error(kinds, d.save_diagnostic, *bad, *values(seed, 3))
        state["rejected"] += 1
    elif name == "get":
        _, (y, x), integer = op
        lookup(d, model, y % size[0], x % size[1], integer, ctx)
    elif name == "print":
        require(f"diagnostics saved: {len(model.stored)}" in str(d).split(
            "\n"), lambda: f"the summary does not state {len(model.stored)} "
            f"stored diagnostics: {str(d)!r}")
    elif name == "reload":
        if os.path.exists("kept"):
            shutil.rmtree("kept")
        d.save("kept")
        d = GridDiagnostics.load("kept")
        ctx.label("reloaded")
    return d


def check(case, ctx):
    ny, nx = case["shape"]
    low = case["origin"]
    d = GridDiagnostics(GridParameters(low, 3, nx, low, 3, ny, 2, 2))
    model = Model(case["shape"])
    state = dict(twice=0, rejected=0)
    for op in case["ops"]:
        d = run_op(d, model, op, ctx, state)
    if case["extend"]:
        d.extend()
        model.extended = True
    for op in case["after"]:
        d = run_op(d, model, op, ctx, state)
    if case["extend"] and len(case["after"]) % 2:
        d.extend()
    size = model.size()
    for y in range(size[0]):
        for x in range(size[1]):
            lookup(d, model, y, x, "int", ctx)
    for y, x in ((-1, 0), (0, -1), (size[0], 0), (0, size[1])):
        expect_error((ValueError,), d.get_diagnostic, y, x)
    ctx.nontrivial(len(model.stored) > 1 and (state["twice"]
                                              or state["rejected"]))
    ctx.label("extended", model.extended)


@st.composite
def strategy_grid(draw):
    return dict(spec=draw(world.small_specs(max_count=4)))


def belongs(got, dy, dx, line, middle):
    """Why diagnostics can not be those of the centre (dx, dy); None if they
    can."""
    fy, radii = got
    if fy.shape != radii.shape or fy.ndim != 1:
        return "have different shapes"
    smallest = grids.smallest_radius(dx, dy)
    ok = np.isfinite(radii)
    if not (radii[ok] >= smallest * (1 - 1e-9)).all():
        return "contain a disk that is smaller than possible"
    for part in (line[:middle + 1], line[middle:]):
        part = part[np.isfinite(part)]
        if part.size and not (part.min() >= fy[np.isfinite(fy)].min() - 1e-9
                              and part.max() <= fy[np.isfinite(fy)].max()
                              + 1e-9):
            return "do not span the fy values of the grid"
    if dy != 0:
        fx = grids.fx_of_fy(dy, fy)
        ok &= np.isfinite(fx) & (fx < 1e3) & (fy < 1e3)
        expected = grids.disk_from_stretch(dx, dy, fx, fy)[0]
        # where a small difference of fy does not change the disk
        near = grids.disk_from_stretch(dx, dy, grids.fx_of_fy(
            dy, fy * (1 + 1e-10)), fy * (1 + 1e-10))[0]
        ok &= np.abs(near - expected) < 1e-6 * expected
        if not (np.abs(radii - expected)[ok] < 1e-5 * expected[ok]).all():
            return "contain disk radii that do not belong to their fy"
    return None


def check_grid(case, ctx):
    """The diagnostics of a grid are those of its points."""
    grid = grids.build(case["spec"], keep_diagnostics=True)
    radius = grids.raw(grid, "disk_radius")
    fy_map = grids.raw(grid, "fy_map")
    dx, dy, rf = grids.vectors(case["spec"])
    require(radius.shape == (len(dy), len(dx), len(rf)), "wrong shape")
    middle = len(rf) // 2
    count = 0
    for y in range(len(dy)):
        for x in range(len(dx)):
            try:
                got = grid.diagnostics.get_diagnostic(y, x)
            except KeyError:
                got = None

            def wrong(y, x):
                if not (0 <= y < len(dy) and 0 <= x < len(dx)):
                    # no point of the grid: nothing can be stored for it
                    return None if got is None else "belong to no point"
                has = np.isfinite(radius[y, x]).any()
                if has != (got is not None):
                    return "are missing" if has else "should not exist"
                return None if got is None else belongs(
                    got, abs(dy[y]) if q1 else dy[y],
                    abs(dx[x]) if q1 else dx[x], fy_map[y, x], middle)

            q1 = grids.is_q1(case["spec"])
            why = wrong(y, x)
            count += got is not None
            if why is None:
                continue
            ny, nx = case["spec"]["y"][2], case["spec"]["x"][2]
            if q1 and wrong(abs(y - ny) + ny - 1,
                            abs(x - nx) + nx - 1) is None:
                ctx.known(KNOWN)
                continue
            require(False, f"the diagnostics of {(y, x)} {why}")
    ctx.nontrivial(count > 2)


SUBS = [Sub("history", strategy, check, 1000, 20000, thorough_shards=4),
        Sub("grid", strategy_grid, check_grid, 80, 1500, thorough_shards=2)]
