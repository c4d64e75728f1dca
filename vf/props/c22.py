"""C22: splitting and merging rings preserve the transmission profile."""
import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, expect_error, require
from Ring import Ring
from props.c21 import QUIET, build
from RingSystem import RingSystem

LEVEL = "exploration"
RULE = ("A case is a ring system (touching rings, gaps around the tolerance, "
        "equal and different transmissions) and a history of up to 6 splits, "
        "merges and rejected splits; structure and transmission profile are "
        "compared with a list after every step. Non-trivial when at least one "
        "merge joins rings or one split divides at least two rings.")
ASSUMPTIONS = ["edges of ringlets may differ by rounding, but not overlap",
               "gaps that equal the tolerance up to rounding are not decided",
               "rings are wide enough to be divided"]

TOLERANCES = [None, 1e-6, 0.0, 1e-9, 0.1, 0.5, 2]


@st.composite
def systems(draw, max_rings=6):
    n = draw(grids.seldom(st.integers(0, max_rings), st.integers(9, 13)))
    edge = draw(st.sampled_from([0, 0.5, 0.1, 3.7, 100.3]))
    few = draw(st.booleans())
    rings = []
    for k in range(n):
        gap = draw(st.sampled_from([0, 0, 0, 0, 5e-7, 2e-6, 5e-10, 0.05, 0.3,
                                    1.0, 3.0]))
        width = draw(st.sampled_from([0.01, 0.1, 0.7, 1.0, 3.3, 10.0]))
        low = edge if gap == 0 else edge + gap
        t = draw(st.sampled_from([0.0, 0.25] if few else
                                 [0.0, 0.3, 0.3 + 1e-9, 1.0]))
        rings.append([low, low + width, t])
        edge = low + width
    return dict(planet=1.0, rings=rings,
                inclination=draw(st.sampled_from([0, 74.5, 90])),
                tilt=draw(st.sampled_from([0, -180, 33.3])))


BAD = ["zero", "one", "negative", "float", "str", "none", "zeros", "short",
       "long", "2-D", "floats", "int32", "list", "negative element"]


@st.composite
def strategy(draw):
    merge = st.tuples(st.just("merge"), st.integers(0, 6))
    op = st.one_of(
        merge,
        st.tuples(st.just("split"), grids.seldom(
            st.integers(2, 7), st.sampled_from([100, 127, 128, 130, 200,
                                                255, 256, 257])),
                  st.sampled_from(["int", "int64", "int8"])),
        st.tuples(st.just("split each"),
                  st.lists(st.integers(1, 6), min_size=40, max_size=40)
                  .map(lambda v: v[:7])),
        st.tuples(st.just("bad split"), st.sampled_from(BAD)),
        st.tuples(st.just("both"), st.integers(0, 4), st.integers(2, 6)))
    return dict(system=draw(systems()),
                ops=[list(o) for o in draw(st.lists(op, min_size=1,
                                                    max_size=6))])


def read(system):
    inner, outer, transmission = system.get_rings_data()
    require(inner.shape == outer.shape == transmission.shape
            and len(inner) == system.get_num_rings(),
            "the rings data have different lengths")
    return np.stack((inner, outer, transmission), 1)


def profile(rings, r):
    out = np.ones(len(r))
    for inner, outer, t in rings:
        out[(r > inner) & (r < outer)] = t
    return out


def same_profile(a, b, tolerance, what):
    """Equal transmission between all edges, except in gaps that a merge
    within the tolerance may close."""
    edges = np.unique(np.concatenate((a[:, :2].ravel(), b[:, :2].ravel())))
    if len(edges) == 0:
        return
    middle = (edges[1:] + edges[:-1]) / 2
    width = edges[1:] - edges[:-1]
    middle = middle[width > 1e-11 * (1 + middle)]
    middle = np.append(middle, [edges[0] / 2, edges[-1] + 1])
    gap = np.zeros(len(middle), bool)
    for (_, low, t), (high, _, u) in zip(a[:-1], a[1:]):
        if t == u and high - low <= tolerance * (1 + 1e-9):
            gap |= (middle > low) & (middle < high)
    p, q = profile(a, middle), profile(b, middle)
    bad = (p != q) & ~gap
    require(not bad.any(), lambda: f"{what}: the transmission at r = "
            f"{middle[bad][0]} is {q[bad][0]} instead of {p[bad][0]}")


def merged(rings, tolerance):
    """Groups of rings that are joined; None where rounding decides."""
    groups = []
    for k, (low, high, t) in enumerate(rings):
        if groups:
            gap = low - rings[k - 1][1]
            if abs(gap - tolerance) < 1e-12 * (1 + high) and gap != tolerance:
                return None
            if abs(gap) <= tolerance and t == rings[k - 1][2]:
                groups[-1][1] = high
                continue
        groups.append([low, high, t])
    return np.array(groups, float).reshape(-1, 3)


def uniform(system, s, what):
    for ring in system.rings:
        require(isinstance(ring, Ring) and ring.inclination
                == s["inclination"] and ring.tilt == s["tilt"],
                f"{what}: a ring has another inclination or tilt")


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12)


def check_split(system, divisions, argument, what):
    before = read(system)
    original = argument.copy() if isinstance(argument, np.ndarray) else None
    system.split_rings(argument)
    require(original is None or np.array_equal(original, argument),
            f"{what}: the divisions were changed")
    after = read(system)
    require(len(after) == int(np.sum(divisions)),
            f"{what}: {len(after)} ringlets instead of {np.sum(divisions)}")
    require((after[:-1, 1] <= after[1:, 0]).all(),
            lambda: f"{what}: ringlets overlap: {after.tolist()}")
    k = 0
    for (low, high, t), n in zip(before, divisions):
        part = after[k:k + n]
        k += n
        edges = low + (high - low) * np.arange(n + 1) / n
        small = 1e-12 * (1 + high)
        require((np.abs(part[:, 0] - edges[:-1]) < small).all()
                and (np.abs(part[:, 1] - edges[1:]) < small).all(),
                lambda: f"{what}: the ring from {low} to {high} is divided "
                f"into {part[:, :2].tolist()}")
        require((part[:, 2] == t).all(),
                f"{what}: ringlets have another transmission")
    same_profile(before, after, 0.0, what)


def check_merge(system, tolerance, what):
    """Number of rings that were joined."""
    before = read(system)
    limit = 1e-6 if tolerance is None else tolerance
    expected = merged(before, limit)
    args = () if tolerance is None else (tolerance,)
    system.merge_rings(*args)
    after = read(system)
    same_profile(before, after, limit, what)
    if expected is not None:
        require(close(after, expected),
                lambda: f"{what}: merged to {after.tolist()} instead of "
                f"{expected.tolist()}")
    system.merge_rings(*args)
    require(np.array_equal(read(system), after),
            f"{what}: merging twice differs from merging once")
    return len(before) - len(after)


def bad_divisions(kind, n):
    return {"zero": 0, "one": 1, "negative": -2, "float": 2.0, "str": "2",
            "none": None, "zeros": np.zeros(n, int),
            "short": np.full(max(n - 1, 0), 2), "long": np.full(n + 1, 2),
            "2-D": np.full((1, n), 2), "floats": np.full(n, 2.0),
            "int32": np.full(n, 2, "int32"), "list": [2] * n,
            "negative element": np.append(np.full(n - 1, 2), -1)}[kind]


def check(case, ctx):
    s = case["system"]
    system = build(s)
    joined = 0
    divided = False
    for k, op in enumerate(case["ops"]):
        what = f"after step {k} ({op[0]})"
        n = system.get_num_rings()
        if op[0] == "merge":
            joined += check_merge(system, TOLERANCES[op[1]], what)
        elif op[0] == "split" and n <= 40:
            if op[1] > 100 and n > 6:
                continue
            kind = "int64" if op[1] > 127 and op[2] == "int8" else op[2]
            number = {"int": int, "int64": np.int64,
                      "int8": np.int8}[kind](op[1])
            check_split(system, [op[1]] * n, number, what)
            divided |= n > 1
        elif op[0] == "split each" and n <= 40:
            divisions = (op[1] * 6)[:n]
            check_split(system, divisions, np.array(divisions, "int64"), what)
            divided |= sum(d > 1 for d in divisions) > 1
        elif op[0] == "bad split":
            if n == 0:
                continue
            before = read(system)
            expect_error(Exception, system.split_rings,
                         bad_divisions(op[1], n))
            require(np.array_equal(before, read(system)),
                    f"{what}: a rejected split changed the rings")
            ctx.label("split rejected")
        elif op[0] == "both" and n <= 40:
            tolerance = [1e-6, None, 1e-9, 0.1, 0.5][op[1]]
            alone, both = copy(system, s), copy(system, s)
            start = read(system)
            args = () if tolerance is None else (tolerance,)
            alone.merge_rings(*args)
            both.split_rings(op[2])
            both.merge_rings(*args)
            if merged(start, 1e-6 if tolerance is None else tolerance) \
                    is not None:
                require(close(read(alone), read(both)),
                        f"{what}: merging after splitting differs from "
                        "merging alone")
            uniform(both, s, what)
        uniform(system, s, what)
        require(system.planet_radius == s["planet"],
                f"{what}: the planet changed")
    ctx.nontrivial(joined > 0 or divided)
    ctx.label("rings joined", joined)


def copy(system, s):
    inner, outer, transmission = system.get_rings_data()
    return RingSystem(s["planet"], inner, outer, transmission,
                      s["inclination"], s["tilt"], QUIET)


SUBS = [Sub("history", strategy, check, 1500, 30000, thorough_shards=4)]
