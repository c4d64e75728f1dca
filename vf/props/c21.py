"""C21: a ring system stays ordered, free of overlap and uniform."""
import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, expect_error, require
from Ring import Ring
from RingSystem import RingSystem

LEVEL = "exploration"
RULE = ("A case is a ring system with up to five rings and a history of up "
        "to 20 additions, replacements, removals, splits and merges (fitting, touching, "
        "overlapping, at valid and invalid indices; ring objects may be used "
        "again or be part of another system) against a list. "
        "Non-trivial with at least two accepted and one rejected change.")
ASSUMPTIONS = ["the constructor is given rings in order and without overlap "
               "(it does not compare them)",
               "the rings of a system are not assigned to directly"]

QUIET = 50
# radii are multiples of 1/8, so that rings touch exactly
EIGHTH = 0.125


@st.composite
def systems(draw, max_rings=5, min_rings=0, units=(EIGHTH,)):
    n = draw(grids.seldom(st.integers(min_rings, max_rings),
                          st.integers(9, 13)))
    unit = draw(st.sampled_from(units))
    edge = draw(st.integers(0, 16))
    rings = []
    for _ in range(n):
        edge += draw(st.sampled_from([0, 0, 1, 3, 8]))
        width = draw(st.sampled_from([1, 2, 5, 12]))
        rings.append([edge * unit, (edge + width) * unit,
                      draw(st.integers(0, 8)) / 8])
        edge += width
    return dict(planet=draw(st.sampled_from([0, 0.5, 1, 10.0])), rings=rings,
                inclination=draw(st.sampled_from([0, 90, 30.0, 74.5, 0.0])),
                tilt=draw(st.sampled_from([0, -180, 180.0, 37, -12.5])))


def build(s, level=QUIET):
    rings = np.array(s["rings"], float).reshape(-1, 3)
    return RingSystem(s["planet"], rings[:, 0].copy(), rings[:, 1].copy(),
                      rings[:, 2].copy(), s["inclination"], s["tilt"], level)


@st.composite
def strategy(draw):
    system = draw(systems(units=(EIGHTH, EIGHTH, 0.1, 1 / 3, 0.7)))
    op = st.one_of(
        st.tuples(st.just("split"), st.integers(2, 7)),
        st.tuples(st.just("merge"), st.sampled_from([0, 1e-6, 0.2])),
        st.tuples(st.just("itself"), st.integers(0, 60)),
        # a ring for a gap: which gap, where in it, from and to
        st.tuples(st.sampled_from(["add", "add", "replace"]),
                  st.integers(0, 12),
                  st.sampled_from(["fit", "fill", "touch low", "touch high",
                                   "over low", "over high", "cover", "inside",
                                   "same", "far"]),
                  st.integers(0, 8), st.integers(0, 6)),
        st.tuples(st.just("remove"), st.integers(0, 12)),
        st.tuples(st.just("share"), st.sampled_from(["given", "part"]),
                  st.integers(0, 12), st.sampled_from([0, 45, 90]),
                  st.sampled_from([-180, 0, 12.5])),
        st.tuples(st.just("reuse"), st.integers(0, 12), st.integers(0, 8)),
        st.tuples(st.just("bad index"),
                  st.sampled_from(["add", "replace", "remove"]),
                  st.sampled_from(["-1", "size", "size+1", "float", "none",
                                   "str", "far", "-size"])),
        st.tuples(st.just("bad ring"), st.sampled_from(["add", "replace"]),
                  st.sampled_from(["none", "tuple", "array", "str", "system"]),
                  st.integers(0, 12)))
    return dict(system=system,
                ops=[list(o) for o in draw(st.lists(op, max_size=20))],
                integer=draw(st.sampled_from(["int", "int64", "int32"])))


INTS = {"int": int, "int64": np.int64, "int32": np.int32}


def new_ring(model, kind, index, where, number, replace):
    """Radii of a ring for a place in the list."""
    low = model[index - 1][1] if index > 0 else 0.0
    after = index + 1 if replace else index
    high = model[after][0] if after < len(model) else low + 4.0
    gap = high - low
    if kind == "far":
        return 1000.0 + number, 1001.0 + number
    if kind == "same" and model:
        return tuple(model[where % len(model)][:2])
    if kind == "fill" and gap > 0:
        return low, high
    if kind == "fit" and gap > 0:
        return low + gap / 4, high - gap / 4
    if kind == "touch low" and gap > 0:
        return low, low + gap / 2
    if kind == "touch high" and gap > 0:
        return high - gap / 2, high
    if kind == "over low":
        return max(low - 2.0 ** -(3 + where * 5), 0.0), (
            low + gap / 2 if gap > 0 else low + EIGHTH)
    if kind == "over high":
        return (high - gap / 2 if gap > 0 else max(high - EIGHTH, 0.0),
                high + 2.0 ** -(3 + where * 5))
    if kind == "cover":
        return max(low - 1, 0.0), high + 1
    if kind == "inside":
        return low, low + EIGHTH
    return low, low + EIGHTH


def valid(model, index, ring, replace):
    before = model[:index]
    after = model[index + 1:] if replace else model[index:]
    return ((not before or before[-1][1] <= ring[0])
            and (not after or ring[1] <= after[0][0]))


def agree(system, model, s, what):
    inner, outer, transmission = system.get_rings_data()
    n = len(model)
    require(inner.shape == outer.shape == transmission.shape == (n,)
            and system.get_num_rings() == n and len(system.rings) == n,
            f"{what}: {len(inner)} rings instead of {n}")
    expected = np.array(model, float).reshape(-1, 3)
    for values, column, name in ((inner, 0, "inner radii"),
                                 (outer, 1, "outer radii"),
                                 (transmission, 2, "transmissions")):
        require(np.array_equal(values, expected[:, column]),
                f"{what}: the {name} are {values}, not {expected[:, column]}")
    for a, b in ((system.get_inner_radii(), inner),
                 (system.get_outer_radii(), outer),
                 (system.get_transmissions(), transmission)):
        require(np.array_equal(a, b), f"{what}: the getters do not agree")
    require((outer[:-1] <= inner[1:]).all() and (inner < outer).all(),
            f"{what}: rings overlap or are not in order")
    for ring in system.rings:
        require(ring.inclination == s["inclination"]
                and ring.tilt == s["tilt"],
                f"{what}: a ring has another inclination or tilt")
    require(system.planet_radius == s["planet"]
            and system.inclination == s["inclination"]
            and system.tilt == s["tilt"], f"{what}: the geometry changed")


def rings_of(system):
    return [[float(v) for v in ring]
            for ring in np.transpose(system.get_rings_data())]


def values(ring):
    return (ring.inner_radius, ring.outer_radius, ring.transmission,
            ring.inclination, ring.tilt)


def check(case, ctx):
    s = case["system"]
    integer = INTS[case["integer"]]
    system = build(s)
    model = [[r[0] or 1e-16, r[1], r[2]] for r in s["rings"]]
    agree(system, model, s, "new system")
    accepted = rejected = 0
    given = []
    for k, op in enumerate(case["ops"]):
        what = f"after step {k} ({' '.join(map(str, op))})"
        name = op[0]
        n = len(model)
        if name in ("add", "replace"):
            replace = name == "replace"
            if replace and n == 0:
                expect_error((ValueError,), system.replace_ring, 0,
                             Ring(1, 2, 0.5))
                rejected += 1
                continue
            index = op[1] % (n if replace else n + 1)
            radii = new_ring(model, op[2], index, op[3], op[4], replace)
            if not max(radii[0], 1e-15) < radii[1]:
                continue
            # some of the rings have the geometry of the system already
            geometry = ((s["inclination"], s["tilt"]) if op[4] % 3 == 0 else
                        (op[3] * 10, op[4] * 25 - 20))
            ring = Ring(*radii, op[4] / 8, *geometry)
            radii = ring.inner_radius, ring.outer_radius
            before = values(ring)
            fn = system.replace_ring if replace else system.add_ring
            if valid(model, index, radii, replace):
                fn(integer(index), ring)
                entry = [*radii, op[4] / 8]
                if replace:
                    model[index] = entry
                else:
                    model.insert(index, entry)
                accepted += 1
                given.append(ring)
                ctx.label(f"{name} accepted")
            else:
                expect_error((ValueError,), fn, integer(index), ring)
                require(values(ring) == before,
                        f"{what}: the rejected ring was changed")
                rejected += 1
                ctx.label(f"{name} rejected")
        elif name == "share":
            # a ring of this system becomes part of another one as well
            source = given if op[1] == "given" else list(system.rings)
            if not source:
                continue
            other = dict(planet=1, rings=[], inclination=op[3], tilt=op[4])
            second = build(other)
            ring = source[op[2] % len(source)]
            second.add_ring(0, ring)
            if op[1] != "given":
                agree(second, [model[op[2] % n]], other, f"{what}, elsewhere")
            ctx.label("ring in two systems")
        elif name == "reuse":
            # the ring object is used again for the next ring
            if not given:
                continue
            ring = given[op[1] % len(given)]
            low = max([m[1] for m in model] + [ring.outer_radius])
            ring.outer_radius = low + 2 * EIGHTH
            ring.inner_radius = low + EIGHTH
            ring.transmission = op[2] / 8
            agree(system, model, s, f"{what}, before adding it")
            system.add_ring(integer(n), ring)
            model.append([low + EIGHTH, low + 2 * EIGHTH, op[2] / 8])
            accepted += 1
            ctx.label("ring object used again")
        elif name == "split":
            if 0 < n * op[1] < 80:
                system.split_rings(op[1])
                model = rings_of(system)
                require(len(model) == n * op[1],
                        f"{what}: {len(model)} ringlets")
                accepted += 1
                ctx.label("split")
        elif name == "merge":
            system.merge_rings(op[1])
            model = rings_of(system)
            require(len(model) <= n, f"{what}: {len(model)} rings of {n}")
            ctx.label("merge")
        elif name == "itself":
            # a ring always fits where it already is
            if n:
                index = op[1] % n
                system.replace_ring(integer(index), Ring(*model[index]))
                ctx.label("ring replaced by itself")
        elif name == "remove":
            if n == 0:
                expect_error((ValueError,), system.remove_ring, 0)
                rejected += 1
                continue
            system.remove_ring(integer(op[1] % n))
            model.pop(op[1] % n)
            accepted += 1
        elif name == "bad index":
            bad = {"-1": -1, "size": n + (op[1] == "add"), "size+1": n + 2,
                   "float": 0.0, "none": None, "str": "0", "far": 10 ** 6,
                   "-size": -n - 1}[op[2]]
            ring = Ring(1000, 1001, 0.5, 11, 22)
            args = (bad,) if op[1] == "remove" else (bad, ring)
            kinds = (TypeError,) if op[2] in ("float", "none", "str") else (
                ValueError,)
            if n == 0:
                kinds = (TypeError, ValueError)
            expect_error(kinds, getattr(system, f"{op[1]}_ring"), *args)
            require(values(ring) == (1000, 1001, 0.5, 11, 22),
                    f"{what}: the rejected ring was changed")
            rejected += 1
        elif name == "bad ring":
            bad = {"none": None, "tuple": (1000, 1001, 0.5),
                   "array": np.array([1000, 1001, 0.5]), "str": "ring",
                   "system": system}[op[2]]
            if op[1] == "replace" and n == 0:
                continue
            index = op[3] % (n if op[1] == "replace" else n + 1)
            expect_error((TypeError,), getattr(system, f"{op[1]}_ring"),
                         index, bad)
            rejected += 1
        agree(system, model, s, what)
    ctx.nontrivial(accepted > 1 and rejected > 0)


@st.composite
def strategy_invalid(draw):
    return dict(system=draw(systems(min_rings=1)),
                fault=draw(st.sampled_from(FAULTS)),
                k=draw(st.integers(0, 20)))


FAULTS = ["planet negative", "planet str", "inclination high",
          "inclination low", "tilt high", "tilt low", "tilt none", "lengths",
          "transmissions short", "list", "2-D", "transmission high",
          "transmission low", "transmission nan", "inner negative",
          "inner nan", "reversed", "zero width", "integers", "logging"]


def check_invalid(case, ctx):
    s, fault, k = case["system"], case["fault"], case["k"]
    rings = np.array(s["rings"], float)
    inner, outer, transmission = rings.T.copy()
    k %= len(inner)
    args = dict(planet_radius=s["planet"], inner_radii=inner,
                outer_radii=outer, transmissions=transmission,
                inclination=s["inclination"], tilt=s["tilt"],
                logging_level=QUIET)
    name, _, how = fault.partition(" ")
    if name == "planet":
        args["planet_radius"] = {"negative": -0.1, "str": "1"}[how]
    elif name == "inclination":
        args["inclination"] = {"high": 90.001, "low": -0.001}[how]
    elif name == "tilt":
        args["tilt"] = {"high": 180.001, "low": -180.001, "none": None}[how]
    elif fault == "lengths":
        args["inner_radii"] = np.append(inner, inner[-1:])
    elif fault == "transmissions short":
        args["transmissions"] = transmission[:-1]
    elif fault == "list":
        args["outer_radii"] = outer.tolist()
    elif fault == "2-D":
        args["inner_radii"] = inner[None]
    elif name == "transmission":
        transmission[k] = {"high": 1.001, "low": -0.001,
                           "nan": np.nan}[how]
    elif name == "inner":
        inner[k] = {"negative": -0.5, "nan": np.nan}[how]
    elif fault == "reversed":
        inner[k], outer[k] = outer[k], inner[k]
    elif fault == "zero width":
        inner[k] = outer[k]
    elif fault == "integers":
        args["outer_radii"] = np.ceil(outer + 1).astype(int)
    elif fault == "logging":
        args["logging_level"] = "info"
    expect_error(Exception, RingSystem, **args)
    ctx.nontrivial()


def every_fault():
    s = dict(planet=1, rings=[[1.0, 2.0, 0.5], [2.0, 3.0, 0.25],
                              [3.5, 4.0, 0.75]], inclination=30, tilt=-20)
    for fault in FAULTS:
        for k in range(3):
            yield dict(system=s, fault=fault, k=k)


SUBS = [Sub("history", strategy, check, 1200, 25000, thorough_shards=4),
        Sub("invalid", strategy_invalid, check_invalid, 200, 2000,
            enumerate_cases=every_fault)]
