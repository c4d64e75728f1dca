"""C28: objects share nothing with each other, their arguments or results."""
import shutil
import os
import weakref

import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit
from props.c21 import QUIET
from Ring import Ring
from RingSystem import RingSystem
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("grids: two grids of the same parameters, or one and its loaded copy, "
        "and a history of up to 12 changes and reads of either; all arrays "
        "that were passed or read are overwritten at once or later. parts: "
        "the same with properties, gradients, diagnostics and ring systems. "
        "After every step everything that can be read of the other objects, "
        "and what was read before, has to be the same. In the end each grid "
        "has to be what the same changes make of a grid that is alone. "
        "Non-trivial when both objects were changed and something was "
        "overwritten.")
ASSUMPTIONS = ["attributes are not assigned to from outside"]

READS = ["cube", "masked cube", "gradients", "combined mask", "fit",
         "solutions", "point", "vectors", "diagnostic", "closest", "print",
         "save"]


@st.composite
def strategy_grids(draw):
    which = st.integers(0, 1)
    number = st.integers(0, 10 ** 6)
    small = world.measurements(max_size=2, fractions=st.integers(
        0, 300).map(lambda k: k / 1000))
    first = draw(small)
    op = st.one_of(
        st.tuples(st.just("add"), which, small | st.just(first)),
        # what is kept for one grid is looked up by the other
        st.tuples(st.just("both"), st.just(first), world.eclipses()),
        st.tuples(st.just("eclipse"), which, world.eclipses()),
        st.tuples(st.just("remove"), which, number),
        st.tuples(st.just("scale"), which, number),
        st.tuples(st.just("hill"), which, st.integers(5, 300)),
        st.tuples(st.just("mask"), which, number),
        st.tuples(st.just("passed mask"), which, number),
        st.tuples(st.just("contrast"), which, number),
        st.tuples(st.just("fit"), which, st.booleans()),
        st.tuples(st.just("extend")),
        st.tuples(st.just("read"), which, st.sampled_from(READS), number,
                  st.booleans()),
        st.tuples(st.just("read"), which, st.sampled_from(READS), number,
                  st.booleans()),
        st.tuples(st.just("overwrite"), number))
    return dict(spec=draw(world.small_specs(max_count=2, min_values=True)),
                second=draw(st.sampled_from(["same", "same", "loaded",
                                             "finer"])),
                ops=[["eclipse", 0, draw(world.eclipses())],
                     ["add", 0, first]]
                + [p for o in draw(st.lists(op, min_size=3, max_size=12))
                   for p in ([["eclipse", 1, o[2]], ["add", 1, o[1]]]
                             if o[0] == "both" else [list(o)])])


def arrays(value):
    """All arrays in what a call returned or was given."""
    if isinstance(value, np.ndarray):
        return [value]
    if isinstance(value, dict):
        value = list(value.values())
    if isinstance(value, (tuple, list)):
        return [a for v in value for a in arrays(v)]
    return []


def overwrite(a):
    if a.flags.writeable and a.size:
        a[...] = (not a.flat[0]) if a.dtype == bool else -7


def snapshot(grid):
    out = world.snapshot(grid)
    for name in grids.CUBES[:3]:
        p = getattr(grid, name)
        out["contrast " + name] = np.array([p.vmin, p.vmax, p.color_map,
                                            p.num_colors], dtype=object)
    ny, nx, _ = grid.parameters.grid_shape
    for y in range(ny):
        for x in range(nx):
            try:
                out[f"diagnostics {y} {x}"] = np.array(
                    grid.diagnostics.get_diagnostic(y, x))
            except (KeyError, AttributeError):
                pass
    return out


def scalars(vectors):
    return {f"vector {k}": v for k, v in enumerate(vectors)}


class Pool:
    """Objects, what can be read of them, and arrays that were handed out."""

    def __init__(self, names, looks):
        self.names, self.looks = names, looks
        self.seen = [look() for look in looks]
        self.kept = []          # [array, copy, whose]

    def compare(self, what, but=()):
        for k, (name, look) in enumerate(zip(self.names, self.looks)):
            now = look()
            if k not in but:
                changed = world.differences(self.seen[k], now)
                require(not changed,
                        lambda: f"{what} changed {name}: {changed[:4]}")
            self.seen[k] = now
        for array, copy, origin in self.kept:
            require(world.same(array, copy), lambda: f"{what} changed what "
                    f"was {origin} before")

    def keep(self, values, origin):
        for a in arrays(values):
            self.kept.append([a, a.copy(), origin])

    def scribble(self, values, what):
        for a in arrays(values):
            overwrite(a)
            for entry in self.kept:
                if entry[0] is a:
                    entry[1] = a.copy()
        self.compare(f"modifying what was {what}")


# the eclipse parameters of each grid
ECLIPSES = weakref.WeakKeyDictionary()


def change(grid, other, op, case):
    """One change of a grid; returns the arrays that were passed. The other
    grid may be the mask that was taken from it."""
    name, number = op[0], op[2]
    have = len(grid.gradients or [])
    if name == "eclipse":
        grid.set_eclipse_parameters(*number)
        ECLIPSES[grid] = list(number)
        return []
    if name == "add":
        if grid not in ECLIPSES:
            return None
        eclipse = ECLIPSES[grid]
        times, gradients, errors, trans = world.light_curve(number, eclipse)
        args = [times, gradients] + ([errors, trans] if trans is not None
                                     else [errors] if errors is not None
                                     else [])
        copies = [None if a is None else a.copy() for a in args]
        grid.add_gradients(*args)
        require(all(world.same(a, b) for a, b in zip(args, copies)),
                "add_gradients changed its arguments")
        return args
    if name == "remove":
        if not have:
            return None
        indices = np.array([number % have, (number // 7) % have])
        copy = indices.copy()
        grid.remove_gradients(indices)
        require(np.array_equal(indices, copy),
                "remove_gradients changed its argument")
        return [indices]
    if name == "scale":
        if not have:
            return None
        old = np.array([g.transmission_change for g in grid.gradients])
        changes = old + (1 - old) * (number % 11) / 11
        copy = changes.copy()
        velocity = ECLIPSES[grid][1] * 1.25
        grid.update_gradient_scaling(velocity, None, changes)
        ECLIPSES[grid][1] = velocity
        require(np.array_equal(changes, copy),
                "update_gradient_scaling changed its argument")
        return [changes]
    if name == "hill":
        grid.generate_hill_radius_mask(number / 20)
        return []
    shape = grid.parameters.grid_shape
    if name == "mask":
        bits = ((np.arange(int(np.prod(shape))) * 2654435761 + number) >> 7
                ) % 4 == 0
        mask = bits.reshape(shape)
        # the same array for two properties
        for p in ((grid.tilt, grid.inclination) if number % 2 else
                  (grid.disk_radius,)):
            p.set_mask(mask)
        return [mask]
    if name == "passed mask":
        if isinstance(other, np.ndarray):
            mask = other.copy()
        else:
            mask = (other if number % 2 else grid).get_combined_mask()
        target = (grid.disk_radius, grid.inclination, grid.tilt)[number % 3]
        target.set_mask(mask)
        return [mask]
    if name == "contrast":
        grid.tilt.set_contrast_parameters(-1.0, float(number % 9), "bone", 5)
        return []
    if name == "fit":
        if not have:
            return None
        grid.determine_gradient_fit(number)
        return []
    raise ValueError(name)


def read(grid, kind, number):
    shape = grid.parameters.grid_shape
    index = [int(v) for v in np.unravel_index(number % int(np.prod(shape)),
                                              shape)]
    if kind in ("cube", "masked cube"):
        return getattr(grid, "get_" + grids.CUBES[number % 6])(
            kind != "cube", kind != "cube")
    if kind == "gradients":
        return grid.get_gradients(bool(number % 2), bool(number % 3)
                                  ) if grid.gradients else None
    if kind == "combined mask":
        return grid.get_combined_mask()
    if kind == "fit":
        return grid.get_gradient_fit(bool(number % 2))
    if kind == "solutions":
        return grid.extract_solutions() if grid.gradient_fit else None
    if kind == "point":
        return grid.get_grid_point_data(*index, bool(number % 2))
    if kind == "vectors":
        return grid.parameters.get_vectors()
    if kind == "diagnostic":
        try:
            return grid.diagnostics.get_diagnostic(index[0], index[1])
        except (KeyError, AttributeError):
            return None
    if kind == "closest":
        if grid.get_combined_mask().all():
            return None
        return grid.determine_closest_grid_point(1.0, 30.0, 10.0, 0.5)
    if kind == "print":
        return [repr(grid), str(grid)][:0]
    if kind == "save":
        if os.path.exists("copy"):
            shutil.rmtree("copy")
        grid.save("copy")
        return None


def check_grids(case, ctx):
    spec = case["spec"]
    for name in ("kept", "copy"):
        if os.path.exists(name):
            shutil.rmtree(name)
    p = grids.parameters(spec)
    vectors = {k: v.copy() for k, v in scalars(p.get_vectors()).items()}
    first = ShallotGrid(p, spec["nf"], QUIET, keep_diagnostics=True)
    if case["second"] == "loaded":
        first.save("kept")
        second = ShallotGrid.load("kept", QUIET)
    else:
        seen = snapshot(first)
        second = ShallotGrid(p, spec["nf"] * (2 if case["second"] == "finer"
                                              else 1), QUIET)
        changed = world.differences(seen, snapshot(first))
        require(not changed, f"building a second grid changed the first: "
                f"{changed}")
    require(not world.differences(vectors, scalars(p.get_vectors())),
            "building grids changed their parameters")
    pair = [first, second]
    pool = Pool(["the first grid", "the second grid", "the parameters"],
                [lambda: snapshot(first), lambda: snapshot(second),
                 lambda: scalars(p.get_vectors())])
    changed, overwritten, extended = set(), 0, False
    histories = [[], []]
    for k, op in enumerate(case["ops"]):
        what = f"step {k} ({op[0]})"
        if op[0] == "extend":
            if grids.is_q1(spec) and not extended:
                p.extend_grid()
                extended = True
                pool.compare(f"{what} of the parameters", but=(2,))
        elif op[0] == "read":
            got = read(pair[op[1]], op[2], op[3])
            pool.compare(f"{what}: {op[2]}")
            pool.keep(got, f"read ({op[2]})")
            if op[4]:
                pool.scribble(got, f"read ({op[2]})")
                overwritten += len(arrays(got)) > 0
        elif op[0] == "overwrite":
            if pool.kept:
                a = pool.kept[op[1] % len(pool.kept)]
                pool.scribble([a[0]], a[2])
                overwritten += 1
        else:
            passed = change(pair[op[1]], pair[1 - op[1]], op, case)
            if passed is None:
                continue
            histories[op[1]].append((op, passed[0].copy() if op[0] ==
                                     "passed mask" else None))
            pool.compare(f"{what} of the other grid", but=(op[1],))
            pool.scribble(passed, f"passed ({op[0]})")
            pool.keep(passed, f"passed ({op[0]})")
            overwritten += len(arrays(passed)) > 0
            changed.add(op[1])
            ctx.label(op[0])
    # each of them is what it would be without the other
    for k, (grid, history) in enumerate(zip(pair, histories)):
        alone = ShallotGrid(grids.parameters(spec), spec["nf"] * (
            2 if k and case["second"] == "finer" else 1), QUIET,
            keep_diagnostics=not k or case["second"] == "loaded")
        if k and case["second"] == "loaded":
            shutil.rmtree("kept", ignore_errors=True)
            alone.save("kept")
            alone = ShallotGrid.load("kept", QUIET)
        for op, mask in history:
            change(alone, mask, op, case)
        changes = world.differences(snapshot(alone), snapshot(grid))
        require(not changes, lambda: f"after {[op[0] for op, _ in history]} "
                f"the {'second' if k else 'first'} grid of the same "
                f"parameters differs from one without the other: "
                f"{changes[:4]}")
    ctx.nontrivial(len(changed) == 2 and overwritten)
    ctx.label("overwritten", overwritten)


# --------------------------------------------------------------------------
@st.composite
def strategy_parts(draw):
    number = st.integers(0, 10 ** 6)
    op = st.tuples(st.sampled_from(["mask", "mask", "measure", "contrast",
        "store", "get", "read", "vectors", "radii", "split", "merge", "add",
        "replace", "ring", "system", "property", "extend", "overwrite"]),
        number)
    return dict(shape=[draw(st.integers(1, 3)), draw(st.integers(1, 3)),
                       2 * draw(st.integers(1, 2)) - 1],
                corner=draw(st.booleans()),
                ops=[list(o) for o in draw(st.lists(op, min_size=4,
                                                    max_size=14))])


def look_property(p):
    out = dict(data=p.get_data(False), masked=p.get_data(True),
               contrast=np.array([p.vmin, p.vmax, p.color_map, p.num_colors],
                                 dtype=object))
    out.update(scalars(p.grid_parameters.get_vectors()))
    out["mask"] = None if p.mask is None else p.mask.copy()
    if isinstance(p, GridGradient):
        out["measured"] = np.array([p.position, p.measured_gradient,
            p.orbital_scale, p.transmission_change, p.measured_error],
            dtype=object)
    return out


def look_diagnostics(d, shape):
    out = {}
    for y in range(shape[0]):
        for x in range(shape[1]):
            try:
                out[f"{y} {x}"] = np.array(d.get_diagnostic(y, x))
            except KeyError:
                pass
    return out


def look_system(s):
    return dict(rings=np.array(s.get_rings_data()),
                angles=np.array([[r.inclination, r.tilt] for r in s.rings]),
                own=np.array([s.planet_radius, s.inclination, s.tilt]))


def look_ring(r):
    return dict(ring=np.array([r.inner_radius, r.outer_radius, r.transmission,
                               r.inclination, r.tilt]))


def check_parts(case, ctx):
    shape = tuple(case["shape"])
    # parameters that start at 0 can be extended
    corner = case["corner"]
    p = GridParameters(0 if corner else 0.5, 2, shape[1],
                       0 if corner else -1, 2, shape[0], 3,
                       (shape[2] + 1) // 2)
    extended = False
    rng = np.random.default_rng(len(case["ops"]))
    data = rng.random(shape)
    props = [GridProperty(GridPropertyName.TILT, GridPropertyUnit.DEGREE,
                          data, p),
             GridProperty(GridPropertyName.INCLINATION,
                          GridPropertyUnit.DEGREE, data, p),
             GridGradient(data, p, 0.5)]
    diagnostics = [GridDiagnostics(p), GridDiagnostics(p)]
    radii = [np.array([1.0, 3.0, 6.0]), np.array([2.0, 4.0, 6.5]),
             np.array([0.5, 0.5, 1.0])]
    systems = [RingSystem(1.0, *radii, 40, 10, QUIET),
               RingSystem(0.0, *radii, 80, -10, QUIET)]
    ring = Ring(10.0, 11.0, 0.5, 1, 2)
    names = (["property 0", "property 1", "gradient", "diagnostics 0",
              "diagnostics 1", "ring system 0", "ring system 1", "the ring",
              "the parameters"])
    looks = ([lambda q=q: look_property(q) for q in props]
             + [lambda q=q: look_diagnostics(q, shape) for q in diagnostics]
             + [lambda q=q: look_system(q) for q in systems]
             + [lambda: look_ring(ring), lambda: scalars(p.get_vectors())])
    pool = Pool(names, looks)
    pool.scribble([data] + radii, "passed to the constructors")
    changed = set()
    for k, (name, number) in enumerate(case["ops"]):
        what, passed, at = f"step {k} ({name})", [], ()
        if name == "mask":
            j = number % 3
            mask = (rng.random(shape) < 0.4)
            props[j].set_mask(mask)
            if number % 2:
                # the same array once more
                pool.compare(what, but=(j,))
                j = (j + 1) % 3
                props[j].set_mask(mask)
            passed, at = [mask], (j,)
        elif name == "measure":
            props[2].determine_mask((number % 100) / 100, 1.0, 1.0, 2.0)
            at = (2,)
        elif name == "contrast":
            j = number % 3
            props[j].set_contrast_parameters(0.0, (number % 9) / 3, "bone", 4)
            at = (j,)
        elif name == "store":
            j = number % 2
            passed = [rng.random(4), rng.random(4)]
            diagnostics[j].save_diagnostic(number % shape[0],
                                           number % shape[1], *passed)
            if number % 3 == 0:
                pool.compare(what, but=(3 + j,))
                j = 1 - j
                diagnostics[j].save_diagnostic(0, 0, *passed)
            at = (3 + j,)
        elif name == "get":
            try:
                got = diagnostics[number % 2].get_diagnostic(
                    number % shape[0], number % shape[1])
            except KeyError:
                continue
            pool.keep(got, "read (diagnostics)")
        elif name == "read":
            pool.keep(props[number % 3].get_data(number % 2 == 0),
                      "read (data)")
        elif name == "vectors":
            pool.keep(p.get_vectors(), "read (vectors)")
        elif name == "radii":
            s = systems[number % 2]
            pool.keep([s.get_inner_radii(), s.get_outer_radii(),
                       s.get_transmissions(), s.get_rings_data()],
                      "read (radii)")
        elif name == "split":
            s = systems[number % 2]
            if s.get_num_rings() > 40:
                continue
            divisions = np.array([1 + (number + j) % 2
                                  for j in range(s.get_num_rings())])
            copy = divisions.copy()
            s.split_rings(divisions)
            require(np.array_equal(copy, divisions),
                    "split_rings changed its argument")
            passed, at = [divisions], (5 + number % 2,)
        elif name == "merge":
            systems[number % 2].merge_rings()
            at = (5 + number % 2,)
        elif name in ("add", "replace"):
            s = systems[number % 2]
            n = s.get_num_rings()
            if ring.inner_radius < s.get_outer_radii()[
                    :n if name == "add" else n - 1].max(initial=0):
                continue
            (s.add_ring if name == "add" else s.replace_ring)(
                n if name == "add" else n - 1, ring)
            at = (5 + number % 2,)
        elif name == "ring":
            # the next ring lies outside all others
            low = max(ring.outer_radius, *(s.get_outer_radii().max()
                                           for s in systems))
            ring.outer_radius = low + 2.0 + number % 3
            ring.inner_radius = low + 1.0
            ring.transmission = (number % 5) / 4
            # every other one has the geometry of one of the systems already
            s = systems[number // 2 % 2]
            ring.inclination, ring.tilt = (
                (s.inclination, s.tilt) if number % 2
                else (1, number % 100 - 50))
            at = (7,)
        elif name == "system":
            # a ring of one system becomes part of the other
            a, b = systems[number % 2], systems[1 - number % 2]
            if a.rings[-1].inner_radius < b.get_outer_radii().max():
                continue
            b.add_ring(b.get_num_rings(), a.rings[-1])
            at = (6 - number % 2,)
        elif name == "property":
            # what one property holds becomes the data of another one
            source = props[number % 3]
            other = GridProperty(GridPropertyName.FX_MAP,
                GridPropertyUnit.NONE, source.data, source.grid_parameters)
            if source.mask is not None:
                other.set_mask(source.mask)
            values = look_property(other)
            source.set_mask(rng.random(shape) < 0.5)
            at = (number % 3,)
            changes = world.differences(values, look_property(other))
            require(not changes, lambda: f"{what} changed the "
                    f"property made from it: {changes}")
        elif name == "extend":
            if not corner or extended:
                continue
            p.extend_grid()
            extended = True
            at = (8,)
        elif name == "overwrite":
            if pool.kept:
                a = pool.kept[number % len(pool.kept)]
                pool.scribble([a[0]], a[2])
                ctx.label("overwritten")
            continue
        pool.compare(what, but=at)
        changed |= set(at)
        if passed:
            pool.scribble(passed, f"passed ({name})")
            pool.keep(passed, f"passed ({name})")
            ctx.label("overwritten")
        ctx.label(name)
    ctx.nontrivial(len(changed) > 1)


SUBS = [Sub("grids", strategy_grids, check_grids, 60, 1200, shards=8,
            thorough_shards=16),
        Sub("parts", strategy_parts, check_parts, 400, 8000, shards=2,
            thorough_shards=4)]
