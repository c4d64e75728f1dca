"""C38: a tighter constraint never admits another disk."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid with measurements and changes that tighten or relax "
        "what is known, one after the other. After each change the masks of "
        "all gradients and the combined mask, the number of solutions and "
        "the fits of all grid points are compared with those before. "
        "Non-trivial when at least one change altered a mask that was "
        "neither empty nor full.")
ASSUMPTIONS = []

FRACTIONS = st.integers(0, 900).map(lambda k: k / 1000)


@st.composite
def strategy(draw):
    share = st.one_of(st.integers(1, 999).map(lambda k: k / 1000),
                      st.sampled_from([1e-4, 1e-5, 1e-7, 1e-9]))
    change = st.one_of(
        st.tuples(st.just("measurement"), world.measurements(
            max_size=2, fractions=FRACTIONS)),
        st.tuples(st.just("without"), st.integers(0, 99)),
        st.tuples(st.just("slower"), share),
        st.tuples(st.just("faster"), share),
        st.tuples(st.just("brighter edge"), share),
        st.tuples(st.just("darker edge"), share),
        st.tuples(st.just("less transmission"), share, st.integers(0, 99)),
        st.tuples(st.just("more transmission"), share, st.integers(0, 99)),
        st.tuples(st.just("hill"), st.integers(5, 500).map(
            lambda k: k / 100)),
        st.tuples(st.just("mask"), st.integers(0, 99), st.sampled_from(
            ["disk_radius", "inclination", "tilt"])),
        st.tuples(st.just("steeper"), share, st.integers(0, 99)),
        st.tuples(st.just("errors"), share))
    return dict(spec=draw(world.small_specs(min_values=True)),
                eclipse=draw(world.eclipses()), m=draw(world.measurements(
                    fractions=FRACTIONS)),
                weighted=draw(st.booleans()),
                changes=[list(c) for c in draw(st.lists(
                    change, min_size=1, max_size=6))])


class Known:
    """The measurements and settings of a grid, of which any can be tightened
    by making a new grid or by changing the old one."""

    def __init__(self, case):
        self.case = case
        self.eclipse = list(case["eclipse"])
        times, slopes, errors, trans = world.light_curve(case["m"],
                                                         self.eclipse)
        n = len(times)
        self.rows = [list(r) for r in zip(times, slopes, np.ones(
            n) if errors is None else errors, np.ones(n) if trans is None
            else trans)]
        self.grid = grids.build(case["spec"])
        self.grid.set_eclipse_parameters(*self.eclipse)
        self.add(self.rows)

    def add(self, rows):
        columns = [np.array(c, float) for c in zip(*rows)]
        self.grid.add_gradients(*columns)

    def again(self):
        self.grid.set_eclipse_parameters(*self.eclipse)
        if self.rows:
            self.add(self.rows)

    def look(self):
        g = self.grid
        g.determine_gradient_fit(weighted=self.case["weighted"])
        mask = g.get_combined_mask()
        fit = g.get_gradient_fit(False, False)
        masks = [x.mask.copy() for x in g.gradients or []]
        number = None
        if fit is not None and self.rows:
            number = len(g.extract_solutions()[0])
        return mask, masks, fit, number


def apply(known, op):
    """Make a change; returns what it is: a list of facts about the masks
    (tighter or looser), and about the fits."""
    kind, rest = op[0], op[1:]
    grid, rows = known.grid, known.rows
    if kind == "measurement":
        times, slopes, errors, trans = world.light_curve(rest[0],
                                                         known.eclipse)
        n = len(times)
        new = [list(r) for r in zip(times, slopes, np.ones(n) if errors is
               None else errors, np.ones(n) if trans is None else trans)]
        known.rows = rows + new
        known.add(new)
        return "tighter", "grows"
    if kind == "without":
        if len(rows) < 2:
            return None
        k = rest[0] % len(rows)
        grid.remove_gradients(np.array([k]))
        known.rows = rows[:k] + rows[k + 1:]
        return "looser", "falls"
    if kind in ("slower", "faster"):
        factor = 1 - rest[0] / 4 if kind == "slower" else 1 + 4 * rest[0]
        velocity = known.eclipse[1] * factor
        grid.update_gradient_scaling(transverse_velocity=velocity)
        known.eclipse[1] = velocity
        return ("tighter" if kind == "slower" else "looser"), None
    if kind in ("brighter edge", "darker edge"):
        # the steepest slope grows with the limb darkening
        u = known.eclipse[2]
        u = u * (1 - rest[0]) if kind == "brighter edge" else (
            u + (1 - u) * rest[0])
        grid.update_gradient_scaling(limb_darkening=u)
        known.eclipse[2] = u
        return ("tighter" if kind == "brighter edge" else "looser"), None
    if kind in ("less transmission", "more transmission"):
        k = rest[1] % len(rows)
        t = [r[3] for r in rows]
        t[k] = t[k] * (1 - rest[0] / 4) if kind == "less transmission" else (
            t[k] + (1 - t[k]) * rest[0])
        grid.update_gradient_scaling(transmission_changes=np.array(t))
        for r, one in zip(rows, t):
            r[3] = one
        return ("tighter" if kind == "less transmission" else "looser"), None
    if kind == "steeper":
        k = rest[1] % len(rows)
        rows[k][1] *= 1 + rest[0] / 4
        known.again()
        return "tighter", None
    if kind == "errors":
        for r in rows:
            r[2] *= 1 + rest[0]
        known.again()
        return "same", "falls" if known.case["weighted"] else "same"
    if kind == "hill":
        grid.generate_hill_radius_mask(rest[0])
        return "hill", "same"
    if kind == "mask":
        prop = getattr(grid, rest[1])
        more = np.random.default_rng(rest[0]).random(
            grid.parameters.grid_shape) < 0.2
        if prop.mask is not None:
            more = more | prop.mask
        prop.set_mask(more)
        return "tighter", "same"
    raise AssertionError(kind)


def check(case, ctx):
    known = Known(case)
    before = known.look()
    radii = []
    for op in case["changes"]:
        hill_before = known.grid.disk_radius.mask
        rejected = False
        try:
            facts = apply(known, op)
        except ValueError:
            # too steep: this and the rows that it would have changed
            rejected = True
        if rejected:
            ctx.label("too steep")
            return
        if facts is None:
            continue
        after = known.look()
        masks, fits = facts
        ctx.label(op[0])
        if masks == "hill":
            # only compared with another Hill radius mask
            masks = None
            for radius, mask in radii:
                low, high = ((mask, known.grid.disk_radius.mask)
                             if op[1] <= radius else
                             (known.grid.disk_radius.mask, mask))
                require(not (low & ~high).any(), lambda: "the mask of the "
                        f"Hill radius {max(op[1], radius)} has points that "
                        f"that of {min(op[1], radius)} does not have")
                ctx.label("Hill radii compared")
            radii.append((op[1], known.grid.disk_radius.mask.copy()))
            if hill_before is None:
                masks = "tighter"
        a, b = before, after
        if masks in ("looser", "same"):
            a, b = after, before
        if masks is not None:
            wrong = a[0] & ~b[0]
            require(not wrong.any(), lambda: f"{op} is {masks}, but the "
                    f"combined mask differs at {world.first(wrong)}")
            if masks == "same":
                require(world.same(a[0], b[0]), f"{op} changes the mask")
            if None not in (a[3], b[3]):
                require(a[3] >= b[3], lambda: f"{op} is {masks}, with "
                        f"{before[3]} solutions before and {after[3]} now")
            if len(a[1]) == len(b[1]):
                for k, (x, y) in enumerate(zip(a[1], b[1])):
                    require(not (x & ~y).any(), lambda: f"{op} is {masks}, "
                            f"but the mask of gradient {k} is not")
            ctx.nontrivial(not world.same(a[0], b[0]) and a[0].any()
                           and not b[0].all())
        if fits is not None and before[2] is not None and (
                after[2] is not None):
            a, b = before[2], after[2]
            if fits == "falls":
                a, b = b, a
            with np.errstate(invalid="ignore"):
                wrong = a > b * (1 + 1e-9) + 1e-300
            if fits == "same":
                wrong = ~((a == b) | np.isnan(a) & np.isnan(b))
            require(not wrong.any(), lambda: f"the fit {fits} with {op}, but "
                    f"not at {world.first(wrong)}")
        before = after


SUBS = [Sub("tighter", strategy, check, 80, 1600, shards=8,
            thorough_shards=16)]
