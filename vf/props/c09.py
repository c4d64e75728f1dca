"""C09: the gradient fit, and the solutions extracted from it."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, require

LEVEL = "exploration"
RULE = ("A case is a grid, measurements, weighting, an optional Hill radius "
        "and user masks, and numbers of solutions to extract. It is "
        "non-trivial when at least two gradients and at least three unmasked "
        "points with different fits exist.")
ASSUMPTIONS = ["at least one gradient is present, and errors are positive",
               "solutions with equal fits may come in any order"]


@st.composite
def strategy(draw):
    return dict(spec=draw(world.small_specs(max_count=3, min_values=True)),
                eclipse=draw(world.eclipses()),
                m=draw(world.measurements(max_size=3, fractions=st.one_of(
                    st.integers(0, 400).map(lambda k: k / 1000),
                    world.FRACTION))),
                weighted=draw(st.sampled_from([None, True, False])),
                before=draw(st.lists(st.booleans(), max_size=2)),
                hill=draw(st.none() | st.integers(5, 300)),
                tilt_mask=draw(st.none() | st.integers(0, 2 ** 30)),
                share=draw(st.lists(st.integers(0, 100), min_size=1,
                                    max_size=2)))


@st.composite
def strategy_many(draw):
    """More than a thousand solutions."""
    case = draw(strategy())
    spec = case["spec"]
    for axis in "xy":
        low, high = spec[axis][:2]
        if low == high:
            high = low + 1
        spec[axis] = [low, high, draw(st.integers(10, 14))]
    spec["num_rf"] = draw(st.integers(5, 7))
    spec["nf"] = min(spec["nf"], 20)
    case["m"]["fractions"] = [f / 1000 for f in case["m"]["fractions"]]
    case["hill"], case["share"] = None, []
    return case


def check(case, ctx):
    grid = grids.build(case["spec"])
    grid.set_eclipse_parameters(*case["eclipse"])
    require(grid.get_gradient_fit() is None, "a new grid has a fit")
    grid.determine_gradient_fit()
    require(grid.get_gradient_fit() is None, "a fit without gradients")
    world.add(grid, case["m"], case["eclipse"])
    _, scaled, errors, gradients = grid.get_gradients(False, False)
    if case["hill"] is not None:
        grid.generate_hill_radius_mask(case["hill"] / 20)
    if case["tilt_mask"] is not None:
        bits = np.arange(gradients[0].size) * 2654435761 + case["tilt_mask"]
        grid.tilt.set_mask(((bits >> 7) % 5 == 0).reshape(gradients[0].shape))
    for other in case["before"]:
        # every fit replaces the one before
        grid.determine_gradient_fit(other)
    weighted = case["weighted"]
    if weighted is None:
        grid.determine_gradient_fit()
    else:
        grid.determine_gradient_fit(weighted)
    times, measured, e, t = world.light_curve(case["m"], case["eclipse"])
    e = np.ones(len(times)) if e is None else e
    t = np.ones(len(times)) if t is None else t
    truth = measured / t / world.slope(case["eclipse"])
    weight = e ** 2 if weighted in (None, True) else np.ones(len(e))
    want = sum((g - s) ** 2 / w for g, s, w in zip(gradients, truth, weight))
    scale = sum((g + s) ** 2 / w for g, s, w in zip(gradients, truth, weight))
    fit = grid.get_gradient_fit(False, False)
    require(fit is not None and fit.shape == want.shape, "there is no fit")
    require(np.array_equal(np.isnan(fit), np.isnan(want)),
            "the fit misses values at other points than the gradients")
    bad = ~np.isnan(want) & ~(np.abs(fit - want) <= 1e-9 * want
                              + 1e-10 * scale)
    require(not bad.any(), lambda: f"the fit at {world.first(bad)} is "
            f"{fit[bad][0]!r} instead of {want[bad][0]!r}")

    mask = grid.get_combined_mask()
    shown = grid.get_gradient_fit()
    require(world.same(shown, np.where(mask, np.nan, fit)),
            "the masked fit is not the fit at the unmasked points")
    before = world.snapshot(grid)
    free = fit[~mask]
    total = int((~mask).sum())
    require(not np.isnan(free).any(), "an unmasked point has no fit")
    points = {}
    dy, dx, _ = grid.parameters.get_vectors()
    cubes = [grids.raw(grid, n) for n in ("disk_radius", "inclination",
                                          "tilt")]
    for y, x, r in np.argwhere(~mask):
        row = (float(fit[y, x, r]),) + tuple(float(c[y, x, r]) for c in cubes
            ) + (float(dx[x]), float(dy[y]))
        points[row] = points.get(row, 0) + 1
    numbers = sorted({0, total} | {s * total // 100 for s in case["share"]})
    for k in numbers + [None]:
        solution = (grid.extract_solutions() if k is None
                    else grid.extract_solutions(k))
        count = total if k is None else k
        require(len(solution) == 6 and all(s.shape == (count,)
                for s in solution), f"asked for {k} solutions, got "
                f"{[s.shape for s in solution]}")
        require(world.same(solution[0], np.sort(free)[:count]),
                lambda: f"the {count} best fits are "
                f"{np.sort(free)[:count].tolist()}, extracted were "
                f"{solution[0].tolist()}")
        left = dict(points)
        for row in zip(*(s.tolist() for s in solution)):
            require(left.get(row, 0) > 0, lambda: f"the solution {row} is "
                    "not an unmasked grid point, or came twice")
            left[row] -= 1
        again = (grid.extract_solutions() if k is None
                 else grid.extract_solutions(k))
        require(all(world.same(a, b) for a, b in zip(solution, again)),
                "extracting again gives other solutions")
    for wrong in (total + 1, -1):
        expect_error(ValueError, grid.extract_solutions, wrong)
    expect_error(TypeError, grid.extract_solutions, 0.5)
    changed = world.differences(before, world.snapshot(grid))
    require(not changed, f"extracting solutions changed {changed}")
    ctx.nontrivial(len(times) > 1 and len(set(free.tolist())) > 2)
    ctx.label("ties", int(len(set(free.tolist())) < total))
    ctx.label("solutions", total)


SUBS = [Sub("fit", strategy, check, 130, 2500, shards=8, thorough_shards=16),
        Sub("many", strategy_many, check, 4, 60, shards=2, thorough_shards=8)]
