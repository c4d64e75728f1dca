"""C32: the results have the symmetries of the problem."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid with measurements and transformations of both: "
        "reversed time, other units of time, another order and another "
        "grouping of the measurements. Non-trivial when the combined mask is "
        "neither empty nor full.")
ASSUMPTIONS = ["masks are compared where a difference of 1e-5 between disk "
               "gradient and scaled gradient does not decide",
               "units of time differ by powers of two, which are exact"]
CLOSE = 1e-5


@st.composite
def strategy(draw):
    spec = draw(world.small_specs(min_values=True))
    n = draw(st.integers(1, 4))
    m = draw(world.measurements(min_size=n, max_size=n, fractions=st.integers(
        0, 999).map(lambda k: k / 1000)))
    return dict(spec=spec, eclipse=draw(world.eclipses()), m=m,
                unit=draw(st.integers(-6, 6)),
                order=draw(st.permutations(range(n))),
                groups=draw(st.lists(st.integers(1, 3), max_size=4)),
                disk=[draw(st.integers(1, 400)) / 100,
                      draw(st.integers(0, 90)), draw(st.integers(0, 180)),
                      draw(st.integers(-300, 300)) / 100])


def measured(spec, eclipse, m, groups=None):
    grid = grids.build(spec)
    grid.set_eclipse_parameters(*eclipse)
    n = len(m["positions"])
    at = 0
    for size in list(groups or []) + [n]:
        if at < n:
            world.add(grid, {k: None if v is None else v[at:at + size]
                             for k, v in m.items()}, eclipse)
        at += size
    grid.determine_gradient_fit()
    return grid


def results(grid):
    grid.determine_gradient_fit()
    _, scaled, errors, gradients = grid.get_gradients(False, False)
    return dict(mask=grid.get_combined_mask(),
                fit=grid.get_gradient_fit(False, False),
                gradients=gradients, scaled=scaled,
                fit_scale=np.sum(1 / errors ** 2))


def compare(a, b, what, ctx, exactly=False):
    """a and b are results of which the axes have been brought into line."""
    if exactly:
        for name in a:
            require(world.same(a[name], b[name]),
                    lambda: f"{name} changes with {what}")
        return
    require(np.array_equal(np.isnan(a["gradients"]), np.isnan(
        b["gradients"])), f"gradients are missing elsewhere with {what}")
    require(np.allclose(a["scaled"], b["scaled"], rtol=1e-12, atol=0),
            f"the scaled gradients change with {what}")
    distance = np.abs(a["gradients"] - b["gradients"])
    require(not (distance > 1e-6).any(), lambda: "the disk gradient at "
            f"{world.first(distance > 1e-6)} changes with {what}")
    with np.errstate(invalid="ignore"):
        near = np.abs(a["gradients"] - a["scaled"].reshape(-1, 1, 1, 1))
    decided = ~(near < CLOSE).any(0)
    wrong = (a["mask"] != b["mask"]) & decided
    require(not wrong.any(), lambda: f"the combined mask at "
            f"{world.first(wrong)} changes with {what}")
    wrong = ~np.isclose(a["fit"], b["fit"], rtol=1e-5, atol=1e-9 + 1e-5 *
                        a["fit_scale"], equal_nan=True)
    require(not wrong.any(), lambda: f"the fit at {world.first(wrong)} "
            f"changes with {what}")
    ctx.label("points compared", int(decided.sum()))


def turned(r, axis):
    return dict(r, mask=np.flip(r["mask"], axis), fit=np.flip(r["fit"], axis),
                gradients=np.flip(r["gradients"], axis + 1))


def reflected(values):
    low, high, count = values
    if count == 1:          # the single value is the lower limit
        return [-low, -low + (high - low), 1]
    return [-high, -low, count]


def check(case, ctx):
    spec, eclipse, m = case["spec"], case["eclipse"], case["m"]
    grid = measured(spec, eclipse, m)
    base = results(grid)
    ctx.nontrivial(base["mask"].any() and not base["mask"].all())
    # the direction of time
    back = dict(m, positions=[-p for p in m["positions"]])
    across = dict(spec) if grids.is_q1(spec) else dict(
        spec, x=reflected(spec["x"]))
    if across["x"][0] == 0 and across["y"][0] == 0 and not grids.is_q1(spec):
        ctx.label("reflection would be mirrored")
    else:
        other = measured(across, eclipse, back)
        compare(base, turned(results(other), 1), "the direction of time", ctx)
        same_distance(grid, other, case, 1, ctx)
    # the side of the star that is passed
    over = dict(spec) if grids.is_q1(spec) else dict(
        spec, y=reflected(spec["y"]))
    if over["x"][0] == 0 and over["y"][0] == 0 and not grids.is_q1(spec):
        ctx.label("reflection would be mirrored")
    else:
        other = measured(over, eclipse, m)
        compare(base, turned(results(other), 0), "the side that is passed",
                ctx)
        same_distance(grid, other, case, -1, ctx)
    # the unit of time
    k = 2.0 ** case["unit"]
    duration, velocity, u = eclipse
    times, slopes, errors, trans = world.light_curve(m, eclipse)
    other = grids.build(spec)
    other.set_eclipse_parameters(duration * k, velocity / k, u)
    other.add_gradients(times * k, slopes / k, errors, trans)
    compare(base, results(other), f"the unit of time ({k})", ctx, True)
    # the order of the measurements
    order = case["order"]
    other = measured(spec, eclipse, {n: None if v is None else
                                     [v[j] for j in order]
                                     for n, v in m.items()})
    r = results(other)
    for name in ("gradients", "scaled"):
        require(world.same(r[name], base[name][order]),
                f"{name} change with the order of the measurements")
    require(world.same(r["mask"], base["mask"]),
            "the combined mask changes with the order of the measurements")
    require(np.allclose(r["fit"], base["fit"], rtol=1e-12, atol=0,
                        equal_nan=True),
            "the fit changes with the order of the measurements")
    # the calls that add them
    other = measured(spec, eclipse, m, case["groups"])
    compare(base, results(other), f"the grouping {case['groups']}", ctx, True)


def same_distance(a, b, case, sign, ctx):
    radius, inclination, tilt, impact = case["disk"]
    tilts = grids.raw(a, "tilt"), grids.raw(b, "tilt")
    for one in tilts:
        one = one[np.isfinite(one)]
        if ((one < 1e-6) | (one > 180 - 1e-6)).any():
            # a tilt of 0 is one of 180, which the distance tells apart
            ctx.label("tilt at the end of its range")
            return
    circular = np.nanmin(grids.raw(a, "inclination")) < 1e-6
    if circular:
        ctx.label("circular disk without tilt")
        return
    distances = []
    for grid, t, y in ((a, tilt, impact), (b, 180 - tilt, sign * impact)):
        distances.append(grid.determine_closest_grid_point(
            radius, inclination, t, y, masked=False)[2])
    require(abs(distances[0] - distances[1]) <= 1e-6 * max(distances),
            lambda: f"the distance of the closest grid point to "
            f"{case['disk']} is {distances[0]}, and {distances[1]} when "
            "everything is reflected")
    ctx.label("closest grid points compared")


SUBS = [Sub("symmetries", strategy, check, 60, 1200, shards=8,
            thorough_shards=16)]
