"""C05: projected disk gradients match the geometry of the stored ellipses."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid specification, an eclipse duration and a list of "
        "times, some of which are derived from the disk centres of the grid, "
        "added to a grid that may be masked. "
        "It is non-trivial when the grid has points with dx and dy not 0 and "
        "rf above 1, and at least two different times.")
ASSUMPTIONS = ["a measurement at time t sees the disk at x = -t / duration",
               "the gradient is undefined when (x, 0) is the disk centre"]


@st.composite
def strategy(draw):
    spec = draw(grids.specs(resolutions=(15, 200), max_count=5))
    duration = draw(st.one_of(st.sampled_from([1, 1.0, 2, 0.5, 56.0, 10]),
                              st.floats(0.01, 200, allow_nan=False)))
    duration = duration if isinstance(duration, int) else round(duration, 4)
    position = st.one_of(
        st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0, 0.25]),
        st.integers(-300, 300).map(lambda k: k / 100),
        st.floats(-4, 4, allow_nan=False).map(lambda v: round(v, 6)),
        # a column of the grid, or the place where a circle has a vertical
        # tangent
        st.tuples(st.just("dx"), st.integers(0, 20)).map(list),
        st.tuples(st.just("vertical"), st.integers(0, 20),
                  st.integers(0, 20)).map(list))
    positions = draw(world.close_positions(
        st.lists(position, min_size=1, max_size=5)))
    calls = draw(st.integers(1, 2))
    return dict(spec=spec, duration=duration, positions=positions,
                calls=calls, masks=draw(st.lists(st.tuples(st.sampled_from(
                    ["disk_radius", "inclination", "tilt", "fx_map", "fy_map",
                     "hill"]), st.integers(0, 9)).map(list), max_size=2)))


def check(case, ctx):
    spec = case["spec"]
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    wanted = []
    for p in case["positions"]:
        if isinstance(p, list) and p[0] == "dx":
            p = dx[p[1] % len(dx)]
        elif isinstance(p, list):
            x, y = dx[p[1] % len(dx)], dy[p[2] % len(dy)]
            p = -y * y / x if x != 0 else 0.0
        wanted.append(float(p))
    times = -np.array(wanted) * case["duration"]
    wanted = -times / case["duration"]
    grid.set_eclipse_parameters(case["duration"], 10., 0.5)
    for name, seed in case["masks"]:
        # masks leave the data as they are
        if name == "hill":
            grid.generate_hill_radius_mask(seed / 2)
            continue
        shape = grid.parameters.grid_shape
        getattr(grid, name).set_mask(
            np.random.default_rng(seed).random(shape) < 0.5)
    cut = len(times) if case["calls"] == 1 else len(times) // 2
    for part in (times[:cut], times[cut:]):
        if len(part):
            grid.add_gradients(part.copy(), np.zeros(len(part)))

    positions, scaled, errors, gradients = grid.get_gradients(
        masked=False, property_masked=False)
    shape = (len(dy), len(dx), len(rf))
    require(gradients.shape == (len(times),) + shape,
            f"the gradients have the shape {gradients.shape} instead of "
            f"{(len(times),) + shape}")
    require(world.near(positions, wanted), lambda: f"the positions are "
            f"{positions.tolist()} instead of {wanted.tolist()}")
    radius = grids.raw(grid, "disk_radius")
    inclination = grids.raw(grid, "inclination")
    tilt = grids.raw(grid, "tilt")
    missing = np.isnan(radius)
    dx, dy = dx[None, :, None], dy[:, None, None]
    skipped = 0
    for x, gradient in zip(wanted, gradients):
        def where(bad):
            return (f"[y, x, rf] = {np.argwhere(bad)[0].tolist()} at "
                    f"position {x!r}")
        bad = missing & ~np.isnan(gradient)
        require(not bad.any(), lambda: f"there is a gradient without disk at "
                f"{where(bad)}")
        want = grids.tangent(dx, dy, inclination, tilt, x)
        # how well the rounded disk parameters define the tangent
        c2 = np.cos(np.deg2rad(inclination)) ** 2
        phi = np.deg2rad(tilt)
        px, py = x - dx, -dy + 0 * dx
        u = px * np.cos(phi) + py * np.sin(phi)
        v = -px * np.sin(phi) + py * np.cos(phi)
        with np.errstate(all="ignore"):
            limit = 1e-9 + 1e-11 * np.hypot(px, py) / np.hypot(u * c2, v)
        limit[np.isnan(limit)] = np.inf
        clear = ~missing & (limit < 1e-3)
        skipped += int(np.sum(~missing & ~clear))
        bad = clear & ~(np.abs(gradient - want) <= limit)
        require(not bad.any(), lambda: f"the gradient is "
                f"{gradient[bad][0]!r} instead of {want[bad][0]!r} at "
                f"{where(bad)}")
        bad = ~np.isnan(gradient) & ~((gradient >= 0) & (gradient <= 1))
        require(not bad.any(), lambda: f"the gradient {gradient[bad][0]!r} "
                f"is not between 0 and 1 at {where(bad)}")
        ctx.label("vertical tangents", int(np.sum(clear & (want > 1 - 1e-12))))
        ctx.label("horizontal tangents", int(np.sum(clear & (want < 1e-12))))
        ctx.label("gradients", int(np.sum(clear)))
    ctx.label("too close to a disk centre", skipped)

    # the data of a point list the same gradients
    index = tuple(int(k) for k in np.argwhere(~missing)[-1])
    _, _, (p, g) = grid.get_grid_point_data(*index, masked=False)
    ctx.label("masked", bool(case["masks"]))
    require(world.same(p, positions)
            and np.array_equal(g, gradients[(slice(None),) + index],
                               equal_nan=True),
            "the data of a grid point have other positions or gradients")
    ctx.nontrivial(len(set(wanted)) > 1 and spec["max_rf"] > 1
                   and spec["num_rf"] > 1
                   and bool(np.any(~missing & (dx != 0) & (dy != 0))))


SUBS = [Sub("gradients", strategy, check, 110, 2500, shards=8,
            thorough_shards=16)]
