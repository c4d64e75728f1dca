"""C01: every grid point describes an ellipse through the eclipse points."""
import numpy as np

import grids
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid specification (dx and dy range and count, maximum "
        "rf, rf count, fx/fy resolution), mirrored or covering a free range. "
        "It is non-trivial when at least one grid point with values is "
        "neither circular nor centred on an axis; evaluations count grids.")
ASSUMPTIONS = ["the centre of a grid point is the (dx, dy) pair that follows "
               "from the grid specification",
               "maximum rf stays below the guard that rejects extreme input"]
TOLERANCE = 1e-8


def check(spec, ctx):
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    radius, inclination, tilt = (grids.raw(grid, n) for n in
                                 ("disk_radius", "inclination", "tilt"))
    shape = (len(dy), len(dx), len(rf))
    for name, cube in (("disk radius", radius), ("inclination", inclination),
                       ("tilt", tilt)):
        require(cube.shape == shape,
                f"{name} has the shape {cube.shape}, not {shape}")
    dx, dy = dx[None, :, None], dy[:, None, None]
    missing = np.isnan(radius)
    require(np.array_equal(missing, np.isnan(inclination))
            and np.array_equal(missing, np.isnan(tilt)),
            "disk radius, inclination and tilt miss values at other points")
    ok = ~missing
    require(np.all(np.isfinite(radius[ok]) & (radius[ok] > 0)),
            "a disk radius is not positive and finite")
    require(np.all((inclination[ok] >= 0) & (inclination[ok] <= 90)),
            "an inclination is outside 0 to 90 deg")
    require(np.all((tilt[ok] >= -1e-9) & (tilt[ok] <= 180 + 1e-9)),
            lambda: f"a tilt is outside 0 to 180 deg: {tilt[ok].min()} to "
            f"{tilt[ok].max()}")
    # at the origin: the circle, and the disks that are stretched vertically
    stretched = np.arange(len(rf)) >= len(rf) // 2
    defined = np.broadcast_to((dy != 0) | ((dx == 0) & stretched), shape)
    require(not np.any(missing & defined),
            lambda: "no disk at [y, x, rf] = "
            f"{np.argwhere(missing & defined)[0].tolist()} although one "
            "exists")
    for x in (-0.5, 0.5):
        residual = grids.ellipse_residual(dx, dy, radius, inclination, tilt, x)
        bad = ok & ~(residual <= TOLERANCE)
        require(not bad.any(), lambda: f"({x}, 0) is not on the ellipse of "
                f"[y, x, rf] = {np.argwhere(bad)[0].tolist()} (relative "
                f"residual {residual[bad][0]:.3g})")
    general = ok & (inclination > 1) & (np.abs(dx) > 0) & (np.abs(dy) > 0)
    ctx.nontrivial(general.any())
    ctx.label("mirrored" if grids.is_q1(spec) else "free range")
    ctx.label("points", int(ok.sum()))
    ctx.label("missing points", int(missing.sum()))


def strategy_any():
    return grids.specs(resolutions=(2, 400))


def strategy_fine():
    return grids.specs(resolutions=(400, 3000), max_count=4)


SUBS = [Sub("ellipse", strategy_any, check, 130, 2500, shards=6,
            thorough_shards=12),
        Sub("ellipse_fine", strategy_fine, check, 40, 600, shards=2,
            thorough_shards=4)]
