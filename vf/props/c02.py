"""C02: the disk radius is calibrated."""
import numpy as np

import grids
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid specification. It is non-trivial when the grid has "
        "rf values above 1 and a point with dx and dy not 0; evaluations "
        "count grids.")
ASSUMPTIONS = ["the fx and fy resolution is the spacing of the stretch "
               "factors: max(1, largest |dx| or |dy|) / (resolution - 1); "
               "deviations are allowed up to what one such spacing causes "
               "at that point (from the closed form), not more"]


def along_curve(dx, dy, fx, fy, step_x, step_y):
    """Radius one sampling step towards the horizontal and towards the
    vertical end of the curve (fx falls, fy rises)."""
    step_x, step_y = 1.1 * step_x, 1.1 * step_y
    on_x = fy <= 1
    # towards horizontal
    fx_h = np.where(on_x, fx + step_x, np.where(fy - step_y >= 1, 0, 1 + step_x))
    fy_h = np.where(fx_h == 0, fy - step_y, grids.fy_of_fx(dy, fx_h))
    fx_h = np.where(fx_h == 0, grids.fx_of_fy(dy, fy_h), fx_h)
    # towards vertical
    fx_v = np.where(on_x & (fx - step_x >= 1), fx - step_x, 0)
    fy_v = np.where(fx_v == 0, np.where(on_x, 1 + step_y, fy + step_y),
                    grids.fy_of_fx(dy, np.where(fx_v == 0, 1, fx_v)))
    fx_v = np.where(fx_v == 0, grids.fx_of_fy(dy, fy_v), fx_v)
    return (grids.disk_from_stretch(dx, dy, fx_h, fy_h)[0],
            grids.disk_from_stretch(dx, dy, fx_v, fy_v)[0], fy_h, fy_v)


def check(spec, ctx):
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    radius = grids.raw(grid, "disk_radius")
    fx, fy = grids.raw(grid, "fx_map"), grids.raw(grid, "fy_map")
    diagnostic = grids.raw(grid, "diagnostic_map")
    dx, dy = dx[None, :, None], dy[:, None, None]
    centre = spec["num_rf"] - 1
    origin = (dx == 0) & (dy == 0)
    smallest = grids.smallest_radius(dx, dy)
    ok = ~np.isnan(radius)
    eps = 1e-11

    def where(bad):
        return f"[y, x, rf] = {np.argwhere(bad)[0].tolist()}"

    bad = ok & (radius < smallest * (1 - eps))
    require(not bad.any(), lambda: f"the disk at {where(bad)} is smaller than "
            "the smallest possible disk")

    # what one sampling step changes, in the closed form
    nf = max(2, spec["nf"])
    step_x = max(1, abs(spec["x"][0]), abs(spec["x"][1])) / (nf - 1)
    step_y = max(1, abs(spec["y"][0]), abs(spec["y"][1])) / (nf - 1)

    # the samples next to the smallest disk are at most one step away from it
    fy_best = np.where(origin, 1.0, grids.fy_of_smallest(dx, dy))
    fx_best = np.where(origin, 1.0, grids.fx_of_fy(dy, fy_best))
    side_h, side_v, _, _ = along_curve(dx, dy, fx_best, fy_best, step_x,
                                       step_y)
    at_one = radius[:, :, centre:centre + 1]
    allowed = np.fmin(side_h, side_v) - smallest + eps * smallest
    bad = (~np.isnan(at_one)) & (at_one - smallest > allowed)
    require(not bad.any(), lambda: f"the disk at {where(bad)} (rf = 1) has a "
            f"radius of {at_one[bad][0]:.9g}, the smallest possible disk has "
            f"{np.broadcast_to(smallest, at_one.shape)[bad][0]:.9g}, and the "
            f"resolution explains {allowed[bad][0]:.3g}")
    ctx.label("rf = 1 points", int((~np.isnan(at_one)).sum()))

    # the value interpolated to is at most one step away from a stored point
    side_h, side_v, fy_h, fy_v = along_curve(dx, dy, fx, fy, step_x, step_y)
    expected = rf * at_one
    low, high = np.fmin(side_h, side_v), np.fmax(side_h, side_v)
    turning = (fy_h <= fy_best) & (fy_best <= fy_v)
    low = np.where(turning, np.fmin(smallest, at_one), low)
    slack = eps * expected
    bad = ok & ((expected < low - slack) | (expected > high + slack))
    require(not bad.any(), lambda: f"the disk radius at {where(bad)} is "
            f"{radius[bad][0]:.9g}, rf times the radius at rf = 1 is "
            f"{expected[bad][0]:.9g}, and one resolution step covers "
            f"{low[bad][0]:.9g} to {high[bad][0]:.9g}")

    stated = radius / at_one - rf
    require(np.array_equal(np.isnan(stated), np.isnan(diagnostic)),
            "the diagnostic map misses values at other points")
    bad = ok & (np.abs(stated - diagnostic) > 1e-12 * np.maximum(1, rf))
    require(not bad.any(), lambda: f"the diagnostic map at {where(bad)} is "
            f"{diagnostic[bad][0]:.6g} instead of {stated[bad][0]:.6g}")

    ctx.nontrivial(rf[0] > 1 and (ok & (dx != 0) & (dy != 0)).any())
    ctx.label("mirrored" if grids.is_q1(spec) else "free range")
    ctx.label("extent below one", max(map(abs, spec["x"][:2])) < 1
              or max(map(abs, spec["y"][:2])) < 1)
    ctx.label("points", int(ok.sum()))


def strategy_any():
    return grids.specs(resolutions=(3, 400))


def strategy_fine():
    return grids.specs(resolutions=(400, 3000), max_count=4)


SUBS = [Sub("radius", strategy_any, check, 130, 2500, shards=6,
            thorough_shards=12),
        Sub("radius_fine", strategy_fine, check, 40, 600, shards=2,
            thorough_shards=4)]
