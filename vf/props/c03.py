"""C03: the fx and fy maps belong to the stored disks and keep the branches."""
import numpy as np

import grids
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid specification. It is non-trivial when the grid has "
        "points with dx and dy not 0 on both branches (at least two rf "
        "values, maximum rf above 1); evaluations count grids.")
ASSUMPTIONS = ["the shear of a centre (dx, dy) is -dx / dy, 0 at the origin"]


def check(spec, ctx):
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    cubes = {name: grids.raw(grid, name) for name in grids.CUBES}
    fx, fy, radius = cubes["fx_map"], cubes["fy_map"], cubes["disk_radius"]
    shape = (len(dy), len(dx), len(rf))
    require(fx.shape == shape and fy.shape == shape,
            f"the maps have the shapes {fx.shape}, {fy.shape}, not {shape}")
    dx, dy = dx[None, :, None], dy[:, None, None]
    centre = spec["num_rf"] - 1

    def where(bad):
        return f"[y, x, rf] = {np.argwhere(bad)[0].tolist()}"

    # points exist exactly where an ellipse is defined
    undefined = np.broadcast_to((dy == 0) & (dx != 0), shape).copy()
    origin = np.broadcast_to((dy == 0) & (dx == 0), shape)
    stretched = rf > 1
    stretched[centre:] = False
    undefined |= origin & stretched
    # closer to rf = 1 than the first sampled stretch: interpolated
    either = origin & stretched & (rf <= 1 + 2 * grids.step(spec))
    undefined &= ~(either & ~np.isnan(radius))
    for name, cube in cubes.items():
        bad = np.isnan(cube) != undefined
        if name == "fy_map":
            # the limit of a stretch that only exists for fx = infinity
            bad &= ~(undefined & origin & (cube == 0))
        require(not bad.any(), lambda: f"{name} at {where(bad)} is "
                f"{cube[bad][0]}")
    ok = ~undefined

    # fx and fy lie on the curve of stretched circles
    both = 0.25 / fx ** 2 + dy ** 2 / fy ** 2
    circle = 0.25 + dy ** 2
    bad = ok & (np.abs(both - circle) > 1e-11 * circle)
    require(not bad.any(), lambda: f"fx = {fx[bad][0]:.9g} and fy = "
            f"{fy[bad][0]:.9g} at {where(bad)} do not belong together")
    require(np.all(fx[ok] > 0) and np.all(fy[ok] > 0),
            "a stretch factor is not positive")

    # they give the stored disk
    r, ratio, angle = grids.disk_from_stretch(dx, dy, fx, fy)
    bad = ok & (np.abs(r - radius) > 1e-10 * radius)
    require(not bad.any(), lambda: f"fx and fy at {where(bad)} give a disk "
            f"radius of {r[bad][0]:.9g}, stored is {radius[bad][0]:.9g}")
    inclination = np.deg2rad(cubes["inclination"])
    bad = ok & (np.abs(ratio - np.cos(inclination)) > 1e-10)
    require(not bad.any(), lambda: f"fx and fy at {where(bad)} give an axis "
            f"ratio of {ratio[bad][0]:.9g}, stored is "
            f"{np.cos(inclination)[bad][0]:.9g}")
    tilt = np.deg2rad(cubes["tilt"])
    bad = ok & (np.abs(np.sin(angle - tilt)) * np.sin(inclination) ** 2
                > 1e-9)
    require(not bad.any(), lambda: f"fx and fy at {where(bad)} give a tilt of "
            f"{np.rad2deg(angle[bad][0]) % 180:.9g}, stored is "
            f"{cubes['tilt'][bad][0]:.9g}")

    # the branches: horizontal first, vertical last
    eps = 1e-12
    for cube, sign, name in ((fx, -1, "fx"), (fy, 1, "fy")):
        step = sign * np.diff(cube, axis=2)
        bad = ~np.isnan(step) & (step < -eps * cube[..., 1:])
        require(not bad.any(), lambda: f"{name} is not monotonic from the "
                f"horizontal to the vertical branch at {where(bad)}")
    if spec["num_rf"] > 1 and spec["max_rf"] > 1 + 20 * grids.step(spec):
        # rf > 1 really stretches the disk in the direction of the branch
        last, first = fy[..., -1], fx[..., 0]
        bad = ~np.isnan(last) & (last <= fy[..., centre])
        require(not bad.any(), lambda: "the end of the vertical branch at "
                f"{where(bad)} is not stretched vertically")
        bad = ~np.isnan(first) & (first <= fx[..., centre])
        require(not bad.any(), lambda: "the end of the horizontal branch at "
                f"{where(bad)} is not stretched horizontally")
        ctx.nontrivial((ok & (dx != 0) & (dy != 0)).any())
    ctx.label("mirrored" if grids.is_q1(spec) else "free range")
    ctx.label("with origin", bool(origin.any()))
    ctx.label("points", int(ok.sum()))


def strategy_any():
    return grids.specs(resolutions=(5, 400))


def strategy_fine():
    return grids.specs(resolutions=(400, 3000), max_count=4)


SUBS = [Sub("maps", strategy_any, check, 130, 2500, shards=6,
            thorough_shards=12),
        Sub("maps_fine", strategy_fine, check, 40, 600, shards=2,
            thorough_shards=4)]
