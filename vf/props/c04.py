"""C04: mirroring into four quadrants gives the disks of the mirrored centres."""
import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, require

LEVEL = "exploration"
RULE = ("symmetry: a case is the specification of a grid that starts at the "
        "origin; non-trivial with at least two dx and two dy values. "
        "differential: such a grid and, built without mirroring, its three "
        "other quadrants; non-trivial when both axes have at least two "
        "values and the extents differ. free: a grid that does not start at "
        "the origin; non-trivial when it starts at 0 on one axis.")
ASSUMPTIONS = ["the same resolution and the same largest |dx| and |dy| give "
               "the same sampling of the stretch factors"]


def mirror_tilt(tilt):
    return 180 - tilt


def same_tilt(a, b, inclination):
    """Difference of tilts modulo 180 deg, weighted: circles have no tilt."""
    return (np.abs(np.sin(np.deg2rad(a - b)))
            * np.sin(np.deg2rad(inclination)) ** 2)


def compare(got, want, label):
    """Cubes of two grids that must describe the same disks."""
    missing = np.isnan(want["disk_radius"])
    for name in grids.CUBES:
        require(got[name].shape == want[name].shape,
                f"{label}: {name} has the shape {got[name].shape}, not "
                f"{want[name].shape}")
        a, b = got[name], want[name]
        lost = np.isnan(a) != missing
        if name == "fy_map":
            lost &= ~missing | (a != 0)     # no disk, but a limit of 0
        require(not lost.any(), lambda: f"{label}: {name} misses values at "
                f"other points, such as {np.argwhere(lost)[0].tolist()}")
        if name == "tilt":
            error = same_tilt(a, b, want["inclination"])
            limit = 1e-8
        elif name == "inclination":
            error = np.abs(np.cos(np.deg2rad(a)) - np.cos(np.deg2rad(b)))
            limit = 1e-8
        elif name == "diagnostic_map":
            error, limit = np.abs(a - b), 1e-8
        else:
            error, limit = np.abs(a / b - 1), 1e-8
        bad = ~missing & ~(error <= limit)
        require(not bad.any(), lambda: f"{label}: {name} at [y, x, rf] = "
                f"{np.argwhere(bad)[0].tolist()} is {a[bad][0]:.12g} instead "
                f"of {b[bad][0]:.12g}")


def all_cubes(grid):
    return {name: grids.raw(grid, name) for name in grids.CUBES}


def check_symmetry(spec, ctx):
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    dy_, dx_, rf_ = grid.parameters.get_vectors()
    require(np.array_equal(dx_, dx), lambda: f"dx is {dx_.tolist()} instead "
            f"of {dx.tolist()}")
    require(np.array_equal(dy_, dy), lambda: f"dy is {dy_.tolist()} instead "
            f"of {dy.tolist()}")
    require(np.array_equal(rf_, rf), "rf changed")
    shape = (len(dy), len(dx), len(rf))
    require(tuple(grid.parameters.grid_shape) == shape, "wrong grid shape")
    cubes = all_cubes(grid)
    flips = {"x": lambda c: c[:, ::-1], "y": lambda c: c[::-1],
             "both": lambda c: c[::-1, ::-1]}
    for label, flip in flips.items():
        mirrored = {name: flip(cube) for name, cube in cubes.items()}
        if label != "both":
            mirrored["tilt"] = mirror_tilt(mirrored["tilt"])
        compare(cubes, mirrored, f"mirrored in {label}")
    for name in ("disk_radius", "inclination", "fx_map", "fy_map",
                 "diagnostic_map"):
        for label, flip in flips.items():
            require(np.array_equal(cubes[name], flip(cubes[name]),
                                   equal_nan=True),
                    f"{name} is not an exact mirror image ({label})")
    ctx.nontrivial(spec["x"][2] > 1 and spec["y"][2] > 1)
    ctx.label("single value", spec["x"][2] == 1 or spec["y"][2] == 1)


def check_quadrants(spec, ctx):
    whole = all_cubes(grids.build(spec))
    nx, ny = spec["x"][2], spec["y"][2]
    mx, my = spec["x"][1], spec["y"][1]
    sides = {"x < 0, y < 0": (-1, -1), "x < 0": (-1, 1), "y < 0": (1, -1)}
    for label, (sx, sy) in sides.items():
        part = dict(spec,
                    x=[-mx, 0, nx] if sx < 0 else [0, mx, nx],
                    y=[-my, 0, ny] if sy < 0 else [0, my, ny])
        other = grids.build(part)
        dy_, dx_, _ = other.parameters.get_vectors()
        require(len(dy_) == ny and len(dx_) == nx,
                "a grid that does not start at the origin was extended")
        cut_x = slice(0, nx) if sx < 0 else slice(nx - 1, None)
        cut_y = slice(0, ny) if sy < 0 else slice(ny - 1, None)
        want = {name: cube[cut_y, cut_x] for name, cube in whole.items()}
        compare(all_cubes(other), want, f"quadrant {label}")
    ctx.nontrivial(mx != my)
    ctx.label("extent below one", mx < 1 or my < 1)


def check_free(spec, ctx):
    grid = grids.build(spec)
    dx, dy, rf = grids.vectors(spec)
    dy_, dx_, rf_ = grid.parameters.get_vectors()
    require(np.array_equal(dx_, dx) and np.array_equal(dy_, dy)
            and np.array_equal(rf_, rf), "the vectors of a grid that does "
            "not start at the origin changed")
    for name, cube in all_cubes(grid).items():
        require(cube.shape == (len(dy), len(dx), len(rf)),
                f"{name} has the shape {cube.shape}")
    # every row and column equals that of a grid of single centres
    cubes = all_cubes(grid)
    y, x = len(dy) - 1, 0
    single = dict(spec, x=[dx[x], dx[x] + 1, 1], y=[dy[y], dy[y] + 1, 1])
    same_sampling = (
        max(1, abs(dx[x])) == max(1, abs(dx[0]), abs(dx[-1]))
        and max(1, abs(dy[y])) == max(1, abs(dy[0]), abs(dy[-1])))
    if same_sampling and not (dx[x] == 0 and dy[y] == 0):
        part = all_cubes(grids.build(single))
        want = {n: c[y:y + 1, x:x + 1] for n, c in cubes.items()}
        if not np.isnan(want["disk_radius"]).all():
            compare(part, want, "single centre")
            ctx.label("single centre compared")
    ctx.nontrivial(dx[0] == 0 or dy[0] == 0 or len(dx) != len(dy))
    ctx.label("near the origin", 0 < abs(dx[0]) < 1e-5)
    ctx.label("opposite starts", dx[0] == -dy[0])


def strategy_q1():
    return grids.specs(kinds=("q1",), resolutions=(10, 300))


def strategy_pairs():
    def widen(spec):
        spec = dict(spec)
        spec["x"] = [0, spec["x"][1], max(2, spec["x"][2])]
        spec["y"] = [0, spec["y"][1], max(2, spec["y"][2])]
        return spec
    return grids.specs(kinds=("q1",), resolutions=(10, 200),
                       max_count=4).map(widen)


TINY = [1e-9, 1e-12, -1e-9, 5e-324, 1e-6]


@st.composite
def strategy_free(draw):
    spec = draw(grids.specs(kinds=("free",), resolutions=(10, 200)))
    kind = draw(st.sampled_from(["any"] * 4 + ["near", "near", "opposite"]))
    x, y = list(spec["x"]), list(spec["y"])
    if kind == "near":
        # starts close to the origin, but not at it
        x = [draw(st.sampled_from(TINY)), x[1] - x[0], max(2, x[2])]
        y = [0, y[1] - y[0], max(2, y[2])]
    elif kind == "opposite":
        low = draw(st.sampled_from([0.25, 1, 0.7]))
        sign = draw(st.sampled_from([-1, 1]))
        x = [sign * low, sign * low + x[1] - x[0], x[2]]
        y = [-sign * low, -sign * low + y[1] - y[0], y[2]]
        if y[0] < 0 < y[1]:
            y[1] = 0
    spec = dict(spec, x=x, y=y)
    if kind != "any":
        spec["max_rf"] = min(spec["max_rf"], round(grids.rf_cap(x, y,
                             300.0), 3))
    return spec


SUBS = [Sub("symmetry", strategy_q1, check_symmetry, 90, 1500, shards=3,
            thorough_shards=6),
        Sub("quadrants", strategy_pairs, check_quadrants, 60, 900, shards=4,
            thorough_shards=8),
        Sub("free", strategy_free, check_free, 100, 1500, shards=2,
            thorough_shards=4)]
