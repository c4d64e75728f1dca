"""C26: a disk of the grid, drawn as a ring system, eclipses as measured."""
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.patches import PathPatch

import grids
import world
from core import Sub, require
from props.c21 import QUIET
from props.c23 import polygons, winding
from Ring import Ring
from RingSystem import RingSystem

LEVEL = "exploration"
RULE = ("A case is a grid, measurements, a scale and a few of its disks (taken "
        "from the cubes, from single points, from the extracted solutions or "
        "from the closest grid point). Each is drawn as the outermost ring of "
        "a ring system with the disk's radius, inclination, tilt and centre, "
        "and the drawn outline is compared with the eclipse points and the "
        "stored gradients. Non-trivial when an inclined, tilted disk off both "
        "axes was drawn and one of its gradients was compared.")
ASSUMPTIONS = ["outlines may deviate by 0.1 percent (Bezier curves, in the "
               "frame of the circle)",
               "disks flatter than 1:10000 are not drawn"]


@st.composite
def strategy(draw):
    return dict(
        spec=draw(world.small_specs(max_count=4, resolutions=(20, 120),
                                    min_values=True)),
        eclipse=draw(world.eclipses()),
        m=draw(world.measurements(max_size=3, fractions=st.one_of(
            st.just(0.0), st.integers(0, 200).map(lambda k: k / 1000)))),
        scale=draw(st.sampled_from([1.0, 0.37, 12.5, 200.0])),
        points=draw(st.lists(st.integers(0, 10 ** 6), min_size=2,
                             max_size=4)),
        source=draw(st.sampled_from(["cubes", "point", "solutions",
                                     "closest"])),
        rings=draw(st.integers(1, 3)),
        history=draw(st.sampled_from(["constructor", "added", "split",
                                      "split and merged"])))


def draw_outline(case, disk):
    """The closed outline of the outermost ring, drawn in the unit of the
    scale (stellar radii, say), relative to its centre."""
    radius, inclination, tilt, dx, dy = disk
    s = case["scale"]
    edges = np.linspace(0.2, 1, case["rings"] + 1) * radius * s
    values = np.linspace(0, 0.9, case["rings"])
    first = 1 if case["history"] == "added" else case["rings"]
    system = RingSystem(radius * s * 0.05, edges[:first], edges[1:first + 1],
                        values[:first], inclination, tilt, QUIET)
    for k in range(first, case["rings"]):
        system.add_ring(k, Ring(edges[k], edges[k + 1], values[k], 10, 20))
    if case["history"].startswith("split"):
        system.split_rings(3)
        if case["history"] != "split":
            system.merge_rings(1e-6 * s * radius)
    try:
        fig, ax = plt.subplots(figsize=(1, 1), dpi=30)
        system.plot(ax, x_shift=dx * s, y_shift=dy * s)
        patches = [p for p in ax.patches if isinstance(p, PathPatch)]
    finally:
        plt.close("all")
    require(len(patches) > 0, "no ring is drawn")
    shapes = [p - np.array([dx, dy]) * s for q in patches
              for p in polygons(q)]
    # the outermost outline
    return max(shapes, key=lambda p: np.hypot(p[:, 0], p[:, 1]).max())


def crossing(outline, p):
    """Directions (angles) of the drawn outline around the place where the
    ray from the centre through p leaves it."""
    a, b = outline[:-1], outline[1:]
    keep = np.hypot(*(b - a).T) > 0
    a, b = a[keep], b[keep]
    side_a = a[:, 0] * p[1] - a[:, 1] * p[0]
    side_b = b[:, 0] * p[1] - b[:, 1] * p[0]
    ahead = ((a + b) @ p) > 0
    at = np.flatnonzero((side_a * side_b <= 0) & ahead)
    require(len(at) > 0, "the outline does not surround its centre")
    k = int(at[0])
    ids = [(k + j) % len(a) for j in range(-3, 4)]
    d = b[ids] - a[ids]
    return np.unwrap(np.arctan2(d[:, 1], d[:, 0]), period=2 * np.pi)


def sines(angles):
    """Range of |sin| over the directions between the given angles."""
    low, high = angles.min(), angles.max()
    ends = np.abs(np.sin([low, high]))
    top = 1.0 if (np.floor((high - np.pi / 2) / np.pi)
                  != np.floor((low - np.pi / 2) / np.pi)) else ends.max()
    bottom = 0.0 if np.floor(high / np.pi) != np.floor(low / np.pi) else (
        ends.min())
    return bottom, top


def check(case, ctx):
    grid = grids.build(case["spec"])
    grid.set_eclipse_parameters(*case["eclipse"])
    world.add(grid, case["m"], case["eclipse"])
    grid.determine_gradient_fit()
    mask = grid.get_combined_mask()
    free = np.argwhere(~mask)
    if len(free) == 0:
        ctx.label("everything is masked")
        return
    dy, dx, _ = grid.parameters.get_vectors()
    cubes = [getattr(grid, f"get_{n}")() for n in ("disk_radius",
             "inclination", "tilt")]
    positions, _, _, gradients = grid.get_gradients()
    solutions = np.array(grid.extract_solutions()).T
    good = 0
    for number in case["points"]:
        y, x, r = (int(k) for k in free[number % len(free)])
        stored = gradients[:, y, x, r]
        if case["source"] == "cubes":
            disk = [c[y, x, r] for c in cubes] + [dx[x], dy[y]]
        elif case["source"] == "point":
            data, _, (_, stored) = grid.get_grid_point_data(y, x, r)
            disk = list(data)
        elif case["source"] == "solutions":
            disk = list(solutions[number % len(solutions)][1:])
            at = np.argwhere((cubes[0] == disk[0]) & (cubes[1] == disk[1])
                             & (cubes[2] == disk[2])
                             & (dx[None, :, None] == disk[3])
                             & (dy[:, None, None] == disk[4]))
            require(len(at) > 0, f"the solution {disk} is no grid point")
            stored = gradients[(slice(None), *at[0])]
        else:
            own = [c[y, x, r] for c in cubes]
            _, (y, x, r), _ = grid.determine_closest_grid_point(
                *(float(v) for v in own), float(dy[y]))
            disk = [c[y, x, r] for c in cubes] + [dx[x], dy[y]]
            stored = gradients[:, y, x, r]
        disk = [float(v) for v in disk]
        if np.cos(np.deg2rad(disk[1])) < 1e-4:
            ctx.label("too flat")
            continue
        what = (f"the disk with radius {disk[0]}, inclination {disk[1]}, tilt "
                f"{disk[2]} centred on {tuple(disk[3:])}")
        outline = draw_outline(case, disk)
        centre, s = np.array(disk[3:]), case["scale"]
        # the drawn disk covers the star from -1/2 to 1/2, and not longer
        for end in (-0.5, 0.5):
            p = (np.array([end, 0.0]) - centre) * s
            near = np.stack((p * 0.998, p * 1.002))
            inside = winding(outline, near) != 0
            require(inside.tolist() == [True, False], lambda: f"{what} does "
                    f"not {'start' if end < 0 else 'end'} the eclipse at "
                    f"{end} when it is drawn")
        compared = 0
        for position, value in zip(positions, stored):
            p = (np.array([position, 0.0]) - centre) * s
            if np.isnan(value) or np.hypot(*p) < 1e-6 * s:
                continue
            low, high = sines(crossing(outline, p))
            require(low - 1e-6 <= value <= high + 1e-6, lambda: f"{what} has "
                    f"the gradient {value} at {position}, but is drawn with "
                    f"{low} to {high}")
            compared += 1
            ctx.label("gradients compared")
        good += (compared and 1 < disk[1] < 89 and disk[2] % 90 != 0
                 and disk[3] != 0 and disk[4] != 0)
        ctx.label("disks drawn")
    ctx.nontrivial(good > 0)
    ctx.label(case["source"])


SUBS = [Sub("drawn", strategy, check, 60, 1200, shards=8, thorough_shards=16)]
