"""C12: the data of a grid point agree with cubes, vectors and gradients."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, require

LEVEL = "exploration"
RULE = ("A case is a grid with optional masks and gradients; all index "
        "triples of the grid (up to 60, chosen evenly) are looked up, and "
        "invalid ones. It is non-trivial when the three sizes differ and "
        "gradients are present.")
ASSUMPTIONS = ["the own mask of a property also applies when the combined "
               "mask is not asked for, as in the getters"]


@st.composite
def strategy(draw):
    return dict(spec=draw(world.small_specs(max_count=4)),
                eclipse=draw(world.eclipses()),
                m=draw(st.none() | world.measurements(max_size=3)),
                update=draw(st.booleans()),
                hill=draw(st.none() | st.integers(10, 200)),
                masks=draw(st.lists(st.tuples(st.sampled_from([
                    "inclination", "tilt", "fx_map", "fy_map", "disk_radius"]),
                    st.integers(0, 2 ** 30)).map(list), max_size=3)),
                start=draw(st.integers(0, 1000)),
                integer=draw(st.sampled_from(["int", "int64", "int32",
                                              "int8"])),
                wrong=draw(st.lists(st.tuples(st.integers(0, 2),
                    st.sampled_from(["size", "negative", "far", "float",
                        "np.float64", "str", "None", "slice"])).map(list),
                    min_size=1, max_size=3)))


def check(case, ctx):
    grid = grids.build(case["spec"])
    dx, dy, rf = grids.vectors(case["spec"])
    shape = (len(dy), len(dx), len(rf))
    positions = None
    if case["m"] is not None:
        grid.set_eclipse_parameters(*case["eclipse"])
        world.add(grid, case["m"], case["eclipse"])
        if case["update"]:
            grid.update_gradient_scaling(
                transverse_velocity=case["eclipse"][1] * 1.25)
        positions = -world.light_curve(case["m"], case["eclipse"])[0] \
            / case["eclipse"][0]
    if case["hill"] is not None:
        grid.generate_hill_radius_mask(case["hill"] / 20)
    for name, number in case.get("masks", []):
        bits = np.arange(np.prod(shape)) * 2654435761 + number
        getattr(grid, name).set_mask(((bits >> 7) % 4 == 0).reshape(shape))
    names = ("disk_radius", "inclination", "tilt", "fx_map", "fy_map",
             "diagnostic_map")
    total = int(np.prod(shape))
    chosen = sorted({(case["start"] + k * total // 60) % total
                     for k in range(min(60, total))})
    integer = {"int": int, "int64": np.int64, "int32": np.int32,
               "int8": np.int8}[case["integer"]]
    for masked in (None, True, False):
        flag = () if masked is None else (masked,)
        show = masked in (None, True)
        cubes = {n: getattr(grid, f"get_{n}")(show) for n in names}
        gradients = None
        if positions is not None:
            gradients = grid.get_gradients(False, show)[3]
        for k in chosen:
            y, x, r = (int(v) for v in np.unravel_index(k, shape))
            disk, point, (p, g) = grid.get_grid_point_data(
                integer(y), integer(x), integer(r), *flag)
            cube = {n: c[y, x, r] for n, c in cubes.items()}
            want = (cube["disk_radius"], cube["inclination"], cube["tilt"],
                    dx[x], dy[y])
            require(len(disk) == 5 and world.same(np.array(disk, float),
                                                  np.array(want)),
                    lambda: f"the disk at {(y, x, r)} (masked={masked}) is "
                    f"{disk} instead of {want}")
            want = (rf[r], cube["fx_map"], cube["fy_map"],
                    cube["diagnostic_map"])
            require(len(point) == 4 and world.same(np.array(point, float),
                                                   np.array(want)),
                    lambda: f"the grid data at {(y, x, r)} (masked={masked}) "
                    f"are {point} instead of {want}")
            if positions is None:
                require(p is None and g is None, "gradients without any")
                continue
            require(world.near(np.asarray(p, float), positions),
                    lambda: f"the positions are {p} instead of {positions}")
            require(world.same(np.asarray(g, float), gradients[:, y, x, r]),
                    lambda: f"the gradients at {(y, x, r)} (masked={masked}) "
                    f"are {g} instead of {gradients[:, y, x, r]}")
    for axis, kind in case["wrong"]:
        index = [0, 0, 0]
        index[axis] = {"size": shape[axis], "negative": -1,
                       "far": shape[axis] + 7, "float": 0.0,
                       "np.float64": np.float64(0), "str": "0",
                       "None": None, "slice": slice(None)}[kind]
        expect_error((ValueError, TypeError), grid.get_grid_point_data,
                     *index)
        ctx.label(f"rejected: {kind}")
    ctx.nontrivial(len(set(shape)) == 3 and positions is not None)


SUBS = [Sub("lookup", strategy, check, 90, 2000, shards=8,
            thorough_shards=16)]
