"""C11: the closest grid point is the true nearest neighbour."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, require

LEVEL = "exploration"
RULE = ("A case is a grid, optional masks (Hill radius, gradients, tilt) and "
        "queries: parameters of a grid point, slightly or far off, or free. "
        "It is non-trivial when a query off the grid has candidates with "
        "different disk radius, inclination, tilt and dy.")
ASSUMPTIONS = ["distances of disk radius, inclination, tilt and dy are added "
               "in quadrature as plain numbers (the tilt is not periodic)",
               "rows with dy = 0 are on both sides; all rows count for an "
               "impact parameter of 0",
               "there is an unmasked point on the side of the impact "
               "parameter"]


@st.composite
def query(draw):
    kind = draw(st.sampled_from(["point", "near", "free", "dy"]))
    out = dict(kind=kind, point=draw(st.integers(0, 10 ** 6)),
               masked=draw(st.sampled_from([None, True, False])))
    if kind == "near":
        out["off"] = draw(st.lists(st.integers(-200, 200).map(
            lambda k: k / 100), min_size=4, max_size=4))
    if kind == "free":
        # far beyond any grid as well, where only the side counts
        out["values"] = [draw(grids.seldom(
                             st.integers(0, 500).map(lambda k: k / 100),
                             st.sampled_from([30., 1e3, 1e5, 1e9, 1e9]), 4)),
                         draw(st.integers(0, 900)) / 10,
                         draw(st.integers(-1800, 1800)) / 10,
                         draw(st.integers(-500, 500)) / 100]
    if kind == "dy":
        out["impact"] = draw(st.sampled_from([-3.0, -0.5, -1e-9, 0.0, 0,
                                              1e-9, 0.25, 2.0, 6, 500.,
                                              -3e4, 2e5]))
    return out


@st.composite
def strategy(draw):
    return dict(spec=draw(world.small_specs(max_count=4, min_values=True)),
                eclipse=draw(world.eclipses()),
                m=draw(st.none() | world.measurements(max_size=2,
                    fractions=st.integers(0, 300).map(lambda k: k / 1000))),
                hill=draw(st.none() | st.integers(10, 300)),
                tilt_mask=draw(st.none() | st.integers(0, 2 ** 30)),
                queries=draw(st.lists(query(), min_size=1, max_size=5)))


def check(case, ctx):
    grid = grids.build(case["spec"])
    dx, dy, rf = grids.vectors(case["spec"])
    shape = (len(dy), len(dx), len(rf))
    if case["m"] is not None:
        grid.set_eclipse_parameters(*case["eclipse"])
        world.add(grid, case["m"], case["eclipse"])
    if case["hill"] is not None:
        grid.generate_hill_radius_mask(case["hill"] / 20)
    if case["tilt_mask"] is not None:
        bits = np.arange(np.prod(shape)) * 2654435761 + case["tilt_mask"]
        grid.tilt.set_mask(((bits >> 7) % 4 == 0).reshape(shape))
    combined = grid.get_combined_mask()
    yy = np.broadcast_to(dy[:, None, None], shape)
    for q in case["queries"]:
        masked = q["masked"] in (None, True)
        cubes = [getattr(grid, f"get_{n}")(masked) for n in
                 ("disk_radius", "inclination", "tilt")]
        usable = ~np.isnan(sum(cubes))
        if masked:
            require(np.array_equal(usable, ~combined
                                   & ~np.isnan(grids.raw(grid, "tilt"))),
                    "the masked cubes do not follow the combined mask")
        points = np.argwhere(usable)
        if not len(points):
            ctx.label("everything is masked")
            continue
        start = tuple(points[q["point"] % len(points)])
        values = [float(c[start]) for c in cubes] + [float(yy[start])]
        if q["kind"] == "near":
            scale = [0.3, 5, 10, 0.3]
            values = [v + o * s for v, o, s in zip(values, q["off"], scale)]
            values[0] = max(0., values[0])
            values[1] = min(90., max(0., values[1]))
            values[2] = min(180., max(-180., values[2]))
        elif q["kind"] == "free":
            values = q["values"]
        elif q["kind"] == "dy":
            values[3] = q["impact"]
        r, inclination, tilt, impact = values
        side = usable & ~((yy > 0) & (impact < 0)) & ~((yy < 0)
                                                       & (impact > 0))
        if not side.any():
            ctx.label("no point on this side")
            continue
        distance = np.sqrt((cubes[0] - r) ** 2 + (cubes[1] - inclination) ** 2
                           + (cubes[2] - tilt) ** 2 + (yy - impact) ** 2)
        best = float(distance[side].min())
        args = (r, inclination, tilt, impact)
        if q["masked"] is not None:
            args += (q["masked"],)
        coordinates, indices, reported = grid.determine_closest_grid_point(
            *args)
        require(len(indices) == 3 and len(coordinates) == 3,
                "indices and coordinates are not triples")
        indices = tuple(int(k) for k in indices)
        require(all(0 <= k < n for k, n in zip(indices, shape)),
                f"the indices {indices} are outside the grid")
        slack = 1e-9 * (1 + best)
        require(side[indices], lambda: f"{args}: the closest point {indices} "
                "is masked, without values or on the other side")
        require(distance[indices] <= best + slack, lambda: f"{args}: the "
                f"point {indices} is {distance[indices]!r} away, the closest "
                f"is {best!r} away")
        require(abs(reported - best) <= slack, lambda: f"{args}: the "
                f"distance is {reported!r} instead of {best!r}")
        want = (dy[indices[0]], dx[indices[1]], rf[indices[2]])
        require(tuple(float(c) for c in coordinates)
                == tuple(float(c) for c in want), lambda: f"{args}: the "
                f"coordinates {coordinates} are not {want}")
        if q["kind"] == "point":
            require(reported == 0, lambda: f"the point {start} does not find "
                    f"itself: the distance is {reported!r}")
        elif all(len(np.unique(c[side])) > 1 for c in cubes + [yy]):
            ctx.nontrivial()
        ctx.label(f"{q['kind']}, {'masked' if masked else 'unmasked'}")
        ctx.label("candidates excluded by side", int((usable & ~side).any()))
    wrong = [(-0.1, 1, 1, 1), (1, -1, 1, 1), (1, 90.1, 1, 1), (1, 1, 181, 1),
             (1, 1, -181, 1), ("1", 1, 1, 1), (1, 1, 1, None)]
    args = wrong[case["queries"][0]["point"] % len(wrong)]
    expect_error((ValueError, TypeError), grid.determine_closest_grid_point,
                 *args)


SUBS = [Sub("closest", strategy, check, 110, 3000, shards=8,
            thorough_shards=16)]
