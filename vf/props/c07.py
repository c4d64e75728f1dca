"""C07: the true disk survives the masks and is the best solution."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid, eclipse parameters, measurement positions, "
        "transmission changes and a grid point with a disk. The light curve "
        "gradients are those of that disk. It is non-trivial when at least "
        "one other grid point with a disk is masked and at least two "
        "gradients are defined.")
ASSUMPTIONS = ["measurements at the centre of the disk are left out: it has "
               "no gradient there",
               "gradients are lowered by 1e-12 of their value, so that "
               "rounding does not decide"]
TINY = 1e-12


@st.composite
def strategy(draw):
    n = draw(st.integers(1, 5))
    return dict(
        spec=draw(world.small_specs(max_count=4, resolutions=(10, 100),
                                    min_values=True)),
        eclipse=draw(world.eclipses()),
        positions=draw(world.close_positions(
            st.lists(world.POSITIONS, min_size=n, max_size=n))),
        transmissions=draw(st.none() | st.lists(world.TRANSMISSION,
                                                min_size=n, max_size=n)),
        errors=draw(st.none() | st.lists(world.ERRORS, min_size=n,
                                         max_size=n)),
        point=draw(st.integers(0, 10 ** 6)),
        source=draw(st.sampled_from(["grid", "ellipse"])),
        calls=draw(st.sampled_from(["once", "each"])),
        weighted=draw(st.booleans()),
        lower=draw(st.lists(st.integers(0, 100), min_size=n, max_size=n)),
        higher=draw(st.lists(st.integers(0, 100), min_size=n, max_size=n)),
        hill=draw(st.none() | st.integers(0, 100)))


def check(case, ctx):
    spec, eclipse = case["spec"], case["eclipse"]
    grid = grids.build(spec)
    radius = grids.raw(grid, "disk_radius")
    disks = ~np.isnan(radius)
    points = np.argwhere(disks)
    index = tuple(int(k) for k in points[case["point"] % len(points)])
    positions = np.array(case["positions"])
    times = -positions * eclipse[0]
    n = len(positions)
    trans = (np.ones(n) if case["transmissions"] is None
             else np.array(case["transmissions"]))
    errors = np.ones(n) if case["errors"] is None else np.array(case["errors"])
    grid.set_eclipse_parameters(*eclipse)

    # what a light curve of this disk would show
    grid.add_gradients(times, np.zeros(n))
    _, _, (_, gradients) = grid.get_grid_point_data(*index, masked=False)
    (r, inclination, tilt, dx, dy), _, _ = grid.get_grid_point_data(
        *index, masked=False)
    x = -times / eclipse[0]
    margin = TINY
    if case["source"] == "ellipse":
        gradients = grids.tangent(dx, dy, inclination, tilt, x)
        c2 = np.cos(np.deg2rad(inclination)) ** 2
        # what the rounded disk parameters leave undetermined
        away = np.hypot(x - dx, dy)
        phi = np.deg2rad(tilt)
        u = (x - dx) * np.cos(phi) - dy * np.sin(phi)
        v = -(x - dx) * np.sin(phi) - dy * np.cos(phi)
        with np.errstate(all="ignore"):
            unsure = 1e-9 + 1e-11 * away / np.hypot(u * c2, v)
        gradients = np.where(unsure < 1e-4, gradients - unsure, np.nan)
        gradients[gradients < 0] = 0
        margin = 1e-4
    # a disk centre or one that can hardly be told from it
    defined = ~np.isnan(gradients)
    if not defined.any():
        ctx.label("no gradient is defined")
        return
    times, trans, errors = times[defined], trans[defined], errors[defined]
    gradients = gradients[defined]
    n = len(times)
    measured = gradients * world.slope(eclipse) * trans * (1 - TINY)
    grid.set_eclipse_parameters(*eclipse)       # forget the gradients

    def add(t, m, e, s):
        kw = {}
        if case["transmissions"] is not None:
            kw["transmission_changes"] = s
        if case["errors"] is not None:
            kw["light_curve_gradient_errors"] = e
        grid.add_gradients(t, m, **kw)

    if case["hill"] is not None:
        grid.generate_hill_radius_mask(
            float(r * (1 + case["hill"] / 100)))
    if case["calls"] == "once":
        add(times, measured, errors, trans)
    else:
        for k in range(n):
            add(times[k:k + 1], measured[k:k + 1], errors[k:k + 1],
                trans[k:k + 1])

    def unmasked(what):
        mask = grid.get_combined_mask()
        require(not mask[index], f"the true disk at {index} is masked {what}")
        return mask

    mask = unmasked("by its own gradients")
    for name in ("disk_radius", "inclination", "tilt"):
        value = getattr(grid, f"get_{name}")()[index]
        require(value == grids.raw(grid, name)[index],
                f"the {name} of the true disk is {value}")
    grid.determine_gradient_fit(case["weighted"])
    fit = grid.get_gradient_fit()
    weight = np.sum(1 / errors ** 2) if case["weighted"] else n
    zero = (1e-11 + (margin if margin > TINY else 0)) ** 2 * weight
    require(0 <= fit[index] <= zero, lambda: f"the fit of the true disk is "
            f"{fit[index]!r} with gradients {gradients.tolist()}")
    require(np.array_equal(np.isnan(fit), mask),
            "the fit does not exist exactly at the unmasked points")
    require(np.nanmin(fit) >= 0 and fit[index] - np.nanmin(fit) <= zero,
            "another point fits better than the true disk")
    solution = grid.extract_solutions(1)
    require(solution[0].shape == (1,) and 0 <= solution[0][0] <= zero,
            lambda: f"the rms of the best solution is {solution[0]}")
    if (fit <= zero).sum() == 1:
        require([float(s[0]) for s in solution[1:]]
                == [float(v) for v in (r, inclination, tilt, dx, dy)],
                "the best solution is not the true disk")
        ctx.label("unique solution")
    ctx.nontrivial(n > 1 and bool((mask & disks).any()))
    ctx.label("masked disks", int((mask & disks).sum()))
    ctx.label("disks", int(disks.sum()))

    # overestimated transmission changes keep it
    higher = trans + np.array(case["higher"])[:n] / 100 * (1 - trans)
    grid.update_gradient_scaling(transmission_changes=higher)
    unmasked("after the transmission changes were raised")
    # lower gradients keep it
    lower = measured * np.array(case["lower"])[:n] / 100
    grid.set_eclipse_parameters(*eclipse)
    grid.add_gradients(times, lower, transmission_changes=trans)
    unmasked("by lower gradients")
    # a faster disk has lower scaled gradients
    grid.update_gradient_scaling(transverse_velocity=eclipse[1] * 1.5)
    unmasked("by a higher velocity")


SUBS = [Sub("truth", strategy, check, 150, 3000, shards=8,
            thorough_shards=16)]
