"""C06: light curve gradients are scaled by velocity, limb darkening and
transmission, and masks compare them with the disk gradients."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, require
from GridParameters import GridParameters
from GridProperty import GridGradient

LEVEL = "exploration"
RULE = ("scaling: a case is a grid, eclipse parameters, measurements and new "
        "scaling factors; non-trivial when a mask selects some but not all "
        "points with a disk. steepness: an opaque edge moved across a "
        "numerically integrated star; non-trivial with limb darkening. "
        "masks: a gradient with dyadic data and scaling factors, so that "
        "equality is exact; non-trivial when some datum equals the scaled "
        "gradient. reject: non-trivial always (a scaled gradient above one).")
ASSUMPTIONS = ["the star has radius 1 R* and a linear limb darkening law",
               "velocities are positive and transmission changes not 0"]


@st.composite
def strategy_scaling(draw):
    return dict(spec=draw(world.small_specs()), eclipse=draw(world.eclipses()),
                m=draw(world.measurements()),
                velocity=draw(st.none() | st.integers(10, 60).map(
                    lambda k: k / 10) | st.sampled_from(
                        [0.5 + 1e-5, 0.5 + 1e-7])),
                darkening=draw(st.none() | world.DARKENING),
                transmissions=draw(st.none() | st.lists(st.integers(0, 100),
                    min_size=13, max_size=13)))


def compare(grid, case, eclipse, measured, trans, ctx):
    positions, scaled, errors, gradients = grid.get_gradients(
        masked=False, property_masked=False)
    masked = grid.get_gradients(masked=False, property_masked=True)[3]
    want = measured / trans / world.slope(eclipse)
    require(scaled.shape == want.shape, f"{len(scaled)} scaled gradients "
            f"instead of {len(want)}")
    bad = ~(np.abs(scaled - want) <= 1e-10 * (1e-3 + want))
    require(not bad.any(), lambda: f"the scaled gradients are "
            f"{scaled.tolist()} instead of {want.tolist()}")
    disks = ~np.isnan(grids.raw(grid, "disk_radius"))
    for k in range(len(want)):
        mask, clear = world.masked_by(gradients[k], want[k])
        exact, _ = world.masked_by(gradients[k], scaled[k])
        clear |= (gradients[k] == 0) & (measured[k] == 0)
        for name, got in (("mask", grid.gradients[k].mask),
                          ("masked read", np.isnan(masked[k]))):
            require(got is not None and got.shape == mask.shape,
                    f"gradient {k} has no mask")
            bad = clear & (got != mask)
            require(not bad.any(), lambda: f"the {name} of gradient {k} is "
                f"{got[bad][0]} at {world.first(bad)}, where the disk "
                f"gradient is {gradients[k][bad][0]!r} and the scaled "
                f"gradient {want[k]!r}")
        selected = mask & disks
        if selected.any() and not selected[disks].all():
            ctx.nontrivial()
        ctx.label("partial masks", int(selected.any()
                                       and not selected[disks].all()))


def check_scaling(case, ctx):
    grid = grids.build(case["spec"])
    eclipse = list(case["eclipse"])
    grid.set_eclipse_parameters(*eclipse)
    world.add(grid, case["m"], eclipse)
    times, measured, errors, trans = world.light_curve(case["m"], eclipse)
    trans = np.ones(len(times)) if trans is None else trans
    errors = np.ones(len(times)) if errors is None else errors
    compare(grid, case, eclipse, measured, trans, ctx)
    require(np.allclose(grid.get_gradients()[2], errors, rtol=1e-14),
            "the errors are not those of the measurements")

    # new scaling factors that only lower the scaled gradients
    kw = {}
    if case["velocity"] is not None:
        eclipse[1] = kw["transverse_velocity"] = (
            eclipse[1] * 2 * case["velocity"])
    if case["darkening"] is not None:
        # the steepest slope grows with limb darkening, by at most 18 %
        eclipse[2] = kw["limb_darkening"] = max(case["darkening"], eclipse[2])
    if case["transmissions"] is not None:
        share = np.array(case["transmissions"][:len(trans)]) / 100
        trans = trans + share * (1 - trans)
        kw["transmission_changes"] = trans.copy()
    if kw:
        grid.update_gradient_scaling(**kw)
        compare(grid, case, eclipse, measured, trans, ctx)
        ctx.label("updated " + ", ".join(sorted(kw)))


@st.composite
def strategy_steepness(draw):
    return dict(eclipse=draw(world.eclipses()),
                transmission=draw(world.TRANSMISSION),
                share=draw(st.integers(1, 99)))


PARAMETERS = dict(x=[1, 2, 1], y=[1, 2, 1], max_rf=1.5, num_rf=1, nf=5)


def flux_slope(velocity, u):
    """Largest slope of the light curve of an edge that crosses the star,
    from the difference of integrated fluxes."""
    r = (np.arange(400) + 0.5) / 400
    # flux of the star to the left of x = edge: rings of radius r
    weights = r * (1 - u * (1 - np.sqrt(1 - r * r)))
    total = np.sum(weights) * np.pi

    def covered(edge):
        share = np.arcsin(np.clip(edge / r, -1, 1)) / np.pi + 0.5
        return np.sum(weights * np.pi * share) / total
    h = 0.02
    return velocity * (covered(h) - covered(-h)) / (2 * h)


def check_steepness(case, ctx):
    duration, velocity, u = case["eclipse"]
    grid = grids.build(PARAMETERS)
    grid.set_eclipse_parameters(duration, velocity, u)
    t = case["transmission"]
    share = case["share"] / 100
    measured = share * flux_slope(velocity, u) * t
    grid.add_gradients(np.array([0.1 * duration]), np.array([measured]),
                       transmission_changes=np.array([t]))
    scaled = grid.get_gradients()[1][0]
    require(abs(scaled / share - 1) < 5e-3, lambda: f"a gradient of {share} "
            f"of the steepest slope is scaled to {scaled!r}")
    ctx.nontrivial(u > 0)


@st.composite
def strategy_masks(draw):
    ny, nx, nr = draw(st.integers(1, 3)), draw(st.integers(1, 3)), 3
    size = ny * nx * nr
    data = draw(st.lists(st.one_of(st.integers(0, 16), st.none()),
                         min_size=size, max_size=size))
    return dict(shape=[ny, nx, nr], data=data,
                measured=draw(st.sampled_from([0, 1, 2, 4, 8])),
                # relative, or 0 for the next number
                more=draw(grids.seldom(st.none(), st.sampled_from(
                    [0, 1e-12, 1e-9, 1e-6, 1e-4, 4e-4]), 3)),
                scale=draw(st.sampled_from([0.5, 1.0, 2.0, 1])),
                transmission=draw(st.sampled_from([None, 1, 0.5, 0.25])),
                error=draw(st.none() | world.ERRORS))


def check_masks(case, ctx):
    ny, nx, nr = case["shape"]
    parameters = GridParameters(0, 1, nx, 0, 1, ny, 2, 2)
    data = np.array([np.nan if v is None else v / 16 for v in case["data"]],
                    dtype=float).reshape(case["shape"])
    gradient = GridGradient(data.copy(), parameters, 0.25)
    require(gradient.get_scaled_gradient() is None,
            "a gradient without measurement has a scaled gradient")
    measured = case["measured"] / 16
    if case.get("more") is not None and measured:
        measured = (measured * (1 + case["more"]) if case["more"]
                    else float(np.nextafter(measured, 2)))
    t = 1 if case["transmission"] is None else case["transmission"]
    want = measured * case["scale"] / t
    args = [measured, case["scale"]]
    if case["transmission"] is not None or case["error"] is not None:
        args.append(case["transmission"])
    if case["error"] is not None:
        args.append(case["error"])
    if want > 1:
        expect_error(ValueError, gradient.determine_mask, *args)
        require(gradient.mask is None and gradient.measured_gradient is None,
                "a rejected measurement changed the gradient")
        ctx.label("rejected")
        return
    gradient.determine_mask(*args)
    require(gradient.get_scaled_gradient() == want, lambda: f"the scaled "
            f"gradient is {gradient.get_scaled_gradient()} instead of {want}")
    mask = np.isnan(data) | (data < want)
    require(np.array_equal(gradient.mask, mask), lambda: f"the mask is "
            f"{gradient.mask.tolist()} instead of {mask.tolist()}")
    require(world.same(gradient.get_data(True), np.where(mask, np.nan, data))
            and world.same(gradient.get_data(False), data),
            "the data do not follow the mask")
    ctx.nontrivial(bool(np.any(data == want)))
    ctx.label("equal", int(np.sum(data == want)))
    ctx.label("missing", int(np.isnan(data).sum()))


@st.composite
def strategy_reject(draw):
    m = draw(world.measurements())
    k = draw(st.integers(0, 3)) % len(m["positions"])
    m["fractions"][k] = draw(world.TOO_LARGE)
    return dict(eclipse=draw(world.eclipses()), m=m, spec=dict(
        x=[0, 1, 2], y=[0, 1, 2], max_rf=2.0, num_rf=2, nf=10))


def check_reject(case, ctx):
    grid = grids.build(case["spec"])
    grid.set_eclipse_parameters(*case["eclipse"])
    expect_error(ValueError, world.add, grid, case["m"], case["eclipse"])
    ctx.nontrivial()
    ctx.label("with transmission", case["m"]["transmissions"] is not None)


SUBS = [Sub("scaling", strategy_scaling, check_scaling, 130, 2500, shards=5,
            thorough_shards=8),
        Sub("steepness", strategy_steepness, check_steepness, 250, 3000),
        Sub("masks", strategy_masks, check_masks, 700, 12000, shards=1,
            thorough_shards=2),
        Sub("reject", strategy_reject, check_reject, 250, 3000)]
