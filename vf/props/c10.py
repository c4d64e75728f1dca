"""C10: the combined mask is the union of all masks, getters apply it."""
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, expect_error, require

LEVEL = "exploration"
RULE = ("A case is a grid and a history of up to 8 calls: Hill radius masks, "
        "user masks, gradients added, removed and fitted, and arrays that "
        "were read and then overwritten. After every call all getters are "
        "compared with the stored values and the modelled masks. It is "
        "non-trivial when two kinds of masks select different points with "
        "disks and leave others.")
ASSUMPTIONS = ["a property mask is only applied to its own property, the "
               "combined mask to all"]


@st.composite
def operation(draw):
    kind = draw(st.sampled_from(["hill", "hill", "mask", "mask", "add",
        "add", "remove", "fit", "overwrite", "overwrite", "bad hill"]))
    if kind == "hill":
        return [kind, draw(st.sampled_from(["value", "disk", "disk", "all",
                                            "none"])),
                draw(st.integers(0, 10 ** 5)), draw(st.integers(0, 2))]
    if kind == "mask":
        return [kind, draw(st.sampled_from(["disk_radius", "inclination",
            "tilt", "fx_map", "fy_map"])), draw(st.integers(0, 2 ** 30)),
            draw(st.integers(2, 6)), draw(st.integers(0, 2))]
    if kind == "add":
        return [kind, draw(world.measurements(max_size=2))]
    if kind in ("remove", "overwrite"):
        return [kind, draw(st.integers(0, 50))]
    if kind == "bad hill":
        return [kind, draw(st.sampled_from([-1.0, "1", "nan"]))]
    return [kind]


@st.composite
def strategy(draw):
    return dict(spec=draw(world.small_specs(max_count=3, min_values=True)),
                eclipse=draw(world.eclipses()),
                ops=draw(st.lists(operation(), min_size=1, max_size=8)))


def check(case, ctx):
    grid = grids.build(case["spec"])
    eclipse = case["eclipse"]
    grid.set_eclipse_parameters(*eclipse)
    stored = {name: grids.raw(grid, name).copy() for name in grids.CUBES}
    radius = stored["disk_radius"]
    disks = ~np.isnan(radius)
    masks = {name: None for name in grids.CUBES}
    gradients, gradient_masks, measured = [], [], []
    fit = None
    partial = set()

    def union():
        mask = np.zeros(radius.shape, bool)
        for m in [masks["disk_radius"], masks["inclination"], masks["tilt"]
                  ] + gradient_masks:
            if m is not None:
                mask |= m
        return mask

    def compare(after):
        combined = grid.get_combined_mask()
        want = union()
        require(combined.dtype == bool and combined.shape == want.shape,
                f"the combined mask is {combined.dtype} {combined.shape}")
        bad = combined != want
        require(not bad.any(), lambda: f"the combined mask at "
                f"{world.first(bad)} is {combined[bad][0]} after {after}")
        for name in grids.CUBES:
            own = (masks[name] if masks[name] is not None
                   else np.zeros(radius.shape, bool))
            get = getattr(grid, f"get_{name}")
            for masked in (True, False):
                for property_masked in (True, False):
                    hide = (want & masked) | (own & property_masked)
                    got = get(masked, property_masked)
                    require(world.same(got, np.where(hide, np.nan,
                                                     stored[name])),
                            f"get_{name}({masked}, {property_masked}) is not "
                            f"the stored data with the asked masks after "
                            f"{after}")
            require(world.same(get(), np.where(want | own, np.nan,
                                               stored[name])),
                    f"get_{name}() does not apply all masks after {after}")
        if gradients:
            for masked in (True, False):
                for property_masked in (True, False):
                    got = grid.get_gradients(masked, property_masked)[3]
                    require(len(got) == len(gradients),
                            f"{len(got)} gradients after {after}")
                    for k, g in enumerate(gradients):
                        hide = (want & masked) | (gradient_masks[k]
                                                  & property_masked)
                        require(world.same(got[k], np.where(hide, np.nan, g)),
                                f"get_gradients({masked}, {property_masked}) "
                                f"does not apply the asked masks after "
                                f"{after}")
            require(world.same(grid.get_gradients()[3],
                               grid.get_gradients(False, True)[3]),
                    "the default masking of get_gradients changed")
        for masked in (True, False):
            for property_masked in (True, False):
                got = grid.get_gradient_fit(masked, property_masked)
                if fit is None:
                    require(got is None, "there is a fit")
                    continue
                hide = (want & masked) | (np.isnan(fit) & property_masked)
                require(world.same(got, np.where(hide, np.nan, fit)),
                        f"get_gradient_fit({masked}, {property_masked}) does "
                        f"not apply the asked masks after {after}")

    compare("the build")
    for number, op in enumerate(case["ops"]):
        kind = op[0]
        if kind == "hill":
            values = radius[disks]
            hill = (float(values[op[2] % len(values)]) if op[1] == "disk"
                    else op[2] / 20000 if op[1] == "value"
                    else np.inf if op[1] == "all" else 0.0)
            if op[1] == "value" and np.any(values == hill):
                hill = hill + 0.001
            for k in range(op[3]):
                # others that are not read
                grid.generate_hill_radius_mask(hill * (k + 2) / 4)
            grid.generate_hill_radius_mask(hill)
            masks["disk_radius"] = ~disks | ~(radius <= hill)
            if masks["disk_radius"][disks].any():
                partial.add("hill")
            ctx.label("hill radius equals a disk radius", op[1] == "disk")
        elif kind == "bad hill":
            hill = np.nan if op[1] == "nan" else op[1]
            expect_error((ValueError, TypeError),
                         grid.generate_hill_radius_mask, hill)
        elif kind == "mask":
            bits = np.arange(radius.size) * 2654435761 + op[2]
            mask = ((bits >> 7) % op[3] == 0).reshape(radius.shape)
            for k in range(op[4]):
                getattr(grid, op[1]).set_mask(((bits >> 5) % (k + 2) == 0
                                               ).reshape(mask.shape))
            getattr(grid, op[1]).set_mask(mask.copy())
            masks[op[1]] = mask
            partial.add(op[1])
        elif kind == "add":
            if len(gradients) < 5:
                world.add(grid, op[1], eclipse)
                times, light, _, t = world.light_curve(op[1], eclipse)
                data = grid.get_gradients(False, False)
                new = len(times)
                for k in range(len(gradients), len(gradients) + new):
                    scaled, g = data[1][k], data[3][k].copy()
                    gradients.append(g)
                    mask, clear = world.masked_by(g, scaled)
                    # rounding decides nothing here, the code did
                    mask = np.where(clear, mask, grid.gradients[k].mask)
                    gradient_masks.append(mask)
                    if mask[disks].any() and not mask[disks].all():
                        partial.add("gradient")
                fit = None
        elif kind == "remove":
            if gradients:
                k = op[1] % len(gradients)
                grid.remove_gradients(np.array([k]))
                del gradients[k], gradient_masks[k]
                fit = None
        elif kind == "fit":
            if gradients:
                grid.determine_gradient_fit()
                fit = grid.get_gradient_fit(False, False).copy()
        else:
            # what was read belongs to the reader
            value = [0.0, np.nan, 7.0][op[1] % 3]
            for name in grids.CUBES:
                for masked in (True, False):
                    getattr(grid, f"get_{name}")(masked, masked)[...] = value
            grid.get_combined_mask()[...] = bool(op[1] % 2)
            if gradients:
                for a in grid.get_gradients(bool(op[1] % 2)):
                    a[...] = value
            if fit is not None:
                grid.get_gradient_fit()[...] = value
                grid.extract_solutions(min(2, int((~union()).sum())))
            grid.determine_closest_grid_point if union().all() else \
                grid.determine_closest_grid_point(1., 45, 90, 0.5)
            point = grid.get_grid_point_data(0, 0, 0)
            if point[2][0] is not None:
                point[2][0][...] = value
                point[2][1][...] = value
        compare(f"call {number} ({kind})")
        ctx.label(kind)
    want = union()
    ctx.nontrivial(len(partial) > 1 and bool((~want).any()))


@st.composite
def strategy_many(draw):
    # gradients so low that some points are left, or so steep that every one
    # masks most
    # (these are counted in the bytes of some types)
    least, largest = draw(st.sampled_from(
        [(0, 1), (0, 10), (0, 300), (0, 999), (700, 999), (990, 999)]))
    m = draw(world.many(largest=largest, least=least))
    return dict(spec=draw(world.small_specs(max_count=2, min_values=True)),
                eclipse=draw(world.eclipses()),
                ops=[["add", m]] + draw(st.lists(operation(), max_size=2)))


SUBS = [Sub("masks", strategy, check, 100, 2500, shards=8,
            thorough_shards=16),
        Sub("many", strategy_many, check, 6, 60, shards=4,
            thorough_shards=4)]
