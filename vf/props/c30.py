"""C30: a grid point does not depend on the rest of the grid."""
import shutil

import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a grid and a second one with some of its rows, columns "
        "and radii (every n-th of a range), the same largest extents and "
        "resolution, built with other options or after another grid. All "
        "values, gradients, masks and fits of the common points are compared "
        "exactly up to rounding. Non-trivial when at least four common "
        "points with values were compared and the grids differ.")
ASSUMPTIONS = ["coordinates are multiples of a power of two, so that common "
               "points are exactly equal",
               "both grids have the same largest abs(dx) and abs(dy), or none "
               "above 1 (the sampling of stretch factors depends on them)",
               "values may differ by 1e-9 (relative), masks and fits only "
               "where this decides"]
TOLERANCE = 1e-9


def axis(draw, start, step, count):
    """Range of an axis, and a selection [first, stride, number] of it."""
    first = draw(st.integers(0, count - 1))
    stride = draw(st.integers(1, max(1, count - 1)))
    number = draw(st.integers(1, (count - 1 - first) // stride + 1))
    if draw(st.booleans()):         # the last one is often needed
        first = (count - 1 - (number - 1) * stride)
    if draw(st.integers(0, 3)) == 0:
        first, stride, number = 0, 1, count
    return [start, step, count], [first, stride, number]


@st.composite
def strategy(draw):
    mirrored = draw(st.booleans())
    out = dict(mirrored=mirrored)
    for name in "xy":
        step = draw(st.sampled_from([0.0625, 0.125, 0.25, 0.5, 0.75]))
        count = draw(st.integers(1, 5))
        start = 0.0 if mirrored else draw(st.integers(-4, 3)) * step
        out[name], out["sub " + name] = axis(draw, start, step, count)
    if not mirrored and out["x"][0] == 0 and out["y"][0] == 0:
        out["x"][0] = -out["x"][1]
    if out["y"][2] == 1 and out["y"][0] == 0:
        out["y"][2] = 2             # a grid with values
    out["rf"] = [draw(st.sampled_from([0.125, 0.25, 0.5, 1.0])),
                 draw(st.integers(1, 6))]
    out["sub rf"] = [draw(st.integers(1, 3)), draw(st.integers(1, 6))]
    out["nf"] = draw(st.integers(10, 150))
    out["options"] = draw(st.sampled_from([[], ["keep_diagnostics"],
        ["intermittent_saving"], ["keep_diagnostics",
                                  "intermittent_saving"]]))
    out["between"] = draw(st.booleans())
    out["eclipse"] = draw(world.eclipses())
    out["m"] = draw(world.measurements(max_size=3, fractions=st.integers(
        0, 400).map(lambda k: k / 1000)))
    return out


def largest(values):
    return max(1.0, float(np.abs(values).max()))


def spec_of(xs, ys, step_rf, count_rf, nf):
    out = dict(nf=nf, num_rf=count_rf,
               max_rf=1 + step_rf * max(count_rf - 1, 1))
    for name, v in (("x", xs), ("y", ys)):
        high = v[-1] if len(v) > 1 else v[0] + 1
        out[name] = [float(v[0]), float(high), len(v)]
    if count_rf == 1:
        out["max_rf"] = 1 + step_rf
    return out


def check(case, ctx):
    shutil.rmtree("__temp__", ignore_errors=True)
    xs, ys = (case[n][0] + case[n][1] * np.arange(case[n][2]) for n in "xy")
    sub = []
    for n, v in (("x", xs), ("y", ys)):
        first, stride, number = case["sub " + n]
        v2 = v[first::stride][:number]
        if largest(v2) != largest(v):
            # extend the selection to the end, where the extent is reached
            at = int(np.abs(v).argmax())
            v2 = v[at:at + 1] if number == 1 else v
        sub.append(v2)
    step_rf, count_rf = case["rf"]
    cap = min(grids.rf_cap([v.min(), v.max(), len(v)], [w.min(), w.max(),
              len(w)]) for v, w in ((xs, ys), sub))
    while count_rf > 1 and 1 + step_rf * (count_rf - 1) > cap:
        count_rf -= 1
    if 1 + step_rf > cap:
        step_rf, count_rf = 0.0, 1
    stride_rf = min(case["sub rf"][0], max(1, count_rf - 1))
    number_rf = min(case["sub rf"][1], (count_rf - 1) // stride_rf + 1)
    a = spec_of(xs, ys, step_rf, count_rf, case["nf"])
    b = spec_of(*sub, step_rf * stride_rf, number_rf, case["nf"])
    if b["y"][2] == 1 and b["y"][0] == 0:
        ctx.label("no grid points")
        return
    if not case["mirrored"] and b["x"][0] == b["y"][0] == 0:
        ctx.label("would be mirrored")
        return
    full = grids.build(a)
    if case["between"]:
        grids.build(dict(a, nf=case["nf"] + 7, max_rf=1.0, num_rf=2))
    part = grids.build(b, **{name: True for name in case["options"]})
    # the positions of the points of the second grid in the first one
    (fy, fx, fr), (py, px, pr) = (g.parameters.get_vectors()
                                  for g in (full, part))
    places = []
    for name, values, where in (("dy", py, fy), ("dx", px, fx)):
        at = [np.flatnonzero(where == v) for v in values]
        require(all(len(k) == 1 for k in at), lambda: f"{name} is {values} "
                f"and {where}")
        places.append(np.array([k[0] for k in at]))
    middle, middle2 = len(fr) // 2, len(pr) // 2
    places.append(middle + stride_rf * (np.arange(len(pr)) - middle2))
    require(world.near(fr[places[2]], pr), lambda: f"rf is {pr} and {fr}")
    cut = np.ix_(*places)
    what = f"{b} and {a}"
    compared = 0
    weight = None
    for name in grids.CUBES:
        one, two = grids.raw(full, name)[cut], grids.raw(part, name)
        compare(name, one, two, what, weight)
        compared = int(np.isfinite(two).sum())
        if name == "inclination":
            # a disk that is not inclined has no tilt
            weight = np.sin(np.deg2rad(one)) ** 2
        else:
            weight = None
    for g in (full, part):
        g.set_eclipse_parameters(*case["eclipse"])
        world.add(g, case["m"], case["eclipse"])
    positions, scaled, errors, one = full.get_gradients(False, False)
    again = part.get_gradients(False, False)
    require(world.same(positions, again[0]) and world.same(scaled, again[1])
            and world.same(errors, again[2]),
            "the measurements of the two grids differ")
    one = one[(slice(None), *cut)]
    gradients_equal = np.abs(one - again[3]) == 0
    decided = np.ones(again[3].shape[1:], bool)
    for k in range(len(positions)):
        compare_gradient(one[k], again[3][k], what, positions[k])
        decided &= np.abs(one[k] - scaled[k]) > 1e-6
    masks = full.get_combined_mask()[cut], part.get_combined_mask()
    wrong = (masks[0] != masks[1]) & decided
    require(not wrong.any(), lambda: f"a point is masked in one of the grids "
            f"{what}: {world.first(wrong)}")
    for g in (full, part):
        g.determine_gradient_fit()
    one, two = (full.get_gradient_fit(False, False)[cut],
                part.get_gradient_fit(False, False))
    known = gradients_equal.all(0)
    wrong = known & ~np.isclose(one, two, rtol=1e-9, atol=1e-12)
    require(not wrong.any(), lambda: f"the fit of a point differs between "
            f"the grids {what}: {world.first(wrong)}")
    if known.any():
        ctx.label("fits compared")
    if masks[0].any() and not masks[0].all():
        ctx.label("masks compared")
    ctx.nontrivial(compared > 3 and a != b)


def compare(name, one, two, what, weight):
    require((np.isnan(one) == np.isnan(two)).all(), lambda: f"{name} exists "
            f"in only one of the grids {what}")
    with np.errstate(invalid="ignore"):
        distance = np.abs(one - two)
        if name == "tilt":
            distance = np.minimum(distance, 180 - distance) * weight
        scale = 1.0 if name == "diagnostic_map" else np.maximum(1, abs(one))
        wrong = distance > TOLERANCE * scale
        if name in ("inclination", "tilt"):
            wrong = distance > 1e-6
    require(not wrong.any(), lambda: f"{name} of the point "
            f"{world.first(wrong)} differs between the grids {what}: "
            f"{two[wrong][0]} and {one[wrong][0]}")


def compare_gradient(one, two, what, position):
    require((np.isnan(one) == np.isnan(two)).all(), lambda: f"a gradient "
            f"exists in only one of the grids {what}")
    wrong = np.abs(one - two) > 1e-6
    require(not wrong.any(), lambda: f"the gradient at {position} of the "
            f"point {world.first(wrong)} differs between the grids {what}")


SUBS = [Sub("nested", strategy, check, 100, 2000, shards=8,
            thorough_shards=16)]
