"""C25: printed summaries show the true state."""
import math
import re

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, require
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty, GridPropertyViewer
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit
from props.c21 import build
from Ring import Ring

LEVEL = "exploration"
RULE = ("rings: the summaries of a ring and of a ring system after every step "
        "of a history of changes. parameters, property: summaries of "
        "generated vectors and data cubes, before and after masks and "
        "measurements, and of a viewer. grid: the summary of a grid after "
        "every step of a history of gradients. The numbers in the text are "
        "compared with values computed from the object's data. Non-trivial "
        "with at least two rings, with a mask or missing values, or with at "
        "least two gradients.")
ASSUMPTIONS = ["the labels and the number of decimals of each summary are "
               "known; a printed number may differ from the true one by half "
               "a unit of its last decimal (and rounding of means)"]

NUMBER = r"(nan|-?inf|-?\d+(?:\.\d+)?)"


def shows(text, value, slack=0.0):
    """Does the printed number show the value?"""
    if value is None or math.isnan(value):
        return text == "nan"
    if math.isinf(value):
        return text == ("inf" if value > 0 else "-inf")
    if text in ("nan", "inf", "-inf"):
        return False
    decimals = len(text.partition(".")[2])
    return abs(float(text) - value) <= (0.5 * 10.0 ** -decimals
                                        * (1 + 1e-6) + slack
                                        + 1e-12 * abs(value))


def field(text, label, value, decimals, what, slack=0.0, end=r"\s*(%|\[|$)"):
    """The one line that starts with a label shows the value."""
    found = re.findall("^" + re.escape(label) + r":\s*" + NUMBER + end, text,
                       re.M)
    require(len(found) == 1, f"{what}: {label} is shown {len(found)} times")
    number = found[0] if isinstance(found[0], str) else found[0][0]
    require(number in ("nan", "inf", "-inf")
            or len(number.partition(".")[2]) == decimals,
            f"{what}: {label} is shown as {number}")
    require(shows(number, value, slack),
            f"{what}: {label} is shown as {number}, but is {value!r}")


def printed(thing, what, both=True):
    """str and repr; both are available and repeatable."""
    a, b = str(thing), repr(thing)
    require(type(a) is str and type(b) is str and len(a) > 0, f"{what}: no "
            f"text")
    require(str(thing) == a and repr(thing) == b,
            f"{what}: the second print differs")
    if both:
        require(a == b, f"{what}: str and repr differ")
    return a


# --------------------------------------------------------------------------
# rings and ring systems
# --------------------------------------------------------------------------
def check_ring_text(ring, what):
    text = str(ring)
    before = (ring.inner_radius, ring.outer_radius, ring.transmission,
              ring.inclination, ring.tilt)
    require(str(ring) == text, f"{what}: the second print differs")
    for label, value in zip(("Inner Radius", "Outer Radius", "Transmission",
                             "Inclination", "Tilt"), before):
        field(text, label, value, 4, what)
    require(before == (ring.inner_radius, ring.outer_radius,
                       ring.transmission, ring.inclination, ring.tilt),
            f"{what}: printing changed the ring")


def check_system_text(system, rings, geometry, what):
    text = printed(system, what)
    for label, value in zip(("Planet Radius", "Inclination", "Tilt"),
                            geometry):
        field(text, label, value, 2, what)
    rows = re.findall(r"^\s*(\d+)\s+" + NUMBER + r"\s+" + NUMBER + r"\s+"
                      + NUMBER + r"\s*$", text, re.M)
    require(len(rows) == len(rings),
            f"{what}: {len(rows)} of {len(rings)} rings are shown")
    for k, (row, ring) in enumerate(zip(rows, rings)):
        require(int(row[0]) == k + 1, f"{what}: row {k + 1} is numbered "
                f"{row[0]}")
        for number, value, name in zip(row[1:], ring, ("inner radius",
                "outer radius", "transmission")):
            require(len(number.partition(".")[2]) == 2
                    and shows(number, value),
                    f"{what}: the {name} of ring {k + 1} is shown as "
                    f"{number}, but is {value!r}")


@st.composite
def strategy_rings(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 5, 11]))
    edge, rings = draw(st.integers(0, 3000)), []
    for _ in range(n):
        edge += draw(st.sampled_from([0, 0, 7, 300, 12345]))
        width = draw(st.sampled_from([1, 25, 1000, 40000]))
        rings.append([edge / 1000, (edge + width) / 1000,
                      draw(st.integers(0, 1000)) / 1000])
        edge += width
    op = st.one_of(st.tuples(st.sampled_from(["add", "remove", "replace"]),
                             st.integers(0, 11), st.integers(1, 900)),
                   st.tuples(st.just("split"), st.integers(2, 3),
                             st.integers(0, 1)),
                   st.tuples(st.just("merge"), st.integers(0, 1),
                             st.integers(0, 1)))
    return dict(planet=draw(st.integers(0, 90000)) / 1000, rings=rings,
                inclination=draw(st.integers(0, 90000)) / 1000,
                tilt=draw(st.integers(-180000, 180000)) / 1000,
                ops=[list(o) for o in draw(st.lists(op, max_size=5))])


def check_rings(case, ctx):
    system = build(case)
    geometry = case["planet"], case["inclination"], case["tilt"]

    def compare(what):
        rings = [(r.inner_radius, r.outer_radius, r.transmission)
                 for r in system.rings]
        check_system_text(system, rings, geometry, what)
        require(rings == [(r.inner_radius, r.outer_radius, r.transmission)
                          for r in system.rings]
                and geometry == (system.planet_radius, system.inclination,
                                 system.tilt),
                f"{what}: printing changed the system")
        for k, ring in enumerate(system.rings[:3]):
            check_ring_text(ring, f"{what}, ring {k}")
        return len(rings)

    most = compare("new system")
    for op, k, v in case["ops"]:
        n = len(system.rings)
        if op == "split":
            if n * k < 30:
                system.split_rings(k)
        elif op == "merge":
            system.merge_rings()
        elif op == "remove":
            if n:
                system.remove_ring(k % n)
        elif op == "replace":
            if n:
                old = system.rings[k % n]
                # smaller, as edges of ringlets can overlap by rounding
                width = old.outer_radius - old.inner_radius
                system.replace_ring(k % n, Ring(
                    old.inner_radius + width / 7, old.outer_radius
                    - width / 3, v / 1000))
        else:
            edge = system.rings[-1].outer_radius if n else 0.0
            system.add_ring(n, Ring(edge + v / 1000, edge + v / 500,
                                    v / 1000, v / 10, -v / 10))
        most = max(most, compare(f"after {op}"))
    ring = Ring(case["planet"], case["planet"] + 1.00005, 0.12345,
                case["inclination"], case["tilt"])
    check_ring_text(ring, "free ring")
    ctx.nontrivial(most > 1)
    ctx.label("no rings", len(system.rings) == 0)


# --------------------------------------------------------------------------
# grid parameters
# --------------------------------------------------------------------------
def check_parameters_text(text, dx, dy, rf, what):
    for name, v in (("dx", dx), ("dy", dy)):
        found = re.findall(rf"^{name}:\s*{NUMBER}\s*->\s*{NUMBER}\s*"
                           r"\((\d+)\)\s*$", text, re.M)
        require(len(found) == 1, f"{what}: {name} is shown {len(found)} times")
        low, high, count = found[0]
        require(shows(low, v[0]) and shows(high, v[-1])
                and int(count) == len(v),
                f"{what}: {name} is shown as {found[0]}, but is {v[0]!r} to "
                f"{v[-1]!r} with {len(v)} values")
    found = re.findall(rf"^rf:\s*{NUMBER}\s*->\s*{NUMBER}\s*->\s*{NUMBER}\s*"
                       r"\((\d+)\)\s*$", text, re.M)
    require(len(found) == 1, f"{what}: rf is shown {len(found)} times")
    first, middle, last, count = found[0]
    require(shows(first, rf[0]) and shows(middle, 1.0) and shows(last, rf[-1])
            and int(count) == len(rf), f"{what}: rf is shown as {found[0]}")
    shape = (len(dy), len(dx), len(rf))
    require(re.search(r"^grid_shape:\s*" + re.escape(str(shape)) + r"\s*$",
                      text, re.M), f"{what}: the shape is not {shape}")


def check_parameters(case, ctx):
    p = grids.parameters(case["spec"])
    dx = np.linspace(*case["spec"]["x"])
    dy = np.linspace(*case["spec"]["y"])
    rf = grids.vectors(case["spec"])[2]
    check_parameters_text(printed(p, "parameters"), dx, dy, rf, "parameters")
    if case["extend"] and grids.is_q1(case["spec"]):
        p.extend_grid()
        dx, dy, rf = grids.vectors(case["spec"])
        check_parameters_text(printed(p, "extended"), dx, dy, rf, "extended")
    require(all(np.array_equal(a, b, equal_nan=True) or np.allclose(
        a, b, atol=1e-12) for a, b in zip(p.get_vectors(), (dy, dx, rf))),
        "printing changed the vectors")
    ctx.nontrivial(len(dx) > 1 and len(dy) > 1 and len(rf) > 1)


@st.composite
def strategy_parameters(draw):
    return dict(spec=draw(grids.specs(max_count=6)), extend=draw(
        st.booleans()))


# --------------------------------------------------------------------------
# properties
# --------------------------------------------------------------------------
UNITS = {"ECLIPSE_DURATION": "$t_{ecl}$", "DEGREE": "$^o$", "NONE": "-"}


def title(name):
    return " ".join(word.capitalize() for word in name.split("_"))


def statistics(data):
    v = np.sort(data[~np.isnan(data)])
    if v.size == 0:
        return (math.nan,) * 4
    n = v.size
    middle = (float(v[(n - 1) // 2]) + float(v[n // 2])) / 2
    return float(v[0]), float(v[-1]), math.fsum(v.tolist()) / n, middle


def check_property_text(text, data, mask, name, unit, what, vectors=None,
                        gradient=None):
    first = [line for line in text.split("\n") if line.strip()][0]
    require(f"{name} [{unit}]" in first, f"{what}: the header is {first!r}")
    slack = 1e-11 * max(1.0, np.nanmax(np.abs(data), initial=0.0))
    for label, value in zip(("min value", "max value", "mean value",
                             "median value"), statistics(data)):
        field(text, label, value, 4, what, slack)
    if mask is None:
        require("mask" not in text, f"{what}: a mask is shown")
    else:
        field(text, "mask [out]", 100 * int(mask.sum()) / mask.size, 4, what,
              end=r"\s*%")
    if gradient is not None:
        position, measurement = gradient
        found = re.findall(r"pos = \s*" + NUMBER + r"\s*$", first)
        require(len(found) == 1 and shows(found[0], position)
                and len(found[0].partition(".")[2]) == 4,
                f"{what}: the position {position!r} is shown as {found}")
        labels = ("measured gradient", "measured error", "orbital scale",
                  "transmission change")
        if measurement is None:
            require(not any(n in text for n in labels),
                    f"{what}: a measurement is shown")
        else:
            for label, value in zip(labels, measurement):
                field(text, label, value, 4, what)
    if vectors is None:
        require("grid_shape" not in text, f"{what}: the vectors are shown")
    else:
        check_parameters_text(text, *vectors, what)


@st.composite
def strategy_property(draw):
    shape = [draw(st.integers(1, 3)), draw(st.integers(1, 4)),
             2 * draw(st.integers(1, 3)) - 1]
    gradient = draw(st.booleans())
    ops = [st.tuples(st.just("mask"), st.integers(0, 10 ** 6),
                     st.sampled_from([0.0, 0.3, 0.9, 1.0])),
           st.tuples(st.just("contrast"), st.integers(0, 20),
                     st.integers(30, 90))]
    if gradient:
        ops.append(st.tuples(st.just("measure"), st.integers(0, 99999),
                             st.integers(1, 10 ** 6)))
    return dict(shape=shape, gradient=gradient,
                position=draw(st.one_of(st.integers(-99999, 99999).map(
                    lambda k: k / 10 ** 4 + 3e-5), st.integers(-20, 20))),
                seed=draw(st.integers(0, 10 ** 6)),
                kind=draw(st.sampled_from(["plain", "plain", "nan", "all nan",
                                           "constant", "one", "inf"])),
                decade=draw(st.one_of(st.integers(-5, 5),
                                      st.integers(-12, 14))),
                name=draw(st.sampled_from([n.name for n in GridPropertyName])),
                unit=draw(st.sampled_from([u.name for u in GridPropertyUnit])),
                ops=[list(o) for o in draw(st.lists(st.one_of(*ops),
                                                    max_size=5))],
                axis=draw(st.none() | st.integers(0, 2)),
                scrolls=draw(st.integers(-3, 5)))


def check_property(case, ctx):
    rng = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    data = rng.random(shape)
    if not case["gradient"]:
        data = (data - 0.5) * 10.0 ** case["decade"]
    if case["kind"] == "nan":
        data[rng.random(shape) < 0.4] = np.nan
    elif case["kind"] == "all nan":
        data[:] = np.nan
    elif case["kind"] == "constant":
        data[:] = data.flat[0]
    elif case["kind"] == "one":
        keep = data.flat[-1]
        data[:] = np.nan
        data.flat[-1] = keep
    elif case["kind"] == "inf" and not case["gradient"]:
        # one kind of infinity, so that the mean exists
        data[rng.random(shape) < 0.2] = np.inf
    y, x, r = shape
    g = GridParameters(-1.25, 2.0, x, 0.3, 7.125, y, 4.5 if r > 1 else 1.0,
                       (r + 1) // 2)
    rf = g.get_vectors()[2]
    vectors = (np.linspace(-1.25, 2.0, x), np.linspace(0.3, 7.125, y), rf)
    name, unit = GridPropertyName[case["name"]], GridPropertyUnit[case["unit"]]
    if case["gradient"]:
        p = GridGradient(data.copy(), g, case["position"])
        name, unit = GridPropertyName.GRADIENT, GridPropertyUnit.NONE
    else:
        p = GridProperty(name, unit, data.copy(), g)
    mask, measurement = None, None

    def compare(what):
        extra = ((case["position"], measurement) if case["gradient"] else None)
        both = dict(name=title(name.name), unit=UNITS[unit.name], gradient=extra)
        state = p.get_data(), p.get_data(False)
        texts = repr(p), str(p)
        require(repr(p) == texts[0] and str(p) == texts[1],
                f"{what}: the second print differs")
        check_property_text(texts[0], data, mask, what=what + ", repr", **both)
        check_property_text(texts[1], data, mask, what=what + ", str",
                            vectors=vectors, **both)
        require(all(world.same(a, b) for a, b in zip(state, (
            p.get_data(), p.get_data(False)))) and world.same(
                p.get_data(False), data), f"{what}: printing changed the "
            f"data")

    compare("new")
    for op, *v in case["ops"]:
        if op == "mask":
            mask = np.random.default_rng(v[0]).random(shape) < v[1]
            p.set_mask(mask.copy())
        elif op == "contrast":
            p.set_contrast_parameters(v[0] / 10, v[1] / 10)
        else:
            scaled = v[0] / 10 ** 5
            change = 0.1 + (v[1] % 1000) / 2000
            scale = v[1] / 10 ** 4
            measured = 0.999 * scaled / scale * change
            p.determine_mask(measured, scale, change, v[1] / 10 ** 6)
            measurement = (measured, v[1] / 10 ** 6, scale, change)
            mask = p.mask
        compare(f"after {op}")
    if case["axis"] is not None:
        try:
            _, ax = plt.subplots(figsize=(1, 1), dpi=30)
            # a colour range needs finite limits, which the user provides
            p.set_contrast_parameters(0, 1, "viridis", 5)
            viewer = GridPropertyViewer(ax, case["axis"], p, True)
            text = printed(viewer, "viewer")
            require(ax.get_title() in text and ax.get_title() != "",
                    "the viewer shows another title")
            require(title(p.name.name) in text, "the viewer does not show the name")
        finally:
            plt.close("all")
    ctx.nontrivial(mask is not None or bool(np.isnan(data).any()))
    ctx.label(case["kind"])


# --------------------------------------------------------------------------
# diagnostics and grids
# --------------------------------------------------------------------------
@st.composite
def strategy_diagnostics(draw):
    return dict(shape=[draw(st.integers(1, 4)), draw(st.integers(1, 4))],
                stores=draw(st.lists(st.tuples(st.integers(0, 3),
                    st.integers(0, 3)).map(list), max_size=12)),
                extend=draw(st.booleans()))


def check_diagnostics(case, ctx):
    ny, nx = case["shape"]
    d = GridDiagnostics(GridParameters(0, 1, nx, 0, 1, ny, 2, 3))
    stored = {}

    def compare(what):
        text = printed(d, what)
        found = re.findall(r"^diagnostics saved:\s*(\d+)\s*$", text, re.M)
        require(found == [str(len(stored))], f"{what}: {found} diagnostics "
                f"are shown instead of {len(stored)}")
        for (y, x), (a, b) in stored.items():
            got = d.get_diagnostic(y, x)
            require(np.array_equal(got[0], a) and np.array_equal(got[1], b),
                    f"{what}: printing changed the diagnostics")

    compare("new")
    for k, (y, x) in enumerate(case["stores"]):
        y, x = y % ny, x % nx
        a = np.array([k, y, x], float)
        d.save_diagnostic(y, x, a, a + 1)
        stored[y, x] = a, a + 1
        compare(f"after {k + 1} stores")
    ctx.nontrivial(0 < len(stored) < len(case["stores"]))
    if case["extend"]:
        d.extend()
        text = printed(d, "extended")
        require(re.search(rf"^diagnostics saved:\s*{len(stored)}\s*$", text,
                          re.M), "extended: the number of diagnostics changed")


@st.composite
def strategy_grid(draw):
    op = st.one_of(
        st.tuples(st.just("add"), world.measurements(1, 3)),
        st.tuples(st.just("remove"), st.integers(0, 5)),
        st.tuples(st.just("mask"), st.sampled_from(
            ["disk_radius", "inclination", "tilt"]),
            st.integers(0, 10 ** 6)))
    return dict(spec=draw(world.small_specs()), keep=draw(st.booleans()),
                eclipse=draw(world.eclipses()),
                ops=[list(o) for o in draw(st.lists(op, min_size=1,
                                                    max_size=4))])


PARTS = {"disk_radius": ("Disk Radius", UNITS["ECLIPSE_DURATION"]),
         "tilt": ("Tilt", UNITS["DEGREE"]),
         "inclination": ("Inclination", UNITS["DEGREE"])}


def check_grid(case, ctx):
    grid = grids.build(case["spec"], keep_diagnostics=case["keep"])
    grid.set_eclipse_parameters(*case["eclipse"])
    dx, dy, rf = grids.vectors(case["spec"])
    # one set per point that has a disk, without the mirror images
    exists = np.isfinite(grids.raw(grid, "disk_radius")).any(2)
    require(exists.shape == (len(dy), len(dx)), "wrong shape")
    centres = int(exists[-case["spec"]["y"][2]:, -case["spec"]["x"][2]:].sum())

    def compare(what):
        before = world.snapshot(grid)
        text = printed(grid, what)
        # the parts of the grid, in the order they are shown
        heads = [m.start() for m in re.finditer(r"^.* \[.*\]( @ pos.*)?\n-+$",
                                                text, re.M)]
        n = 0 if grid.gradients is None else len(grid.gradients)
        tail = re.search(r"^Grid (Diagnostics|Information)$", text, re.M)
        require(tail is not None, f"{what}: the grid information is missing")
        require(len(heads) == 3 + n, f"{what}: {len(heads)} properties are "
                f"shown instead of {3 + n}")
        check_parameters_text(text[:heads[0]], dx, dy, rf, what)
        parts = [text[a:b] for a, b in zip(heads, heads[1:]
                                           + [tail.start()])]
        for name, unit in PARTS.values():
            require(sum(p.startswith(f"{name} [{unit}]") for p in parts[:3])
                    == 1, f"{what}: {name} is missing")
        for key, (name, unit) in PARTS.items():
            part = [p for p in parts[:3] if p.startswith(f"{name} [")][0]
            check_property_text(part, before[key], getattr(grid, key).mask,
                                name, unit, f"{what}, {name}")
        for k in range(n):
            measured, scale, change, error = before["light curve"][k]
            check_property_text(parts[3 + k], before["gradients"][k],
                grid.gradients[k].mask, "Gradient", "-",
                f"{what}, gradient {k}", gradient=(before["positions"][k],
                (measured, error, scale, change)))
        found = re.findall(r"^diagnostics saved:\s*(\d+)\s*$", text, re.M)
        require(found == ([str(centres)] if case["keep"] else []),
                f"{what}: {found} diagnostics are shown, {centres} exist")
        mask = before["combined mask"]
        field(text[tail.start():], "percentage masked",
              100 * int(mask.sum()) / mask.size, 2, what, end=r"\s*%")
        deviation = np.abs(before["diagnostic_map"])
        worst = math.nan if np.isnan(deviation).all() else np.nanmax(deviation)
        field(text[tail.start():], "worst interpolation fit", worst, 9, what)
        changed = world.differences(before, world.snapshot(grid))
        require(not changed, f"{what}: printing changed {changed}")
        return n

    most = compare("new grid")
    for op, *v in case["ops"]:
        n = 0 if grid.gradients is None else len(grid.gradients)
        if op == "add":
            world.add(grid, v[0], case["eclipse"])
        elif op == "remove":
            if not n:
                continue
            grid.remove_gradients(np.array([v[0] % n]))
        else:
            shape = getattr(grid, v[0]).data.shape
            getattr(grid, v[0]).set_mask(
                np.random.default_rng(v[1]).random(shape) < 0.4)
        most = max(most, compare(f"after {op}"))
    ctx.nontrivial(most > 1)
    ctx.label("kept diagnostics", case["keep"])


SUBS = [Sub("rings", strategy_rings, check_rings, 300, 6000, shards=2),
        Sub("parameters", strategy_parameters, check_parameters, 400, 8000),
        Sub("property", strategy_property, check_property, 250, 5000,
            shards=2),
        Sub("diagnostics", strategy_diagnostics, check_diagnostics, 300,
            6000),
        Sub("grid", strategy_grid, check_grid, 60, 1500, shards=2)]
