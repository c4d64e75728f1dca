"""C19: the viewer shows the slice, title and points of its current index."""
import re

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import MouseEvent
from hypothesis import strategies as st

import grids
from core import Sub, expect_error, require
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty, GridPropertyViewer
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit

LEVEL = "exploration"
RULE = ("A case is a cube with different axis lengths, an axis, coordinates "
        "and up to 25 scroll events, sent to the viewer or through the canvas "
        "of plot_cube; image, title, limits, tick labels and points are read "
        "from the figure after every event. Non-trivial when the index moves "
        "at least twice and (unless frozen) coordinates are given.")
ASSUMPTIONS = ["scroll events are 'up' or 'down'",
               "scrolling through plot_cube happens while the figure is shown",
               "a slice whose distance to a coordinate is a third of a step "
               "up to rounding may show it or not; on an axis with a single "
               "slice there is no step, and points may be shown or not"]

LETTERS = ["y", "x", "R_f"]


# what a wheel or a touch pad reports
STEPS = [1, 1, 3, 0.25, 15, 2]


def scroll(viewer, button, k):
    step = STEPS[k % len(STEPS)]
    return MouseEvent("scroll_event", viewer.ax.figure.canvas, 1, 1,
                      button=button, step={"up": step, "down": -step}[button])


@st.composite
def axes(draw):
    low = draw(st.sampled_from([0, 0, -2, -1.5, 0.3, 10]))
    return [low, low + draw(st.sampled_from([1, 2.5, 0.07, 4])),
            draw(grids.seldom(st.integers(1, 5), st.integers(10, 13), 10))]


@st.composite
def strategy(draw):
    axis = draw(st.integers(0, 2))
    coordinate = st.tuples(*[st.tuples(st.integers(-1, 10),
        st.sampled_from([0, 0.1, -0.3, 0.32, 0, 0.35, -0.35, 0.5, -0.1])
        ).map(list) for _ in range(3)]).map(list)
    # many that are shown on the same slice
    crowd = st.lists(coordinate, min_size=13, max_size=20).map(
        lambda many: [c[:axis] + [many[0][axis]] + c[axis + 1:]
                      for c in many])
    return dict(
        x=draw(axes()), y=draw(axes()),
        rf=[draw(st.sampled_from([1.5, 2, 5, 1.01])), draw(st.integers(1, 4))],
        extended=draw(st.booleans()), axis=axis,
        seed=draw(st.integers(0, 10 ** 6)),
        nan=draw(st.sampled_from([0, 0.3, 0.3, 1])),
        mask=draw(st.booleans()), masked=draw(st.booleans()),
        gradient=draw(st.booleans()),
        name=draw(st.sampled_from([n.name for n in GridPropertyName])),
        unit=draw(st.sampled_from([u.name for u in GridPropertyUnit])),
        contrast=draw(st.none() | st.tuples(st.integers(-5, 0),
                      st.integers(1, 9), st.integers(2, 20)).map(list)),
        how=draw(st.sampled_from(["cube", "viewer", "viewer", "frozen",
                                  "slice"])),
        index=draw(st.none() | st.integers(0, 50)),
        coordinates=draw(st.one_of(st.lists(coordinate, max_size=5),
            st.lists(coordinate, min_size=1, max_size=5), st.none(),
            grids.seldom(st.lists(coordinate, max_size=5),
                         crowd, 2))),
        events=draw(st.lists(st.sampled_from(["up", "down"]), max_size=25)
                    | st.tuples(st.integers(0, 9), st.integers(0, 12)).map(
                        lambda t: ["down"] * t[0] + ["up"] * t[1])))


def make(case):
    g = GridParameters(*case["x"], *case["y"], *case["rf"])
    if case["extended"] and g.extendable:
        g.extend_grid()
    rng = np.random.default_rng(case["seed"])
    data = rng.random(g.grid_shape)
    data[rng.random(g.grid_shape) < case["nan"]] = np.nan
    name = GridPropertyName[case["name"]]
    unit = GridPropertyUnit[case["unit"]]
    if case["gradient"]:
        p = GridGradient(data.copy(), g, 0.1)
        name, unit = GridPropertyName.GRADIENT, GridPropertyUnit.NONE
    else:
        p = GridProperty(name, unit, data.copy(), g)
    if case["contrast"] is not None:
        low, high, colors = case["contrast"]
        p.set_contrast_parameters(low / 10, high / 10, num_colors=colors)
    if case["mask"]:
        mask = rng.random(g.grid_shape) < 0.5
        p.set_mask(mask)
        if case["masked"]:
            data[mask] = np.nan
    return p, g, data, name, unit


def place(case, vectors):
    """Coordinates from [element, share of a step] per axis."""
    if case["coordinates"] is None:
        return None
    out = []
    for c in case["coordinates"]:
        point = []
        for v, (k, share) in zip(vectors, c):
            step = v[1] - v[0] if len(v) > 1 else 1.0
            k = k % len(v) if k >= 0 else -2
            value = (v[k] if k >= 0 else v[0] - 2 * abs(step)) + share * step
            point.append(float(value))
        out.append(tuple(point))
    return out


class Expected:
    def __init__(self, case, g, data, name, unit, coordinates):
        dy, dx = np.linspace(*case["y"]), np.linspace(*case["x"])
        if g.dx.size != dx.size or g.dy.size != dy.size:
            dx = np.concatenate((-dx[:0:-1], dx))
            dy = np.concatenate((-dy[:0:-1], dy))
        rf = np.linspace(1, *case["rf"])
        self.rf_range = case["rf"][0] - 1 if case["rf"][1] > 1 else 0.0
        self.vectors = [dy, dx, np.concatenate((rf[::-1], rf[1:]))]
        self.axis, self.data = case["axis"], data
        self.values = self.vectors[self.axis]
        self.name, self.unit = name, unit
        self.coordinates = coordinates or []
        self.index = len(self.values) // 2

    def move(self, button):
        step = 1 if button == "up" else -1
        self.index = min(max(self.index + step, 0), len(self.values) - 1)

    def slice(self):
        return np.take(self.data, self.index, self.axis)

    def extent(self):
        dy, dx, _ = self.vectors
        rf = (0, 2 * self.rf_range)
        h, v = [(rf, dx), (rf, dy), (dx, dy)][self.axis]
        return h[0], h[-1], v[0], v[-1]

    def points(self):
        """Points that are on the slice, and those that may be."""
        sure, maybe = [], []
        for c in self.coordinates:
            distance = abs(self.values[self.index] - c[self.axis])
            rest = [v for k, v in enumerate(c) if k != self.axis]
            if self.axis == 2:
                marks = [(rest[1], rest[0])]
            else:
                marks = [(self.rf_range - (rest[1] - 1), rest[0]),
                         (self.rf_range + (rest[1] - 1), rest[0])]
            if len(self.values) == 1:
                maybe += marks
                continue
            limit = abs(self.values[1] - self.values[0]) / 3
            if abs(distance - limit) < 1e-9 * (1 + abs(c[self.axis])):
                maybe += marks
            elif distance < limit:
                sure += marks
        return sure, maybe


def drawn(ax):
    out = []
    for line in ax.lines:
        x, y = line.get_data()
        out += list(zip(np.ravel(x).tolist(), np.ravel(y).tolist()))
    return out


def agree(ax, image, e, what):
    got = np.ma.filled(np.ma.asarray(image.get_array(), float), np.nan)
    expected = e.slice()
    require(got.shape == expected.shape
            and np.array_equal(got, expected, equal_nan=True),
            f"{what}: the image is not slice {e.index} of axis {e.axis}")
    require(image.origin == "lower", f"{what}: the image is upside down")
    require(np.allclose(image.get_extent(), e.extent(), rtol=0, atol=1e-9),
            lambda: f"{what}: the extent is {image.get_extent()}, not "
            f"{e.extent()}")
    title = ax.get_title()
    value = f"{e.values[e.index]:.4f}"
    shown = re.findall(r"-?\d+\.\d+", title)
    require(shown == [value] or (float(value) == 0
                                 and [float(s) for s in shown] == [0]),
            f"{what}: the title {title!r} does not name the value {value}")
    require(e.name.get_name() in title and e.unit.get_unit() in title
            and LETTERS[e.axis] in title.split("=")[0].split(" - ")[-1],
            f"{what}: the title {title!r} does not name property and axis")
    middle = len(e.values) // 2
    branch = (None if e.axis != 2 or e.index == middle else
              "horizontal" if e.index < middle else "vertical")
    for word in ("horizontal", "vertical"):
        require((word in title) == (word == branch),
                f"{what}: the title {title!r} names the wrong branch")
    labels = ax.get_xlabel(), ax.get_ylabel()
    expected = [("R_f", "x"), ("R_f", "y"), ("x", "y")][e.axis]
    require(all(a in b for a, b in zip(expected, labels)),
            f"{what}: the labels are {labels}")
    if e.axis != 2 and e.rf_range > 0:
        for tick, label in zip(ax.get_xticks(), ax.get_xticklabels()):
            rf = 1 + abs(tick - e.rf_range)
            text = label.get_text().replace("\N{MINUS SIGN}", "-")
            require(abs(float(text) - rf) < 0.00501,
                    f"{what}: rf = {rf} is labelled {text!r}")
    sure, maybe = e.points()
    rest = drawn(ax)
    for group, needed in ((sure, True), (maybe, False)):
        for p in group:
            near = [q for q in rest if abs(p[0] - q[0]) < 1e-9
                    and abs(p[1] - q[1]) < 1e-9]
            require(near or not needed,
                    f"{what}: the point {p} is not drawn on slice {e.index}")
            if near:
                rest.remove(near[0])
    require(not rest, f"{what}: the points {rest} do not belong to slice "
            f"{e.index}")
    return bool(sure)


SIZE = dict(figsize=(1.2, 1.2), dpi=20)


def check(case, ctx):
    p, g, data, name, unit = make(case)
    plain = Expected(case, g, data, name, unit, None)
    coordinates = place(case, plain.vectors)
    how = case["how"]
    if how == "slice":
        coordinates = None
    e = Expected(case, g, data, name, unit, coordinates)
    index = None
    if case["index"] is not None and how != "cube":
        index = e.index = case["index"] % len(e.values)
    elif how == "slice":
        index = e.index
    moved, seen = 0, 0
    given = None if coordinates is None else list(coordinates)
    try:
        with plt.rc_context({"figure.figsize": (1.2, 1.2), "figure.dpi": 20}):
            if how == "cube":
                moved, seen = through_cube(p, case, e, coordinates)
            else:
                moved, seen = through_viewer(p, case, e, coordinates, index)
    finally:
        plt.close("all")
    require(coordinates == given, "the list of coordinates was changed")
    ctx.nontrivial(moved > 1 and (coordinates is not None
                                  or how in ("frozen", "slice")))
    ctx.label(how)
    ctx.label("points seen", bool(seen))
    ctx.label(f"axis {case['axis']}")


def through_viewer(p, case, e, coordinates, index):
    fig, ax = plt.subplots()
    frozen = case["how"] in ("frozen", "slice")
    if case["how"] == "slice":
        if case["seed"] % 2:
            shown, image = p.plot_slice(e.axis, index, ax, case["masked"])
        else:
            shown, image = p.plot_slice(e.axis, index, masked=case["masked"])
        require(shown is ax, "plot_slice uses another axes")
        agree(ax, image, e, "plot_slice")
        return 2, 0
    kw = {}
    if index is not None:
        kw["index"] = index
    if coordinates is not None:
        kw["coordinates"] = coordinates
    if frozen:
        kw["frozen"] = True
    viewer = GridPropertyViewer(ax, e.axis, p, case["masked"], **kw)
    seen = agree(ax, viewer.image, e, "at first")
    moved = 0
    for k, button in enumerate(case["events"]):
        viewer.onscroll(scroll(viewer, button, k + case["seed"]))
        before = e.index
        if not frozen:
            e.move(button)
        moved += e.index != before or frozen
        require(viewer.index == e.index,
                f"after event {k} ({button}) the index is {viewer.index} "
                f"instead of {e.index}")
        seen |= agree(ax, viewer.image, e, f"after event {k} ({button})")
    return moved, seen


def through_cube(p, case, e, coordinates):
    answer = []

    def show(*args, **kw):
        fig = plt.gcf()
        ax = fig.axes[0]
        require(len(ax.images) == 1, f"{len(ax.images)} images are shown")
        image = ax.images[0]
        seen = agree(ax, image, e, "at first")
        moved = 0
        for k, button in enumerate(case["events"]):
            before = e.index
            e.move(button)
            moved += e.index != before
            step = STEPS[(k + case["seed"]) % len(STEPS)]
            fig.canvas.scroll_event(5, 5, step if button == "up" else -step)
            require(len(ax.images) == 1, "images are piled up")
            seen |= agree(ax, ax.images[0], e,
                          f"after event {k} ({button})")
        answer.append((moved, seen))

    # the figure closes when show returns
    original, plt.show = plt.show, show
    try:
        p.plot_cube(e.axis, coordinates, case["masked"])
    finally:
        plt.show = original
    require(len(answer) == 1, "plot_cube does not show the figure")
    return answer[0]


@st.composite
def strategy_invalid(draw):
    return dict(base=draw(strategy()), fault=draw(st.sampled_from(FAULTS)))


def every_fault():
    base = dict(x=[0, 1, 3], y=[-1, 1, 2], rf=[2, 2], extended=False, axis=2,
                seed=1, nan=0.3, mask=True, masked=True, gradient=False,
                name="TILT", unit="DEGREE", contrast=None, how="viewer",
                index=None, coordinates=None, events=[])
    for axis in range(3):
        for fault in FAULTS:
            yield dict(base=dict(base, axis=axis), fault=fault)


FAULTS = ["axis 3", "axis -1", "axis float", "index size", "index -1",
          "index float", "pair", "four", "tuple", "array", "masked", "frozen"]


def check_invalid(case, ctx):
    base, fault = case["base"], case["fault"]
    p, g, data, name, unit = make(base)
    e = Expected(base, g, data, name, unit, None)
    n = len(e.values)
    args = dict(axis=e.axis, masked=True)
    if fault.startswith("axis"):
        args["axis"] = {"3": 3, "-1": -1, "float": 1.0}[fault.split()[1]]
    elif fault.startswith("index"):
        args["index"] = {"size": n, "-1": -1, "float": 0.0}[fault.split()[1]]
    elif fault in ("masked", "frozen"):
        args[fault] = 1
    else:
        args["coordinates"] = {"pair": [(0.0, 0.0, 1.0), (0.0, 1.0)],
            "four": [(0.0, 0.0, 1.0, 1.0)], "tuple": ((0.0, 0.0, 1.0),),
            "array": np.zeros((2, 3))}[fault]
    try:
        with plt.rc_context({"figure.figsize": (1.2, 1.2), "figure.dpi": 20}):
            _, ax = plt.subplots()
            expect_error((TypeError, ValueError), GridPropertyViewer, ax,
                         args.pop("axis"), p, args.pop("masked"), **args)
    finally:
        plt.close("all")
    ctx.nontrivial()
    ctx.label(fault)


SUBS = [Sub("history", strategy, check, 110, 2500, shards=8,
            thorough_shards=12),
        Sub("invalid", strategy_invalid, check_invalid, 60, 600,
            enumerate_cases=every_fault)]
