"""Programs of public calls: generated, executed with the arguments given in
one of many equivalent ways, and everything that they return collected."""
import hashlib
import os
import random

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import MouseEvent

import grids
import world
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty, GridPropertyViewer
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit
from Ring import Ring
from RingSystem import RingSystem
from Shallot import ShallotGrid

REQUIRED = object()
INTEGERS = {"int": int, "int8": np.int8, "int16": np.int16,
            "int32": np.int32, "int64": np.int64}
FLOATS = {"float": float, "float16": np.float16, "float32": np.float32,
          "float64": np.float64, "float128": np.longdouble}
LAYOUTS = ["plain", "fortran", "strided", "reversed", "read-only", "memmap",
           "offset", "transposed"]


class Level(int):
    """One of the standard logging levels, which are python integers."""


class Plain:
    """Python numbers, contiguous arrays; only what is not the default."""

    def value(self, v):
        return v

    def call(self, fn, *args):
        positional = [v for _, v, d in args if d is REQUIRED]
        keywords = {n: v for n, v, d in args
                    if d is not REQUIRED and not same_value(v, d)}
        return fn(*positional, **keywords)


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is b
    return (type(a) is type(b) or isinstance(a, Level)) and a == b


class Varied(Plain):
    """The same values as other types, in other layouts, passed otherwise."""

    def __init__(self, numbers, layouts, passing, seed):
        self.numbers, self.layouts, self.passing = numbers, layouts, passing
        self.rng = random.Random(seed)
        self.used = set()
        self.files = 0

    def value(self, v):
        if isinstance(v, (bool, Level)) or v is None:
            return v
        if isinstance(v, (int, float)):
            return self.number(v)
        if isinstance(v, str):
            if "str_" in self.numbers and self.rng.random() < 0.5:
                self.used.add("str_")
                return np.str_(v)
            return v
        if isinstance(v, np.ndarray):
            return self.array(v)
        return v

    def number(self, v):
        kind = self.rng.choice(self.numbers)
        if kind in FLOATS and isinstance(v, int):
            kind = kind.replace("float", "int").replace("128", "64")
        if kind in INTEGERS and (isinstance(v, int) or v == int(v)):
            if kind == "int8" and not -128 <= v <= 127:
                kind = "int16"
            self.used.add(kind)
            return INTEGERS[kind](int(v))
        if kind in FLOATS and float(FLOATS[kind](v)) == v:
            self.used.add(kind)
            return FLOATS[kind](v)
        return v

    def array(self, a):
        layout = self.rng.choice(self.layouts)
        out = np.array(a)
        if layout == "fortran":
            out = np.asfortranarray(out)
        elif layout == "strided":
            wide = np.zeros(tuple(2 * n for n in out.shape), out.dtype)
            wide[tuple(slice(None, None, 2) for _ in out.shape)] = out
            out = wide[tuple(slice(None, None, 2) for _ in out.shape)]
        elif layout == "reversed":
            turn = tuple(slice(None, None, -1) for _ in out.shape)
            out = np.ascontiguousarray(out[turn])[turn]
        elif layout == "transposed":
            order = tuple(range(out.ndim))[::-1]
            out = np.ascontiguousarray(out.transpose(order)).transpose(order)
        elif layout == "offset":
            raw = np.zeros(out.nbytes + 1, "uint8")
            view = raw[1:].view(out.dtype) if out.nbytes else out.ravel()
            view = view[:out.size].reshape(out.shape)
            view[...] = out
            out = view
        elif layout == "memmap" and out.size:
            self.files += 1
            file = f"memmap{self.files}.npy"
            np.save(file, out)
            out = np.load(file, mmap_mode="r")
        elif layout == "read-only":
            out.flags.writeable = False
        self.used.add(layout)
        return out

    def call(self, fn, *args):
        style = self.rng.choice(self.passing)
        n = len(args)
        if style in ("positional", "explicit positional"):
            cut = n
        elif style == "keyword":
            cut = 0
        else:
            cut = self.rng.randint(0, n)
        positional, keywords = [], []
        skipping = False
        for k, (name, v, d) in enumerate(args):
            default = d is not REQUIRED and same_value(v, d)
            leave = default and (style == "positional" or
                                 (style != "explicit positional"
                                  and self.rng.random() < 0.5))
            if leave:
                skipping = True
            elif k < cut and not skipping:
                positional.append(self.value(v))
            else:
                keywords.append((name, self.value(v)))
        self.rng.shuffle(keywords)
        self.used.add(style)
        return fn(*positional, **dict(keywords))


def flat(value):
    """A result as a list of arrays, texts and names of errors."""
    if value is None:
        return ["None"]
    if isinstance(value, (bool, np.bool_)):
        return [str(bool(value))]
    if isinstance(value, (int, float, np.number)):
        return [np.array([float(value)])]
    if isinstance(value, str):
        return [str(value)]
    if isinstance(value, np.ndarray):
        return [value.astype(float) if value.dtype.kind in "iufb" else
                np.array([str(v) for v in value.flat])]
    if isinstance(value, dict):
        return [x for k in sorted(value) for x in [k] + flat(value[k])]
    if isinstance(value, (tuple, list)):
        return [x for v in value for x in flat(v)]
    return [type(value).__name__]


def digest(parts):
    """Equal for results that are the same bit by bit (but for signs of
    missing values)."""
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, np.ndarray):
            if p.dtype.kind == "f":
                p = np.where(np.isnan(p), np.nan, p)
            h.update(repr((p.shape, p.dtype.str)).encode() + p.tobytes())
        else:
            h.update(p.encode())
    return h.hexdigest()[:16]


class Program:
    """Executes the operations of a case and collects their outcomes."""

    def __init__(self, case, how, folder=""):
        self.case, self.how, self.folder = case, how, folder
        self.out = []
        self.grid = self.system = None

    def run(self):
        for op in [["start"]] + self.case["ops"] + [["end"]]:
            try:
                result = flat(getattr(self, "do_" + op[0])(*op[1:]))
            except Exception as ex:
                result = ["error " + type(ex).__name__, str(ex)]
            self.out.append([op, result])
        plt.close("all")
        return self.out

    def call(self, fn, *args):
        return self.how.call(fn, *args)

    def made(self, thing):
        """The object to go on with; another one in a subclass."""
        return thing

    # ---------------------------------------------------------------- start
    def do_start(self):
        c, R = self.case, REQUIRED
        s = c["spec"]
        self.parameters = self.call(GridParameters,
            ("min_x", float(s["x"][0]), R), ("max_x", float(s["x"][1]), R),
            ("num_x", s["x"][2], R), ("min_y", float(s["y"][0]), R),
            ("max_y", float(s["y"][1]), R), ("num_y", s["y"][2], R),
            ("max_rf", float(s["max_rf"]), R), ("num_rf", s["num_rf"], R))
        self.vectors = self.parameters.get_vectors()
        self.grid = self.call(ShallotGrid,
            ("parameters", self.parameters, R), ("num_fxfy", s["nf"], R),
            ("logging_level", Level(c["level"]), 20),
            ("keep_diagnostics", c["keep"], False),
            ("intermittent_saving", c["saving"], False))
        self.shape = self.grid.parameters.grid_shape
        r = c["rings"]
        self.system = self.call(RingSystem,
            ("planet_radius", r["planet"], R),
            ("inner_radii", np.array(r["inner"], float), R),
            ("outer_radii", np.array(r["outer"], float), R),
            ("transmissions", np.array(r["transmissions"], float), R),
            ("inclination", r["inclination"], R), ("tilt", r["tilt"], R),
            ("logging_level", Level(c["level"]), 20))
        return self.vectors

    def do_end(self):
        snap = world.snapshot(self.grid)
        texts = [str(self.grid), str(self.system), str(self.parameters)]
        texts += [str(r) for r in self.system.rings]
        diagnostics = []
        if self.grid.diagnostics is not None:
            ny, nx, _ = self.shape
            for y in range(ny):
                for x in range(nx):
                    try:
                        diagnostics.append(
                            self.grid.diagnostics.get_diagnostic(y, x))
                    except KeyError:
                        diagnostics.append("none")
        contrast = [[p.vmin, p.vmax, p.color_map, p.num_colors] for p in (
            self.grid.disk_radius, self.grid.inclination, self.grid.tilt)]
        return [snap, texts, diagnostics, contrast,
                self.system.get_rings_data()]

    # ----------------------------------------------------------------- grid
    def do_eclipse(self, duration, velocity, darkening):
        return self.call(self.grid.set_eclipse_parameters,
            ("eclipse_duration", duration, REQUIRED),
            ("transverse_velocity", velocity, REQUIRED),
            ("limb_darkening", darkening, REQUIRED))

    def do_add(self, times, slopes, errors, transmissions):
        def array(v):
            return None if v is None else np.array(v, float)
        return self.call(self.grid.add_gradients,
            ("times", array(times), REQUIRED),
            ("light_curve_gradients", array(slopes), REQUIRED),
            ("light_curve_gradient_errors", array(errors), None),
            ("transmission_changes", array(transmissions), None))

    def do_remove(self, indices):
        return self.call(self.grid.remove_gradients,
                         ("indices", np.array(indices, "int64"), REQUIRED))

    def do_scale(self, velocity, darkening, transmissions):
        t = transmissions
        if t is not None:
            t = np.array((t * 20)[:len(self.grid.gradients or [])], float)
        return self.call(self.grid.update_gradient_scaling,
            ("transverse_velocity", velocity, None),
            ("limb_darkening", darkening, None),
            ("transmission_changes", t, None))

    def do_fit(self, weighted):
        return self.call(self.grid.determine_gradient_fit,
                         ("weighted", weighted, True))

    def do_hill(self, radius):
        return self.call(self.grid.generate_hill_radius_mask,
                         ("hill_radius", radius, REQUIRED))

    def do_mask(self, name, seed):
        mask = np.random.default_rng(seed).random(self.shape) < 0.25
        return self.call(getattr(self.grid, name).set_mask,
                         ("mask", mask, REQUIRED))

    def do_contrast(self, name, low, high, colors, number):
        return self.call(getattr(self.grid, name).set_contrast_parameters,
            ("vmin", low, None), ("vmax", high, None),
            ("color_map", colors, None), ("num_colors", number, None))

    def do_cube(self, name, masked, own):
        return self.call(getattr(self.grid, "get_" + name),
                         ("masked", masked, True),
                         ("property_masked", own, True))

    def do_data(self, name, masked):
        return self.call(getattr(self.grid, name).get_data,
                         ("masked", masked, True))

    def do_gradients(self, masked, own):
        return self.call(self.grid.get_gradients, ("masked", masked, False),
                         ("property_masked", own, True))

    def do_gradient_fit(self, masked, own):
        return self.call(self.grid.get_gradient_fit, ("masked", masked, True),
                         ("property_masked", own, True))

    def do_solutions(self, number):
        return self.call(self.grid.extract_solutions,
                         ("num_solutions", number, None))

    def do_closest(self, radius, inclination, tilt, impact, masked):
        return self.call(self.grid.determine_closest_grid_point,
            ("disk_radius", radius, REQUIRED),
            ("inclination", inclination, REQUIRED), ("tilt", tilt, REQUIRED),
            ("impact_parameter", impact, REQUIRED), ("masked", masked, True))

    def do_point(self, y, x, r, masked):
        ny, nx, nr = self.shape
        return self.call(self.grid.get_grid_point_data,
            ("y_index", y % ny, REQUIRED), ("x_index", x % nx, REQUIRED),
            ("rf_index", r % nr, REQUIRED), ("masked", masked, True))

    def do_store(self):
        """Save the grid and go on with the loaded one."""
        folder = f"{self.folder}grid{len(self.out)}"
        self.call(self.grid.save, ("directory", folder, REQUIRED))
        self.grid = self.call(ShallotGrid.load,
            ("directory", folder, REQUIRED),
            ("logging_level", Level(self.case["level"]), 20))
        return sorted(os.listdir(folder))

    # ---------------------------------------------------------------- plots
    def do_slice(self, name, axis, index, own_axes, masked):
        fig, ax = plt.subplots()
        try:
            ax, image = self.call(getattr(self.grid, name).plot_slice,
                ("axis", axis, REQUIRED),
                ("index", index % self.shape[axis], REQUIRED),
                ("ax", ax if own_axes else None, None),
                ("masked", masked, True))
            return self.picture(ax, image)
        finally:
            plt.close(fig)

    def picture(self, ax, image):
        data = np.ma.filled(image.get_array().astype(float), np.nan)
        points = [line.get_xydata() for line in ax.lines]
        return [data, image.get_extent(), image.get_clim(), ax.get_title(),
                ax.get_xlabel(), ax.get_ylabel(), points]

    def do_viewer(self, name, axis, masked, index, frozen, points, events):
        fig, ax = plt.subplots()
        prop = getattr(self.grid, name)
        if index is not None:
            index = index % self.shape[axis]
        if points is not None:
            vectors = self.grid.parameters.get_vectors()
            points = [tuple(self.how.value(float(v[k % len(v)]))
                            for v, k in zip(vectors, p)) for p in points]
        try:
            viewer = self.call(GridPropertyViewer, ("ax", ax, REQUIRED),
                ("axis", axis, REQUIRED), ("grid_property", prop, REQUIRED),
                ("masked", masked, REQUIRED), ("index", index, None),
                ("frozen", frozen, False), ("coordinates", points, None))
            out = [self.picture(viewer.ax, viewer.image)]
            for button in events:
                viewer.onscroll(MouseEvent(
                    "scroll_event", fig.canvas, 1, 1, button=button,
                    step={"up": 1, "down": -1}.get(button, 0)))
                out.append(self.picture(viewer.ax, viewer.image))
            return out + [str(viewer)]
        finally:
            plt.close(fig)

    # ------------------------------------------------------ separate objects
    def do_gradient(self, position, seed, measured, scale, change, error,
                    name):
        rng = np.random.default_rng(seed)
        data = rng.random(self.shape)
        data[rng.random(self.shape) < 0.2] = np.nan
        gradient = self.call(GridGradient, ("data", data, REQUIRED),
            ("grid_parameters", self.grid.parameters, REQUIRED),
            ("position", position, REQUIRED))
        self.call(gradient.determine_mask,
            ("measured_gradient", measured, REQUIRED),
            ("orbital_scale", scale, REQUIRED),
            ("transmission_change", change, None),
            ("measured_error", error, None))
        gradient = self.made(gradient)
        folder = f"{self.folder}gradients{len(self.out)}"
        os.mkdir(folder)
        self.call(gradient.save_gradient, ("directory", folder, REQUIRED),
                  ("name", name, None))
        folders = [f for f in os.listdir(folder)
                   if os.path.isdir(f"{folder}/{f}")]
        loaded = self.call(GridGradient.load,
                           ("directory", f"{folder}/{folders[0]}", REQUIRED))
        return [[g.get_data(), g.get_data(False), g.get_scaled_gradient(),
                 g.position, g.measured_error, str(g)]
                for g in (gradient, loaded)] + [folders]

    def do_property(self, name, unit, seed, mask):
        rng = np.random.default_rng(seed)
        prop = self.call(GridProperty,
            ("name", GridPropertyName[name], REQUIRED),
            ("unit", GridPropertyUnit[unit], REQUIRED),
            ("data", rng.normal(size=self.shape), REQUIRED),
            ("grid_parameters", self.grid.parameters, REQUIRED))
        if mask:
            self.call(prop.set_mask, ("mask", rng.random(self.shape) < 0.5,
                                      REQUIRED))
        prop = self.made(prop)
        folder = f"{self.folder}property{len(self.out)}"
        self.call(prop.save, ("directory", folder, REQUIRED))
        loaded = self.call(GridProperty.load, ("directory", folder, REQUIRED),
            ("name", GridPropertyName[name], REQUIRED),
            ("unit", GridPropertyUnit[unit], REQUIRED))
        return [[p.get_data(), p.get_data(False), str(p)]
                for p in (prop, loaded)]

    def do_diagnostics(self, pairs, extend):
        d = self.call(GridDiagnostics,
                      ("grid_parameters", self.parameters, REQUIRED))
        ny, nx = self.parameters.slice_shape
        pairs = [(y % ny, x % nx, values) for y, x, values in pairs]
        for y, x, values in pairs:
            values = np.array(values, float)
            self.call(d.save_diagnostic, ("y", y, REQUIRED),
                      ("x", x, REQUIRED), ("fy", values, REQUIRED),
                      ("disk_radius", -values, REQUIRED))
        d = self.made(d)
        if extend:
            d.extend()
        folder = f"{self.folder}diagnostics{len(self.out)}"
        self.call(d.save, ("directory", folder, REQUIRED))
        loaded = self.call(GridDiagnostics.load,
                           ("directory", folder, REQUIRED))
        out = []
        for one in (d, loaded):
            for y, x, _ in pairs:
                try:
                    out.append(self.call(one.get_diagnostic,
                        ("y", y, REQUIRED), ("x", x, REQUIRED)))
                except KeyError:
                    out.append("none")
        return out + [str(d)]

    # ---------------------------------------------------------------- rings
    def ring(self, inner, outer, transmission, inclination, tilt):
        return self.call(Ring, ("inner_radius", inner, REQUIRED),
            ("outer_radius", outer, REQUIRED),
            ("transmission", transmission, REQUIRED),
            ("inclination", inclination, 0), ("tilt", tilt, 0))

    def do_ring(self, ring, x, y, color):
        ring = self.made(self.ring(*ring))
        patch = self.call(ring.get_patch, ("x_shift", x, 0),
                          ("y_shift", y, 0), ("face_color", color, "black"))
        path = patch.get_path()
        return [path.vertices, path.codes, patch.get_facecolor(), str(ring),
                patch.get_alpha()]

    def do_ring_add(self, index, ring):
        """Every other ring starts beyond the last one."""
        n = self.system.get_num_rings()
        if index % 2 and n:
            last = float(self.system.rings[-1].outer_radius)
            ring = [ring[0] + last, ring[1] + last] + ring[2:]
            index = n
        return self.call(self.system.add_ring,
            ("index", index % (n + 1), REQUIRED),
            ("ring", self.ring(*ring), REQUIRED))

    def do_ring_replace(self, index, ring):
        return self.call(self.system.replace_ring,
            ("index", index % max(1, self.system.get_num_rings()), REQUIRED),
            ("ring", self.ring(*ring), REQUIRED))

    def do_ring_remove(self, index):
        return self.call(self.system.remove_ring,
            ("index", index % max(1, self.system.get_num_rings()), REQUIRED))

    def do_split(self, numbers):
        n = self.system.get_num_rings()
        if isinstance(numbers, list):
            numbers = np.array((numbers * 50)[:n], "int64")
        if n > 40:
            return "enough rings"
        return self.call(self.system.split_rings,
                         ("num_divisions", numbers, REQUIRED))

    def do_merge(self, tolerance):
        return self.call(self.system.merge_rings,
                         ("tolerance", tolerance, 1e-6))

    def do_plot(self, x, y, color, own_axes):
        fig, ax = plt.subplots()
        try:
            ax = self.call(self.system.plot,
                ("ax", ax if own_axes else None, None), ("x_shift", x, 0),
                ("y_shift", y, 0), ("face_color", color, "black"))
            return [[p.get_path().vertices if k else [p.center, p.radius]
                     for k, p in enumerate(ax.patches)],
                    [p.get_facecolor() for p in ax.patches],
                    ax.get_xlim(), ax.get_ylim()]
        finally:
            plt.close(fig)


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------
def strategies():
    from hypothesis import strategies as st
    # few binary digits, so that every type of number holds them
    sixteenth = st.integers(1, 64).map(lambda k: k / 16)
    fraction = st.integers(0, 16).map(lambda k: k / 16)
    signed = st.integers(-64, 64).map(lambda k: k / 16)
    angle = st.one_of(st.integers(0, 90).map(float),
                      st.integers(0, 180).map(lambda k: k / 2))
    turn = st.integers(-360, 360).map(lambda k: k / 2)
    small = st.integers(0, 100)
    flag = st.booleans()
    cube = st.sampled_from(["disk_radius", "inclination", "tilt"])
    every = st.sampled_from(list(grids.CUBES))
    color = st.sampled_from(["black", "red", "#00ff00"])

    @st.composite
    def axis(draw, first=None):
        low = draw(signed) if first is None else first
        return [low, low + draw(sixteenth), draw(st.integers(1, 3))]

    @st.composite
    def spec(draw):
        if draw(flag):
            x, y = draw(axis(0)), draw(axis(0))
        else:
            x, y = draw(axis()), draw(axis())
        if y[0] == 0 and y[2] == 1:
            y[2] = 2
        cap = int(16 * (grids.rf_cap(x, y, draw(grids.seldom(
            st.just(12.0), st.just(300.0), 8))) - 1))
        return dict(x=x, y=y, max_rf=1 + draw(st.integers(0, cap)) / 16,
                    num_rf=draw(st.integers(1, 3)),
                    nf=draw(st.integers(10, 60)))

    @st.composite
    def add(draw):
        n = draw(st.integers(1, 3))

        def some(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        return ["add", some(signed), some(st.integers(0, 40).map(
                    lambda k: k / 64)),
                draw(st.none() | st.just(1)) and some(sixteenth),
                draw(st.none() | st.just(1)) and some(st.integers(1, 16).map(
                    lambda k: k / 16))]

    @st.composite
    def ring(draw):
        inner = draw(st.integers(0, 160)) / 16
        return [inner, inner + draw(sixteenth), draw(fraction),
                draw(st.just(0) | angle), draw(st.just(0) | turn)]

    @st.composite
    def rings(draw):
        edges = sorted(draw(st.lists(st.integers(1, 160), min_size=2,
                                     max_size=6, unique=True)))
        pairs = list(zip(edges[:-1], edges[1:]))
        if len(pairs) > 1 and draw(flag):
            pairs = pairs[::2]
        return dict(planet=draw(sixteenth), inner=[a / 16 for a, b in pairs],
                    outer=[b / 16 for a, b in pairs],
                    transmissions=[draw(fraction) for _ in pairs],
                    inclination=draw(angle), tilt=draw(turn))

    none = st.none()
    shift = st.just(0) | signed
    grid_ops = [
        st.tuples(st.just("eclipse"), sixteenth,
                  st.integers(1, 64).map(float), fraction),
        add(), add(), add(),
        st.tuples(st.just("remove"), st.lists(st.integers(0, 3),
                                              max_size=3)),
        st.tuples(st.just("scale"), none | st.integers(1, 64).map(float),
                  none | fraction, none | st.lists(st.integers(1, 16).map(
                      lambda k: k / 16), min_size=1, max_size=3)),
        st.tuples(st.just("fit"), flag), st.tuples(st.just("fit"), flag),
        st.tuples(st.just("hill"), sixteenth),
        st.tuples(st.just("mask"), cube, small),
        st.tuples(st.just("contrast"), cube, none | signed, none | signed,
                  none | st.sampled_from(["magma", "viridis"]),
                  none | st.integers(2, 30)),
        st.tuples(st.just("store"))]
    reads = [
        st.tuples(st.just("cube"), every, flag, flag),
        st.tuples(st.just("data"), every, flag),
        st.tuples(st.just("gradients"), flag, flag),
        st.tuples(st.just("gradient_fit"), flag, flag),
        st.tuples(st.just("solutions"), none | st.integers(0, 4)),
        st.tuples(st.just("closest"), sixteenth, angle.filter(
            lambda a: a <= 90), turn, signed, flag),
        st.tuples(st.just("point"), small, small, small, flag),
        st.tuples(st.just("slice"), every, st.integers(0, 2), small, flag,
                  flag),
        st.tuples(st.just("viewer"), every, st.integers(0, 2), flag,
                  none | small, flag, none | st.lists(st.tuples(
                      small, small, small), max_size=2),
                  st.lists(st.sampled_from(["up", "down"]), max_size=3))]
    parts = [
        st.tuples(st.just("gradient"), signed, small, st.integers(0, 16).map(
            lambda k: k / 64), sixteenth, none | st.integers(4, 16).map(
                lambda k: k / 16), none | sixteenth,
            none | st.sampled_from(["one", "gradient_0"])),
        st.tuples(st.just("property"), st.sampled_from(
            [n.name for n in GridPropertyName]), st.sampled_from(
            [u.name for u in GridPropertyUnit]), small, flag),
        st.tuples(st.just("diagnostics"), st.lists(st.tuples(
            small, small, st.lists(signed, max_size=4)), min_size=1,
            max_size=3), flag)]
    ring_ops = [
        st.tuples(st.just("ring"), ring(), shift, shift, color),
        st.tuples(st.just("ring_add"), small, ring()),
        st.tuples(st.just("ring_add"), small, ring()),
        st.tuples(st.just("ring_replace"), small, ring()),
        st.tuples(st.just("ring_remove"), small),
        st.tuples(st.just("split"), st.integers(2, 4) | st.lists(
            st.integers(1, 3), min_size=1, max_size=4)),
        st.tuples(st.just("merge"), st.just(1e-6) | fraction),
        st.tuples(st.just("plot"), shift, shift, color, flag)]
    groups = [grid_ops, grid_ops, reads, reads, parts, ring_ops]
    op = st.one_of([st.one_of(g) for g in groups])

    @st.composite
    def program(draw, largest=14):
        ops = [list(o) for o in draw(st.lists(op, min_size=4,
                                              max_size=largest))]
        first = [["eclipse", draw(sixteenth), float(draw(st.integers(8, 64))),
                  draw(fraction)], draw(add())] if draw(
                      st.integers(0, 3)) else []
        for k in range(len(ops) - 1, -1, -1):
            if ops[k][0] in ("solutions", "gradient_fit"):
                ops.insert(k, ["fit", draw(flag)])
        return dict(spec=draw(spec()), rings=draw(rings()),
                    level=draw(st.sampled_from([10, 20, 20, 50])),
                    keep=draw(flag), saving=draw(flag), ops=first + ops)

    return program
