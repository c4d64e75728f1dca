"""C27: invalid arguments are rejected everywhere, and change nothing."""
import hashlib
import os
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import calls
import world
from core import Sub, Violation, require
from errors import InvalidDimensionsError, InvalidShapeError
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty, GridPropertyViewer
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit
from Ring import Ring
from RingSystem import RingSystem
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("every: each argument of each public operation with each kind of "
        "invalid value, in full. mixed: an operation with one to three "
        "invalid arguments, positional or by keyword, on objects with and "
        "without masks. The same call with valid arguments has to succeed. "
        "Always non-trivial.")
ASSUMPTIONS = ["invalid values are of a clearly wrong type (text, None where "
               "it is no default, lists for arrays, floats for integers) or "
               "outside the range of the argument; booleans are not used as "
               "numbers, nor numpy booleans as booleans",
               "with several invalid arguments the error of any of them is "
               "accepted"]

ERRORS = {"T": TypeError, "V": ValueError, "S": InvalidShapeError,
          "D": InvalidDimensionsError}
QUIET = 50
PARTS = 8


# --------------------------------------------------------------------------
# kinds of arguments: {label: (errors, function of the valid value)}
# --------------------------------------------------------------------------
def const(value):
    return lambda valid: value


def number(low=None, high=None, integer=False, optional=False,
           exclusive=False, **more):
    out = {"text": ("T", const("1")), "list": ("T", const([1])),
           "array": ("T", const(np.array([1.0]))),
           "complex": ("T", const(1j)), "class": ("T", const(int))}
    if not optional:
        out["None"] = ("T", const(None))
    if integer:
        out["float"] = ("T", lambda v: float(v))
        out["float64"] = ("T", lambda v: np.float64(v))
        out["half"] = ("T", lambda v: v + 0.5)
        if low is not None:
            out["below"] = ("V", const(low - 1))
            out["far below"] = ("V", const(np.int64(low - 1000)))
        if high is not None:
            out["above"] = ("V", const(high + 1))
            out["far above"] = ("V", const(np.int64(high + 1000)))
    else:
        if low is not None or high is not None:
            out["nan"] = ("V", const(np.nan))
        if low is not None:
            out["below"] = ("V", const(low - 1))
            out["just below"] = ("V", const(float(np.nextafter(low, -1e9))))
            out["-inf"] = ("V", const(-np.inf))
            if exclusive:
                out["at the bound"] = ("V", const(float(low)))
        if high is not None:
            out["above"] = ("V", const(high + 1))
            out["just above"] = ("V", const(float(np.nextafter(high, 1e9))))
            out["inf"] = ("V", const(np.inf))
    out.update(more)
    return out


def array(dtype="float64", low=None, high=None, compared=True, dims=True,
          optional=False):
    out = {"list": ("T", lambda v: v.tolist()),
           "tuple": ("T", lambda v: tuple(v.tolist())),
           "text": ("T", const("values")), "number": ("T", const(0.5))}
    if not optional:
        out["None"] = ("T", const(None))
    others = {"float64": ["float32", "int64", "complex128", "object"],
              "bool": ["int64", "float64", "uint8"],
              "int64": ["int32", "float64"]}[dtype]
    for other in others:
        out[other] = ("T", lambda v, other=other: v.astype(other))
    if dims:
        out["one dimension more"] = ("D", lambda v: v[None])
        out["one dimension less"] = ("D", lambda v: v[0].copy()
                                     if v.ndim > 1 else np.array(v[0]))
    elif compared:
        out["one dimension more"] = ("S", lambda v: v[None])
        out["flat"] = ("S", lambda v: v.reshape(-1))
    if compared:
        out["longer"] = ("S", lambda v: np.concatenate((v, v[-1:])))
        out["shorter"] = ("S", lambda v: v[:-1])

    def replaced(value):
        def fn(v):
            v = v.copy()
            v[-1] = value
            return v
        return fn

    if low is not None:
        out["one below"] = ("V", replaced(low - 1))
    if high is not None:
        out["one above"] = ("V", replaced(high + 1))
    if dtype == "float64" and (low is not None or high is not None):
        out["one nan"] = ("V", replaced(np.nan))
        if low is not None:
            out["one just below"] = ("V", replaced(np.nextafter(low, -1e9)))
            out["one -inf"] = ("V", replaced(-np.inf))
        if high is not None:
            out["one just above"] = ("V", replaced(np.nextafter(high, 1e9)))
            out["one inf"] = ("V", replaced(np.inf))
    return out


def boolean(optional=False):
    out = {"1": ("T", const(1)), "0": ("T", const(0)),
           "1.0": ("T", const(1.0)), "text": ("T", const("True")),
           "list": ("T", const([True]))}
    if not optional:
        out["None"] = ("T", const(None))
    return out


def string(optional=False):
    out = {"number": ("T", const(5)), "bytes": ("T", const(b"there")),
           "list": ("T", const(["there"]))}
    if not optional:
        out["None"] = ("T", const(None))
    return out


def instance(optional=False, **more):
    out = {"text": ("T", const("it")), "number": ("T", const(1)),
           "object": ("T", const(object())),
           "class": ("T", lambda v: type(v)), "list": ("T", lambda v: [v])}
    if not optional:
        out["None"] = ("T", const(None))
    out.update(more)
    return out


def enum():
    return instance(name=("T", lambda v: v.name),
                    value=("T", lambda v: v.value))


# --------------------------------------------------------------------------
# the objects that are called
# --------------------------------------------------------------------------
class World:
    def __init__(self, masked):
        p = self.parameters = GridParameters(0.0, 1.5, 3, 0.0, 1.0, 2, 2.0, 2)
        grid = self.grid = ShallotGrid(p, 20, logging_level=QUIET,
                                       keep_diagnostics=True)
        grid.set_eclipse_parameters(4.0, 10.0, 0.8)
        slope = world.slope([4.0, 10.0, 0.8])
        grid.add_gradients(np.array([-1.0, 0.4, 1.5]),
                           np.array([0.05, 0.1, 0.02]) * slope)
        grid.determine_gradient_fit()
        self.small = GridParameters(0.5, 2.0, 4, -1.0, 1.0, 3, 2.0, 2)
        shape = self.small.grid_shape
        self.data = np.linspace(0, 1, int(np.prod(shape))).reshape(shape)
        self.mask = (np.arange(self.data.size) % 3 == 0).reshape(shape)
        self.property = GridProperty(GridPropertyName.TILT,
            GridPropertyUnit.DEGREE, self.data.copy(), self.small)
        self.gradient = GridGradient(self.data.copy(), self.small, 0.25)
        self.gradient.determine_mask(0.2, 1.0, 0.5, 2.0)
        self.diagnostics = GridDiagnostics(self.small)
        self.diagnostics.save_diagnostic(1, 2, np.arange(3.0), np.ones(3))
        self.ring = Ring(1.0, 2.0, 0.5, 30, -20)
        self.system = RingSystem(0.5, np.array([1.0, 2.0, 4.0]),
            np.array([2.0, 3.0, 5.0]), np.array([0.1, 0.1, 0.9]), 60, 20,
            QUIET)
        if masked:
            self.property.set_mask(~self.mask)
            grid.generate_hill_radius_mask(2.5)
            grid.tilt.set_mask(grids_bits(grid.parameters.grid_shape))
        self.fig, self.ax = plt.subplots(figsize=(1, 1), dpi=20)
        if masked:
            self.ax.plot([0, 1])
        p.save("kept parameters")
        self.diagnostics.save("kept diagnostics")
        self.property.save("kept property")

    def snapshot(self):
        out = {"grid " + k: v for k, v in world.snapshot(self.grid).items()}
        out["contrast of the grid"] = np.array([[p.vmin, p.vmax] for p in (
            self.grid.disk_radius, self.grid.tilt, self.grid.inclination)])
        for name, p in (("property", self.property),
                        ("gradient", self.gradient),
                        ("grid tilt", self.grid.tilt)):
            out[name + " data"] = p.get_data(False)
            out[name + " masked"] = p.get_data(True)
            out[name + " contrast"] = np.array([p.vmin, p.vmax, p.color_map,
                                                p.num_colors], dtype=object)
        g = self.gradient
        out["measurement"] = np.array([g.position, g.measured_gradient,
            g.orbital_scale, g.transmission_change, g.measured_error])
        out["scaled gradient"] = np.array(g.get_scaled_gradient())
        for y in range(3):
            for x in range(4):
                try:
                    v = self.diagnostics.get_diagnostic(y, x)
                    out[f"diagnostics {y} {x}"] = np.array(v)
                except KeyError:
                    pass
        for name, p in (("parameters", self.parameters),
                        ("small", self.small)):
            for axis, v in zip(("dy", "dx", "rf"), p.get_vectors()):
                out[f"{name} {axis}"] = v
            out[f"{name} shape"] = np.array(p.grid_shape)
        r = self.ring
        out["ring"] = np.array([r.inner_radius, r.outer_radius,
                                r.transmission, r.inclination, r.tilt])
        s = self.system
        out["system"] = np.array([s.planet_radius, s.inclination, s.tilt])
        out["rings"] = np.array(s.get_rings_data())
        out["ring angles"] = np.array([[q.inclination, q.tilt]
                                       for q in s.rings])
        return out

    def prints(self):
        return [str(o) for o in (self.grid, self.property, self.gradient,
                                 self.small, self.diagnostics, self.ring,
                                 self.system)]

    def files(self):
        out = {}
        for folder, _, names in os.walk("."):
            out[folder] = None
            for name in names:
                path = os.path.join(folder, name)
                with open(path, "rb") as f:
                    out[path] = hashlib.sha256(f.read()).hexdigest()
        return out


def grids_bits(shape):
    return (np.arange(int(np.prod(shape))) % 7 == 3).reshape(shape)


# --------------------------------------------------------------------------
# operations: function of the world, and {argument: (valid value, kinds)}
# --------------------------------------------------------------------------
def setter(name):
    return lambda w: lambda value: setattr(w.ring, name, value)


ANGLE, TILT = number(0, 90), number(-180, 180)
LEVELS = number(10, 50, integer=True, optional=False)
EQUAL = {"equal to the other": ("V", const(0.5)), "beyond the other":
         ("V", const(-3.0))}


def steep(value):
    """A value that is fine alone, but not with those of the others."""
    return {"too steep": ("V", const(value))}


def operations(w):
    """{name: (callable, {argument: (valid, kinds)})}; all arguments in the
    order of the signature."""
    g = w.grid
    shape = g.parameters.grid_shape
    n = len(g.gradients)
    free = int((~g.get_combined_mask()).sum())
    params = instance(shape=("T", lambda v: v.grid_shape))
    name = (GridPropertyName.TILT, enum())
    unit = (GridPropertyUnit.DEGREE, enum())
    cube = (w.data, array())
    flags = dict(masked=(True, boolean()), property_masked=(False, boolean()))
    rings = dict(planet_radius=(1.0, number(0)),
                 inner_radii=(np.array([1.0, 2.0]), array(low=0)),
                 outer_radii=(np.array([2.0, 2.5]), array(low=0)),
                 transmissions=(np.array([0.0, 1.0]), array(low=0, high=1)),
                 inclination=(90, ANGLE), tilt=(-180, TILT),
                 logging_level=(QUIET, LEVELS))
    shifts = dict(x_shift=(1.5, number()), y_shift=(-2, number()),
                  face_color=("red", string()))
    axes = instance(optional=True, figure=("T", lambda v: v.figure))
    axis = (2, number(0, 2, integer=True))
    other = Ring(5.0, 6.0, 0.5, 0, 0)
    wide = {"too wide": ("V", const(Ring(2.5, 6.0, 0.5, 0, 0)))}
    out = {
        "GridParameters": (GridParameters, dict(
            min_x=(0.5, number(**{"equal to the other": ("V", const(2.0)),
                                  "beyond the other": ("V", const(9))})),
            max_x=(2.0, number(**EQUAL)),
            num_x=(3, number(1, integer=True)),
            min_y=(0.5, number(**{"equal to the other": ("V", const(2)),
                                  "beyond the other": ("V", const(9.5))})),
            max_y=(2, number(**EQUAL)),
            num_y=(1, number(1, integer=True)),
            max_rf=(3.0, number(1)), num_rf=(2, number(1, integer=True)))),
        "GridParameters.save": (w.small.save, dict(
            directory=("new parameters", string()))),
        "GridParameters.load": (GridParameters.load, dict(
            directory=("kept parameters", string()))),
        "GridProperty": (GridProperty, dict(name=name, unit=unit, data=cube,
            grid_parameters=(w.small, params))),
        "GridProperty.load": (GridProperty.load, dict(
            directory=("kept property", string()), name=name, unit=unit)),
        "set_mask": (w.property.set_mask, dict(
            mask=(w.mask, array("bool", dims=False)))),
        "set_mask of a gradient": (w.gradient.set_mask, dict(
            mask=(w.mask, array("bool", dims=False)))),
        "set_mask in the grid": (g.tilt.set_mask, dict(
            mask=(grids_bits(shape), array("bool", dims=False)))),
        "get_data": (w.property.get_data, dict(masked=(True, boolean()))),
        "get_data of a gradient": (w.gradient.get_data, dict(
            masked=(False, boolean()))),
        "set_contrast_parameters": (w.property.set_contrast_parameters, dict(
            vmin=(0.25, number(optional=True)),
            vmax=(0.5, number(optional=True)),
            color_map=("bone", string(optional=True)),
            num_colors=(4, number(2, integer=True, optional=True)))),
        "plot_slice": (w.property.plot_slice, dict(axis=axis,
            index=(1, number(0, 2, integer=True, optional=True)),
            ax=(w.ax, axes), masked=(True, boolean()))),
        "plot_cube": (w.property.plot_cube, dict(axis=axis,
            coordinates=([(0.0, 1.0, 1.0)], {
                "tuple": ("T", const(((0.0, 1.0, 1.0),))),
                "array": ("T", const(np.zeros((1, 3)))),
                "pair": ("V", const([(0.0, 1.0, 1.0), (0.0, 1.0)])),
                "four": ("V", const([(0.0, 1.0, 1.0, 2.0)]))}),
            masked=(True, boolean()))),
        "GridPropertyViewer": (GridPropertyViewer, dict(ax=(w.ax, instance()),
            axis=(1, number(0, 2, integer=True)),
            grid_property=(w.property, instance(data=("T",
                lambda v: v.data))),
            masked=(True, boolean()),
            index=(3, number(0, 3, integer=True, optional=True)),
            frozen=(True, boolean(optional=True)),
            coordinates=([(0.0, 1.0, 1.0)], {
                "tuple": ("T", const(((0.0, 1.0, 1.0),))),
                "text": ("T", const("abc")),
                "pair": ("V", const([(0.0, 1.0)]))}))),
        "GridGradient": (GridGradient, dict(data=cube,
            grid_parameters=(w.small, params), position=(0.5, number()))),
        "determine_mask": (w.gradient.determine_mask, dict(
            measured_gradient=(0.25, number(0, **steep(1.5))),
            orbital_scale=(0.5, number(0, **steep(3.0))),
            transmission_change=(0.5, number(0, 1, optional=True,
                                             **steep(0.1))),
            measured_error=(2.0, number(0, optional=True)))),
        "GridDiagnostics": (GridDiagnostics, dict(
            grid_parameters=(w.small, params))),
        "get_diagnostic": (w.diagnostics.get_diagnostic, dict(
            y=(1, number(0, 2, integer=True)),
            x=(2, number(0, 3, integer=True)))),
        "save_diagnostic": (w.diagnostics.save_diagnostic, dict(
            y=(1, number(0, 2, integer=True)),
            x=(2, number(0, 3, integer=True)),
            fy=(np.arange(3.0), array()),
            disk_radius=(np.ones(3), array()))),
        "GridDiagnostics.save": (w.diagnostics.save, dict(
            directory=("new diagnostics", string()))),
        "GridDiagnostics.load": (GridDiagnostics.load, dict(
            directory=("kept diagnostics", string()))),
        "ShallotGrid": (ShallotGrid, dict(parameters=(w.small, params),
            num_fxfy=(12, number(1, integer=True)),
            logging_level=(QUIET, LEVELS),
            keep_diagnostics=(False, boolean()),
            intermittent_saving=(False, boolean()))),
        "ShallotGrid.save": (g.save, dict(directory=("new grid", string()))),
        "ShallotGrid.load": (lambda directory, logging_level: (
            os.path.exists("kept grid") or g.save("kept grid"),
            ShallotGrid.load(directory, logging_level))[1], dict(
            directory=("kept grid", string()),
            logging_level=(QUIET, LEVELS))),
        "add_gradients": (g.add_gradients, dict(
            times=(np.array([0.5, -1.0]), array()),
            light_curve_gradients=(np.array([0.1, 0.0]), dict(array(low=0),
                **steep(np.array([0.0, 1e3])))),
            light_curve_gradient_errors=(np.array([1.0, 2.0]),
                array(low=0, optional=True)),
            transmission_changes=(np.array([0.5, 1.0]), dict(
                array(low=0, high=1, optional=True),
                **steep(np.array([1e-9, 1.0])))))),
        "remove_gradients": (g.remove_gradients, dict(
            indices=(np.array([0, n - 1]), array("int64", 0, n - 1,
                                                 compared=False)))),
        "set_eclipse_parameters": (g.set_eclipse_parameters, dict(
            eclipse_duration=(5.0, number(0)),
            transverse_velocity=(11, number(0)),
            limb_darkening=(0.5, number(0, 1)))),
        "update_gradient_scaling": (g.update_gradient_scaling, dict(
            transverse_velocity=(12.0, number(0, optional=True,
                                              **steep(1e-9))),
            limb_darkening=(0.7, number(0, 1, optional=True)),
            transmission_changes=(np.full(n, 0.75), dict(
                array(low=0, high=1, optional=True),
                **steep(np.array([0.75] * (n - 1) + [1e-9])))))),
        "get_gradients": (g.get_gradients, flags),
        "get_gradient_fit": (g.get_gradient_fit, flags),
        "extract_solutions": (g.extract_solutions, dict(
            num_solutions=(1, number(0, free, integer=True, optional=True)))),
        "generate_hill_radius_mask": (g.generate_hill_radius_mask, dict(
            hill_radius=(1.5, number(0)))),
        "determine_closest_grid_point": (g.determine_closest_grid_point, dict(
            disk_radius=(1.0, number(0)), inclination=(45, ANGLE),
            tilt=(-20.0, TILT), impact_parameter=(-0.5, number()),
            masked=(True, boolean()))),
        "get_grid_point_data": (g.get_grid_point_data, dict(
            y_index=(1, number(0, shape[0] - 1, integer=True)),
            x_index=(1, number(0, shape[1] - 1, integer=True)),
            rf_index=(1, number(0, shape[2] - 1, integer=True)),
            masked=(True, boolean()))),
        "Ring": (Ring, dict(
            inner_radius=(1.0, number(0, 2, **{"the other":
                                               ("V", const(2.0))})),
            outer_radius=(2.0, number(1, exclusive=True)),
            transmission=(0.5, number(0, 1)), inclination=(45, ANGLE),
            tilt=(45, TILT))),
        "inner_radius": (setter("inner_radius")(w), dict(
            value=(0.5, number(0, 2, **{"the other": ("V", const(2.0))})))),
        "outer_radius": (setter("outer_radius")(w), dict(
            value=(1.5, number(1, exclusive=True)))),
        "transmission": (setter("transmission")(w), dict(
            value=(1, number(0, 1)))),
        "inclination": (setter("inclination")(w), dict(value=(1.5, ANGLE))),
        "tilt": (setter("tilt")(w), dict(value=(1.5, TILT))),
        "get_patch": (w.ring.get_patch, shifts),
        "RingSystem": (RingSystem, rings),
        "add_ring": (w.system.add_ring, dict(
            index=(3, number(0, 3, integer=True)),
            ring=(other, instance(**wide)))),
        "replace_ring": (w.system.replace_ring, dict(
            index=(2, number(0, 2, integer=True)),
            ring=(other, instance(**wide)))),
        "remove_ring": (w.system.remove_ring, dict(
            index=(1, number(0, 2, integer=True)))),
        "split_rings": (w.system.split_rings, dict(
            num_divisions=(3, {k: v for k, v in number(2, integer=True)
                               .items() if k != "array"}))),
        "split_rings each": (w.system.split_rings, dict(
            num_divisions=(np.array([1, 2, 3]), array("int64", low=1)))),
        "plot of a ring system": (w.system.plot, dict(ax=(w.ax, axes),
                                                      **shifts)),
    }
    for c in ("disk_radius", "inclination", "tilt", "fx_map", "fy_map",
              "diagnostic_map"):
        out[f"get_{c}"] = (getattr(g, f"get_{c}"), flags)
    return out


def copied(value):
    return value.copy() if isinstance(value, np.ndarray) else value


def appearance(ax):
    return (len(ax.patches), len(ax.lines), len(ax.images), len(ax.texts),
            ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(),
            ax.get_ylim(), str(ax.get_aspect()), len(ax.figure.axes))


POSITIONAL = {"inner_radius", "outer_radius", "transmission", "inclination",
              "tilt", "ShallotGrid.load"}


def check(case, ctx, rejected=lambda ex, values: None):
    plt.close("all")
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        run(case, ctx, rejected)
    finally:
        plt.show = show
        plt.close("all")


def run(case, ctx, rejected):
    os.makedirs("work", exist_ok=True)
    here = os.getcwd()
    os.chdir("work")
    try:
        empty()
        w = World(case["masked"])
        table = operations(w)
        fn, arguments = table[case["call"]]
        faults = dict(case["faults"])
        values, errors, valid = {}, set(), {}
        for name, (good, kinds) in arguments.items():
            valid[name] = copied(good)
            values[name] = copied(good)
            if name in faults:
                letters, make = kinds[faults[name]]
                values[name] = make(good)
                errors |= {ERRORS[k] for k in letters}
                ctx.label(f"{case['call']}: {name}")
        before, files = w.snapshot(), w.files()
        given = {k: copied(v) for k, v in values.items()}
        drawn = appearance(w.ax)
        call(fn, case, values, tuple(errors), faults, rejected)
        changed = world.differences(before, w.snapshot())
        what = f"the rejected {case['call']} ({case['faults']})"
        require(not changed, lambda: f"{what} changed {changed}")
        if case["call"] != "ShallotGrid.load":
            now = w.files()
            require(now == files, lambda: f"{what} changed files: "
                    f"{sorted(set(now.items()) ^ set(files.items()))[:3]}")
        for name, v in given.items():
            if isinstance(v, np.ndarray):
                require(world.same(v, values[name]),
                        f"{what} changed its argument {name}")
        require(appearance(w.ax) == drawn, f"{what} was drawn in part")
        require(plt.get_fignums() == [w.fig.number],
                f"{what} left a figure behind")
        if case["valid"]:
            # the same objects still accept the valid call, and it does what
            # it does without the rejected one
            after = accepted(w, fn, valid, case)
            plt.close("all")
            empty()
            w = World(case["masked"])
            fn, arguments = operations(w)[case["call"]]
            alone = accepted(w, fn, {name: copied(good) for name, (good, _)
                                     in arguments.items()}, case)
            changed = world.differences(after[0], alone[0])
            require(not changed, lambda: f"a valid call after {what} has "
                    f"other effects: {changed}")
            for kind, a, b in zip(("prints", "files", "results"), after[1:],
                                  alone[1:]):
                require(a == b, lambda: f"a valid call after {what} has other "
                        f"{kind}: {str(a)[:200]} and {str(b)[:200]}")
    finally:
        os.chdir(here)
    ctx.nontrivial()


def empty():
    for name in os.listdir("."):
        shutil.rmtree(name)


def accepted(w, fn, valid, case):
    """What a valid call changes, prints, writes and returns."""
    result = (fn(*valid.values()) if case["call"] in POSITIONAL
              or case["positional"] else fn(**valid))
    return (w.snapshot(), w.prints(), w.files(),
            calls.digest(calls.flat(result)))


def call(fn, case, values, errors, faults, rejected):
    what = f"{case['call']} with " + ", ".join(
        f"{k} = {type(values[k]).__name__} ({label})"
        for k, label in faults.items())
    try:
        if case["positional"] or case["call"] in POSITIONAL:
            fn(*values.values())
        else:
            fn(**values)
    except errors as ex:
        rejected(ex, values)
        return
    except Exception as ex:
        raise Violation(f"{what} raised {type(ex).__name__} ({ex}), not one "
                        f"of {[e.__name__ for e in errors]}") from ex
    raise Violation(f"{what} was accepted")


TABLE = []


def table():
    """{call: {argument: [labels]}}; None if the objects can not be built."""
    if not TABLE:
        os.makedirs("table", exist_ok=True)
        here = os.getcwd()
        os.chdir("table")
        try:
            TABLE.append({name: {a: sorted(kinds) for a, (_, kinds)
                                 in arguments.items()}
                          for name, (_, arguments)
                          in operations(World(False)).items()})
        except Exception:
            TABLE.append(None)      # reported by the first case
        finally:
            os.chdir(here)
            plt.close("all")
    return TABLE[0]


NO_CASE = dict(call="Ring", faults=[["tilt", "text"]], masked=False,
               positional=True, valid=True)


def every(part):
    if table() is None:
        yield NO_CASE
        return
    number = 0
    for name, arguments in table().items():
        for argument, labels in arguments.items():
            for k, label in enumerate(labels):
                number += 1
                if number % PARTS == part:
                    yield dict(call=name, faults=[[argument, label]],
                               masked=k % 2 == 0, positional=k % 3 == 0,
                               valid=k == 0 or label.startswith("too "))


@st.composite
def strategy(draw):
    known = table()
    if known is None:
        return NO_CASE
    name = draw(st.sampled_from(sorted(known)))
    arguments = known[name]
    chosen = draw(st.lists(st.sampled_from(sorted(arguments)), min_size=1,
                           max_size=min(3, len(arguments)), unique=True))
    return dict(call=name,
                faults=[[a, draw(st.sampled_from(arguments[a]))]
                        for a in chosen],
                masked=draw(st.booleans()), positional=draw(st.booleans()),
                valid=draw(st.booleans()))


SUBS = [Sub(f"every {part}", None, check, 0, 0,
            enumerate_cases=lambda part=part: every(part))
        for part in range(PARTS)]
SUBS.append(Sub("mixed", strategy, check, 60, 1500, shards=4,
                thorough_shards=8))
