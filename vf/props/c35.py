"""C35: saved folders keep their format, also that of earlier versions."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, require
from props import c13, c16
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("A case is an object (as in C16 and C13). What it saves is read with "
        "numpy alone and has to be exactly the files of the format, with "
        "their arrays; the same files, written with numpy alone, have to be "
        "loaded as that object. earlier: the folder is written without the "
        "files that earlier versions did not know. Non-trivial unless it is "
        "a property or gradient without mask.")
ASSUMPTIONS = ["further files may be added to the format; those of it keep "
               "names, types, shapes and values",
               "earlier versions did not restore gradients, their folders are "
               "not part of the format"]


# --------------------------------------------------------------------------
# the format: {path: array or dictionary}
# --------------------------------------------------------------------------
def of_parameters(p):
    dy, dx, rf = p.get_vectors()
    return {"dy.npy": dy[:, None, None], "dx.npy": dx[None, :, None],
            "rf.npy": np.asarray(p.rf), "rf_array.npy": rf}


def of_property(p):
    stem = f"{p.name.name}_{p.unit.name}"
    out = of_parameters(p.grid_parameters)
    out[stem + ".npy"] = p.get_data(False)
    if p.mask is not None:
        out[stem + "_mask.npy"] = np.array(p.mask)
    return out


def of_gradient(g):
    out = of_property(g)
    out["position.npy"] = np.array([g.position])
    if g.measured_gradient is not None:
        out["mask_values.npy"] = np.array([g.measured_gradient,
            g.orbital_scale, g.transmission_change, g.measured_error])
    return out


def of_diagnostics(stored, shape, extended):
    """stored: {(y, x): (fy, disk radius)}."""
    return {"fy_dict.npy": {f"({y}, {x})": v[0] for (y, x), v
                            in stored.items()},
            "disk_radius_dict.npy": {f"({y}, {x})": v[1] for (y, x), v
                                     in stored.items()},
            "max_yx.npy": np.array(shape),
            "extended.npy": np.array([extended])}


def of_grid(g, eclipse):
    out = dict(of_parameters(g.parameters),
               **{"num_fxfy.npy": np.array([g.num_fxfy])})
    for name in ("disk_radius", "inclination", "tilt", "fx_map", "fy_map"):
        out.update(of_property(getattr(g, name)))
    for k, gradient in enumerate(g.gradients or []):
        out.update({f"gradient_{k}/{name}": v for name, v
                    in of_gradient(gradient).items()})
    if g.gradient_fit is not None:
        out.update(of_property(g.gradient_fit))
    if eclipse is not None:
        out["eclipse_parameters.npy"] = np.array(eclipse, float)
    return out


# --------------------------------------------------------------------------
def read(folder):
    out = {}
    for where, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(where, name)
            value = np.load(path, allow_pickle=name.endswith("_dict.npy"))
            out[os.path.relpath(path, folder)] = (
                value.item() if value.dtype == object else value)
    return out


def write(folder, files, fortran=False):
    os.makedirs(folder)
    for name, value in files.items():
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if fortran and isinstance(value, np.ndarray):
            value = np.asfortranarray(value)
        # np.save adds the .npy to names without
        np.save(path[:-4], value)


def alike(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict)
                and set(a) == set(b)
                and all(alike(a[k], b[k]) for k in a))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def agree(found, expected, what, optional=()):
    for name, value in expected.items():
        require(name in found, f"{what} is saved without {name}")
        require(alike(found[name], value), lambda: f"{what} is saved with "
                f"other values in {name}: {str(found[name])[:80]} instead of "
                f"{str(value)[:80]}")
    # what the object does not have must not be in the folder
    for name in optional:
        require(name in expected or name not in found,
                f"{what} is saved with {name}")


EARLIER = ("extended.npy", "eclipse_parameters.npy")


# --------------------------------------------------------------------------
@st.composite
def strategy(draw, kind):
    return dict(object=draw(c16.objects(kind)), earlier=draw(st.booleans()),
                fortran=draw(st.booleans()))


def stored(case):
    """The arrays of the diagnostics, as they were given."""
    d = c16.make("diagnostics", dict(case, extend=False))
    out = {}
    shape = c16.parameters(dict(case["spec"], extended=False)).slice_shape
    for y, x, _ in case["stored"]:
        key = y % shape[0], x % shape[1]
        out[key] = d.get_diagnostic(*key)
    return out, tuple(int(n) for n in shape)


def check(kind):
    def run(case, ctx):
        for name in ("saved", "written"):
            shutil.rmtree(name, ignore_errors=True)
        description = case["object"]
        item = c16.make(kind, description)
        optional = ()
        if kind == "parameters":
            expected = of_parameters(item)
        elif kind == "property":
            expected = of_property(item)
            optional = [f"{item.name.name}_{item.unit.name}_mask.npy"]
        elif kind == "gradient":
            expected = of_gradient(item)
            optional = ["GRADIENT_NONE_mask.npy", "mask_values.npy"]
        else:
            expected = of_diagnostics(*stored(description),
                                      description["extend"])
        if kind == "gradient":
            os.mkdir("saved")
            item.save_gradient("saved", "one")
            agree(read("saved/one"), expected, kind, optional)
        else:
            item.save("saved")
            agree(read("saved"), expected, kind, optional)
        if case["earlier"] and kind == "diagnostics":
            expected = {k: v for k, v in expected.items() if k not in EARLIER}
            item = c16.make(kind, dict(description, extend=False))
        write("written", expected, case["fortran"])
        got = c16.loader(kind, description)("written")
        changed = c16.compare(c16.state(kind, item, description),
                              c16.state(kind, got, description))
        require(not changed, f"{changed} differ for a {kind} that is loaded "
                "from a folder of the same format")
        ctx.nontrivial(kind in ("parameters", "diagnostics")
                       or description["mask"] is not None)
    return run


def check_grid(case, ctx):
    for name in ("saved", "written"):
        shutil.rmtree(name, ignore_errors=True)
    world_case = case["world"]
    grid = c13.make(world_case)
    eclipse = world_case["eclipse"]
    if eclipse is not None and world_case["velocity"] is not None:
        eclipse = [eclipse[0], eclipse[1] * world_case["velocity"] / 10,
                   eclipse[2]]
    expected = of_grid(grid, None if eclipse is None else eclipse)
    known = dict(expected)
    known.pop("eclipse_parameters.npy", None)
    grid.save("saved")
    found = read("saved")
    agree(found, known, "a grid", ["eclipse_parameters.npy"]
          if eclipse is None else ["y_value.npy"])
    if eclipse is not None:
        saved = found.get("eclipse_parameters.npy")
        require(saved is not None and saved.shape == (3,)
                and saved[0] == eclipse[0] and saved[2] == eclipse[2],
                lambda: f"the eclipse parameters are saved as {saved}")
        expected["eclipse_parameters.npy"] = saved
    for name in ("fy_dict.npy", "disk_radius_dict.npy", "max_yx.npy"):
        require((name in found) == (grid.diagnostics is not None),
                f"a grid is saved with{'out' * (name not in found)} {name}")
        if name in found:
            expected[name] = found[name]
    if "extended.npy" in found:
        expected["extended.npy"] = found["extended.npy"]
    if case["earlier"]:
        expected = {k: v for k, v in expected.items() if k not in EARLIER
                    and not k.startswith("gradient_")}
    write("written", expected, case["fortran"])
    loaded = ShallotGrid.load("written", logging_level=grids.QUIET)
    if case["earlier"]:
        plain = c13.make(dict(world_case))
        plain.gradients = None
        c13.same_grid(plain, loaded, "a folder of an earlier version")
    else:
        c13.same_grid(grid, loaded, "a folder of the same format")
        if grid.gradient_fit is not None and not np.isnan(
                grid.get_gradient_fit()).all():
            # as many as there are (masks of the user can show points
            # without a fit)
            number = int((~np.isnan(grid.get_gradient_fit())).sum())
            solutions = [[np.asarray(a).tolist() for a in
                          g.extract_solutions(number)]
                         for g in (grid, loaded)]
            require(repr(solutions[0]) == repr(solutions[1]),
                    "a folder of the same format: the solutions differ")
        require(c13.diagnostics(grid) == c13.diagnostics(loaded),
                "a folder of the same format: the diagnostics differ")
    ctx.nontrivial()
    ctx.label("earlier" if case["earlier"] else "same version")


@st.composite
def strategy_grid(draw):
    return dict(world=draw(c13.world_case()), earlier=draw(st.booleans()),
                fortran=draw(st.booleans()))


def sub(kind, quick, thorough):
    return Sub(kind, lambda: strategy(kind), check(kind), quick, thorough,
               thorough_shards=4)


SUBS = [sub("parameters", 200, 5000), sub("property", 250, 6000),
        sub("gradient", 250, 6000), sub("diagnostics", 250, 6000),
        Sub("grid", strategy_grid, check_grid, 60, 1200, shards=4,
            thorough_shards=8)]
