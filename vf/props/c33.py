"""C33: reading can be repeated, and setting the same again changes nothing."""
import copy
import hashlib
import os
import shutil

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import world
from core import Sub, require
from GridProperty import GridPropertyViewer
from GridParameters import GridParameters
from props import c27
from Ring import Ring
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("reads: after up to 3 changes, up to 12 reading operations, forwards "
        "on one set of objects and backwards on another; each result has to "
        "be the same, and nothing may change. again: up to 8 changes, each made once on one "
        "set of objects and twice on the other. Non-trivial with at least "
        "three different operations.")
ASSUMPTIONS = ["times, addresses and the random identity of objects are not "
               "part of a result"]



def flat(value):
    """A result as something that can be compared."""
    if isinstance(value, (tuple, list)):
        return [flat(v) for v in value]
    if isinstance(value, np.ndarray):
        return value.copy()
    return value


def equal(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return (type(a) is type(b) and len(a) == len(b)
                and all(equal(x, y) for x, y in zip(a, b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (type(a) is type(b) and a.dtype == b.dtype
                and world.same(a, b))
    return a == b or (a != a and b != b)


def patch(p):
    path = p.get_path()
    return [path.vertices.copy(), np.array(path.codes), p.get_facecolor(),
            p.get_edgecolor(), p.get_alpha()]


def image(ax):
    return [np.ma.filled(ax.images[0].get_array().astype(float), np.nan),
            ax.images[0].get_clim(), list(ax.images[0].get_extent()),
            ax.images[0].get_cmap().name, ax.get_title(), ax.get_xlabel(),
            ax.get_ylabel(),
            [[np.asarray(c, float) for c in line.get_data()]
             for line in ax.lines]]


def folder(path):
    out = []
    for where, _, names in sorted(os.walk(path)):
        for name in sorted(names):
            with open(os.path.join(where, name), "rb") as f:
                out.append([os.path.relpath(os.path.join(where, name), path),
                            hashlib.sha256(f.read()).hexdigest()])
    return out


def saved(save):
    shutil.rmtree("saved", ignore_errors=True)
    save("saved")
    out = folder("saved")
    shutil.rmtree("saved")
    return out


def plotted(fn):
    fig, ax = plt.subplots(figsize=(1, 1), dpi=20)
    fn(ax)
    out = image(ax)
    plt.close(fig)
    return out


def system_plot(w):
    fig, ax = plt.subplots(figsize=(1, 1), dpi=20)
    w.system.plot(ax, 0.5, -1)
    out = [[patch(p) for p in ax.patches], ax.get_xlim(), ax.get_ylim(),
           ax.get_xlabel(), ax.get_ylabel(), ax.get_aspect()]
    plt.close(fig)
    return out


def cube(w, n):
    shown = []

    def show(*a, **k):
        fig = plt.gcf()
        for k in range(n % 4):
            fig.canvas.callbacks.process("scroll_event", plt.matplotlib
                .backend_bases.MouseEvent("scroll_event", fig.canvas, 5, 5,
                                          step=1 - 2 * (n % 2)))
        shown.append(image(fig.axes[0]))
        plt.close(fig)
    before, plt.show = plt.show, show
    try:
        w.property.plot_cube(n % 3, [(0.0, 1.0, 1.0)], bool(n % 2))
    finally:
        plt.show = before
    return shown


def viewer(w, n):
    def fn(ax):
        v = GridPropertyViewer(ax, n % 3, w.grid.disk_radius, bool(n % 2))
        for _ in range(n % 3):
            v.onscroll(plt.matplotlib.backend_bases.MouseEvent(
                "scroll_event", ax.figure.canvas, 5, 5, step=1))
    return plotted(fn)


def point(w, n):
    shape = w.grid.parameters.grid_shape
    return [int(v) for v in np.unravel_index(n % int(np.prod(shape)), shape)]


def diagnostics(w, n):
    try:
        return w.diagnostics.get_diagnostic(n % 3, n % 4)
    except KeyError:
        return "missing"


def solutions(w, n):
    if w.grid.gradient_fit is None:
        return "not fitted"
    free = int((~w.grid.get_combined_mask()).sum())
    return w.grid.extract_solutions(None if n % 3 == 0 else n % (free + 1))


CUBES = ["disk_radius", "inclination", "tilt", "fx_map", "fy_map",
         "diagnostic_map", "gradients", "gradient_fit"]


def cube_of_grid(w, n):
    name = CUBES[n % 8]
    # changes of the grid clear what depends on it
    if getattr(w.grid, name) is None:
        return "cleared"
    return getattr(w.grid, "get_" + name)(bool(n % 3), bool(n % 2))


READS = {
    "point closest": lambda w, n: w.grid.determine_closest_grid_point(
        1.0 + n / 7, 5.0 * (n % 10), 15.0 * (n % 9), -0.3 * (n % 3)),
    "cube": cube_of_grid,
    "combined mask": lambda w, n: w.grid.get_combined_mask(),
    "solutions": solutions,
    "closest": lambda w, n: w.grid.determine_closest_grid_point(
        0.5 + n % 3, 30.0 * (n % 4), n % 180 - 20, 0.5 - n % 2,
        bool(n % 2)),
    "point": lambda w, n: w.grid.get_grid_point_data(*point(w, n),
                                                     bool(n % 2)),
    "print": lambda w, n: [str(o) for o in (
        w.grid, w.property, w.gradient, w.diagnostics, w.parameters, w.small,
        w.system, w.ring)] + [repr(w.grid), repr(w.system)],
    "vectors": lambda w, n: [w.parameters.get_vectors(),
                             w.grid.parameters.get_vectors()],
    "data": lambda w, n: [w.property.get_data(bool(n % 2)),
                          w.gradient.get_data(bool(n % 2)),
                          w.gradient.get_scaled_gradient()],
    "diagnostic": diagnostics,
    "patch": lambda w, n: patch(w.ring.get_patch(n % 3, 1.5, "red")),
    "rings": lambda w, n: [w.system.get_rings_data(),
                           w.system.get_inner_radii(),
                           w.system.get_outer_radii(),
                           w.system.get_transmissions(),
                           w.system.get_num_rings()],
    "ring system": lambda w, n: system_plot(w),
    "slice": lambda w, n: plotted(lambda ax: w.property.plot_slice(
        n % 3, None if n % 2 else n % 2, ax, bool(n % 2))),
    "plot_cube": cube,
    "viewer": viewer,
    "save grid": lambda w, n: saved(w.grid.save),
    "save property": lambda w, n: saved(w.property.save),
    "save parameters": lambda w, n: saved(w.small.save),
    "save diagnostics": lambda w, n: saved(w.diagnostics.save),
    "sorted": lambda w, n: [g.position for g in sorted(
        w.grid.gradients or [])],
    "copies": lambda w, n: [copy.copy(w.ring).outer_radius,
                            str(copy.deepcopy(w.property))],
}


@st.composite
def strategy_reads(draw):
    read = st.tuples(st.sampled_from(sorted(READS)), st.integers(0, 23))
    change = st.tuples(st.sampled_from(sorted(CHANGES) + sorted(PREPARE)),
                       st.integers(0, 23))
    return dict(masked=draw(st.booleans()), free=draw(st.booleans()),
                before=[list(c) for c in draw(st.lists(change, max_size=3))],
                reads=[list(r) for r in draw(st.lists(read, min_size=2,
                                                      max_size=12))],
                after=[list(c) for c in draw(st.lists(change, max_size=3))])


def inside(fn):
    """Run in an empty folder, and leave no figures behind."""
    plt.close("all")
    here = os.getcwd()
    shutil.rmtree("work", ignore_errors=True)
    os.mkdir("work")
    os.chdir("work")
    try:
        fn()
    finally:
        os.chdir(here)
        plt.close("all")


def check_reads(case, ctx):
    def run():
        first, second = make(case), make(case)
        for w in (first, second):
            for name, n in case["before"]:
                (CHANGES.get(name) or PREPARE[name])(w, n)
        before, files = first.snapshot(), first.files()
        results = {}
        for w, reads in ((first, case["reads"]),
                         (second, case["reads"][::-1] + case["reads"])):
            for name, n in reads:
                try:
                    got = flat(READS[name](w, n))
                except ValueError as ex:
                    # when everything is masked
                    got = [str(ex)]
                known = results.setdefault((name, n), got)
                require(equal(known, got), lambda: f"{name} ({n}) gives "
                        f"another result after other reads: {case['reads']}")
        for w in (first, second):
            changed = world.differences(before, w.snapshot())
            require(not changed,
                    lambda: f"reading {case['reads']} changed {changed}")
        require(first.files() == files,
                lambda: f"reading {case['reads']} changed files")
        if case.get("after"):
            # nothing that was read earlier is remembered after a change
            third = make(case)
            for name, n in case["before"]:
                (CHANGES.get(name) or PREPARE[name])(third, n)
            for w in (first, third):
                for name, n in case["after"]:
                    (CHANGES.get(name) or PREPARE[name])(w, n)
            for name, n in case["reads"]:
                got = []
                for w in (first, third):
                    try:
                        got.append(flat(READS[name](w, n)))
                    except ValueError as ex:
                        got.append([str(ex)])
                require(equal(*got), lambda: f"{name} ({n}) gives another "
                        f"result after {case['after']} if it was read before")
    inside(run)
    for name, _ in case["reads"]:
        ctx.label(name)
    ctx.nontrivial(len({name for name, _ in case["reads"]}) > 2)


def make(case):
    w = c27.World(case["masked"])
    if case["free"]:
        # a grid of which every point explains the measurement
        grid = w.grid = ShallotGrid(GridParameters(0.5, 1.5, 3, 0.5, 1.0, 2,
            2.0, 2), 20, logging_level=50)
        grid.set_eclipse_parameters(4.0, 10.0, 0.8)
        grid.add_gradients(np.array([0.3]), np.array([0.0]))
        grid.determine_gradient_fit()
    return w


# --------------------------------------------------------------------------
def mask(w, n, shape):
    size = int(np.prod(shape))
    return ((np.arange(size) * 7 + n) % 5 == 0).reshape(shape)


def replace(w, n):
    k = n % len(w.system.rings)
    r = w.system.rings[k]
    w.system.replace_ring(k, Ring(r.inner_radius, r.outer_radius,
                                  (n % 5) / 4, n % 90, n % 170))


CHANGES = {
    "mask": lambda w, n: w.property.set_mask(mask(w, n, w.data.shape)),
    "grid mask": lambda w, n: (w.grid.tilt, w.grid.inclination,
        w.grid.disk_radius)[n % 3].set_mask(mask(
            w, n, w.grid.parameters.grid_shape)),
    "hill": lambda w, n: w.grid.generate_hill_radius_mask(n / 4),
    "fit": lambda w, n: w.grid.determine_gradient_fit(bool(n % 2)),
    "velocity": lambda w, n: w.grid.gradients and
        w.grid.update_gradient_scaling(10.0 + n),
    "darkening": lambda w, n: w.grid.gradients and
        w.grid.update_gradient_scaling(None, (n % 5) / 10),
    "transmissions": lambda w, n: w.grid.gradients and
        w.grid.update_gradient_scaling(None, None, np.full(
            len(w.grid.gradients), 1 - (n % 4) / 8)),
    "measure": lambda w, n: w.gradient.determine_mask(0.01 * n, 1.0, 0.5,
                                                      1.0 + n),
    "eclipse": lambda w, n: w.grid.set_eclipse_parameters(1.0 + n, 12.0, 0.5),
    "contrast": lambda w, n: w.property.set_contrast_parameters(
        [None, 0.1][n % 2], [None, 0.7][n % 3 == 0], ["bone", None][n % 2],
        [None, 5][n % 2]),
    "diagnose": lambda w, n: w.grid.diagnose_fxfy_resolution(),
    "diagnostic": lambda w, n: w.diagnostics.save_diagnostic(
        n % 3, n % 4, np.arange(n) / 7, np.arange(n) + 1.0),
    "ring": lambda w, n: (setattr(w.ring, "inner_radius", n / 20),
                          setattr(w.ring, "outer_radius", 2 + n / 3),
                          setattr(w.ring, "transmission", n / 24),
                          setattr(w.ring, "inclination", 15 * (n % 7)),
                          setattr(w.ring, "tilt", -n - 7)),
    "replace": replace,
    "merge": lambda w, n: w.system.merge_rings(n / 10),
    "merge 2": lambda w, n: w.system.merge_rings(),
}
PREPARE = {"split": lambda w, n: w.system.split_rings(2 + n % 2),
           "remove": lambda w, n: w.grid.gradients and
           w.grid.remove_gradients(np.array([n % len(w.grid.gradients)]))}


@st.composite
def strategy_again(draw):
    change = st.tuples(st.sampled_from(sorted(CHANGES) + sorted(PREPARE)),
                       st.integers(0, 23))
    return dict(masked=draw(st.booleans()), free=draw(st.booleans()),
                changes=[list(c) for c in draw(st.lists(change, min_size=1,
                                                        max_size=8))])


def check_again(case, ctx):
    def run():
        once, twice = make(case), make(case)
        for name, n in case["changes"]:
            fn = CHANGES.get(name) or PREPARE[name]
            fn(once, n)
            fn(twice, n)
            if name in CHANGES:
                fn(twice, n)
            changed = world.differences(once.snapshot(), twice.snapshot())
            require(not changed, lambda: f"{name} ({n}) has another effect "
                    f"when it is repeated: {changed[:4]}")
            ctx.label(name)
        require(equal([str(o) for o in (once.grid, once.system)],
                      [str(o) for o in (twice.grid, twice.system)]),
                f"what is printed depends on repetition: {case['changes']}")
    inside(run)
    ctx.nontrivial(len({name for name, _ in case["changes"]}) > 2)


SUBS = [Sub("reads", strategy_reads, check_reads, 35, 700, shards=8,
            thorough_shards=16),
        Sub("again", strategy_again, check_again, 40, 800, shards=8,
            thorough_shards=16)]
