"""C34: calls leave the process as it was."""
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import threading
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import world
from core import Sub, Violation, in_repo, require
from props import c27, c33
from GridDiagnostics import GridDiagnostics
from GridParameters import GridParameters
from GridProperty import GridProperty
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("calls: a sequence of up to 8 public operations with valid or invalid "
        "arguments, in a process whose settings (handling of floating point "
        "errors, printing, random numbers, warnings, folder, ...) were chosen "
        "at random; the settings are compared after every call. builds: a "
        "grid that is built completely or stopped at a random point. damaged: "
        "loading from folders with a missing or destroyed file. blocked: "
        "saving where a folder or a file is in the way of one of the files. "
        "Non-trivial with at least two different calls, or a stop, or damage.")
ASSUMPTIONS = ["loggers that a grid registers are not compared, nor caches of "
               "the libraries",
               "plot_cube opens a figure, as documented; the temporary folder "
               "stays when a build with intermittent saving is stopped"]

KINDS = ("divide", "over", "under", "invalid")


class Stop(Exception):
    pass


def noted(*_):
    """A handler of the user."""


def apply(settings):
    """Choose the settings of the process."""
    np.seterr(**dict(zip(KINDS, settings["errors"])))
    np.set_printoptions(**settings["printing"])
    np.random.seed(settings["seed"])
    random.seed(settings["seed"])
    plt.rcParams["image.cmap"] = settings["cmap"]
    plt.rcParams["lines.linewidth"] = settings["width"]
    warnings.simplefilter(settings["warnings"])
    logging.getLogger().setLevel(settings["level"])
    logging.disable(settings["disabled"])
    logging.raiseExceptions = settings["raise"]
    gc.set_threshold(*settings["threshold"])
    sys.setrecursionlimit(settings["recursion"])
    sys.setswitchinterval(settings["interval"])
    (plt.ion if settings["interactive"] else plt.ioff)()
    np.seterrcall(noted if settings["noted"] else None)
    signal.signal(signal.SIGTERM, noted if settings["noted"]
                  else signal.SIG_DFL)
    sys.excepthook = noted if settings["noted"] else sys.__excepthook__
    os.environ["OBSERVATORY"] = settings["cmap"]
    os.umask(settings["umask"])
    gc.enable()


def state():
    """Everything of the process that a call has no business with."""
    out = {"handling of floating point errors": np.geterr(),
           "floating point error callback": np.geterrcall(),
           "print options": {k: str(v) for k, v in
                             np.get_printoptions().items()},
           "numpy random numbers": [str(v) if not isinstance(v, np.ndarray)
                                    else v.tobytes()
                                    for v in np.random.get_state()],
           "random numbers": random.getstate(),
           "folder": os.getcwd(),
           "environment": dict(os.environ),
           "warning filters": list(warnings.filters),
           "matplotlib settings": {k: str(v) for k, v in
                                   plt.rcParams.items()},
           "matplotlib backend": plt.get_backend(),
           "interactive mode": plt.isinteractive(),
           "root logger": (logging.root.level, list(logging.root.handlers),
                           logging.root.disabled, logging.root.manager.disable,
                           list(logging.root.filters),
                           logging.raiseExceptions,
                           logging.getLogger("matplotlib").level),
           "logging classes": (logging.getLoggerClass(),
                               logging.getLogRecordFactory(),
                               logging.getLevelName(20)),
           "signals": [signal.getsignal(s) for s in (
               signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
           # that of the progress bars looks after them all
           "threads": [t for t in threading.enumerate()
                       if type(t).__name__ != "TMonitor"],
           "import path": list(sys.path),
           "recursion limit": sys.getrecursionlimit(),
           "switch interval": sys.getswitchinterval(),
           "garbage collector": (gc.isenabled(), gc.get_threshold()),
           "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(),
                     sys.getprofile()),
           "locale": locale.setlocale(locale.LC_ALL),
           "streams": (sys.stdout, sys.stderr, sys.stdin)}
    out["file mode"] = os.umask(0)
    os.umask(out["file mode"])
    return out


def opened():
    """Open files and other descriptors."""
    gc.collect()
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            path = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue        # that of the listing itself
        # matplotlib keeps its fonts open
        if "matplotlib" not in path:
            out[fd] = path
    return sorted(out.items())


def figures():
    numbers = plt.get_fignums()
    return (numbers, plt.gcf().number, [id(a) for a in plt.gcf().axes],
            id(plt.gcf()._axstack.current())) if numbers else (numbers,)


class Watch:
    """Compares the process before and after a call."""

    def __init__(self, what, draws=False, prints=False):
        self.what, self.draws, self.prints = what, draws, prints

    def __enter__(self):
        self.shown = sys.stdout
        sys.stdout = self.text = io.StringIO()
        self.before, self.open, self.figures = state(), opened(), figures()

    def __exit__(self, kind, ex, tb):
        now = state()
        sys.stdout = self.shown
        if ex is not None:
            # a stored error keeps the frames, and with them their files
            ex.__traceback__ = None
            ex.__context__ = ex.__cause__ = None
        changed = [k for k in now if now[k] != self.before[k]]
        require(not changed, lambda: f"{self.what} changed the " + ", ".join(
            f"{k}: {short(self.before[k], now[k])}" for k in changed[:3]))
        require(opened() == self.open,
                lambda: f"{self.what} left files open: {opened()}")
        require(self.draws or figures() == self.figures,
                f"{self.what} opened, closed or chose another figure")
        require(self.prints or self.text.getvalue() == "",
                lambda: f"{self.what} printed {self.text.getvalue()[:80]!r}")


def short(before, now):
    if isinstance(before, dict):
        keys = [k for k in set(before) | set(now)
                if before.get(k) != now.get(k)]
        before = {k: before.get(k) for k in keys[:3]}
        now = {k: now.get(k) for k in keys[:3]}
    return f"{str(before)[:80]} -> {str(now)[:80]}"


def contained(fn):
    """Run in a folder of its own, and put the process back afterwards."""
    plt.close("all")
    shutil.rmtree("work", ignore_errors=True)
    os.mkdir("work")
    here, errors, mask = os.getcwd(), np.geterr(), os.umask(0)
    os.umask(mask)
    printing, root = np.get_printoptions(), logging.root.level
    threshold, recursion = gc.get_threshold(), sys.getrecursionlimit()
    hook, term = sys.excepthook, signal.getsignal(signal.SIGTERM)
    numbers, more = np.random.get_state(), random.getstate()
    rc, filters, show = dict(plt.rcParams), list(warnings.filters), plt.show
    environment, streams = dict(os.environ), (sys.stdout, sys.stderr)
    os.chdir("work")
    plt.show = lambda *a, **k: None
    try:
        with warnings.catch_warnings():
            fn()
    finally:
        plt.show = show
        sys.stdout, sys.stderr = streams
        os.chdir(here)
        os.environ.clear()
        os.environ.update(environment)
        np.seterr(**errors)
        np.set_printoptions(**printing)
        np.random.set_state(numbers)
        random.setstate(more)
        os.umask(mask)
        logging.root.setLevel(root)
        logging.disable(logging.NOTSET)
        logging.raiseExceptions = True
        gc.set_threshold(*threshold)
        sys.setrecursionlimit(recursion)
        sys.setswitchinterval(0.005)
        sys.excepthook = hook
        np.seterrcall(None)
        signal.signal(signal.SIGTERM, term)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.rcParams.update(rc)
        plt.close("all")
        plt.ioff()


ERRORS = st.sampled_from(["ignore", "warn"])


def settings():
    return st.fixed_dictionaries(dict(
        errors=st.lists(ERRORS, min_size=4, max_size=4),
        printing=st.fixed_dictionaries(dict(
            precision=st.integers(1, 12), suppress=st.booleans(),
            threshold=st.sampled_from([10, 1000]),
            linewidth=st.sampled_from([40, 75, 120]))),
        seed=st.integers(0, 10**6), cmap=st.sampled_from(["bone", "viridis"]),
        width=st.sampled_from([0.5, 1.5, 2.0]),
        warnings=st.sampled_from(["ignore", "default", "always"]),
        level=st.sampled_from([10, 20, 30, 40]),
        disabled=st.sampled_from([0, 0, 10, 20, 35]), **{"raise": st.booleans()},
        threshold=st.sampled_from([[700, 10, 10], [5000, 20, 20]]),
        recursion=st.sampled_from([3000, 5000]),
        interval=st.sampled_from([0.005, 0.01]), interactive=st.booleans(),
        noted=st.booleans(),
        umask=st.sampled_from([0o022, 0o027, 0o077])))


# --------------------------------------------------------------------------
def table():
    return c27.table() or {}


@st.composite
def strategy_calls(draw):
    calls = []
    names = sorted(table()) or ["Ring"]
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["call", "call", "call", "read",
                                     "change"]))
        if kind == "call":
            name = draw(st.sampled_from(names))
            fault = None
            if table() and draw(st.integers(0, 2)) == 0:
                argument = draw(st.sampled_from(sorted(table()[name])))
                fault = [argument,
                         draw(st.sampled_from(table()[name][argument]))]
            calls.append([kind, name, fault])
        else:
            names_of = c33.READS if kind == "read" else c33.CHANGES
            calls.append([kind, draw(st.sampled_from(sorted(names_of))),
                          draw(st.integers(0, 23))])
    return dict(settings=draw(settings()), masked=draw(st.booleans()),
                current=draw(st.sampled_from(["only", "axes", "figure"])),
                calls=calls)


def check_calls(case, ctx):
    def run():
        apply(case["settings"])
        before = state()
        w = fresh(case)
        now = state()
        changed = [k for k in now if now[k] != before[k]]
        require(not changed, lambda: "making the objects changed the "
                + ", ".join(f"{k}: {short(before[k], now[k])}"
                            for k in changed[:3]))
        apply(case["settings"])
        for kind, name, more in case["calls"]:
            ctx.label(f"{kind} {name}")
            if kind == "call":
                # the valid arguments belong to the objects as they are made
                w = fresh(case)
                apply(case["settings"])
                operation(w, name, more)
            else:
                fn = (c33.READS if kind == "read" else c33.CHANGES)[name]
                # drawing the title of the next slice, or the random identity
                # of its logger, is not what is compared here
                with Watch(f"{name} ({more})", draws=name in DRAWS,
                           prints=name in DRAWS):
                    try:
                        fn(w, more)
                    except ValueError:
                        pass        # when every point is masked
    contained(run)
    ctx.nontrivial(len({tuple(map(str, c[:2])) for c in case["calls"]}) > 1)


@st.composite
def strategy_each(draw):
    return dict(settings=draw(settings()), masked=draw(st.booleans()),
                current=draw(st.sampled_from(["only", "axes", "figure"])))


def check_each(case, ctx):
    """Every operation, with valid arguments."""
    def run():
        for name in sorted(table()):
            apply(case["settings"])
            w = fresh(case)
            apply(case["settings"])
            operation(w, name, None)
        for group in (c33.READS, c33.CHANGES):
            w = fresh(case)
            for name in sorted(group):
                apply(case["settings"])
                with Watch(name, draws=name in DRAWS, prints=name in DRAWS):
                    try:
                        group[name](w, 0)
                    except ValueError:
                        pass        # when every point is masked
        ctx.label("interactive" if case["settings"]["interactive"]
                  else "not interactive")
        ctx.nontrivial()
    contained(run)


# these open figures of their own and close them (in the harness)
DRAWS = {"plot_cube", "viewer", "slice", "ring system"}


def fresh(case):
    plt.close("all")
    for folder in os.listdir("."):
        shutil.rmtree(folder)
    w = c27.World(case["masked"])
    # the axes that are plotted on need not be the current ones
    if case["current"] == "axes":
        w.fig.add_axes([0.8, 0.8, 0.1, 0.1])
    elif case["current"] == "figure":
        plt.figure(figsize=(1, 1), dpi=20).add_axes([0, 0, 1, 1])
    return w


def operation(w, name, fault):
    fn, arguments = c27.operations(w)[name]
    values, errors = {}, ()
    for argument, (good, kinds) in arguments.items():
        values[argument] = c27.copied(good)
        if fault and fault[0] == argument:
            letters, make = kinds[fault[1]]
            values[argument] = make(good)
            errors = tuple(c27.ERRORS[k] for k in letters)
    files = w.files()
    what = f"{name}" + (f" with an invalid {fault[0]} ({fault[1]})"
                        if fault else "")
    with Watch(what, draws=name == "plot_cube" and not fault):
        try:
            if name in c27.POSITIONAL:
                fn(*values.values())
            else:
                fn(**values)
        except errors:
            pass
        except Exception as ex:
            if not in_repo(ex.__traceback__):
                raise
            raise Violation(f"{what} raised {type(ex).__name__} ({ex})"
                            ) from None
    now = w.files()
    new = sorted(set(now) - set(files))
    changed = sorted(k for k in files if now.get(k, 0) != files[k])
    require(not changed, f"{what} changed the files {changed}")
    if fault is None and ("save" in name and name != "save_diagnostic"
                          or name == "ShallotGrid.load"):
        top = "./" + ("kept grid" if name == "ShallotGrid.load"
                      else values["directory"])
        require(all(p == top or p.startswith(top + "/") for p in new),
                lambda: f"{what} wrote {new[:3]}")
        if name == "ShallotGrid.load":
            return
        for path in new:
            mode = os.stat(path).st_mode & 0o777
            mask = os.umask(0)
            os.umask(mask)
            full = 0o777 if now[path] is None else 0o666
            require(mode == full & ~mask,
                    f"{what} made {path} with the mode {mode:o}")
    elif name != "ShallotGrid.load":
        require(not new, lambda: f"{what} made the files {new[:3]}")


# --------------------------------------------------------------------------
@st.composite
def strategy_builds(draw):
    return dict(settings=draw(settings()),
                spec=draw(world.small_specs(max_count=4,
                                            resolutions=(10, 30))),
                keep=draw(st.booleans()), intermittent=draw(st.booleans()),
                stop=draw(st.one_of(st.none(), st.integers(0, 120))),
                interrupt=draw(st.booleans()))


def check_builds(case, ctx):
    import grids
    from core import GUARD

    def run():
        apply(case["settings"])
        parameters = grids.parameters(case["spec"])
        count = [0]
        kind = KeyboardInterrupt if case["interrupt"] else Stop

        def trace(event, path):
            count[0] += 1
            if count[0] == case["stop"]:
                raise kind()
        stopped = False
        if case["stop"] is not None and case["intermittent"]:
            GUARD.hook = trace
        elif case["stop"] is not None:
            count[0] = -1
        before = figures()
        try:
            with Watch(f"building a grid ({case['spec']})"):
                try:
                    if count[0] < 0:
                        stop_in_python(case["stop"], kind, parameters, case)
                    else:
                        ShallotGrid(parameters, case["spec"]["nf"],
                            50, case["keep"], case["intermittent"])
                except (KeyboardInterrupt, Stop):
                    stopped = True
        finally:
            GUARD.hook = None
        left = os.listdir(".")
        require(stopped or not left,
                f"building a grid left {left} behind")
        require(not left or case["intermittent"],
                f"building a grid without intermittent saving left {left}")
        ctx.label("stopped" if stopped else "complete")
        ctx.nontrivial(stopped or case["intermittent"])
    contained(run)


def stop_in_python(number, kind, parameters, case):
    """Build, and stop at the entry of the number-th function of the code."""
    from core import REPO
    count = [0]

    def profile(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(REPO):
            count[0] += 1
            if count[0] == number:
                sys.setprofile(None)
                raise kind()
    sys.setprofile(profile)
    try:
        ShallotGrid(parameters, case["spec"]["nf"], 50, case["keep"],
                    False)
    finally:
        sys.setprofile(None)


# --------------------------------------------------------------------------
LOADERS = {
    "kept parameters": GridParameters.load,
    "kept property": lambda d: GridProperty.load(d, GridPropertyName.TILT,
        GridPropertyUnit.DEGREE),
    "kept diagnostics": GridDiagnostics.load,
    "kept grid": lambda d: ShallotGrid.load(d, 50)}


@st.composite
def strategy_damaged(draw):
    return dict(settings=draw(settings()), masked=draw(st.booleans()),
                folder=draw(st.sampled_from(sorted(LOADERS))),
                file=draw(st.integers(0, 40)),
                damage=draw(st.sampled_from(["missing", "empty", "cut",
                                             "text", "folder"])))


def check_damaged(case, ctx):
    def run():
        w = c27.World(case["masked"])
        w.grid.save("kept grid")
        apply(case["settings"])
        paths = sorted(os.path.join(folder, name) for folder, _, names
                       in os.walk(case["folder"]) for name in names)
        path = paths[case["file"] % len(paths)]
        with open(path, "rb") as f:
            content = f.read()
        os.remove(path)
        if case["damage"] == "folder":
            os.mkdir(path)
        elif case["damage"] != "missing":
            with open(path, "wb") as f:
                f.write({"empty": b"", "cut": content[:-5],
                         "text": b"not an array\n"}[case["damage"]])
        files = w.files()
        failed = False
        what = f"loading with {os.path.basename(path)} {case['damage']}"
        with Watch(what):
            try:
                LOADERS[case["folder"]](case["folder"])
            except Exception:
                # which error this has to be is decided elsewhere (C16, C31)
                failed = True
        require(w.files() == files, f"{what} changed files")
        ctx.label(f"{case['folder']} {case['damage']} "
                  + ("rejected" if failed else "loaded"))
        ctx.nontrivial()
    contained(run)


# --------------------------------------------------------------------------
SAVERS = {
    "parameters": lambda w: w.small.save,
    "property": lambda w: w.property.save,
    "gradient": lambda w: w.gradient.save,
    "gradient of a grid": lambda w: lambda d: w.gradient.save_gradient(d, "x"),
    "diagnostics": lambda w: w.diagnostics.save}


@st.composite
def strategy_blocked(draw):
    return dict(settings=draw(settings()), masked=draw(st.booleans()),
                what=draw(st.sampled_from(sorted(SAVERS))),
                file=draw(st.integers(0, 60)),
                block=draw(st.sampled_from(["folder", "file", "link"])))


def check_blocked(case, ctx):
    def run():
        w = c27.World(case["masked"])
        save = SAVERS[case["what"]](w)
        os.mkdir("other")
        save("other")
        paths = sorted(os.path.join(folder, name)[len("other/"):]
                       for folder, folders, names in os.walk("other")
                       for name in names + (
                           folders if case["block"] == "file" else []))
        path = os.path.join("new", paths[case["file"] % len(paths)])
        os.makedirs(os.path.dirname(path))
        if case["block"] == "folder":
            os.mkdir(path)
        elif case["block"] == "link":
            os.symlink("nowhere/nothing", path)
        else:
            open(path, "w").close()
            os.chmod(path, 0)
        apply(case["settings"])
        before, failed = w.snapshot(), False
        what = f"saving a {case['what']} with a {case['block']} at {path}"
        with Watch(what):
            try:
                save("new")
            except Exception:
                failed = True
        changed = world.differences(before, w.snapshot())
        require(not changed, lambda: f"{what} changed {changed}")
        ctx.label(f"{case['what']} {case['block']} "
                  + ("failed" if failed else "saved"))
        ctx.nontrivial(failed)
    contained(run)


SUBS = [Sub("calls", strategy_calls, check_calls, 40, 700, shards=6,
            thorough_shards=16),
        Sub("each", strategy_each, check_each, 2, 12, shards=4,
            thorough_shards=16),
        Sub("builds", strategy_builds, check_builds, 40, 500, shards=2,
            thorough_shards=6),
        Sub("damaged", strategy_damaged, check_damaged, 40, 500, shards=2,
            thorough_shards=6),
        Sub("blocked", strategy_blocked, check_blocked, 40, 400, shards=2,
            thorough_shards=6)]
