"""C14: an interrupted build with intermittent saving can be resumed."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import forked
import grids
import world
from core import Sub, in_repo, require
from props.c13 import diagnostics, digest
from Shallot import ShallotGrid

LEVEL = "fault_enumeration"
RULE = ("A case is a small grid that is built with intermittent saving in a "
        "child process, which is killed just before a file operation; the "
        "temporary folder is loaded (in turns killed as well). kills: one "
        "generated kill point per generation, with other builds, folder moves "
        "and folders of earlier builds in between; every_point: every file "
        "operation of the build (and of one resumed build) is a kill point. "
        "Non-trivial when at least one kill came after the first row was "
        "saved and before the build was complete.")
ASSUMPTIONS = ["a process is killed between file operations (opening a file "
               "to write it until it is closed counts as one operation, and "
               "what was written before is on disk)",
               "a folder whose removal after the last row was interrupted may "
               "be refused, but gives no other values",
               "the working directory stays the same between runs"]

TEMP = "./.temp_shallot"


def fresh():
    if os.path.exists("place"):
        shutil.rmtree("place")
    os.makedirs("place")
    os.chdir("place")


def build(case):
    return grids.build(case["spec"], keep_diagnostics=case["diagnostics"],
                       intermittent_saving=True)


def load(folder=TEMP):
    return ShallotGrid.load(folder, logging_level=grids.QUIET)


def first_row(log):
    """Number of operations after which a first row is surely saved."""
    starts = [k for k, (event, path) in enumerate(log)
              if event == "open" and path.endswith("y_value.npy")]
    return min(starts[1] if len(starts) > 1 else len(log), removal(log))


def removal(log):
    """Number of operations after which the folder is being removed."""
    opened = [k for k, (event, _) in enumerate(log) if event == "open"]
    return opened[-1] + 1 if opened else 0


def compare(grid, reference, what, partly=False):
    changed = world.differences(reference[0], world.snapshot(grid))
    require(not changed, f"{what}: {', '.join(changed)} differ")
    got = diagnostics(grid)
    require(got == reference[1] or (partly and got is None),
            f"{what}: the diagnostics differ")


def attempt(reference, what):
    """Load a folder that may be incomplete."""
    try:
        grid = load()
    except Exception as ex:
        if not in_repo(ex.__traceback__):
            raise
        return False
    compare(grid, reference, what, partly=True)
    return True


def finish(reference, what, folder=TEMP):
    grid = load(folder)
    compare(grid, reference, what)
    require(not os.path.exists(TEMP),
            f"{what}: the temporary folder is still there")


@st.composite
def tiny(draw, rows=(1, 4), columns=(1, 3)):
    spec = draw(world.small_specs(max_count=4, resolutions=(2, 20)))
    spec["x"][2] = draw(st.integers(*columns))
    spec["y"][2] = draw(st.integers(*rows))
    spec["num_rf"] = min(spec["num_rf"], 3)
    return spec


@st.composite
def strategy(draw):
    return dict(
        spec=draw(grids.seldom(tiny(rows=(2, 5)), tiny(rows=(6, 12),
            columns=(1, 1)))), diagnostics=draw(st.booleans()),
        kills=draw(st.lists(st.integers(0, 10 ** 4), min_size=1, max_size=3)),
        between=draw(st.none() | tiny(rows=(1, 2))),
        stale=draw(st.none() | tiny(rows=(1, 3))),
        stale_kill=draw(st.integers(0, 10 ** 4)),
        stale_diagnostics=draw(st.booleans()),
        moved=draw(st.sampled_from([False, False, True])))


def check_kills(case, ctx):
    reference = grids.build(case["spec"], keep_diagnostics=case["diagnostics"])
    reference = world.snapshot(reference), diagnostics(reference)
    scratch = os.getcwd()
    fresh()
    try:
        if case["stale"] is not None:
            old = dict(spec=case["stale"],
                       diagnostics=case["stale_diagnostics"])
            _, log = forked.run(lambda: build(old))
            forked.run(lambda: build(old), case["stale_kill"] % len(log))
            ctx.label("after an older build",
                      os.path.exists(TEMP) and bool(os.listdir(TEMP)))
        present = os.listdir(".")
        step, what = (lambda: build(case)), "the interrupted build"
        kills = list(case["kills"])
        while kills:
            # a dry run on a copy tells the file operations
            shutil.copytree(".", "../dry")
            os.chdir("../dry")
            _, log = forked.run(step)
            os.chdir("../place")
            shutil.rmtree("../dry")
            log = [[event, path] for event, path in log]
            low = first_row(log) if what == "the interrupted build" else 0
            last = removal(log)
            point = low + kills.pop(0) % (max(len(log) - low, 1))
            if "late" in case:
                # in one of the last rows
                point = max(low, low + last - point)
            killed, done = forked.run(step, point)
            require(killed or len(done) <= point, "the build was not killed")
            if not killed:
                break
            if point > last:
                ctx.label("killed during the removal")
                attempt(reference, f"{what}, killed during the removal")
                return
            ctx.nontrivial()
            ctx.label(what)
            if case["between"] is not None:
                have = digest(TEMP)
                grids.build(case["between"])
                require(digest(TEMP) == have, "another build changed the "
                        "temporary folder")
            step, what = load, f"{what}, resumed and interrupted again"
        if not os.path.exists(TEMP):
            # not interrupted after all
            return
        folder = TEMP
        if case["moved"]:
            os.makedirs("elsewhere")
            os.rename(TEMP, "elsewhere/kept")
            folder = "elsewhere/kept"
            ctx.label("moved")
        finish(reference, what, folder)
    finally:
        os.chdir(scratch)


@st.composite
def strategy_many(draw):
    case = draw(strategy())
    rows = draw(st.integers(129, 140))
    case.update(spec=dict(x=[0.5, 1.0, 1], y=[0.5, 0.5 + rows / 64, rows + 1],
                          max_rf=2.0, num_rf=2, nf=10), stale=None,
                between=None, kills=[draw(st.integers(1, 400))], late=True)
    return case


@st.composite
def strategy_every(draw):
    return dict(spec=draw(tiny(rows=(2, 3), columns=(1, 2))),
                diagnostics=draw(st.booleans()),
                again=draw(st.integers(0, 10 ** 4)))


def check_every(case, ctx):
    reference = grids.build(case["spec"], keep_diagnostics=case["diagnostics"])
    reference = world.snapshot(reference), diagnostics(reference)
    scratch = os.getcwd()
    fresh()
    try:
        step, what = (lambda: build(case)), "build"
        for generation in range(2):
            shutil.copytree(".", "../dry", dirs_exist_ok=True)
            os.chdir("../dry")
            _, log = forked.run(step)
            require(not os.path.exists(TEMP),
                    f"{what}: the temporary folder is still there")
            os.chdir("../place")
            shutil.rmtree("../dry")
            low = 0 if generation else first_row(log)
            last = removal(log)
            for point in range(len(log)):
                shutil.copytree("../place", "../dry")
                os.chdir("../dry")
                forked.run(step, point)
                where = (f"{what} killed before operation {point} "
                         f"({log[point][0]} of "
                         f"{os.path.basename(log[point][1])})")
                if low <= point <= last:
                    finish(reference, where)
                    ctx.label(f"killed in generation {generation}")
                    ctx.nontrivial()
                elif os.path.exists(TEMP):
                    whole = attempt(reference, where)
                    ctx.label("incomplete folder "
                              + ("loaded" if whole else "refused"))
                os.chdir("../place")
                shutil.rmtree("../dry")
            if low > last or len(log) == 0 or low >= last:
                return
            # leave a folder behind that is resumed next
            forked.run(step, low + case["again"] % (last - low + 1))
            step, what = load, "resumed build"
    finally:
        os.chdir(scratch)
        for name in ("dry", "place"):
            if os.path.exists(name):
                shutil.rmtree(name)


@st.composite
def strategy_flags(draw):
    return dict(spec=draw(world.small_specs(resolutions=(2, 60))))


def check_flags(case, ctx):
    scratch = os.getcwd()
    fresh()
    try:
        plain = grids.build(case["spec"])
        expected, stored = world.snapshot(plain), None
        for keep in (False, True):
            for saving in (True, False):
                grid = grids.build(case["spec"], keep_diagnostics=keep,
                                   intermittent_saving=saving)
                changed = world.differences(expected, world.snapshot(grid))
                require(not changed, lambda: f"keep_diagnostics={keep}, "
                        f"intermittent_saving={saving}: {changed} differ")
                require(os.listdir(".") == [], lambda: "a finished build left "
                        f"{os.listdir('.')} behind")
                require((grid.diagnostics is not None) == keep,
                        f"keep_diagnostics={keep} was not followed")
                if keep:
                    got = diagnostics(grid)
                    require(stored is None or got == stored,
                            "intermittent saving changed the diagnostics")
                    stored = got
        ctx.nontrivial(expected["tilt"].size > 3)
        ctx.label("rows", expected["tilt"].shape[0])
    finally:
        os.chdir(scratch)


SUBS = [Sub("kills", strategy, check_kills, 60, 1500, shards=4,
            thorough_shards=8),
        Sub("every_point", strategy_every, check_every, 4, 100, shards=5,
            thorough_shards=8),
        Sub("many", strategy_many, check_kills, 1, 10, thorough_shards=4),
        Sub("flags", strategy_flags, check_flags, 40, 800)]
