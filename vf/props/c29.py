"""C29: the log of an object tells its changes, once and at its own level."""
import io
import logging
import random
import re
import shutil
import sys

import numpy as np
from hypothesis import strategies as st

import forked
import grids
import world
from core import Sub, require
from props.c21 import EIGHTH, systems
from Ring import Ring
from RingSystem import RingSystem
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("rings: a history of up to 10 accepted and rejected changes of two "
        "ring systems with levels of their own. grids: the same with two "
        "grids, measurements, fits, queries and a loaded copy. The records "
        "every call writes are compared with what it did. Random numbers are "
        "seeded in some cases before the objects are made. Non-trivial when "
        "both objects were used and at least three records compared.")
ASSUMPTIONS = ["messages are found by their words and numbers, their layout "
               "and further messages are not compared",
               "rejected calls on grids are not generated"]

LEVELS = st.sampled_from([10, 10, 15, 20, 20, 25, 30, 40, 50])
RECORD = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ - (\w+) *- "
                    r"[^:\n]*: ", re.M)


class Root(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


class Logged:
    """An object and the stream its messages are written to."""

    def __init__(self, level, make, seed):
        self.level, self.stream, self.position = level, io.StringIO(), 0
        if seed is not None:
            np.random.seed(seed)
            random.seed(seed)
        before = np.random.get_state(), random.getstate()
        self.it = self.call(make)
        after = np.random.get_state(), random.getstate()
        require(all(world.same(a, b) if isinstance(a, np.ndarray) else a == b
                    for a, b in zip(before[0], after[0]))
                and before[1] == after[1],
                "making an object used the random numbers of the user")

    def call(self, fn, *args, **kw):
        stderr, sys.stderr = sys.stderr, self.stream
        try:
            return fn(*args, **kw)
        finally:
            sys.stderr = stderr

    def new(self):
        """The [level, text] of the records since the last time."""
        text = self.stream.getvalue()[self.position:].replace("\r", "\n")
        self.position = len(self.stream.getvalue())
        text = re.sub(r"^ *\d+%\|.*$\n?|^\d+it \[.*$\n?", "", text,
                      flags=re.M)
        found = list(RECORD.finditer(text))
        ends = [m.start() for m in found[1:]] + [len(text)]
        return [[m.group(1), text[m.end():e]] for m, e in zip(found, ends)]


# what the messages of the documented changes look like
TELLS = ["fit.*cleared", "gradients.*None", "eclipse parameters missing",
         "no gradients", "no changes", "no gradient fit", r"building y",
         r"extracting \d", r"determining \d", r"adding \d", "deviation",
         "(added|removed|replaced) ring", "(split|merged) rings",
         "overridden"]


class Watch:
    """Root handler and all objects: nothing may be written elsewhere."""

    def __init__(self, objects):
        self.objects = objects

    def compare(self, used, expected, what, root, ctx, exactly=True,
                alone=False):
        """expected: [(level, pattern)]; patterns in order of the records."""
        for o in self.objects:
            if o is used:
                continue
            other = o.new()
            require(not other, lambda: f"{what}: another object wrote "
                    f"{other[:2]}")
        require(not root.records, lambda: f"{what}: the message was passed "
                f"on to the root logger: {root.records[:2]}")
        records = used.new()
        for name, text in records:
            require(getattr(logging, name, 0) >= used.level,
                    lambda: f"{what}: a record below the level {used.level} "
                    f"was written: {name} {text[:80]}")
        for level, pattern in expected:
            n = sum(bool(re.search(pattern, text)) and name == level
                    for name, text in records)
            want = int(getattr(logging, level) >= used.level)
            require(n == want, lambda: f"{what}: {n} instead of {want} "
                    f"{level} records match {pattern!r} at level "
                    f"{used.level}; written: {[r[1][:90] for r in records]}")
            ctx.label(f"{level} {'written' if want else 'not written'}")
            self.number = getattr(self, "number", 0) + want
        told = [p for _, p in expected]
        for name, text in records:
            require(not any(re.search(p, text) for p in TELLS)
                    or any(re.search(p, text) for p in told) or name != "INFO",
                    lambda: f"{what}: {text[:90]!r} was written, but did not "
                    f"happen")
        if alone:
            want = [n for n, _ in expected if getattr(logging, n)
                    >= used.level]
            require(sorted(n for n, _ in records) == sorted(want),
                    lambda: f"{what}: not only {want} were written, but "
                    f"{[[n, r[:90]] for n, r in records]}")
        if exactly and not expected:
            require(not records, lambda: f"{what}: nothing changed, but "
                    f"{records[:2]} was written")


# --------------------------------------------------------------------------
# ring systems
# --------------------------------------------------------------------------
@st.composite
def strategy_rings(draw):
    number = st.integers(0, 20)
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, 1), number, number),
        st.tuples(st.just("replace"), st.integers(0, 1), number, number),
        st.tuples(st.just("remove"), st.integers(0, 1), number),
        st.tuples(st.just("split"), st.integers(0, 1), st.integers(2, 4)),
        st.tuples(st.just("split each"), st.integers(0, 1), number),
        st.tuples(st.just("merge"), st.integers(0, 1)),
        st.tuples(st.just("rejected"), st.integers(0, 1), st.sampled_from(
            ["add", "add index", "replace", "remove", "split"])),
        st.tuples(st.just("read"), st.integers(0, 1)))
    return dict(systems=[draw(systems()), draw(systems())],
                levels=[draw(LEVELS), draw(LEVELS)],
                seed=draw(st.sampled_from([None, 0, 7])),
                ops=[list(o) for o in draw(st.lists(op, min_size=2,
                                                    max_size=10))])


def make_system(s, level):
    rings = np.array(s["rings"], float).reshape(-1, 3)
    return RingSystem(s["planet"], rings[:, 0].copy(), rings[:, 1].copy(),
                      rings[:, 2].copy(), s["inclination"], s["tilt"], level)


def change(system, op):
    """(function, arguments, expected info messages) or None."""
    n, name = len(system.rings), op[0]
    info = []
    if name in ("add", "replace"):
        replace = name == "replace"
        if replace and n == 0:
            return None
        index = op[2] % (n if replace else n + 1)
        low = system.rings[index - 1].outer_radius if index else 0.0
        after = index + replace
        high = (system.rings[after].inner_radius if after < n
                else low + 8 * EIGHTH)
        if high - low < 1e-3:
            return None
        i, t = system.inclination, system.tilt
        inclination, tilt = [(0, 0), (90, -180), (12.5, 33), (i, t),
                             (i, 71), (47.5, t), (47.5, i), (i, i)][op[3] % 8]
        ring = Ring(max(low, 1e-15), high, 0.5, inclination, tilt)
        if inclination != system.inclination:
            info.append(f"inclination.*{inclination:.2f}.*"
                        f"{system.inclination:.2f}")
        if tilt != system.tilt:
            info.append(rf"tilt.*{re.escape(f'{tilt:.2f}')}.*"
                        rf"{re.escape(f'{system.tilt:.2f}')}")
        word = "replaced" if replace else "added"
        info.append(rf"{word} ring.*\b{index}\b")
        return (system.replace_ring if replace else system.add_ring,
                (index, ring), info)
    if name == "remove":
        if n == 0:
            return None
        return (system.remove_ring, (op[2] % n,),
                [rf"removed ring.*\b{op[2] % n}\b"])
    if name == "split":
        if n > 40:
            return None
        return (system.split_rings, (op[2],),
                [rf"split.*\b{n}\b.*\b{n * op[2]}\b"])
    if name == "split each":
        if n > 40 or n == 0:
            return None
        counts = 1 + (np.arange(n) + op[2]) % 3
        return (system.split_rings, (counts,),
                [rf"split.*\b{n}\b.*\b{counts.sum()}\b"])
    if name == "merge":
        return (system.merge_rings, (), [r"no rings"] if n == 0 else
                [rf"merged.*\b{n}\b.*\b@\b"])
    return None


def check_rings(case, ctx):
    root = Root()
    logging.getLogger().addHandler(root)
    try:
        objects = [Logged(level, lambda s=s, level=level: make_system(
            s, level), case["seed"])
            for s, level in zip(case["systems"], case["levels"])]
        watch = Watch(objects)
        for o in objects:
            watch.compare(o, [], "a new ring system", root, ctx)
        used = set()
        for op in case["ops"]:
            me = objects[op[1]]
            system = me.it
            what = f"{op[0]} {op[2:]}"
            before = str(system).strip("\n")
            if op[0] == "read":
                me.call(lambda: (str(system), repr(system),
                                 system.get_rings_data(),
                                 system.get_num_rings()))
                watch.compare(me, [], what, root, ctx)
                continue
            if op[0] == "rejected":
                n = len(system.rings)
                ring = Ring(1000, 1001, 0.5)
                fn, args = {
                    "add": (system.add_ring, (n, "ring")),
                    "add index": (system.add_ring, (n + 1, ring)),
                    "replace": (system.replace_ring, (n, ring)),
                    "remove": (system.remove_ring, (n,)),
                    "split": (system.split_rings, (1,))}[op[2]]
                try:
                    me.call(fn, *args)
                except (TypeError, ValueError):
                    pass
                watch.compare(me, [], f"the rejected {what}", root, ctx)
                continue
            found = change(system, op)
            if found is None:
                continue
            fn, args, info = found
            me.call(fn, *args)
            after = str(system).strip("\n")
            info = [p.replace("@", str(len(system.rings))) for p in info]
            expected = [("INFO", p) for p in info]
            if op[0] != "merge" or info != ["no rings"]:
                # the state before, and then the state after
                expected.append(("DEBUG", "(?s)Before.*" + re.escape(before)
                                 + ".*After.*" + re.escape(after)))
            watch.compare(me, expected, what, root, ctx, alone=True)
            used.add(op[1])
        ctx.nontrivial(len(used) > 1 and getattr(watch, "number", 0) > 2)
    finally:
        logging.getLogger().removeHandler(root)


# --------------------------------------------------------------------------
# grids
# --------------------------------------------------------------------------
@st.composite
def strategy_grids(draw):
    which = st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just("add"), which, world.measurements(max_size=3,
            fractions=st.integers(0, 300).map(lambda k: k / 1000))),
        st.tuples(st.just("eclipse"), which, world.eclipses()),
        st.tuples(st.just("remove"), which, st.integers(0, 9)),
        # 10 and more stand for all
        st.tuples(st.just("remove"), which, st.just(10)),
        st.tuples(st.just("scale"), which, st.booleans()),
        st.tuples(st.just("fit"), which),
        st.tuples(st.just("get fit"), which),
        st.tuples(st.just("extract"), which, st.integers(0, 5)),
        st.tuples(st.just("closest"), which, st.integers(0, 200),
                  st.integers(0, 90), st.integers(-180, 180),
                  st.integers(-20, 20), st.booleans()),
        st.tuples(st.just("read"), which))
    return dict(spec=draw(world.small_specs(max_count=2, min_values=True)),
                levels=[draw(LEVELS), draw(LEVELS)],
                second=draw(st.sampled_from(["new", "loaded"])),
                seed=draw(st.sampled_from([None, 0, 7])),
                # most of the grids know their eclipse from the start
                ops=[["eclipse", k, draw(world.eclipses())]
                     for k in draw(st.sampled_from([[], [0], [1], [0, 1]]))]
                + [list(o) for o in draw(st.lists(op, min_size=3,
                                                  max_size=12))])


def number(value, digits):
    return re.escape(f"{value:.{digits}f}")


def step(me, op, state):
    """Run the call; returns the patterns of its messages, or None."""
    grid, name = me.it, op[0]
    s = state
    cleared = [("INFO", r"fit.*cleared")]
    if name == "eclipse":
        out = []
        if s["listed"]:
            out = [("INFO", r"gradients.*None")] + (cleared if s["fit"]
                                                    else [])
        me.call(grid.set_eclipse_parameters, *op[2])
        s.update(eclipse=op[2], listed=False, n=0, fit=False)
        return out
    if name == "add":
        if s["eclipse"] is None:
            me.call(grid.add_gradients, np.array([0.0]), np.array([0.0]))
            return [("INFO", "eclipse parameters missing")]
        out = [("INFO", rf"adding {len(op[2]['positions'])}\b")]
        out += cleared if s["fit"] else []
        me.call(world.add, grid, op[2], s["eclipse"])
        s.update(listed=True, n=s["n"] + len(op[2]["positions"]), fit=False)
        return out
    if name == "remove":
        if not s["listed"]:
            me.call(grid.remove_gradients, np.array([0]))
            return [("INFO", "no gradients")]
        if s["n"] == 0:
            return None
        which = (np.arange(s["n"]) if op[2] > 9
                 else np.array([op[2] % s["n"]]))
        me.call(grid.remove_gradients, which)
        out = cleared if s["fit"] else []
        s.update(n=s["n"] - len(which), fit=False)
        return out
    if name == "scale":
        if s["eclipse"] is None:
            return None
        if not op[2]:
            me.call(grid.update_gradient_scaling)
            return [("INFO", "no changes")]
        # faster stars have smaller scaled gradients
        velocity = s["eclipse"][1] * 1.5
        me.call(grid.update_gradient_scaling, velocity)
        s["eclipse"] = [s["eclipse"][0], velocity, s["eclipse"][2]]
        out = cleared if s["fit"] else []
        s["fit"] = False
        return out
    if name == "fit":
        if s["listed"] and s["n"] == 0:
            return None
        me.call(grid.determine_gradient_fit)
        if not s["listed"]:
            return [("INFO", "no gradients")]
        s["fit"] = True
        return [("INFO", rf"determining {s['n']}\b")]
    if name == "get fit":
        me.call(grid.get_gradient_fit)
        return [] if s["fit"] else [("INFO", "no gradient fit")]
    if name == "extract":
        if not s["fit"]:
            return None
        free = int((~grid.get_combined_mask()).sum())
        k = min(op[2], free)
        me.call(grid.extract_solutions, k)
        return [("INFO", rf"extracting {k}\b.*\b{free}\b")]
    if name == "closest":
        masked = op[6]
        values = [getattr(grid, f"get_{n}")(masked)
                  for n in ("disk_radius", "inclination", "tilt")]
        if np.isnan(values[0]).all():
            return None
        given = [op[2] / 20, op[3], op[4], op[5] / 10]
        (dy, _, _), at, distance = me.call(
            grid.determine_closest_grid_point, *given, masked=masked)
        if distance > 1e6:      # every point is on the other side
            return [("INFO", rf"fit.*\b{number(distance, 6)}\b")]
        words = ["disk_radius", "inclination", "tilt", "impact_parameter"]
        grid_values = [float(v[at]) for v in values] + [float(dy)]
        return [("INFO", rf"{w}\W.*{number(a, 2)}\b.*[^\d.-]{number(b, 2)}\b")
                for w, a, b in zip(words, given, grid_values)] + [
                    ("INFO", rf"fit.*\b{number(distance, 6)}\b")]
    me.call(lambda: (str(grid), grid.get_combined_mask(), grid.get_tilt(),
                     grid.get_diagnostic_map()))
    return []


def check_grids(case, ctx):
    shutil.rmtree("logged", ignore_errors=True)
    spec = case["spec"]
    root = Root()
    logging.getLogger().addHandler(root)
    try:
        objects, rows = [], spec["y"][2]
        watch = Watch(objects)
        for k, level in enumerate(case["levels"]):
            loaded = k == 1 and case["second"] == "loaded"
            if loaded:
                objects[0].call(objects[0].it.save, "logged")
                me = Logged(level, lambda level=level: ShallotGrid.load(
                    "logged", level), case["seed"])
            else:
                me = Logged(level, lambda level=level: ShallotGrid(
                    grids.parameters(spec), spec["nf"], level), case["seed"])
            objects.append(me)
            worst = np.nanmax(np.abs(grids.raw(me.it, "diagnostic_map")))
            expected = [("INFO", f"deviation.*{number(worst, 4)}")]
            if not loaded:
                expected += [("INFO", rf"building.*\b{y + 1}\b.*\b{rows}\b")
                             for y in range(rows) if y + 1 != rows]
                expected.append(("INFO", rf"building.*\b{rows}/{rows}\b"))
            watch.compare(me, expected, "loading" if loaded else "building",
                          root, ctx)
        states = [dict(eclipse=None, listed=False, n=0, fit=False)
                  for _ in objects]
        used = set()
        for op in case["ops"]:
            me = objects[op[1]]
            expected = step(me, op, states[op[1]])
            if expected is None:
                continue
            watch.compare(me, expected, f"{op[0]} {op[2:]}", root, ctx)
            used.add(op[1])
        ctx.nontrivial(len(used) > 1 and getattr(watch, "number", 0) > 2)
    finally:
        logging.getLogger().removeHandler(root)


# --------------------------------------------------------------------------
# builds that are interrupted and resumed
# --------------------------------------------------------------------------
TEMP = "./.temp_shallot"


@st.composite
def strategy_resumed(draw):
    spec = draw(world.small_specs(max_count=2, min_values=True))
    spec["y"][2] = draw(st.integers(2, 6))
    return dict(spec=spec, level=draw(LEVELS), kill=draw(st.integers(0, 999)))


def check_resumed(case, ctx):
    shutil.rmtree(TEMP, ignore_errors=True)
    spec = case["spec"]
    rows = spec["y"][2]

    def build():
        grids.build(spec, intermittent_saving=True)

    _, log = forked.run(build)
    starts = [k for k, (event, path) in enumerate(log)
              if event == "open" and path.endswith("y_value.npy")]
    ends = [k for k, (event, _) in enumerate(log) if event == "open"]
    if len(starts) < 2:
        return
    # after the first row was saved, before the folder is removed
    forked.run(build, starts[1] + case["kill"] % (ends[-1] - starts[1] + 1))
    root = Root()
    logging.getLogger().addHandler(root)
    try:
        me = Logged(case["level"], lambda: ShallotGrid.load(
            TEMP, case["level"]), None)
        records = me.new()
    finally:
        logging.getLogger().removeHandler(root)
        shutil.rmtree(TEMP, ignore_errors=True)
    require(not root.records, "a message was passed on to the root logger")
    if case["level"] > 20:
        require(not records, lambda: f"level {case['level']}: {records}")
        return
    told = []
    for level, text in records:
        m = re.search(r"building\D*(\d+)\D+(\d+)", text)
        if m:
            require(level == "INFO" and int(m.group(2)) == rows,
                    f"resuming {rows} rows wrote {level} {text!r}")
            told.append(int(m.group(1)))
    require(told and told == list(range(told[0], rows + 1)),
            f"resuming {rows} rows told to build {told}")
    worst = np.nanmax(np.abs(grids.raw(me.it, "diagnostic_map")))
    n = sum(bool(re.search(f"deviation.*{number(worst, 4)}", text))
            and level == "INFO" for level, text in records)
    require(n == 1, lambda: f"{n} messages tell the worst deviation {worst}: "
            f"{[r[1][:90] for r in records]}")
    ctx.nontrivial(len(told) < rows)


SUBS = [Sub("rings", strategy_rings, check_rings, 150, 3000, shards=4,
            thorough_shards=8),
        Sub("grids", strategy_grids, check_grids, 100, 1600, shards=4,
            thorough_shards=8),
        Sub("resumed", strategy_resumed, check_resumed, 24, 400, shards=4,
            thorough_shards=8)]
