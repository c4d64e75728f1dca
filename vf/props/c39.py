"""C39: copies and restored pickles are complete and independent."""
import copy
import os
import pickle
import shutil

import numpy as np
from hypothesis import strategies as st

import calls
from core import Sub, Violation, require
from GridDiagnostics import GridDiagnostics
from Ring import Ring

LEVEL = "exploration"
RULE = ("A case is a program of up to 16 public calls. After a number of them "
        "all objects are copied deeply, or pickled and restored, together or "
        "one by one; the rest of the program is run on the copies and then on "
        "the originals. Everything that is returned, drawn, printed and saved "
        "has to be that of the program without copies, and neither the "
        "originals nor the copies may change with the others. Non-trivial "
        "when at least one call after the copies changed an object and half "
        "of the calls were accepted.")
ASSUMPTIONS = ["a copy may write to the logger of its original"]

CHANGES = {"eclipse", "add", "remove", "scale", "fit", "hill", "mask",
           "contrast", "store", "ring_add", "ring_replace", "ring_remove",
           "split", "merge"}


@st.composite
def strategy(draw):
    program = draw(calls.strategies()())
    return dict(program=program,
                at=draw(st.integers(0, len(program["ops"]))),
                how=draw(st.sampled_from(["deep", "pickle", "pickle"])),
                protocol=draw(st.integers(0, 5)), twice=draw(st.booleans()),
                together=draw(st.booleans()))


class Copies:
    def __init__(self, case):
        self.case = case

    def one(self, thing):
        for _ in range(1 + self.case["twice"]):
            try:
                if self.case["how"] == "deep":
                    thing = copy.deepcopy(thing)
                else:
                    thing = pickle.loads(pickle.dumps(
                        thing, self.case["protocol"]))
            except Exception as ex:
                raise Failed(f"no {self.case['how']} copy of {type(thing)}: "
                             f"{type(ex).__name__} ({ex})") from None
        return thing

    def all(self, things):
        if self.case["together"]:
            return self.one(things)
        return tuple(self.one(t) for t in things)


class Failed(BaseException):
    """Not an outcome of the program."""


def spoil(thing):
    """Change an object, by itself or by what it hands out."""
    if isinstance(thing, Ring):
        thing.transmission = 1 - 0.9 * thing.transmission
        thing.tilt = -90.0
        thing.inclination = 89.0
        thing.outer_radius = 2 * thing.outer_radius
    elif isinstance(thing, GridDiagnostics):
        try:
            thing.save_diagnostic(0, 0, np.arange(9.0), np.ones(9))
            thing.extend()
        except RuntimeError:
            pass        # it is extended
    else:
        thing.set_contrast_parameters(-7.0, 7.0, "gray", 3)
        thing.set_mask(np.ones(thing.grid_parameters.grid_shape, bool))
        thing.data[...] = 5.0


class Copied(calls.Program):
    """Goes on with copies of the objects that are made on the way."""

    copies = None

    def made(self, thing):
        other = self.copies.one(thing)
        spoil(thing)
        return other


def level(thing):
    logger = getattr(thing, "logger", None)
    return None if logger is None else logger.getEffectiveLevel()


def steps(program, ops):
    for op in ops:
        try:
            result = calls.flat(getattr(program, "do_" + op[0])(*op[1:]))
        except Exception as ex:
            result = ["error " + type(ex).__name__, str(ex)]
        program.out.append([op, result])


def compare(expected, got, what):
    for (op, a), (_, b) in zip(expected, got):
        require(calls.digest(a) == calls.digest(b), lambda: f"{op} has "
                f"another result {what}: {str(b)[:200]} instead of "
                f"{str(a)[:200]}")


def check(case, ctx):
    for folder in ("a", "b", "c"):
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
    ops, at = case["program"]["ops"], case["at"]
    expected = calls.Program(case["program"], calls.Plain(), "a/").run()
    first = Copied(case["program"], calls.Plain(), "b/")
    first.copies = Copies(case)
    what = f"on a {case['how']} copy (before {(ops + [['end']])[at]})"
    try:
        steps(first, [["start"]] + ops[:at])
        if first.system is None:
            return      # reported elsewhere
        second = copy.copy(first)
        second.folder, second.out = "c/", list(first.out)
        originals = (first.grid, first.system, first.parameters)
        first.grid, first.system, first.parameters = first.copies.all(
            originals)
        for a, b in zip(originals, (first.grid, first.system)):
            require(level(a) == level(b), lambda: f"messages are written from "
                    f"level {level(b)} on, not {level(a)}, {what}")
        steps(first, ops[at:] + [["end"]])
        compare(expected, first.out, what)
        steps(second, ops[at:] + [["end"]])
        compare(expected, second.out, f"on the original, after the calls "
                f"{what}")
        n = len(first.out)
        steps(first, [["end"]])
        compare(expected[-1:], first.out[n:], what + " in the end")
        for ring in second.system.rings:
            spoil(ring)
        for p in (second.grid.tilt, second.grid.fx_map,
                  *(second.grid.gradients or [])):
            spoil(p)
        steps(first, [["end"]])
        compare(expected[-1:], first.out[-1:], what + ", the original of "
                "which is overwritten")
    except Failed as ex:
        raise Violation(str(ex)) from None
    accepted = sum(not (r and str(r[0]).startswith("error"))
                   for _, r in expected)
    changed = False
    for op, r in expected[at + 1:]:
        failed = r and str(r[0]).startswith("error")
        changed |= op[0] in CHANGES and not failed
        ctx.label(f"{op[0]} afterwards{' rejected' if failed else ''}")
    ctx.label(f"{case['how']} copy")
    ctx.nontrivial(changed and 2 * accepted >= len(expected))


SUBS = [Sub("copies", strategy, check, 60, 1200, shards=8,
            thorough_shards=16)]
