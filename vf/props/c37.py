"""C37: the same calls give the same results in every process."""
import copy
import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

import calls
import elsewhere
from core import GUARD, HERE, HarnessError, Sub, Violation, require

LEVEL = "exploration"
RULE = ("A case is a program of up to 16 public calls and the settings of "
        "another process: seed of hashes and of random numbers, time zone, "
        "language, number of threads, content of fresh memory, backend of "
        "matplotlib, optimisation level of python, folder, thread, garbage "
        "collection, work done before. Everything that is returned, drawn, "
        "printed and saved there has to be the same bit by bit as here. "
        "Non-trivial when at least half of the calls were accepted.")
ASSUMPTIONS = ["the same versions of python, numpy and matplotlib"]
LIMIT = 120


@st.composite
def strategy(draw):
    make = calls.strategies()
    program = draw(make())
    return dict(program=program, first=draw(st.lists(st.one_of(
        make(6), twin(program), twin(program)), min_size=1, max_size=3)),
        settings=dict(
        hash=draw(st.sampled_from(["random", "0", "1", "77", "4294967295"])),
        random=draw(st.integers(0, 99)),
        zone=draw(st.sampled_from(["UTC", "Asia/Tokyo", "America/New_York"])),
        language=draw(st.sampled_from(["C", "C.UTF-8", "de_DE.UTF-8"])),
        threads=draw(st.sampled_from(["1", "2", "8"])),
        memory=draw(st.sampled_from(["0", "1", "85", "170", "255"])),
        backend=draw(st.sampled_from(["Agg", "svg", "pdf"])),
        columns=draw(st.sampled_from(["20", "80", "300"])),
        optimise=draw(st.sampled_from(["0", "1", "2"])),
        folder=draw(st.sampled_from(["w", "two words", "a/b.c/d", "ünï"])),
        thread=draw(st.booleans()), collect=draw(st.booleans()),
        umask=draw(st.sampled_from([0o22, 0o77, 0])),
        before=draw(st.integers(0, 3))))


@st.composite
def twin(draw, program):
    """The program with a change: what is kept from it fits nearly."""
    out = copy.deepcopy(program)
    spec = out["spec"]
    which = draw(st.sampled_from(["x", "y", "nf", "rf", "none"]))
    if which in ("x", "y"):
        # other minima, the same maxima
        by = draw(st.integers(1, 8)) / 16
        spec[which][0 if spec[which][2] > 1 else 1] -= by
        if spec["y"][2] == 1 and spec["y"][0] == 0:
            spec["y"][0] = -by
    elif which == "nf":
        spec["nf"] += draw(st.sampled_from([-3, 1, 30]))
    elif which == "rf":
        spec["max_rf"] = 1 + (spec["max_rf"] - 1) / 2
    return out


def away(case):
    """The program in another process."""
    s = case["settings"]
    folder = os.path.abspath("there")
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    with open("there/case.json", "w") as f:
        json.dump(case, f)
    env = dict(os.environ, PYTHONHASHSEED=s["hash"], TZ=s["zone"],
               LC_ALL=s["language"], LANG=s["language"],
               OMP_NUM_THREADS=s["threads"], OPENBLAS_NUM_THREADS=s["threads"],
               MALLOC_PERTURB_=s["memory"], MPLBACKEND=s["backend"],
               COLUMNS=s["columns"], PYTHONOPTIMIZE=s["optimise"],
               PYTHONUTF8="1", HOME=folder)
    with GUARD.off():
        try:
            done = subprocess.run(
                [sys.executable, "-B", os.path.join(HERE, "vf",
                 "elsewhere.py"), "case.json", "out.json"], cwd=folder,
                env=env, umask=s["umask"], timeout=LIMIT,
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            raise Violation(f"no answer within {LIMIT} s in another process")
    if done.returncode != 0 or not os.path.exists("there/out.json"):
        raise HarnessError(f"status {done.returncode} in another process: "
                           + done.stderr.decode(errors="replace")[-1500:])
    with open("there/out.json") as f:
        return json.load(f)


def check(case, ctx):
    shutil.rmtree("results", ignore_errors=True)
    os.mkdir("results")
    outcomes = calls.Program(case["program"], calls.Plain(), "results/").run()
    here = json.loads(json.dumps([[op, calls.digest(parts)]
                                  for op, parts in outcomes]))
    files = elsewhere.tree("results")
    there, files_there = away(case)
    accepted = 0
    for (op, parts), a, b in zip(outcomes, here, there):
        failed = parts and isinstance(parts[0], str) and parts[
            0].startswith("error")
        accepted += not failed
        ctx.label(f"{op[0]}{' rejected' if failed else ''}")
        require(a == b, lambda: f"{op} has another result in another process "
                f"({case['settings']}), here {str(parts)[:200]}")
    changed = sorted(k for k in set(files) | set(files_there)
                     if files.get(k) != files_there.get(k))
    require(not changed, lambda: f"other files were saved in another process "
            f"({case['settings']}): {changed[:4]}")
    ctx.label("files compared", len(files))
    ctx.nontrivial(2 * accepted >= len(here))


SUBS = [Sub("processes", strategy, check, 12, 250, shards=8,
            thorough_shards=8)]
