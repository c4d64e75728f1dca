"""C36: only the values of arguments matter, and defaults are as documented."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import calls
from core import Sub, require

LEVEL = "exploration"
RULE = ("A case is a program of up to 16 public calls and a way to pass the "
        "same values: numbers as python or numpy types of any width, arrays "
        "in another memory layout, read-only or mapped from a file, texts as "
        "numpy strings, arguments by position or keyword in any order, "
        "defaults left out or given. Everything that is returned, drawn, "
        "printed and saved has to be the same as when it is passed plainly. "
        "Non-trivial when at least two unusual types, layouts or ways "
        "were used and at least half of the calls were accepted.")
ASSUMPTIONS = ["values are multiples of 1/64 below 400, which all types hold "
               "exactly", "types narrower or wider than float64 may round results "
               "otherwise"]


@st.composite
def strategy(draw):
    # ints and floats; a kind that can not hold a value leaves it as it is
    numbers = draw(st.lists(st.sampled_from(
        ["int", "int8", "int16", "int32", "int64", "float", "float16",
         "float32", "float64", "float128", "str_"]), min_size=1, max_size=3,
        unique=True))
    return dict(program=draw(calls.strategies()()), numbers=numbers,
                layouts=draw(st.lists(st.sampled_from(calls.LAYOUTS),
                                      min_size=1, max_size=3, unique=True)),
                passing=draw(st.lists(st.sampled_from(
                    ["positional", "explicit positional", "keyword",
                     "mixed"]), min_size=1, max_size=2, unique=True)),
                seed=draw(st.integers(0, 10 ** 6)))


# what may be lost when a calculation is done in the type of its arguments
ROUNDING = {"float128": 1e-9, "float32": 1e-5, "float16": 5e-3}


def equal(a, b, rounding):
    exactly = not rounding
    if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
        return False
    if not isinstance(a, np.ndarray):
        return a == b or not exactly
    if a.shape != b.shape:
        return False
    if a.dtype.kind != "f" or b.dtype.kind != "f":
        return np.array_equal(a, b) or not exactly
    if exactly:
        return np.array_equal(a, b, equal_nan=True)
    return np.allclose(a, b, rtol=rounding, atol=rounding, equal_nan=True)


def decided(grid, rounding):
    """Rounding must not decide about a mask."""
    for g in grid.gradients or []:
        if g.measured_gradient is None:
            continue
        with np.errstate(invalid="ignore"):
            near = np.abs(g.get_data(False) - g.get_scaled_gradient())
        if (near < rounding).any():
            return False
    return True


def check(case, ctx):
    program = case["program"]
    for folder in ("a", "b"):
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
    plain = calls.Program(program, calls.Plain(), "a/")
    expected = plain.run()
    how = calls.Varied(case["numbers"], case["layouts"], case["passing"],
                       case["seed"])
    other = calls.Program(program, how, "b/")
    got = other.run()
    rounding = max([ROUNDING.get(kind, 0) for kind in how.used] + [0])
    if rounding and not decided(plain.grid, rounding):
        ctx.label("rounding decides about a mask")
        return
    accepted = 0
    for (op, a), (_, b) in zip(expected, got):
        failed = a and isinstance(a[0], str) and a[0].startswith("error")
        accepted += not failed
        ctx.label(f"{op[0]}{' rejected' if failed else ''}")
        if failed:
            # the text can tell the type of what was passed
            a, b = a[:1], b[:1] if b and str(b[0]).startswith("error") else b
        require(len(a) == len(b) and all(equal(x, y, rounding)
                                         for x, y in zip(a, b)), lambda:
                f"{op} is different when the same values are passed as "
                f"{sorted(how.used)}: {difference(a, b, rounding)}")
    for kind in how.used:
        ctx.label("passed as " + kind)
    ctx.nontrivial(len(how.used - {"int", "float", "plain", "positional"}) > 1
                   and 2 * accepted >= len(expected))


def difference(a, b, rounding):
    if len(a) != len(b):
        return f"{str(a)[:150]} and {str(b)[:150]}"
    for x, y in zip(a, b):
        if not equal(x, y, rounding):
            return f"{str(x)[:150]} and {str(y)[:150]}"


SUBS = [Sub("representations", strategy, check, 60, 1200, shards=8,
            thorough_shards=16)]
