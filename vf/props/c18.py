"""C18: masks select missing values without destroying the data."""
import numpy as np
from hypothesis import strategies as st

import grids
from core import Sub, expect_error, in_repo, require
from errors import InvalidShapeError
from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty
from GridPropertyName import GridPropertyName
from GridPropertyUnit import GridPropertyUnit

LEVEL = "exploration"
RULE = ("A case is a property or gradient with any data and a history of up "
        "to 14 calls (masks set and rejected, masked and unmasked reads, "
        "measurements accepted and rejected, contrast parameters, changes of "
        "what was read, printing) against a model of data, mask and contrast. "
        "Non-trivial when a masked read follows a change of the mask that was "
        "set before.")
ASSUMPTIONS = ["colour maps are not looked up before plotting"]


@st.composite
def strategy(draw):
    size = grids.seldom(st.integers(1, 4), st.integers(10, 12))
    shape = [draw(size), draw(size),
             2 * draw(st.integers(1, 2)) - 1]
    gradient = draw(st.booleans())
    mask = st.tuples(st.just("mask"), st.integers(0, 10 ** 6))
    ops = [mask, mask,
           st.tuples(st.just("bad mask"), st.sampled_from(["int", "float",
               "list", "none", "shape", "flat", "number", "transposed",
               "larger"]), st.integers(0, 10 ** 6)),
           st.tuples(st.just("read"), st.sampled_from([None, True, False]),
                     st.booleans()),
           st.tuples(st.just("bad read"), st.sampled_from([None, 1, 0, "no"])),
           st.tuples(st.just("contrast"),
                     st.none() | st.integers(-100, 100).map(lambda k: k / 7),
                     st.none() | st.integers(-100, 100).map(lambda k: k / 7),
                     st.none() | st.sampled_from(["viridis", "twilight",
                                                  "any name"]),
                     st.none() | st.integers(2, 30)),
           st.tuples(st.just("bad contrast"), st.sampled_from(["vmin", "vmax",
               "color_map", "num_colors", "one color", "float colors"])),
           st.tuples(st.just("print"))]
    if gradient:
        ops += [st.tuples(st.just("measure"), st.integers(0, 1000),
                          st.integers(1, 50), st.integers(1, 1000),
                          st.none() | st.integers(0, 30)),
                st.tuples(st.just("measure data"), st.integers(0, 10 ** 6)),
                st.tuples(st.just("bad measure"), st.sampled_from(["above one",
                    "negative", "scale", "change", "change zero", "error",
                    "text", "none"]), st.integers(0, 1000))]
    return dict(shape=shape, gradient=gradient,
                seed=draw(st.integers(0, 10 ** 6)),
                kind=draw(st.sampled_from(["plain", "nan", "all nan", "inf",
                                           "constant"])),
                ops=[list(o) for o in draw(st.lists(st.one_of(*ops),
                     min_size=1, max_size=14))])


def cube(case):
    rng = np.random.default_rng(case["seed"])
    data = rng.random(case["shape"])
    if not case["gradient"]:
        data = (data - 0.5) * 10.0 ** rng.integers(-2, 4)
    if case["kind"] == "nan":
        data[rng.random(data.shape) < 0.3] = np.nan
    elif case["kind"] == "all nan":
        data[:] = np.nan
    elif case["kind"] == "inf" and not case["gradient"]:
        data[rng.random(data.shape) < 0.3] = np.inf
        data[rng.random(data.shape) < 0.2] = -np.inf
    elif case["kind"] == "constant":
        data[:] = data.flat[0]
    return data


def limits(data):
    values = data[~np.isnan(data)]
    return (None, None) if values.size == 0 else (values.min(), values.max())


class Model:
    def __init__(self, data):
        self.data = data
        self.mask = None
        self.measurement = (None,) * 4
        self.vmin, self.vmax = limits(data)
        self.color_map, self.num_colors = "viridis", 11

    def read(self, masked):
        out = self.data.copy()
        if masked and self.mask is not None:
            out[self.mask] = np.nan
        return out


def same(a, b):
    return (isinstance(a, np.ndarray) and a.shape == b.shape
            and np.array_equal(a, b, equal_nan=True))


def agree(p, m, what):
    require(same(p.get_data(False), m.data),
            f"{what}: unmasked reads differ from the original data")
    require(same(p.get_data(True), m.read(True))
            and same(p.get_data(), m.read(True)),
            f"{what}: masked reads are wrong")
    require((p.mask is None) == (m.mask is None)
            and (m.mask is None or (p.mask.dtype == bool
                                    and np.array_equal(p.mask, m.mask))),
            f"{what}: the mask is wrong")
    for name in ("vmin", "vmax", "color_map", "num_colors"):
        got, expected = getattr(p, name), getattr(m, name)
        require((got is None) == (expected is None) and (got is None
                or got == expected),
                f"{what}: {name} is {got!r}, not {expected!r}")
    if isinstance(p, GridGradient):
        got = (p.measured_gradient, p.orbital_scale, p.transmission_change,
               p.measured_error)
        require(got == m.measurement,
                f"{what}: the measurement is {got}, not {m.measurement}")


def bits(shape, number):
    k = np.arange(int(np.prod(shape))).reshape(shape)
    return ((k * 2654435761 + number * 40503) >> 5) % 3 == 0


def check(case, ctx):
    data = cube(case)
    shape = tuple(case["shape"])
    g = GridParameters(0.5, 2, shape[1], -1, 2, shape[0], 3,
                       (shape[2] + 1) // 2)
    if case["gradient"]:
        given = data.copy()
        p = GridGradient(given, g, 0.25)
    else:
        given = data.copy()
        p = GridProperty(GridPropertyName.TILT, GridPropertyUnit.DEGREE,
                         given, g)
    require(same(given, data), "the data that was passed changed")
    given[:] = 77.0     # belongs to the caller
    m = Model(data)
    agree(p, m, "new")
    changes = 0
    for k, op in enumerate(case["ops"]):
        name, what = op[0], f"after call {k} ({op[0]})"
        if name == "mask":
            mask = bits(shape, op[1])
            given = mask.copy()
            p.set_mask(given)
            require(np.array_equal(given, mask),
                    f"{what}: the mask that was passed changed")
            given[...] = op[1] % 2      # belongs to the caller
            m.mask = mask
            changes += 1
        elif name == "bad mask":
            mask = bits(shape, op[2])
            bad = {"int": mask.astype(int), "float": mask.astype(float),
                   "list": mask.tolist(), "none": None,
                   "shape": np.ones((shape[0] + 1, *shape[1:]), bool),
                   "flat": mask.reshape(-1), "number": True,
                   "transposed": mask.transpose(2, 1, 0),
                   "larger": mask[None]}[op[1]]
            if op[1] == "transposed" and shape[0] == shape[2]:
                continue
            kinds = (InvalidShapeError,) if op[1] in (
                "shape", "flat", "transposed", "larger") else (TypeError,)
            expect_error(kinds, p.set_mask, bad)
            ctx.label("mask rejected")
        elif name == "read":
            got = p.get_data() if op[1] is None else p.get_data(op[1])
            require(same(got, m.read(op[1] is not False)),
                    f"{what}: get_data({op[1]}) is wrong")
            if op[2]:
                got[...] = -5.0
        elif name == "bad read":
            expect_error((TypeError,), p.get_data, op[1])
        elif name == "contrast":
            kw = {n: v for n, v in zip(("vmin", "vmax", "color_map",
                  "num_colors"), op[1:]) if v is not None}
            p.set_contrast_parameters(**kw)
            low, high = limits(data)
            m.vmin = low if low is None else kw.get("vmin", low)
            m.vmax = high if high is None else kw.get("vmax", high)
            m.color_map = kw.get("color_map", "viridis")
            m.num_colors = kw.get("num_colors", 11)
        elif name == "bad contrast":
            if np.isnan(data).all() and op[1] in ("vmin", "vmax"):
                continue
            bad = dict(vmin=-0.5, vmax=0.75, color_map="bone", num_colors=5)
            bad.update({"vmin": dict(vmin="0"), "vmax": dict(vmax=[1]),
                   "color_map": dict(color_map=7),
                   "num_colors": dict(num_colors="11"),
                   "one color": dict(num_colors=1),
                   "float colors": dict(num_colors=7.0)}[op[1]])
            ex = expect_error((TypeError, ValueError),
                              p.set_contrast_parameters, **bad)
            require(in_repo(ex.__traceback__), "not rejected by validation")
        elif name == "measure":
            _, fraction, scale, change, error = op
            scale, change = scale / 7, change / 1000
            measured = fraction / 1001 * change / scale
            args = [measured, scale, change]
            if error is not None:
                args.append(error / 3)
            measure(p, m, args, ctx)
            changes += 1
        elif name == "measure data":
            # exactly the value of one of the elements, which stays
            value = data.flat[op[1] % data.size]
            if np.isnan(value):
                continue
            measure(p, m, [value, 1.0, 1.0], ctx)
            changes += 1
            require(not p.mask.flat[op[1] % data.size],
                    f"{what}: a point with the measured gradient is masked")
        elif name == "bad measure":
            bad = {"above one": (op[2] / 1000 + 1.001, 1.0, 1.0),
                   "negative": (-1e-9, 1.0, 1.0), "scale": (0.1, -1.0, 1.0),
                   "change": (0.1, 1.0, 1.0001),
                   "change zero": (0.1, 1.0, -0.1),
                   "error": (0.1, 1.0, 1.0, -0.5), "text": ("0.1", 1.0),
                   "none": (None, 1.0)}[op[1]]
            expect_error((TypeError, ValueError), p.determine_mask, *bad)
            ctx.label("measurement rejected")
        elif name == "print":
            str(p)
            repr(p)
        agree(p, m, what)
    ctx.nontrivial(changes > 1)
    ctx.label(f"{changes} masks" if changes < 3 else "3 or more masks")


def measure(p, m, args, ctx):
    p.determine_mask(*args)
    error = args[3] if len(args) > 3 else 1
    m.measurement = (args[0], args[1], args[2], error)
    scaled = args[0] * args[1] / args[2]
    with np.errstate(invalid="ignore"):
        mask = np.isnan(m.data) | (m.data < scaled)
        close = np.abs(m.data - scaled) < 1e-12
    if args[1:3] != [1.0, 1.0]:
        require(not (p.mask ^ mask)[~close].any(),
                "the mask does not select missing and smaller gradients")
        mask[close] = p.mask[close]
    m.mask = mask
    ctx.label("measured")


SUBS = [Sub("history", strategy, check, 1500, 30000, thorough_shards=4)]
