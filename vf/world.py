"""Generators and reference values for grids with measured gradients."""
import math

import numpy as np
from hypothesis import strategies as st

import grids



def decades(strategy, low, high):
    """Seldom a number of quite another order of magnitude."""
    return grids.seldom(strategy, st.tuples(
        st.integers(100, 999), st.integers(low, high)).map(
            lambda t: t[0] / 100 * 10.0 ** t[1]))


# other units of time, or of length
DURATIONS = decades(st.one_of(st.sampled_from([1, 1.0, 2.0, 0.5, 56.0, 10]),
                              st.integers(1, 20000).map(lambda k: k / 100)),
                    -8, 8)
VELOCITIES = decades(st.one_of(st.sampled_from([1, 10.0, 0.1, 35]),
                               st.integers(1, 10000).map(lambda k: k / 100)),
                     -8, 8)
DARKENING = st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5, 0.8]),
                      st.integers(0, 1000).map(lambda k: k / 1000),
                      st.sampled_from([1e-4, 5e-5, 1e-6, 1e-9, 0.99995,
                                       1 - 1e-6]))
TRANSMISSION = st.one_of(st.sampled_from([1.0, 0.5, 0.25, 0.01]),
                         st.integers(1, 1000).map(lambda k: k / 1000))
ERRORS = decades(st.one_of(st.sampled_from([1.0, 0.1, 2.0]),
                           st.integers(1, 3000).map(lambda k: k / 1000)),
                 -14, 12)
# never so close to one that rounding decides between accept and reject
FRACTION = st.one_of(st.sampled_from([0.0, 0.999, 0.5, 0.1]),
                     st.integers(0, 999).map(lambda k: k / 1000))
TOO_LARGE = st.one_of(st.sampled_from([1.001, 1.0001, 1 + 1e-6, 1 + 1e-9, 2.0,
                                       30.0]),
                      st.integers(1001, 4000).map(lambda k: k / 1000))
POSITIONS = st.one_of(
    st.sampled_from([0.0, 0.5, -0.5, 0.25, -0.25, 1.0]),
    st.integers(-200, 200).map(lambda k: k / 100),
    st.integers(-20000, 20000).map(lambda k: k / 10000 + 1e-7))


def small_specs(max_count=3, resolutions=(10, 60), **kw):
    return grids.specs(resolutions=resolutions, max_count=max_count, **kw)


def eclipses():
    return st.tuples(DURATIONS, VELOCITIES, DARKENING).map(list)


# what two positions that are not quite equal differ by
NEARLY = [1e-3, 1e-5, -1e-5, 1e-6, 1e-7, 1e-9, -1e-9, 1e-12]


def close_positions(strategy):
    """The positions of the strategy, of which two may be nearly equal."""
    def change(t):
        values, which, other, by, often = t
        if often and len(values) > 1:
            a, b = which % len(values), other % len(values)
            if a != b and not isinstance(values[a], list):
                values[b] = values[a] + by * (1 + abs(values[a]))
        return values
    return st.tuples(strategy, st.integers(0, 99), st.integers(0, 99),
                     st.sampled_from(NEARLY),
                     st.integers(0, 5).map(lambda k: k == 5)).map(change)


@st.composite
def measurements(draw, min_size=1, max_size=4, fractions=FRACTION):
    usual = st.integers(min_size, max_size)
    if max_size > min_size:
        # numbers with two digits
        usual = grids.seldom(usual, st.integers(9, 13))
    n = draw(usual)
    def many(s):
        return draw(st.lists(s, min_size=n, max_size=n))
    out = dict(positions=draw(close_positions(st.lists(
        POSITIONS, min_size=n, max_size=n))), fractions=many(fractions))
    out["errors"] = many(ERRORS) if draw(st.booleans()) else None
    out["transmissions"] = many(TRANSMISSION) if draw(st.booleans()) else None
    return out


def many(low=100, high=600, largest=999, least=0):
    """So many measurements that counters and masks of small types end."""
    def expand(t):
        n, seed, errors, transmissions = t
        rng = np.random.default_rng(seed)
        return dict(
            positions=(rng.integers(-2000, 2000, n) / 1000).tolist(),
            fractions=(rng.integers(least, largest + 1, n) / 1000).tolist(),
            errors=(rng.integers(1, 3000, n) / 1000).tolist()
            if errors else None,
            transmissions=(rng.integers(1, 1000, n) / 1000).tolist()
            if transmissions else None)
    number = st.one_of(st.sampled_from([128, 255, 256, 256, 257, 512, 512]),
                       st.integers(low, high))
    return st.tuples(number, st.integers(0, 10 ** 6), st.booleans(),
                     st.booleans()).map(expand)


def slope(eclipse):
    """The steepest light curve slope of the eclipse parameters."""
    return grids.steepest_slope(eclipse[1], eclipse[2])


def light_curve(m, eclipse):
    """times, gradients, errors, transmission changes of measurements whose
    scaled gradients are the given fractions."""
    n = len(m["positions"])
    trans = m["transmissions"]
    t = np.ones(n) if trans is None else np.array(trans, float)
    gradients = np.array(m["fractions"], float) * t * slope(eclipse)
    times = -np.array(m["positions"], float) * eclipse[0]
    return (times, gradients,
            None if m["errors"] is None else np.array(m["errors"], float),
            None if trans is None else t)


def add(grid, m, eclipse):
    """Add measurements; the keywords that are None are left out."""
    times, gradients, errors, trans = light_curve(m, eclipse)
    kw = {}
    if errors is not None:
        kw["light_curve_gradient_errors"] = errors
    if trans is not None:
        kw["transmission_changes"] = trans
    grid.add_gradients(times, gradients, **kw)


def same(a, b):
    """Equal arrays, with missing values in the same places."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def near(a, b):
    """Equal but for the rounding of a few operations."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-14, atol=0))


def first(bad):
    return np.argwhere(bad)[0].tolist()


def masked_by(gradient, scaled):
    """The mask of a gradient; None where rounding decides."""
    with np.errstate(invalid="ignore"):
        mask = np.isnan(gradient) | (scaled > gradient)
        close = (np.abs(gradient - scaled) <= 1e-12) & (gradient != scaled)
    return mask, ~close


def snapshot(grid):
    """Everything a user can read from a grid."""
    out = {name: grids.raw(grid, name) for name in grids.CUBES}
    for name in grids.CUBES:
        out["masked " + name] = getattr(grid, f"get_{name}")()
        out["own mask " + name] = getattr(grid, f"get_{name}")(False, True)
    out["combined mask"] = grid.get_combined_mask()
    out["dy"], out["dx"], out["rf"] = grid.parameters.get_vectors()
    out["resolution"] = np.array(grid.num_fxfy)
    if grid.gradients is None or len(grid.gradients) == 0:
        out["gradients"] = None
    else:
        names = ("positions", "scaled", "errors", "gradients")
        for name, v in zip(names, grid.get_gradients(False, False)):
            out[name] = v
        out["masked gradients"] = grid.get_gradients(False, True)[3]
        out["light curve"] = np.array([[g.measured_gradient, g.orbital_scale,
            g.transmission_change, g.measured_error] for g in grid.gradients],
            dtype=float)
    out["fit"] = grid.get_gradient_fit(False, False)
    return out


def differences(a, b, skip=()):
    """Names of the entries of two snapshots that differ."""
    return [k for k in sorted(set(a) | set(b)) if k not in skip and (
        (k not in a) or (k not in b) or not same(a[k], b[k]))]
