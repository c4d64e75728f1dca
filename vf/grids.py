"""Generators of grid specifications and closed forms for grids.

A specification is a JSON-able dict; build(spec) makes the grid."""
import logging
import math

import numpy as np
from hypothesis import strategies as st

from GridParameters import GridParameters
from Shallot import ShallotGrid

QUIET = 50      # logging level

MAXIMA = st.one_of(
    st.sampled_from([1.0, 0.5, 2.0, 3.0, 0.1, 0.3, 0.7, 1, 2]),
    st.integers(5, 600).map(lambda k: k / 100),
    st.floats(0.05, 6.0, allow_nan=False))
# spans that start anywhere; multiples of a power of two keep 0 exact
STEPS = st.sampled_from([0.0625, 0.125, 0.25, 0.5, 1.0])


def seldom(usual, unusual, odds=12):
    """The unusual strategy in one of that many cases."""
    return st.integers(1, odds).flatmap(
        lambda k: unusual if k == odds else usual)


def _axis_q1():
    return st.tuples(st.just(0), MAXIMA, st.integers(1, 6)).map(list)


@st.composite
def _axis_free(draw):
    if draw(st.booleans()):
        step = draw(STEPS)
        first = draw(st.integers(-4, 3))
        count = draw(st.integers(2, 5))
        return [first * step, (first + count - 1) * step, count]
    low = draw(st.integers(10, 300)) / 100
    high = low + draw(st.integers(5, 300)) / 100
    count = draw(st.integers(1, 5))
    if draw(st.booleans()):
        low, high = -high, -low
    return [low, high, count]


def rf_cap(x, y, most=12.0):
    """A maximum rf far below the guard that rejects extreme user input."""
    dys = np.abs(np.linspace(*y))
    dxs = np.abs(np.linspace(*x))
    mx, my = max(1, dxs.max()), max(1, dys.max())
    largest = math.hypot(dxs.max() + 0.5, dys.max())
    smallest = math.hypot(0.5, dys.min())
    return max(1.0, min(most, 40 * min(mx, my) ** 2 * smallest / largest))


@st.composite
def specs(draw, kinds=("q1", "free"), resolutions=(30, 400), max_count=6,
          min_rf=1, min_values=False):
    kind = draw(st.sampled_from(kinds))
    if kind == "q1":
        x, y = draw(_axis_q1()), draw(_axis_q1())
    else:
        x, y = draw(_axis_free()), draw(_axis_free())
        if x[0] == 0 and y[0] == 0:
            x = [x[0] - 0.5, x[1] - 0.5, x[2]]
    if min_values:
        # at least one row with dy != 0, so that there are grid points
        if y[2] == 1 and y[0] == 0:
            y = [y[0], y[1], 2]
    x[2], y[2] = min(x[2], max_count), min(y[2], max_count)
    long = draw(seldom(st.just(None), st.sampled_from(["x", "y", "rf"])))
    if long is not None:
        # more than nine values on one axis, few on the others
        x[2], y[2] = min(x[2], 2), min(y[2], 2)
        one = {"x": x, "y": y}.get(long)
        if one is not None:
            one[2] = draw(st.integers(6, 12) if kind == "q1"
                          else st.integers(10, 14))
            if kind != "q1" and all((16 * v).is_integer()
                                    for v in map(float, one[:2])):
                one[1] = one[0] + min(0.5, draw(STEPS)) * (one[2] - 1)
    cap = rf_cap(x, y, draw(seldom(st.just(12.0), st.just(300.0), 8)))
    share = draw(st.one_of(st.sampled_from([1.0, 0.5, 0.25]),
                           st.integers(0, 100).map(lambda k: k / 100)))
    num_rf = draw(st.integers(min_rf, 5) if long != "rf"
                  else st.integers(6, 12))
    max_rf = round(1 + share * (cap - 1), 3)
    nf = draw(st.one_of(st.integers(*resolutions),
                        st.sampled_from([resolutions[0], resolutions[1]])))
    return dict(x=x, y=y, max_rf=max_rf, num_rf=num_rf, nf=nf)


def parameters(spec):
    return GridParameters(*spec["x"], *spec["y"], spec["max_rf"],
                          spec["num_rf"])


def build(spec, **kwargs):
    return ShallotGrid(parameters(spec), spec["nf"], logging_level=QUIET,
                       **kwargs)


def vectors(spec):
    """dx, dy, rf as the specification implies, without the code under test.
    Mirrored when both axes start at 0."""
    dx = np.linspace(*spec["x"])
    dy = np.linspace(*spec["y"])
    if dx[0] == 0 and dy[0] == 0:
        dx = np.concatenate((-dx[:0:-1], dx))
        dy = np.concatenate((-dy[:0:-1], dy))
    rf = np.linspace(1, spec["max_rf"], spec["num_rf"])
    rf_array = np.concatenate((rf[::-1], rf[1:]))
    return dx, dy, rf_array


def is_q1(spec):
    return spec["x"][0] == 0 and spec["y"][0] == 0


def step(spec):
    """Largest spacing of the stretch factors relative to 1."""
    mx = max(1, abs(spec["x"][0]), abs(spec["x"][1]))
    my = max(1, abs(spec["y"][0]), abs(spec["y"][1]))
    return max(mx, my) / max(1, spec["nf"] - 1)


def raw(grid, name):
    """Unmasked values of a cube of the grid."""
    return getattr(grid, f"get_{name}")(masked=False, property_masked=False)


CUBES = ("disk_radius", "inclination", "tilt", "fx_map", "fy_map",
         "diagnostic_map")


# --------------------------------------------------------------------------
# closed forms
# --------------------------------------------------------------------------
def smallest_radius(dx, dy):
    """The smallest disk centred on (dx, dy) through both eclipse points."""
    return np.hypot(np.abs(dx) + 0.5, dy)


def ellipse_residual(dx, dy, radius, inclination, tilt, x):
    """How far (x, 0) is from the ellipse, relative to the terms compared."""
    b = radius * np.cos(np.deg2rad(inclination))
    phi = np.deg2rad(tilt)
    px, py = x - dx, -dy
    u = px * np.cos(phi) + py * np.sin(phi)
    v = -px * np.sin(phi) + py * np.cos(phi)
    left = (u * b) ** 2 + (v * radius) ** 2
    right = (radius * b) ** 2
    return np.abs(left - right) / (left + right)


def disk_from_stretch(dx, dy, fx, fy):
    """Semi-major axis, axis ratio and direction of the major axis [rad] of
    the circle through (+-1/2, -dy), stretched by fx and fy and then sheared
    so that it is centred on (dx, dy) and still passes through (+-1/2, 0)."""
    shear = np.where((dy == 0) & (dx == 0), 0.0,
                     -dx / np.where(dy == 0, np.nan, dy))
    circle = np.hypot(0.5, dy)
    # columns of the matrix that maps the unit circle onto the ellipse
    a, b, d = fx * circle, -shear * fy * circle, fy * circle
    # eigenvalues of M M^T
    xx, yy, xy = a * a + b * b, d * d, b * d
    large = 0.5 * (xx + yy + np.hypot(xx - yy, 2 * xy))
    radius = np.sqrt(large)
    ratio = np.abs(a * d) / large
    angle = 0.5 * np.arctan2(2 * xy, xx - yy)
    return radius, ratio, angle


def fy_of_fx(dy, fx):
    with np.errstate(all="ignore"):
        return np.where(dy == 0, np.where(fx == 1, 1.0, 0.0), np.sqrt(
            4 * fx ** 2 * dy ** 2 / (fx ** 2 * (1 + 4 * dy ** 2) - 1)))


def fx_of_fy(dy, fy):
    with np.errstate(all="ignore"):
        return fy / np.sqrt(fy ** 2 * (1 + 4 * dy ** 2) - 4 * dy ** 2)


def tangent(dx, dy, inclination, tilt, x):
    """|sin| of the angle of the tangent at (x, 0) of the concentric, similar
    ellipse through (x, 0). nan where (x, 0) is the centre."""
    c2 = np.cos(np.deg2rad(inclination)) ** 2
    phi = np.deg2rad(tilt)
    px, py = x - dx, -dy + 0 * dx
    # gradient of the quadratic form u^2 + v^2 / c2
    u = px * np.cos(phi) + py * np.sin(phi)
    v = -px * np.sin(phi) + py * np.cos(phi)
    gx = u * c2 * np.cos(phi) - v * np.sin(phi)
    gy = u * c2 * np.sin(phi) + v * np.cos(phi)
    with np.errstate(all="ignore"):
        return np.abs(gx) / np.hypot(gx, gy)


def steepest_slope(velocity, u):
    """Steepest light curve slope [L*/day] of an opaque straight edge that
    crosses a star with linear limb darkening u at velocity [R*/day]; by
    numerical integration of the intensity, not from a formula."""
    nodes, weights = LEGENDRE
    # the chord through the centre, y = sin(t)
    t = nodes * np.pi / 2
    chord = np.sum(weights * (1 - u * (1 - np.cos(t))) * np.cos(t)) * np.pi / 2
    # the disk, r = sin(t) with t from 0 to pi/2
    t = (nodes + 1) * np.pi / 4
    disk = 2 * np.pi * np.sum(weights * (1 - u * (1 - np.cos(t)))
                              * np.sin(t) * np.cos(t)) * np.pi / 4
    return velocity * chord / disk


LEGENDRE = np.polynomial.legendre.leggauss(40)


def fy_of_smallest(dx, dy):
    """fy of the smallest disk: its vertex is the farther eclipse point."""
    dx, dy = np.broadcast_arrays(np.asarray(dx, float), np.asarray(dy, float))
    sign = np.where(dx < 0, -1.0, 1.0)
    far = np.stack((-0.5 * sign - dx, -dy))
    near = np.stack((0.5 * sign - dx, -dy))
    radius = np.hypot(*far)
    e = far / radius
    u = near[0] * e[0] + near[1] * e[1]
    v = -near[0] * e[1] + near[1] * e[0]
    with np.errstate(all="ignore"):
        b2 = np.where(dx == 0, radius ** 2,
                      v ** 2 / (1 - (u / radius) ** 2))
    return np.sqrt((radius * e[1]) ** 2 + b2 * e[0] ** 2) / np.hypot(0.5, dy)
