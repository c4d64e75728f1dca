"""C23: drawn rings and ring systems have the right shape and opacity."""
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgb
from matplotlib.patches import Circle, PathPatch
from matplotlib.path import Path

from core import Sub, require
from props.c21 import build
from Ring import Ring

LEVEL = "exploration"
RULE = ("patch: the outline of a generated ring is compared with its two "
        "ellipses, and the winding number of generated points with their "
        "place. plot: patches and limits of a generated ring system. render: "
        "the pixels of a drawn system against the composition of its rings. "
        "Non-trivial when ring or system is inclined, tilted and shifted.")
ASSUMPTIONS = ["areas follow the non-zero winding rule, as in the renderers",
               "outlines may deviate by 0.1 percent of the radius (Bezier "
               "curves); pixels within 3 pixels of an outline are not "
               "compared"]

COLORS = ["black", "red", "#1f77b4", "C1", "white", "0.5"]
SHIFTS = st.one_of(st.sampled_from([0, 0.0, 1, -3.5]),
                   st.integers(-500, 500).map(lambda k: k / 10),
                   # places with many digits
                   st.integers(-10 ** 7, 10 ** 7).map(lambda k: k / 97),
                   st.integers(-10 ** 4, 10 ** 4).map(lambda k: k / 99999))
ANGLES = st.one_of(st.sampled_from([0, 90, 45, 30.0, 60.0]),
                   st.integers(0, 900).map(lambda k: k / 10))
TILTS = st.one_of(st.sampled_from([0, 90, -90, 180, -180, 45.0, -30]),
                  st.integers(-1800, 1800).map(lambda k: k / 10))


@st.composite
def strategy_patch(draw):
    inner = draw(st.sampled_from([0, 0.001, 0.5, 1, 3.7, 20]))
    return dict(inner=inner,
                outer=inner + draw(st.sampled_from([0.3, 1, 2.5, 50])),
                transmission=draw(st.integers(0, 100)) / 100,
                inclination=draw(ANGLES), tilt=draw(TILTS),
                shift=[draw(st.none() | SHIFTS), draw(st.none() | SHIFTS)],
                color=draw(st.none() | st.sampled_from(COLORS)),
                earlier=draw(st.none() | st.fixed_dictionaries(dict(
                    inner=st.sampled_from([0, 0.2, 60]),
                    outer=st.sampled_from([70, 100.0]),
                    transmission=st.integers(0, 100).map(lambda k: k / 100),
                    inclination=ANGLES, tilt=TILTS))),
                keep=draw(st.lists(st.sampled_from(
                    ["inner", "outer", "transmission", "inclination",
                     "tilt", "place"]), max_size=6)))


def polygons(patch):
    """The closed outlines in data coordinates, curves in 16 steps."""
    shapes = []
    for curve, code in patch.get_path().iter_bezier():
        if code == Path.MOVETO:
            shapes.append([np.asarray(curve.control_points)[0]])
            continue
        require(len(shapes) > 0, "the outline has no start")
        steps = [1.0]
        if len(curve.control_points) > 2:
            steps = np.arange(1, 17) / 16
        shapes[-1].extend(np.asarray(curve(t)) for t in steps)
    # an area is filled up to its start, whether or not the path returns
    return [np.array(s + s[:1]) for s in shapes if len(s) > 2]


def winding(polygon, points):
    """Winding number of a closed polygon around each point."""
    a = polygon[None, :-1] - points[:, None]
    b = polygon[None, 1:] - points[:, None]
    angle = np.arctan2(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0],
                       (a * b).sum(-1))
    return np.rint(angle.sum(1) / (2 * np.pi)).astype(int)


def frame(points, centre, inclination, tilt):
    """Coordinates along the major and minor axis, minor unprojected."""
    phi, c = np.deg2rad(tilt), np.cos(np.deg2rad(inclination))
    d = points - centre
    u = d[:, 0] * np.cos(phi) + d[:, 1] * np.sin(phi)
    v = -d[:, 0] * np.sin(phi) + d[:, 1] * np.cos(phi)
    return u, v, c


def place(radius, theta, centre, inclination, tilt):
    phi, c = np.deg2rad(tilt), np.cos(np.deg2rad(inclination))
    u, v = radius * np.cos(theta), radius * c * np.sin(theta)
    return np.stack((centre[0] + u * np.cos(phi) - v * np.sin(phi),
                     centre[1] + u * np.sin(phi) + v * np.cos(phi)), -1)


def check_outline(patch, inner, outer, inclination, tilt, centre, what):
    shapes = polygons(patch)
    require(len(shapes) > 0, f"{what}: the patch is empty")
    scale = outer + np.hypot(*centre) * 1e-9
    points = np.concatenate(shapes)
    require(np.isfinite(points).all(), f"{what}: the outline is not finite")
    u, v, c = frame(points, centre, inclination, tilt)
    if c > 0.02:
        rho = np.hypot(u, v / c)
        theta = np.arctan2(v / c, u)
        near_outer = np.abs(rho - outer) < 1e-3 * outer + 1e-6 * scale / c
        near_inner = np.abs(rho - inner) < 1e-3 * inner + 1e-6 * scale / c
        require((near_outer | near_inner).all(), lambda: f"{what}: the "
                f"outline leaves the edges of the ring at "
                f"{points[~(near_outer | near_inner)][0].tolist()}")
        gaps = np.sort(theta[near_outer])
        require(len(gaps) > 3 and np.diff(np.append(gaps, gaps[0] + 2
                * np.pi)).max() < 1.7, f"{what}: the outline is not closed")
        # inside, between and outside
        k = np.arange(24)
        theta = k * 2 * np.pi / 24 + 0.1
        tests = [(outer * 1.01, False), (outer * 2, False)]
        if outer - inner > 0.03 * outer:
            tests += [(inner + (outer - inner) * s, True)
                      for s in (0.1, 0.5, 0.9) if inner + (outer - inner) * s
                      > inner + 0.004 * outer]
            tests = [(r, b) for r, b in tests]
        if inner > 1e-3 * outer:
            tests += [(inner * 0.98, False), (inner * 0.3, False)]
        for radius, inside in tests:
            p = place(radius, theta, centre, inclination, tilt)
            total = sum(winding(s, p) for s in shapes)
            require(((total != 0) == inside).all(),
                    f"{what}: points at radius {radius} of a ring from "
                    f"{inner} to {outer} are "
                    f"{'not ' if inside else ''}covered")
    else:
        # edge-on: a line
        require((np.abs(v) < (c + 1e-3) * outer + 1e-6 * scale).all()
                and abs(np.abs(u).max() - outer) < 1e-3 * outer,
                f"{what}: the edge-on ring is not a line")


def check_colors(patch, transmission, color, what):
    alpha = patch.get_alpha()
    alpha = patch.get_facecolor()[3] if alpha is None else alpha
    require(abs(alpha - (1 - transmission)) < 1e-12
            and abs(patch.get_facecolor()[3] - (1 - transmission)) < 1e-12,
            f"{what}: the opacity is {alpha}, not {1 - transmission}")
    require(np.allclose(patch.get_facecolor()[:3], to_rgb(color))
            and patch.get_fill(), f"{what}: the colour is not {color}")


def keywords(case):
    kw = {}
    for name, v in zip(("x_shift", "y_shift"), case["shift"]):
        if v is not None:
            kw[name] = v
    if case["color"] is not None:
        kw["face_color"] = case["color"]
    centre = np.array([v or 0 for v in case["shift"]], float)
    return kw, centre, case["color"] or "black"


def inclined(case):
    s = case.get("system", case)
    return (0 < s["inclination"] < 90 and s["tilt"] % 90 != 0
            and all(v for v in case["shift"]))


def check_patch(case, ctx):
    kw, centre, color = keywords(case)
    names = ("inner", "outer", "transmission", "inclination", "tilt")
    earlier = case.get("earlier")
    if earlier is None:
        ring = Ring(*(case[n] for n in names))
    else:
        # a ring that was drawn before it got these values
        first = {n: case[n] if n in case["keep"] else earlier[n]
                 for n in names}
        if first["inner"] >= first["outer"]:
            first.update(inner=case["inner"], outer=case["outer"])
        ring = Ring(*(first[n] for n in names))
        ring.get_patch(**(kw if "place" in case["keep"] else {}))
        if first["outer"] != case["outer"]:
            ring.inner_radius = 0
            ring.outer_radius = case["outer"]
        if (first["inner"], first["outer"]) != (case["inner"], case["outer"]):
            ring.inner_radius = case["inner"]
        for n in names[2:]:
            if first[n] != case[n]:
                setattr(ring, n, case[n])
    patch = ring.get_patch(**kw)
    check_outline(patch, ring.inner_radius, case["outer"],
                  case["inclination"], case["tilt"], centre, "patch")
    check_colors(patch, case["transmission"], color, "patch")
    require((ring.inner_radius, ring.outer_radius, ring.transmission,
             ring.inclination, ring.tilt) == (case["inner"] or 1e-16,
             case["outer"], case["transmission"], case["inclination"],
             case["tilt"]), "drawing changed the ring")
    ctx.nontrivial(inclined(case))
    ctx.label("edge-on", case["inclination"] > 88)


@st.composite
def systems(draw, max_rings=5):
    n = draw(st.integers(0, max_rings))
    edge, rings = draw(st.integers(0, 20)), []
    for _ in range(n):
        edge += draw(st.sampled_from([0, 0, 2, 10]))
        width = draw(st.sampled_from([2, 5, 30]))
        rings.append([edge / 4, (edge + width) / 4,
                      draw(st.integers(0, 20)) / 20])
        edge += width
    return dict(planet=draw(st.sampled_from([0, 0.5, 1, 4.0, 80.0])),
                rings=rings, inclination=draw(ANGLES), tilt=draw(TILTS))


@st.composite
def strategy_plot(draw):
    return dict(system=draw(systems()),
                shift=[draw(st.none() | SHIFTS), draw(st.none() | SHIFTS)],
                color=draw(st.none() | st.sampled_from(COLORS)),
                axes=draw(st.booleans()))


def check_plot(case, ctx):
    s = case["system"]
    kw, centre, color = keywords(case)
    system = build(s)
    before = repr(system)
    try:
        fig, ax = plt.subplots(figsize=(1, 1), dpi=30)
        if case["axes"]:
            other = fig.add_axes([0, 0, 0.1, 0.1])
            got = system.plot(ax, **kw)
            require(not other.patches, "another axes was drawn on")
        else:
            got = system.plot(**kw)
        require(got is ax, "plot returns another axes")
        circles = [p for p in ax.patches if isinstance(p, Circle)]
        paths = [p for p in ax.patches if isinstance(p, PathPatch)]
        require(len(circles) == 1 and len(paths) == len(s["rings"])
                and len(ax.patches) == 1 + len(s["rings"]),
                f"{len(circles)} disks and {len(paths)} rings are drawn for "
                f"{len(s['rings'])} rings")
        disk = circles[0]
        require(np.allclose(disk.center, centre, atol=1e-12)
                and disk.get_radius() == s["planet"],
                f"the planet is drawn at {disk.center} with radius "
                f"{disk.get_radius()}")
        check_colors(disk, 0, color, "planet")
        for k, (inner, outer, t) in enumerate(s["rings"]):
            check_outline(paths[k], inner or 1e-16, outer, s["inclination"],
                          s["tilt"], centre, f"ring {k}")
            check_colors(paths[k], t, color, f"ring {k}")
        size = max([s["planet"]] + [r[1] for r in s["rings"]])
        limits = ax.get_xlim(), ax.get_ylim()
        for (low, high), middle, name in zip(limits, centre, "xy"):
            require(low < middle - size and high > middle + size,
                    f"the {name} limits {(low, high)} cut the system off")
        x, y = (high - low for low, high in limits)
        require(abs(x - y) < 1e-9 * x and x < 20 * (size + 2),
                f"the limits span {x} and {y}")
        require(ax.get_aspect() in (1, 1.0, "equal"),
                f"the aspect is {ax.get_aspect()}")
        require(repr(system) == before, "drawing changed the ring system")
    finally:
        plt.close("all")
    ctx.nontrivial(inclined(case) and len(s["rings"]) > 1)
    ctx.label(f"{len(s['rings'])} rings")


PIXELS = 120


def check_render(case, ctx):
    s = case["system"]
    kw, centre, color = keywords(case)
    system = build(s)
    try:
        fig = plt.figure(figsize=(1, 1), dpi=PIXELS)
        ax = fig.add_axes([0, 0, 1, 1])
        ax.axis("off")
        system.plot(ax, **kw)
        fig.canvas.draw()
        shown = np.asarray(fig.canvas.buffer_rgba())[..., :3] / 255.0
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
    finally:
        plt.close("all")
    require(shown.shape[:2] == (PIXELS, PIXELS), "the figure has another size")
    px = x0 + (np.arange(PIXELS) + 0.5) * (x1 - x0) / PIXELS
    py = y1 - (np.arange(PIXELS) + 0.5) * (y1 - y0) / PIXELS
    points = np.stack(np.meshgrid(px, py), -1).reshape(-1, 2)
    pixel = (x1 - x0) / PIXELS
    u, v, c = frame(points, centre, s["inclination"], s["tilt"])
    expected = np.ones((len(points), 3))
    unsure = np.zeros(len(points), bool)
    face = np.array(to_rgb(color))
    distance = np.hypot(u, v)
    expected[distance < s["planet"]] = face
    unsure |= np.abs(distance - s["planet"]) < 3 * pixel
    if c < 0.05:
        return
    rho = np.hypot(u, v / c)
    for inner, outer, t in s["rings"]:
        inside = (rho > inner) & (rho < outer)
        expected[inside] = expected[inside] * t + face * (1 - t)
        # at most as far from the outline as along the minor axis
        for edge in (inner, outer):
            unsure |= np.abs(rho - edge) * c < 3.5 * pixel
    bad = (np.abs(shown.reshape(-1, 3) - expected).max(1) > 0.03) & ~unsure
    require(not bad.any(), lambda: f"the pixel at {points[bad][0].tolist()} "
            f"is {shown.reshape(-1, 3)[bad][0].tolist()} instead of "
            f"{expected[bad][0].tolist()}")
    sure = ~unsure & (expected != 1).any(1)
    ctx.nontrivial(inclined(case) and len(s["rings"]) > 1 and sure.sum() > 50)
    ctx.label("compared pixels", int((~unsure).sum()))


SUBS = [Sub("patch", strategy_patch, check_patch, 600, 12000),
        Sub("plot", strategy_plot, check_plot, 150, 3000, shards=2),
        Sub("render", strategy_plot, check_render, 120, 2000, shards=2)]
