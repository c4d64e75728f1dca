"""C13: a saved grid is restored completely."""
import hashlib
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, Violation, expect_error, in_repo, require
from Shallot import ShallotGrid

LEVEL = "exploration"
RULE = ("A case is a grid with optional diagnostics, masks, eclipse "
        "parameters, gradients, scaling history and fit that is saved and "
        "loaded; then both grids get the same further calls. faults: one "
        "file of the saved folder is removed, emptied or cut. Non-trivial "
        "with at least two gradients and one mask or fit (round trip), or "
        "when the damaged file is not empty (faults).")
ASSUMPTIONS = ["the folder is given relative to the working directory or as "
               "an absolute path, and its parent exists",
               "parts that are optional (masks, gradients, fit, diagnostics, "
               "eclipse parameters) may be missing after their file is gone, "
               "but never have other values"]


FOLDERS = ["grid", "grid", "a grid.with dots", "gradient_0", "grid.npy",
           "gr\u00fcn", ".temp_shallot", "grid/"]


@st.composite
def world_case(draw, max_count=3):
    spec = draw(world.small_specs(max_count=max_count))
    if spec["x"][2] * spec["y"][2] < 5:
        # resolutions beyond the range of small types
        spec["nf"] = draw(grids.seldom(st.just(spec["nf"]),
            st.sampled_from([128, 256, 300, 32768, 40000, 65536, 70001])))
    return dict(
        spec=spec,
        diagnostics=draw(st.booleans()),
        eclipse=draw(st.one_of(world.eclipses(), world.eclipses(),
                               world.eclipses(), st.none())),
        batches=draw(st.lists(world.measurements(max_size=3), min_size=1,
                              max_size=3)),
        close=draw(st.booleans()), unknown=draw(st.integers(0, 3)), folder=draw(st.sampled_from(FOLDERS)),
        remove=draw(st.none() | st.integers(0, 50)),
        velocity=draw(st.none() | st.integers(10, 30)),
        hill=draw(st.none() | st.integers(0, 300)),
        masks=draw(st.lists(st.tuples(st.sampled_from(["inclination", "tilt",
            "fx_map", "fy_map", "gradient"]), st.integers(0, 2 ** 30)
            ).map(list), max_size=2)),
        fit=draw(st.sampled_from([None, True, False])))


def make(case):
    spec, eclipse = case["spec"], case["eclipse"]
    grid = grids.build(spec, keep_diagnostics=case["diagnostics"])
    if eclipse is not None:
        grid.set_eclipse_parameters(*eclipse)
        for k, m in enumerate(case["batches"]):
            m = dict(m)
            if case["close"]:
                # positions that agree to many digits
                m["positions"] = [p + 1e-7 * j for j, p in enumerate(
                    [m["positions"][0]] * len(m["positions"]))]
            if case.get("unknown") == 0 and m["errors"] is not None:
                # a measurement that excludes nothing
                m["errors"] = [np.inf] + list(m["errors"][1:])
            world.add(grid, m, eclipse)
        have = len(grid.gradients or [])
        if case["remove"] is not None and have > 1:
            grid.remove_gradients(np.array([case["remove"] % have]))
        if case["velocity"] is not None:
            grid.update_gradient_scaling(
                transverse_velocity=eclipse[1] * case["velocity"] / 10)
    if case["hill"] is not None:
        grid.generate_hill_radius_mask(case["hill"] / 20)
    shape = grids.raw(grid, "tilt").shape
    for name, number in case["masks"]:
        bits = np.arange(np.prod(shape)) * 2654435761 + number
        mask = ((bits >> 7) % 4 == 0).reshape(shape)
        if name == "gradient":
            for g in (grid.gradients or [])[:1]:
                g.set_mask(mask)
        else:
            getattr(grid, name).set_mask(mask)
    if case["fit"] is not None and grid.gradients:
        grid.determine_gradient_fit(case["fit"])
    return grid


def digest(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder)] = "dir"
        for f in files:
            path = os.path.join(base, f)
            with open(path, "rb") as h:
                out[os.path.relpath(path, folder)] = hashlib.sha256(
                    h.read()).hexdigest()
    return out


def diagnostics(grid):
    if grid.diagnostics is None:
        return None
    ny, nx = grid.parameters.slice_shape
    out = []
    for y in range(ny):
        for x in range(nx):
            try:
                fy, radius = grid.diagnostics.get_diagnostic(y, x)
                out.append((fy.tobytes(), radius.tobytes()))
            except (KeyError, ValueError):
                out.append(None)
    try:
        # refused either way, so that nothing is stored
        grid.diagnostics.save_diagnostic(0, 0, None, None)
    except TypeError:
        out.append("open")
    except RuntimeError:
        out.append("extended")
    return out


def same_grid(a, b, what):
    changed = world.differences(world.snapshot(a), world.snapshot(b))
    require(not changed, f"{what}: {', '.join(changed)} differ")
    for name in ("disk_radius", "inclination", "tilt", "fx_map", "fy_map"):
        p, q = getattr(a, name), getattr(b, name)
        require((p.mask is None) == (q.mask is None)
                and (p.mask is None or np.array_equal(p.mask, q.mask)),
                f"{what}: the mask of {name} differs")
        require(p.name == q.name and p.unit == q.unit,
                f"{what}: the name or unit of {name} differs")
    require(tuple(a.parameters.grid_shape) == tuple(b.parameters.grid_shape)
            and tuple(a.parameters.slice_shape)
            == tuple(b.parameters.slice_shape)
            and np.array_equal(a.parameters.rf, b.parameters.rf),
            f"{what}: the shapes or rf differ")


def further(grid, case):
    """The same calls on both grids; returns everything they answer."""
    out = []

    def call(fn, *args, **kw):
        try:
            result = fn(*args, **kw)
        except Exception as ex:
            if not in_repo(ex.__traceback__):
                raise
            result = type(ex).__name__
        out.append(repr(result))

    m = dict(positions=[0.125], fractions=[0.25], errors=[0.5],
             transmissions=[0.75])
    eclipse = case["eclipse"]
    have = len(grid.gradients or [])
    if have:
        call(grid.extract_solutions, 0)
    call(grid.determine_gradient_fit)
    if have:
        call(lambda: grid.get_gradient_fit().tolist())
        call(grid.extract_solutions, 1)
    call(grid.get_grid_point_data, 0, 0, 0)
    if eclipse is not None:
        faster = eclipse[1] * (case["velocity"] or 10) / 10
        times, light, errors, trans = world.light_curve(m, eclipse)
        call(grid.add_gradients, times, light, errors, trans)
        call(lambda: [a.tolist() for a in grid.get_gradients(True)])
        call(grid.update_gradient_scaling, transverse_velocity=faster * 2)
        call(lambda: [a.tolist() for a in grid.get_gradients(True)])
        call(grid.remove_gradients, np.array([0]))
    else:
        call(grid.add_gradients, np.array([0.5]), np.array([0.1]))
    call(lambda: None if not grid.gradients else
         [a.tolist() for a in grid.get_gradients()])
    call(lambda: grid.get_combined_mask().tolist())
    if (~grid.get_combined_mask()).any():
        call(grid.determine_closest_grid_point, 1.5, 40, 30, 0.25)
    call(grid.__repr__)
    return out


def check_round_trip(case, ctx):
    grid = make(case)
    before = world.snapshot(grid)
    stored = diagnostics(grid)
    if os.path.exists("saved"):
        shutil.rmtree("saved")
    os.mkdir("saved")
    folder = f"saved/{case['folder']}"
    if case["close"]:
        folder = os.path.abspath(folder)
    grid.save(folder)
    changed = world.differences(before, world.snapshot(grid))
    require(not changed, f"saving changed {changed}")
    content = digest(folder)
    expect_error((FileExistsError,), grid.save, folder)
    require(digest(folder) == content,
            "a refused save changed the existing folder")
    loaded = ShallotGrid.load(folder, logging_level=grids.QUIET)
    require(digest(folder) == content and os.listdir("saved") == [case["folder"].rstrip("/")],
            "loading changed the saved folder")
    same_grid(grid, loaded, "loaded")
    require(diagnostics(loaded) == stored,
            "loaded: the diagnostics differ")
    # a second generation
    loaded.save("saved/again")
    second = ShallotGrid.load("saved/again", logging_level=grids.QUIET)
    same_grid(grid, second, "saved and loaded twice")
    require(diagnostics(second) == stored,
            "saved and loaded twice: the diagnostics differ")
    require(digest(folder) == content, "saving elsewhere changed the folder")
    # the same future
    answers = further(grid, case), further(loaded, case)
    for k, (a, b) in enumerate(zip(*answers)):
        require(a == b, lambda: f"query or change {k} gives {b[:200]} after "
                f"loading instead of {a[:200]}")
    same_grid(grid, loaded, "after the same changes")
    ctx.nontrivial(len(before.get("positions", [])) > 1
                   and (before["fit"] is not None or case["masks"] != []
                        or case["hill"] is not None))
    ctx.label("with fit", before["fit"] is not None)
    ctx.label("with diagnostics", stored is not None)
    ctx.label("with gradients", len(before.get("positions", [])) > 0)
    ctx.label("with masks", bool(case["masks"] or case["hill"] is not None))


@st.composite
def strategy_faults(draw):
    return dict(world=draw(world_case(max_count=2)),
                faults=draw(st.lists(st.tuples(st.integers(0, 10 ** 4),
                    st.sampled_from(["remove", "empty", "cut", "cut", "text",
                                     "folder"]), st.integers(1, 10 ** 4)
                    ).map(list), min_size=1, max_size=6)))


def compare_damaged(grid, loaded, name, optional):
    """Every value of the loaded grid is a saved one."""
    for a, b in zip(grid.parameters.get_vectors(),
                    loaded.parameters.get_vectors()):
        require(np.array_equal(a, b), f"without {name}: a vector differs")
    require(loaded.num_fxfy == grid.num_fxfy,
            f"without {name}: the resolution differs")
    for cube in grids.CUBES:
        require(world.same(grids.raw(grid, cube), grids.raw(loaded, cube)),
                f"without {name}: {cube} differs")
    for prop in ("disk_radius", "inclination", "tilt", "fx_map", "fy_map"):
        a, b = getattr(grid, prop).mask, getattr(loaded, prop).mask
        require((b is None and (a is None or optional))
                or (a is not None and np.array_equal(a, b)),
                f"without {name}: the mask of {prop} differs")
    have, got = grid.gradients or [], loaded.gradients or []
    require(len(got) <= len(have) and (optional or len(got) == len(have)),
            f"without {name}: {len(got)} gradients instead of {len(have)}")
    for k, (a, b) in enumerate(zip(have, got)):
        require(a.position == b.position
                and world.same(a.get_data(False), b.get_data(False)),
                f"without {name}: gradient {k} differs")
        for v in ("measured_gradient", "measured_error", "orbital_scale",
                  "transmission_change"):
            old, new = getattr(a, v), getattr(b, v)
            require(old == new or (new is None and optional),
                    f"without {name}: {v} of gradient {k} is {new}")
        if b.mask is not None and not optional:
            require(np.array_equal(a.mask, b.mask),
                    f"without {name}: the mask of gradient {k} differs")
    a, b = (g.get_gradient_fit(False, False) for g in (grid, loaded))
    require((b is None and (a is None or optional)) or world.same(a, b),
            f"without {name}: the gradient fit differs")
    if loaded.diagnostics is not None:
        a, b = diagnostics(grid), diagnostics(loaded)
        # without its flag the folder is one of an older version
        require(a is not None and (a == b or "extended.npy" in name),
                f"without {name}: the diagnostics differ")
    else:
        require(grid.diagnostics is None or optional,
                f"without {name}: the diagnostics are gone")


OPTIONAL = ("_mask.npy", "mask_values.npy", "GRADIENT_FIT_NONE.npy",
            "eclipse_parameters.npy", "fy_dict.npy", "disk_radius_dict.npy",
            "max_yx.npy", "extended.npy")


def check_faults(case, ctx):
    grid = make(case["world"])
    for name in ("saved", "broken"):
        if os.path.exists(name):
            shutil.rmtree(name)
    os.mkdir("saved")
    os.mkdir("broken")
    grid.save("saved/grid")
    files = sorted(k for k, v in digest("saved/grid").items() if v != "dir")
    folders = sorted(k for k, v in digest("saved/grid").items() if v == "dir")
    expect_error(Exception, ShallotGrid.load, "saved/nowhere", grids.QUIET)
    for k, (number, how, amount) in enumerate(case["faults"]):
        target = f"broken/{k}"
        shutil.copytree("saved/grid", target)
        if how == "folder":
            if not folders:
                continue
            name = folders[number % len(folders)]
            shutil.rmtree(f"{target}/{name}")
            optional = True
        else:
            name = files[number % len(files)]
            path = f"{target}/{name}"
            size = os.path.getsize(path)
            optional = name.endswith(OPTIONAL)
            if how == "remove":
                os.remove(path)
            elif how == "text":
                with open(path, "wb") as f:
                    f.write(b"this is not an array" * 3)
            else:
                keep = 0 if how == "empty" else amount % size
                with open(path, "rb") as f:
                    content = f.read()
                with open(path, "wb") as f:
                    f.write(content[:keep])
            ctx.nontrivial()
        try:
            loaded = ShallotGrid.load(target, logging_level=grids.QUIET)
        except Exception as ex:
            if not in_repo(ex.__traceback__):
                raise
            ctx.label(f"{how}: refused")
        else:
            compare_damaged(grid, loaded, f"an intact {name} ({how})",
                            optional)
            ctx.label(f"{how}: {name.split('/')[-1]} is optional")
        shutil.rmtree(target)


@st.composite
def strategy_many(draw):
    case = draw(world_case(max_count=2))
    case["eclipse"] = draw(world.eclipses())
    case["batches"] = [draw(world.many(100, 300))]
    return case


SUBS = [Sub("round_trip", world_case, check_round_trip, 60, 1500,
            shards=6, thorough_shards=12),
        Sub("many", strategy_many, check_round_trip, 2, 20,
            thorough_shards=4),
        Sub("faults", strategy_faults, check_faults, 55, 1200, shards=2,
            thorough_shards=4)]
