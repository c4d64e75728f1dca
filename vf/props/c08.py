"""C08: the list of gradients follows every history, all or nothing."""
import math

import numpy as np
from hypothesis import strategies as st

import grids
import world
from core import Sub, Violation, in_repo, require

LEVEL = "exploration"
RULE = ("A case is a grid and a history of up to 14 calls (eclipse "
        "parameters, adding, removing, rescaling, fitting; valid and "
        "invalid). After every call the grid is compared with a plain list "
        "of measurements. It is non-trivial when at least two accepted "
        "changes and one rejected call met a grid with gradients.")
ASSUMPTIONS = ["eclipse durations and velocities are positive, transmission "
               "changes not 0 (0 is accepted but cannot be divided by)",
               "a fit is only determined with at least one gradient"]

BAD_NUMBER = st.sampled_from(["nan", "text", "-1", "none", "array"])


def bad_number(kind):
    return {"nan": math.nan, "text": "1", "-1": -1.0, "none": None,
            "array": np.array([1.0])}[kind]


@st.composite
def operation(draw):
    kind = draw(st.sampled_from(
        ["add"] * 5 + ["remove"] * 3 + ["scale"] * 3 + ["fit"] * 3
        + ["nudge"] * 2 + ["eclipse", "bad eclipse", "bad add", "bad remove", "bad scale",
           "bad scale", "bad add", "nothing", "empty"]))
    if kind in ("add",):
        return [kind, draw(world.measurements(max_size=3))]
    if kind == "bad add":
        m = draw(world.measurements(min_size=2, max_size=3))
        how = draw(st.sampled_from(["steep", "steep", "negative", "length",
            "error length", "transmission length", "transmission", "error",
            "list", "integers", "nan", "two-dimensional"]))
        return [kind, m, how, draw(st.integers(0, 2)), draw(world.TOO_LARGE)]
    if kind == "remove":
        return [kind, draw(st.lists(st.integers(0, 50), min_size=1,
                                    max_size=3))]
    if kind == "bad remove":
        return [kind, draw(st.sampled_from(["beyond", "negative", "float",
            "list", "two-dimensional"])), draw(st.integers(0, 50))]
    if kind == "eclipse":
        return [kind, draw(world.eclipses())]
    if kind == "bad eclipse":
        return [kind, draw(world.eclipses()), draw(st.integers(0, 2)),
                draw(BAD_NUMBER)]
    if kind == "scale":
        return [kind, draw(st.none() | world.VELOCITIES),
                draw(st.none() | world.DARKENING),
                draw(st.none() | st.lists(world.TRANSMISSION, min_size=12,
                                          max_size=12))]
    if kind == "bad scale":
        return [kind, draw(st.sampled_from(["steep", "steep last", "velocity",
            "darkening", "transmission", "length", "list"])),
            draw(st.integers(0, 50)), draw(world.DARKENING),
            draw(world.VELOCITIES)]
    if kind == "fit":
        return [kind, draw(st.booleans())]
    if kind == "nudge":
        return [kind, draw(st.integers(0, 3)), draw(st.sampled_from(
            [1e-2, -1e-3, 1e-4, -1e-5, 1e-6, -1e-7]))]
    return [kind]


@st.composite
def strategy(draw):
    first = []
    if draw(st.integers(0, 9)):
        first = [["eclipse", draw(world.eclipses())],
                 ["add", draw(world.measurements(min_size=2))]]
    return dict(spec=draw(world.small_specs(max_count=2)),
                ops=first + draw(st.lists(operation(), min_size=4,
                                          max_size=14)))


class Model:
    def __init__(self):
        self.eclipse = None         # duration, velocity, darkening
        self.gradients = []         # dicts
        self.fit = None
        self.listed = False         # is there a list at all?

    def scaled(self, g, velocity=None, darkening=None, transmission=None):
        v = self.eclipse[1] if velocity is None else velocity
        u = self.eclipse[2] if darkening is None else darkening
        t = g["transmission"] if transmission is None else transmission
        return g["measured"] / t / grids.steepest_slope(v, u)


def outcome(fn, *args, **kw):
    """The error the code rejects a call with, or None."""
    try:
        fn(*args, **kw)
    except Exception as ex:
        if not in_repo(ex.__traceback__):
            raise
        return ex
    return None


def accepted(error, what):
    require(error is None, lambda: f"{what} was rejected: "
            f"{type(error).__name__}: {error}")


def rejected(error, what):
    require(error is not None, f"{what} was accepted")


def apply(grid, model, op, ctx):
    """Apply one call to both; returns "change", "reject" or "same"."""
    kind = op[0]
    have = len(model.gradients)
    if kind == "eclipse":
        accepted(outcome(grid.set_eclipse_parameters, *op[1]), kind)
        model.eclipse = list(op[1])
        model.gradients, model.fit, model.listed = [], None, False
        return "change"
    if kind == "bad eclipse":
        args = list(op[1])
        args[op[2]] = bad_number(op[3])
        rejected(outcome(grid.set_eclipse_parameters, *args),
                 f"set_eclipse_parameters{tuple(args)}")
        return "reject"
    if kind in ("add", "bad add", "empty"):
        eclipse = model.eclipse or [1.0, 1.0, 0.5]
        m = dict(positions=[], fractions=[], errors=None, transmissions=None)
        if kind != "empty":
            m = op[1]
        times, measured, errors, trans = world.light_curve(m, eclipse)
        n = len(times)
        if kind == "bad add":
            how, k = op[2], op[3] % n
            if how == "steep":
                measured[k] = op[4] * (1 if trans is None else trans[k]
                                       ) * world.slope(eclipse)
            elif how == "negative":
                measured[k] = -0.125
            elif how == "length":
                measured = measured[:-1]
            elif how == "error length":
                errors = np.ones(n + 1)
            elif how == "transmission length":
                trans = np.ones(n - 1)
            elif how == "transmission":
                trans = np.ones(n)
                trans[k] = 1.5
            elif how == "error":
                errors = np.ones(n)
                errors[k] = -1
            elif how == "list":
                times = times.tolist()
            elif how == "integers":
                times = np.arange(n)
            elif how == "nan":
                measured[k] = np.nan
            else:
                times = times[None]
        kept = [None if a is None else np.copy(a)
                for a in (times, measured, errors, trans)]
        kw = {}
        if errors is not None:
            kw["light_curve_gradient_errors"] = errors
        if trans is not None:
            kw["transmission_changes"] = trans
        error = outcome(grid.add_gradients, times, measured, **kw)
        for a, b in zip(kept, (times, measured, errors, trans)):
            require(world.same(a, None if b is None else np.array(b)),
                    "adding gradients changed its arguments")
        if model.eclipse is None:
            accepted(error, "adding gradients without eclipse parameters")
            return "same"
        if kind == "bad add":
            rejected(error, f"adding gradients ({op[2]})")
            return "reject"
        accepted(error, "adding gradients")
        positions = -np.asarray(times) / eclipse[0]
        for k in range(n):
            model.gradients.append(dict(position=positions[k],
                measured=measured[k],
                error=1. if errors is None else errors[k],
                transmission=1. if trans is None else trans[k]))
        model.listed, model.fit = True, None
        return "change"
    if kind == "remove":
        if not model.listed:
            accepted(outcome(grid.remove_gradients, np.array([0])), kind)
            return "same"
        if not have:
            rejected(outcome(grid.remove_gradients, np.array([0])), kind)
            return "reject"
        indices = np.array([i % have for i in op[1]])
        accepted(outcome(grid.remove_gradients, indices), kind)
        gone = set(indices.tolist())
        model.gradients = [g for k, g in enumerate(model.gradients)
                           if k not in gone]
        model.fit = None
        ctx.label("repeated index", len(gone) < len(indices))
        return "change"
    if kind == "bad remove":
        if not model.listed:
            return "same"
        good = op[2] % max(1, have)
        indices = {"beyond": np.array([good, have]),
                   "negative": np.array([-1, good]),
                   "float": np.array([float(good)]),
                   "list": [good],
                   "two-dimensional": np.array([[good]])}[op[1]]
        rejected(outcome(grid.remove_gradients, indices),
                 f"removing {indices!r} of {have} gradients")
        return "reject"
    if kind == "nudge" and model.eclipse is not None:
        # nearly the same scaling factors are other scaling factors
        which, by = op[1:]
        _, v, u = model.eclipse
        if which == 0:
            op = ["scale", v * (1 + by), None, None]
        elif which == 1:
            op = ["scale", None, abs(u - abs(by)), None]
        elif which == 2:
            op = ["scale", None, None, [min(1., g["transmission"] * (1 + by))
                                        for g in model.gradients]]
        else:
            op = ["scale", v * (1 + by), abs(u - abs(by)), None]
        kind = "scale"
    if kind == "scale":
        if model.eclipse is None:
            return "same"
        _, v, u, trans = op
        trans = None if trans is None else np.array(trans[:have], float)
        if trans is not None and (len(trans) < have or not model.listed):
            return "same"
        new = [model.scaled(g, v, u, None if trans is None else trans[k])
               for k, g in enumerate(model.gradients)]
        if any(0.999 < s < 1.001 for s in new):
            return "same"                       # rounding would decide
        kw = {}
        if v is not None:
            kw["transverse_velocity"] = v
        if u is not None:
            kw["limb_darkening"] = u
        if trans is not None:
            kw["transmission_changes"] = trans
        error = outcome(grid.update_gradient_scaling, **kw)
        if any(s > 1 for s in new) and kw:
            rejected(error, f"update_gradient_scaling({kw}) to {new}")
            return "reject"
        accepted(error, f"update_gradient_scaling({kw})")
        if not kw:
            return "same"
        if v is not None:
            model.eclipse[1] = v
        if u is not None:
            model.eclipse[2] = u
        for k, g in enumerate(model.gradients):
            if trans is not None:
                g["transmission"] = trans[k]
        model.fit = None
        return "change"
    if kind == "bad scale":
        if model.eclipse is None or not have:
            return "same"
        how, k, u, v = op[1:]
        k %= have
        now = [g["transmission"] for g in model.gradients]
        kw = dict(limb_darkening=u)
        if how in ("steep", "steep last"):
            largest = max(model.scaled(g, darkening=u)
                          for g in model.gradients)
            if largest == 0:
                return "same"
            if how == "steep last":
                # only one of them becomes too steep
                if model.gradients[k]["measured"] == 0:
                    return "same"
                trans = np.ones(have)
                t = model.gradients[k]["measured"] / grids.steepest_slope(
                    model.eclipse[1], u) / 1.01
                if not 0 < t < 1:
                    return "same"
                trans[k] = t
                if any(model.scaled(g, darkening=u, transmission=1) > 0.999
                       for j, g in enumerate(model.gradients) if j != k):
                    return "same"
                kw["transmission_changes"] = trans
            else:
                kw["transverse_velocity"] = model.eclipse[1] * largest / 1.01
        elif how == "velocity":
            kw["transverse_velocity"] = -v
        elif how == "darkening":
            kw = dict(transverse_velocity=v, limb_darkening=1.25)
        elif how == "transmission":
            trans = np.array(now)
            trans[k] = 1.01
            kw["transmission_changes"] = trans
            kw["transverse_velocity"] = model.eclipse[1] * 1.5
        elif how == "length":
            kw["transmission_changes"] = np.ones(have + 1)
            kw["transverse_velocity"] = model.eclipse[1] * 1.5
        else:
            kw["transmission_changes"] = np.ones(have).tolist()
        rejected(outcome(grid.update_gradient_scaling, **kw),
                 f"update_gradient_scaling({kw})")
        return "reject"
    if kind == "fit":
        if not have:
            return "same"
        accepted(outcome(grid.determine_gradient_fit, op[1]), kind)
        model.fit = grid.get_gradient_fit(False, False)
        require(model.fit is not None, "there is no fit after fitting")
        return "same"
    accepted(outcome(grid.update_gradient_scaling), kind)
    return "same"


def compare(grid, model, raw, disks, after, ctx):
    have = len(model.gradients)
    if grid.gradients is None or len(grid.gradients) == 0:
        require(have == 0, f"all {have} gradients are gone after {after}")
    else:
        positions, scaled, errors, gradients = grid.get_gradients(
            False, False)
        masked = grid.get_gradients(False, True)[3]
        require(len(positions) == have, f"{len(positions)} gradients instead "
                f"of {have} after {after}")
        dx, dy = raw["dx"][None, :, None], raw["dy"][:, None, None]
        for k, g in enumerate(model.gradients):
            want = model.scaled(g)
            require(world.near(positions[k], g["position"]), lambda: f"gradient {k} is "
                f"at {positions[k]} instead of {g['position']} after {after}")
            require(abs(scaled[k] - want) <= 1e-10 * (1e-3 + want),
                    lambda: f"gradient {k} is scaled to {scaled[k]} instead "
                    f"of {want} after {after}")
            require(errors[k] == g["error"], lambda: f"gradient {k} has the "
                    f"error {errors[k]} instead of {g['error']} after "
                    f"{after}")
            key = float(g["position"])
            if key not in raw["tangents"]:
                raw["tangents"][key] = grids.tangent(dx, dy,
                    raw["inclination"], raw["tilt"], key)
            tangent = raw["tangents"][key]
            clear = disks & (np.hypot(key - dx, dy + 0 * disks) > 1e-3)
            bad = clear & ~(np.abs(gradients[k] - tangent) <= 1e-5)
            require(not bad.any(), lambda: f"the disk gradients of gradient "
                    f"{k} are not those of its position after {after}")
            mask, clear = world.masked_by(gradients[k], want)
            bad = clear & (np.isnan(masked[k]) != mask)
            require(not bad.any(), lambda: f"the mask of gradient {k} at "
                    f"{world.first(bad)} does not belong to its measurement "
                    f"after {after}")
            require(grid.gradients[k].measured_gradient == g["measured"]
                    and grid.gradients[k].transmission_change
                    == g["transmission"], lambda: f"gradient {k} lost its "
                    f"measurement after {after}")
    fit = grid.get_gradient_fit(False, False)
    require(world.same(fit, model.fit), lambda: f"the gradient fit was "
            f"{'kept' if fit is not None else 'lost'} or changed by {after}")


def check(case, ctx):
    grid = grids.build(case["spec"])
    model = Model()
    raw = {n: grids.raw(grid, n) for n in ("inclination", "tilt")}
    raw["dy"], raw["dx"], _ = grid.parameters.get_vectors()
    raw["tangents"] = {}
    disks = ~np.isnan(raw["tilt"])
    changes = rejects = 0
    for k, op in enumerate(case["ops"]):
        if op[0] in ("add", "bad add") and len(model.gradients) > 8:
            continue
        before = len(model.gradients)
        result = apply(grid, model, op, ctx)
        name = f"call {k} ({op[0]})"
        compare(grid, model, raw, disks, name, ctx)
        ctx.label(f"{op[0]}: {result}")
        if before and result == "change":
            changes += 1
        if before and result == "reject":
            rejects += 1
    # the eclipse parameters in use are those of the model
    if model.eclipse is not None:
        t = np.array([model.eclipse[0] * 0.375])
        half = np.array([0.5 * world.slope(model.eclipse)])
        grid.add_gradients(t, half)
        positions, scaled, errors, _ = grid.get_gradients()
        require(world.near(positions[-1], -t[0] / model.eclipse[0])
                and abs(scaled[-1] - 0.5) < 1e-9 and errors[-1] == 1,
                lambda: f"a new gradient gets the position {positions[-1]} "
                f"and scaled gradient {scaled[-1]} instead of -0.375 and 0.5")
    ctx.nontrivial(changes >= 2 and rejects >= 1)


@st.composite
def strategy_many(draw):
    few = world.measurements(max_size=3)
    remove = st.lists(st.integers(0, 600), min_size=1, max_size=40).map(
        lambda v: ["remove", v])
    ops = [["eclipse", draw(world.eclipses())], ["add", draw(few)],
           ["add", draw(world.many())], draw(remove),
           ["scale", draw(world.VELOCITIES), draw(world.DARKENING), None],
           ["fit", draw(st.booleans())], draw(remove), ["add", draw(few)]]
    drop = draw(st.sampled_from([None, 1, 3, 4, 5, 6]))
    return dict(spec=draw(world.small_specs(max_count=2)),
                ops=[o for k, o in enumerate(ops) if k != drop])


SUBS = [Sub("history", strategy, check, 150, 3000, shards=8,
            thorough_shards=16),
        Sub("many", strategy_many, check, 4, 100, thorough_shards=4)]
