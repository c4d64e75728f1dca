"""C24: validation accepts exactly what meets every declared restriction."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import validate
from core import Sub, require
from errors import InvalidDimensionsError, InvalidShapeError
from Ring import Ring

LEVEL = "exploration"
RULE = ("number, array, large, shapes, types: a value built from a description, "
        "restrictions and faulty restrictions; an exact model on fractions "
        "says whether it is accepted, or with which kinds of error it may be "
        "rejected. Non-trivial when the value has the right type and at least "
        "one finite bound (number, array), or three or more arrays (shapes).")
ASSUMPTIONS = ["booleans as numbers, nan as a bound, integers above 2**53 and "
               "the arrays whose dtype cannot hold a bound exactly are left "
               "out",
               "with several faults any of their kinds of error is accepted",
               "nan with exclusive infinite bounds is not decided"]

INTS = {"int": int, "int8": np.int8, "int16": np.int16, "int32": np.int32,
        "int64": np.int64}
FLOATS = {"float": float, "float16": np.float16, "float32": np.float32,
          "float64": np.float64, "longdouble": np.longdouble}
WRONG = {"none": None, "text": "3", "list": [1], "tuple": (1.0,),
         "array": np.array([1.0]), "0-d": np.array(2), "complex": 1 + 0j,
         "ring": Ring(1, 2, 0.5, 0, 0), "dict": {}, "bytes": b"1",
         "fraction": Fraction(1, 2), "class": int}

# multiples of 1/8 that every float type holds exactly
EIGHTHS = st.one_of(st.sampled_from([0, 8, -8, 4, 1, 720, -720]),
                    st.integers(-1000, 1000))
SPECIAL = ["inf", "-inf", "nan", "-0.0", "tiny", "-tiny"]


def special(name, kind):
    if name == "-0.0":
        return kind(-0.0)
    if name.endswith("tiny"):
        tiny = (np.finfo(kind).tiny if kind is not float
                else np.finfo(float).tiny)
        return kind(-tiny if name[0] == "-" else tiny)
    return kind(float(name))


def make(spec):
    """[type, what, nudge]: an eighth, or a special value, of a type."""
    kind, what, nudge = spec
    if kind in WRONG:
        return WRONG[kind]
    if kind in INTS:
        if isinstance(what, str):
            what = 0
        what = what // 8
        if kind == "int8":
            what = max(-128, min(127, what))
        return INTS[kind](what)
    kind = FLOATS[kind]
    if isinstance(what, str):
        return special(what, kind)
    value = kind(what / 8)
    if nudge:
        if kind is float:
            return float(np.nextafter(value, nudge * np.inf))
        return np.nextafter(value, kind(nudge * np.inf))
    return value


def exact(value):
    """The value as a fraction, or nan and the infinities as floats."""
    if isinstance(value, (float, np.floating)):
        if value != value:
            return float("nan")
        if value == np.inf or value == -np.inf:
            return float(value)
        return Fraction(*value.as_integer_ratio())
    return Fraction(int(value))


def inside(value, lower, upper, exclusive):
    """Exact comparison; None when not decided."""
    v, low, high = exact(value), exact(lower), exact(upper)
    if isinstance(v, float) and v != v:
        if low == -np.inf and high == np.inf:
            return None if exclusive else True
        return False
    return low < v < high if exclusive else low <= v <= high


def is_int(value):
    return (isinstance(value, (int, np.signedinteger))
            and not isinstance(value, bool))


def is_number(value):
    return is_int(value) or isinstance(value, (float, np.floating))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return a is b or a == b or (a != a and b != b)


def decide(kinds, accepted, value, fn, *args, **kw):
    """Call; accepted is True, False or None (not decided)."""
    try:
        got = fn(*args, **kw)
    except Exception as ex:
        require(accepted is not True, lambda: f"{fn.__name__} rejects "
                f"{describe(value)} with {type(ex).__name__}: {ex}")
        if kinds:
            require(isinstance(ex, tuple(kinds)), lambda: f"{fn.__name__} "
                    f"rejects {describe(value)} with {type(ex).__name__} "
                    f"({ex}) instead of {[k.__name__ for k in kinds]}")
        return False
    require(accepted is not False, lambda: f"{fn.__name__} accepts "
            f"{describe(value)} with {args[2:]} {kw}")
    require(same(got, value),
            lambda: f"{fn.__name__} returns {got!r} for {describe(value)}")
    return True


def describe(value):
    return f"{type(value).__name__} {value!r}"[:200]


SCALARS = st.tuples(
    st.sampled_from(sorted(INTS) + sorted(FLOATS)),
    st.one_of(EIGHTHS, EIGHTHS, st.sampled_from(SPECIAL)),
    st.sampled_from([0, 0, 0, 1, -1])).map(list)
NOTHING = st.sampled_from(sorted(WRONG)).map(lambda w: [w, 0, 0])
LIMITS = st.tuples(
    st.sampled_from(sorted(INTS) + sorted(FLOATS)),
    st.one_of(EIGHTHS, st.sampled_from(["inf", "-inf", "-0.0"])),
    st.just(0)).map(list)


@st.composite
def strategy_number(draw):
    value = draw(st.one_of(SCALARS, SCALARS, SCALARS, SCALARS, NOTHING))
    case = dict(value=value, integer=draw(st.sampled_from(
        [None, False, False, True])), lower=None, upper=None,
        exclusive=draw(st.sampled_from([None, False, True])))
    for name in ("lower", "upper"):
        how = draw(st.sampled_from(["none", "free", "equal", "sided",
                                    "sided", "wrong"]))
        if how == "free":
            case[name] = draw(LIMITS)
        elif how == "equal" and not isinstance(value[1], str):
            case[name] = [draw(st.sampled_from(
                ["float", "float64", "longdouble"])), value[1], 0]
        elif how == "sided" and not isinstance(value[1], str):
            d = draw(st.sampled_from([0, 1, 8, 80]))
            case[name] = [draw(st.sampled_from(sorted(FLOATS)[:4])),
                          value[1] + (d if name == "upper" else -d), 0]
        elif how == "wrong" and draw(st.integers(0, 4)) == 0:
            case[name] = draw(NOTHING)
    case["faulty"] = draw(st.sampled_from([None] * 12 + ["integer",
                                                        "exclusive"]))
    return case


def restrictions(case):
    """keywords, bounds, kinds of error of the restrictions themselves."""
    kw, kinds = {}, set()
    for name in ("lower", "upper"):
        if case[name] is not None:
            kw[name + "_bound"] = make(case[name])
            if not is_number(kw[name + "_bound"]):
                kinds.add(TypeError)
    lower, upper = kw.get("lower_bound", -np.inf), kw.get("upper_bound", np.inf)
    if not kinds and exact(lower) > exact(upper):
        kinds.add(ValueError)
    return kw, lower, upper, kinds


def check_number(case, ctx):
    value = make(case["value"])
    kw, lower, upper, kinds = restrictions(case)
    if case["integer"] is not None:
        kw["check_integer"] = case["integer"]
    if case["exclusive"] is not None:
        kw["exclusive"] = case["exclusive"]
    if case["faulty"] is not None:
        name = {"integer": "check_integer"}.get(case["faulty"], "exclusive")
        kw[name] = [1, "yes", None, 0.0][len(str(case["value"])) % 4]
        kinds.add(TypeError)
    right = (is_int(value) if kw.get("check_integer") is True
             else is_number(value))
    accepted = not kinds
    if not right:
        kinds.add(TypeError)
        accepted = False
    if right and not (kinds & {TypeError}):
        ok = inside(value, lower, upper, bool(case["exclusive"]))
        if ok is False:
            kinds.add(ValueError)
            accepted = False
        elif ok is None and accepted:
            accepted = None
    elif is_number(value):
        kinds.add(ValueError)
    done = decide(kinds, accepted, value, validate.number, value, "value",
                  **kw)
    ctx.nontrivial(right and (case["lower"] or case["upper"]) is not None)
    ctx.label("accepted" if done else "rejected")


SHAPES = [[], [0], [1], [4], [7], [0, 3], [2, 3], [1, 1], [2, 2, 3], [3, 0, 2],
          [2, 1, 2, 1], [1300], [40, 30], [3000]]
DTYPES = ["float64", "float32", "float16", "int64", "int32", "int8", "uint8",
          "bool", "longdouble"]
OTHERS = ["<U3", "object", "complex128"]


@st.composite
def strategy_array(draw):
    dtype = draw(st.sampled_from(DTYPES * 2 + OTHERS))
    shape = draw(st.sampled_from(SHAPES))
    low = draw(st.integers(-20, 20))
    span = draw(st.sampled_from([0, 1, 5, 90]))
    n = int(np.prod(shape))
    # those of a long array are repeated
    values = draw(st.lists(st.integers(low, low + span), min_size=min(n, 12),
                           max_size=min(n, 12)))
    case = dict(dtype=dtype, shape=shape, values=values,
                layout=draw(st.sampled_from(["plain", "fortran", "strided",
                                             "reversed", "read-only"])),
                odd=None, wrong=None, lower=None, upper=None,
                exclusive=draw(st.sampled_from([None, False, True])),
                asked=None, dimensions=None, faulty=None)
    if n and draw(st.booleans()):
        case["odd"] = [draw(st.integers(0, n - 1) | st.sampled_from(
            [0, n - 1, n // 2])), draw(st.sampled_from(
            ["inf", "-inf", "nan", "nan", "below", "above", "low", "high",
             "up", "down"]))]
    if draw(st.integers(0, 7)) == 0:
        case["wrong"] = draw(st.sampled_from(
            [w for w in sorted(WRONG) if w not in ("array", "0-d")]))
    if dtype in DTYPES:
        for name, edge in (("lower", low), ("upper", low + span)):
            d = draw(st.sampled_from(["none", "none", 0, 0, 1, -1, "inf",
                                      "-inf", "wrong"]))
            if d == "wrong":
                if draw(st.integers(0, 3)) == 0:
                    case[name] = draw(NOTHING.filter(lambda w: w[0] != "none"))
            elif d in ("inf", "-inf"):
                case[name] = ["float", d, 0]
            elif d != "none":
                if dtype in ("uint8", "int8", "bool"):
                    edge = max(0, edge)
                case[name] = [draw(st.sampled_from(["float", "float64"])),
                              8 * (edge + (d if name == "upper" else -d)), 0]
                if draw(st.booleans()):
                    case[name][0] = "int"
    if draw(st.booleans()):
        case["asked"] = draw(st.one_of(st.just(dtype), st.just(dtype),
            st.sampled_from(DTYPES + OTHERS + ["float", "int", ""])))
    if draw(st.booleans()):
        case["dimensions"] = draw(st.one_of(st.just(len(shape)),
                                            st.integers(0, 4)))
    case["faulty"] = draw(st.sampled_from([None] * 12 + [
        "exclusive", "dtype", "num_dimensions"]))
    return case


@st.composite
def strategy_large(draw):
    """Arrays of which one element, anywhere, decides."""
    shape = draw(st.one_of(
        st.integers(300, 6000).map(lambda n: [n]),
        st.tuples(st.integers(10, 80), st.integers(10, 80)).map(list),
        st.sampled_from([[12, 13, 29], [70000], [300, 300]])))
    n = int(np.prod(shape))
    exclusive = draw(st.booleans())
    low, high = draw(st.integers(-20, 0)), draw(st.integers(1, 60))
    values = draw(st.lists(st.integers(low, high), min_size=12, max_size=12))
    limits = [low - 1, high + 1] if exclusive else [low, high]
    sides = draw(st.sampled_from(["both", "both", "lower", "upper"]))
    odd = draw(st.none() | st.tuples(
        st.one_of(st.integers(0, n - 1), st.just(n - 1),
                  st.integers(0, n - 1).map(lambda k: n - 1 - k % 50)),
        st.sampled_from(["above", "below", "nan", "inf", "-inf"])).map(list))
    bound = ["float", "float64", "int"]
    return dict(
        dtype=draw(st.sampled_from(["float64", "float64", "float32", "int64",
                                    "int8"])),
        shape=shape, values=values, odd=odd, wrong=None, faulty=None,
        layout=draw(st.sampled_from(["plain", "plain", "fortran", "strided",
                                     "reversed"])),
        lower=None if sides == "upper" else [
            draw(st.sampled_from(bound)), 8 * limits[0], 0],
        upper=None if sides == "lower" else [
            draw(st.sampled_from(bound)), 8 * limits[1], 0],
        exclusive=exclusive, asked=None, dimensions=None)


def make_array(case):
    if case["wrong"] is not None:
        return WRONG[case["wrong"]]
    values = np.resize(np.array(case["values"], int), case["shape"])
    dtype = np.dtype(case["dtype"])
    if dtype.kind in "ub":
        values = np.asarray(np.abs(values))
    a = values.astype(dtype)
    if case["odd"] is not None and dtype.kind in "fiu":
        k, what = case["odd"]
        flat = a.reshape(-1)
        if what in ("inf", "-inf", "nan"):
            if dtype.kind == "f":
                flat[k] = float(what)
        elif what in ("up", "down"):
            if dtype.kind == "f":
                flat[k] = np.nextafter(flat[k], dtype.type(
                    np.inf if what == "up" else -np.inf))
        elif what in ("low", "high"):
            flat[k] = flat.min() if what == "low" else flat.max()
        elif what == "above":
            flat[k] = 120
        elif dtype.kind != "u":
            flat[k] = -120
    layout = case["layout"]
    if layout == "fortran":
        a = np.asfortranarray(a)
    elif layout == "strided" and a.ndim:
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for n in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for n in a.shape)]
    elif layout == "reversed" and a.ndim:
        a = a[::-1].copy()[::-1]
    elif layout == "read-only":
        a.flags.writeable = False
    return a


def check_array(case, ctx):
    a = make_array(case)
    good = isinstance(a, np.ndarray)
    before = a.copy() if good else a
    kw, lower, upper, kinds = restrictions(case)
    bounded = case["lower"] is not None or case["upper"] is not None
    if case["exclusive"] is not None:
        kw["exclusive"] = case["exclusive"]
    if case["asked"] is not None:
        kw["dtype"] = case["asked"]
    if case["dimensions"] is not None:
        kw["num_dimensions"] = case["dimensions"]
    exclusive = bool(case["exclusive"])
    undecided = False
    if case["faulty"] is not None:
        kw[case["faulty"]] = {"exclusive": 1, "dtype": np.float64,
                              "num_dimensions": 1.0}[case["faulty"]]
        if case["faulty"] == "exclusive" and not bounded:
            undecided = True        # never used
        kinds.add(TypeError)
    if not good:
        kinds.add(TypeError)
    else:
        if bounded and TypeError not in kinds:
            ok = [inside(v, lower, upper, exclusive) for v in a.reshape(-1)]
            if not all(v is not False for v in ok):
                kinds.add(ValueError)
            elif any(v is None for v in ok):
                undecided = True
        elif bounded:
            kinds.add(ValueError)
        if (case["dimensions"] is not None
                and case["faulty"] != "num_dimensions"
                and case["dimensions"] != a.ndim):
            kinds.add(InvalidDimensionsError)
        if (case["asked"] is not None and case["faulty"] != "dtype"
                and case["asked"] != str(a.dtype)):
            kinds.add(TypeError)
    accepted = None if undecided else not kinds
    done = decide(kinds, accepted, a, validate.array, a, "values", **kw)
    if good:
        require(same(a, before), "validation modified the array")
    ctx.nontrivial(good and a.size > 1 and any(
        case[n] is not None and not isinstance(case[n][1], str)
        and case[n][0] not in WRONG for n in ("lower", "upper")))
    ctx.label("accepted" if done else "rejected")
    for k in kinds:
        ctx.label(k.__name__)


@st.composite
def strategy_shapes(draw):
    n = draw(st.sampled_from([2, 3, 3, 4, 5, 0, 1]))
    shape = draw(st.sampled_from(SHAPES))
    shapes = [shape] * n
    odd = draw(st.integers(0, 2))
    if n and odd:
        shapes = list(shapes)
        for _ in range(odd):
            other = draw(st.one_of(
                st.sampled_from(SHAPES),
                st.sampled_from([shape[::-1], shape + [1], [1] + shape,
                                 shape[:-1], [int(np.prod(shape))],
                                 shape[:1] * len(shape)])))
            shapes[draw(st.integers(0, n - 1))] = other
    return dict(shapes=shapes, wrong=draw(st.none() | st.tuples(
        st.integers(0, 4), st.sampled_from(sorted(
            set(WRONG) - {"array", "0-d"}))).map(list)) if draw(
        st.integers(0, 3)) == 0 else None,
        names=n + draw(st.sampled_from([0, 0, 0, 0, 0, 1, -1])),
        dtypes=draw(st.lists(st.sampled_from(["float64", "int64", "bool"]),
                             min_size=n, max_size=n)))


def check_shapes(case, ctx):
    arrays = [np.ones(s, d) for s, d in zip(case["shapes"], case["dtypes"])]
    kinds = set()
    if case["wrong"] is not None and case["wrong"][0] < len(arrays):
        k, name = case["wrong"]
        arrays[k] = WRONG[name]
        kinds.add(TypeError)
        if k == 0:
            kinds.add(AttributeError)
    n = max(0, case["names"])
    if len(arrays) < 2 or len(arrays) != n:
        kinds.add(AttributeError)
    good = [a for a in arrays if isinstance(a, np.ndarray)]
    if len({a.shape for a in good}) > 1:
        kinds.add(InvalidShapeError)
    before = [a.copy() for a in good]
    # the first of several faults decides; what is compared after a faulty
    # list is open
    listed = list(arrays)
    try:
        got = validate.same_shape_arrays(listed, [f"a{k}" for k in range(n)])
    except Exception as ex:
        require(bool(kinds), lambda: f"arrays of shapes {case['shapes']} are "
                f"rejected: {ex!r}")
        require(isinstance(ex, tuple(kinds)), lambda: f"{type(ex).__name__} "
                f"({ex}) instead of {[k.__name__ for k in kinds]}")
        ctx.label("rejected")
    else:
        require(not kinds, lambda: f"arrays of shapes {case['shapes']} with "
                f"{n} names and {case['wrong']} are accepted")
        require(got is None, "a value is returned")
        ctx.label("accepted")
    require(len(listed) == len(arrays) and all(
        a is b for a, b in zip(listed, arrays)) and all(
        same(a, b) for a, b in zip(good, before)), "the list was modified")
    ctx.nontrivial(len(arrays) > 2)


class Text(str):
    pass


class Inner(Ring):
    pass


CLASSES = {"int": int, "float": float, "str": str, "list": list,
           "ndarray": np.ndarray, "ring": Ring, "bool": bool}
OBJECTS = dict(WRONG, true=True, false=False, text2="", name=np.str_("a"),
               sub=Text("b"), number=3, real=2.5, float64=np.float64(1.0),
               inner=Inner(1, 2, 0.5, 0, 0), zero=0, empty=[])


def cases_types():
    for fn in ["boolean", "string"] + sorted(CLASSES):
        for name in sorted(OBJECTS):
            yield dict(fn=fn, object=name)


def strategy_types():
    return st.sampled_from(list(cases_types()))


def check_types(case, ctx):
    value = OBJECTS[case["object"]]
    fn = case["fn"]
    kind = {"boolean": bool, "string": str}.get(fn) or CLASSES[fn]
    accepted = kind in type(value).__mro__
    if fn in ("boolean", "string"):
        decide([TypeError], accepted, value, getattr(validate, fn), value,
               "value")
    else:
        decide([TypeError], accepted, value, validate.class_object, value,
               "value", kind, fn)
    ctx.label("accepted" if accepted else "rejected")


SUBS = [Sub("number", strategy_number, check_number, 3000, 60000),
        Sub("array", strategy_array, check_array, 3000, 60000),
        Sub("large", strategy_large, check_array, 300, 6000),
        Sub("shapes", strategy_shapes, check_shapes, 1200, 20000),
        Sub("types", strategy_types, check_types, 1, 1,
            enumerate_cases=cases_types)]
