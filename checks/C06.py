"""C06: element-wise operations denote the same physical quantity as on physical operands, or are refused."""

import itertools
import operator
import warnings

import numpy as np
import unyt

from swiftsimio.objects import cosmo_array
from mc.cosmo import Op, close, label, same_quantity

META = dict(
    level="model_checking",
    explanation="Every ufunc the arrays support is run on every combination of operands from a catalogue (frame x unit x "
    "exponent x convertibility x array/scalar x plain/unyt), by call, operator, reflected and in-place operator, out=, "
    "reduce, accumulate and outer; each result is interpreted through its labels in both frames and compared with the "
    "same numpy function of plain unyt operands converted by hand.",
    assumptions=["unyt's own unit handling is trusted (it is the oracle within one frame)",
                 "for functions that are not homogeneous (floor, exp, ...) the claim is about numbers in the frame of the label"],
)

ARR = np.array([1.0, 4.0, 9.0])
ARR2 = np.array([2.0, 0.5, 3.0])


def catalogue(thorough):
    c = []
    for exp, unit in ((1, "Mpc"), (1, "kpc"), (2, "Mpc"), (0, "Msun"), (0, ""), (1, ""), (-3, "Msun/Mpc**3")) if thorough else \
            ((1, "Mpc"), (1, "kpc"), (2, "Mpc"), (0, ""), (1, "")):
        for frame, vt in ((True, True), (False, True), (False, False)):
            for v in (ARR, np.array(3.0)):
                c.append(Op(v, unit, frame=frame, exp=exp, vt=vt))
    for v in (ARR, np.array(3.0)):
        c.append(Op(v, "Mpc", frame=True, exp=1, a=0.25))  # other scale factor
        c.append(Op(v, "Mpc", frame=None, exp=1))
        c.append(Op(v, "Mpc", frame=False, vt=False, null=True))
        c.append(Op(v, "", frame=None, null=True))
        c.append(Op(v, "Mpc", kind="unyt"))
        c.append(Op(v, "", kind="unyt"))
        c.append(Op(v, kind="plain"))
    c.append(Op(0.0, kind="plain"))
    c.append(Op(2.0, kind="plain"))
    # comparing with zero alone is meaningful without a factor: an array of zeros, and arrays with some
    for v in (ARR * 0, np.array([0.0, 0.0, 2.0]), np.array([0.5, 0.0, 9.0])):
        c.append(Op(v, kind="plain"))
        c.append(Op(v, "", kind="unyt"))
    # at a=1 frames coincide but exponents still differ
    c.append(Op(ARR, "Mpc", frame=True, exp=1, a=1.0))
    c.append(Op(ARR, "Mpc", frame=False, exp=2, a=1.0))
    c.append(Op(ARR, "Mpc", frame=True, exp=1, comp="DScale"))
    # and near one they nearly do
    for v in (ARR, np.array(3.0)):
        c.append(Op(v, "", frame=True, exp=1, a=1 - 2.0**-10))
        c.append(Op(v, "Mpc", frame=True, exp=1, a=1 - 2.0**-10))
    return c


def second(op):
    """same operand with other numbers, for the right-hand side"""
    v = op.vals if not op.vals.all() else ARR2 if op.vals.ndim else (op.vals if op.kind == "plain" else np.array(5.0))
    return Op(v, op.unit, op.kind, op.frame, op.exp, op.a, op.vt, op.comp, op.null)


PRESERVE = ["add", "subtract", "remainder", "fmod", "maximum", "minimum", "fmax", "fmin", "hypot", "arctan2"]
COMPARE = ["greater", "greater_equal", "less", "less_equal", "equal", "not_equal"]
PRODUCT = ["multiply", "divide", "true_divide"]
LOCAL2 = ["floor_divide", "logaddexp", "logaddexp2", "nextafter"]
LOGICAL = ["logical_and", "logical_or", "logical_xor"]
OTHER2 = ["power", "copysign", "heaviside", "matmul", "vecdot", "divmod"]
BINARY = PRESERVE + COMPARE + PRODUCT + LOCAL2 + LOGICAL + OTHER2
HOMOG1 = ["negative", "absolute", "fabs", "conj", "sqrt", "square", "cbrt", "reciprocal", "positive", "sign", "isreal",
          "iscomplex", "isfinite", "isinf", "isnan", "signbit", "logical_not"]
LOCAL1 = ["rint", "exp", "exp2", "log", "log2", "log10", "expm1", "log1p", "sin", "cos", "tan", "sinh", "cosh", "tanh",
          "arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh", "deg2rad", "rad2deg", "modf", "frexp", "floor",
          "ceil", "trunc", "spacing"]
EXACT_LABEL = set(PRESERVE + PRODUCT + ["power", "copysign", "heaviside", "matmul", "vecdot"] + HOMOG1) - {"arctan2"}


def uf(name):
    return getattr(np, name) if hasattr(np, name) else getattr(np._core.umath, name)


def run_real(fn, args):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            try:
                r, err = fn(*args), None
            except Exception as e:  # noqa: BLE001
                r, err = None, e
    mixed = any(issubclass(x.category, RuntimeWarning) and "cosmo_factor" in str(x.message) for x in w)
    return r, err, mixed


_memo = {}


def oracle(key, fn, ops, G):
    k = (key, tuple((o.values_in(G).tobytes(), o.vals.shape, o.kind == "plain", o.unit) for o in ops))
    if k not in _memo:
        if len(_memo) > 50000:
            _memo.clear()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    _memo[k] = (fn(*[o.inframe(G) for o in ops]), None)
                except Exception as e:  # noqa: BLE001
                    _memo[k] = (None, e)
    return _memo[k]


def pairs(r, e):
    if isinstance(e, tuple):
        if not isinstance(r, tuple) or len(r) != len(e):
            return None
        return list(zip(r, e))
    return [(r, e)]


def judge(ctx, name, method, fn, ops, kind, snapshot=True):
    """kind: 'homog' (commutes with frame changes), 'local' (numbers in the label's frame), 'preserve', 'compare'."""
    case = dict(function=name, how=method, operands=[repr(o) for o in ops])
    key = f"{name}.{method}:{'*'.join(o.tag for o in ops)}"
    args = [o.make() for o in ops]
    before = [repr(np.asarray(x).tolist()) + str(getattr(x, "units", "")) + str(getattr(x, "comoving", "")) for x in args]
    r, err, mixed = run_real(fn, args)
    ctx.step()
    cos = [o for o in ops if o.kind == "cosmo"]
    known = [o for o in cos if o.frame is not None]
    frames = {o.frame for o in known}
    ctx.state(name, method, tuple(o.tag for o in ops), tuple((o.unit, o.exp, o.a) for o in cos), err is None)
    if err is None or snapshot:
        after = [repr(np.asarray(x).tolist()) + str(getattr(x, "units", "")) + str(getattr(x, "comoving", "")) for x in args]
        if snapshot and after != before:
            ctx.fail(f"operand-changed:{key}", f"{case}: {before} -> {after}", case)
    # what the operation must not refuse: a meaningful combination
    if len(frames) == 1:
        cand = list(frames)
    elif not frames:
        cand = [None]
    else:
        cand = [g for g in (True, False) if all(o.can(g) for o in ops)]
    exps = {o.exp_() for o in cos}
    same_a = len({o.a for i, o in enumerate(cos) if not o.null and not (name == "power" and i and o.exp == 0)}) <= 1
    plain = [o for o in ops if o.kind != "cosmo"]
    zero = all(not np.any(o.vals) for o in plain)
    homogeneous_ok = same_a and (kind == "homog" and name != "copysign" or len(exps) <= 1) and not (len(exps) > 1 and None in exps)
    if name == "power":
        homogeneous_ok = ops[1].kind == "plain" and ops[1].scalar or ops[1].kind == "cosmo" and ops[1].exp == 0 and ops[1].scalar and same_a
    meaningful = homogeneous_ok and len(known) == len(cos) and all(not o.null for o in cos) and not ((kind in ("preserve", "compare", "local") or name == "copysign") and plain)
    if err is not None:
        ok_somewhere = any(oracle((name, method), fn, ops, g)[1] is None for g in cand)
        if meaningful and ok_somewhere and cand:
            ctx.fail(f"refused:{key}", f"{case}: {type(err).__name__}: {err}", case)
        ctx.count("refused")
        return
    ctx.count("accepted")
    if not cand:
        ctx.fail(f"accepted-inconvertible:{key}", f"{case}: gave {r!r}", case)
        return
    res = r if isinstance(r, tuple) else (r,)
    # refuse or warn for meaningless combinations
    if not mixed and kind in ("preserve", "compare") and cos:
        if not same_a or len(exps) > 1:
            fr_equal = name in ("equal", "not_equal") and oracle((name, method), fn, ops, cand[0])[1] is None and \
                len({str(unyt.Unit(o.unit or "").dimensions) for o in ops}) > 1
            if not fr_equal:
                ctx.fail(f"accepted-different-factors:{key}", f"{case}: gave {r!r}", case)
                return
        if plain and not zero and not (len(ops) == 2 and name in ("equal", "not_equal") and False):
            ctx.fail(f"silent-mix-with-plain:{key}", f"{case}: gave {r!r}", case)
            return
    if not same_a and kind != "local" and not mixed:
        ctx.fail(f"accepted-different-scale-factors:{key}", f"{case}: gave {r!r}", case)
        return
    labelled = [x for x in res if isinstance(x, cosmo_array)]
    if cos and not labelled:
        # bare result: must be the numbers in (one of) the frames operands can be in
        good = False
        for g in cand:
            e, eerr = oracle((name, method), fn, ops, g)
            if eerr is None:
                pr = pairs(r, e)
                good |= pr is not None and all(same_quantity(x, y) for x, y in pr)
        ctx.check(good, f"bare-value:{key}", lambda: f"{case}: gave {r!r}, want {oracle((name, method), fn, ops, cand[0])[0]!r}", case)
        e, _ = oracle((name, method), fn, ops, cand[0])
        if good and any(hasattr(y, "units") and not y.units.is_dimensionless for y in (e if isinstance(e, tuple) else (e,))):
            ctx.fail(f"label-lost:{key}", f"{case}: gave {r!r}", case)
        return
    if not cos:
        return
    for i, x in enumerate(res):
        if not isinstance(x, cosmo_array):
            e0 = oracle((name, method), fn, ops, cand[0])[0]
            e0 = e0[i] if isinstance(e0, tuple) else e0
            ctx.check(not hasattr(e0, "units") and same_quantity(x, e0), f"bare-value:{key}", f"{case}: gave {r!r}", case)
            continue
        F, e_res, a_res = label(x)
        if e_res == "malformed":
            ctx.fail(f"malformed-factor:{key}", f"{case}: gave {x.cosmo_factor!r}", case)
            continue
        if F is not None and F not in cand:
            ctx.fail(f"wrong-frame:{key}", f"{case}: labelled {F}", case)
            continue
        if F is None and frames:
            ctx.fail(f"frame-lost:{key}", f"{case}: gave {x!r}", case)
            continue
        ctx.check(x.compression is None or isinstance(x.compression, str), f"compression:{key}", lambda: f"{case}: {x.compression!r}", case)
        vt_want = all(o.vt if o.kind == "cosmo" and o.frame is not None else o.kind != "cosmo" for o in ops)
        ctx.check(bool(x.valid_transform) == vt_want, f"valid-transform:{key}", lambda: f"{case}: {x.valid_transform}", case)
        for g in ((F,) if kind == "local" or mixed else (True, False) if frames else (None,)):
            if not all(o.can(g) for o in ops):
                continue
            e, eerr = oracle((name, method), fn, ops, g)
            if eerr is not None:
                ctx.fail(f"accepted-units:{key}", f"{case}: gave {x!r}, plain units refuse: {eerr}", case)
                break
            e = e[i] if isinstance(e, tuple) else e
            if g is F or g is None:
                f = 1.0
            elif e_res is None or a_res is None:
                if name in EXACT_LABEL:
                    ctx.fail(f"factor-lost:{key}", f"{case}: gave {x!r}", case)
                    break
                f = 1.0
            else:
                f = float(a_res) ** e_res if g is False else float(a_res) ** -e_res
            if not same_quantity(x, e, f):
                ctx.fail(f"value:{key}", f"{case}: gave {x!r}; in frame {g} expected {e!r}", case)
                break
        # the label must scale: exponent as for the units (only decidable when a != 1 above; here at a == 1)
        if name in EXACT_LABEL and kind == "preserve" and not mixed and exps and None not in exps:
            ctx.check(e_res is not None and np.isclose(e_res, list(exps)[0]), f"exponent:{key}", lambda: f"{case}: {x!r}", case)
        if name in PRODUCT and method in ("call", "operator") and not mixed and cos and None not in exps:
            want = sum((1 if j == 0 or name == "multiply" else -1) * o.exp for j, o in enumerate(ops) if o.kind == "cosmo")
            ctx.check(e_res is not None and np.isclose(e_res, want), f"exponent:{key}", lambda: f"{case}: {x!r} want a^{want}", case)
    ctx.trace()


def kind_of(name):
    if name in PRESERVE:
        return "preserve"
    if name in COMPARE:
        return "compare"
    if name in LOCAL2 or name in LOCAL1 or name in LOGICAL or name in ("divmod", "heaviside"):
        return "local"
    return "homog"


OPERATORS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv,
             "remainder": operator.mod, "floor_divide": operator.floordiv, "power": operator.pow, "divmod": divmod,
             "greater": operator.gt, "less_equal": operator.le, "equal": operator.eq, "not_equal": operator.ne,
             "matmul": operator.matmul}
INPLACE = {"add": operator.iadd, "subtract": operator.isub, "multiply": operator.imul, "true_divide": operator.itruediv,
           "remainder": operator.imod, "power": operator.ipow, "floor_divide": operator.ifloordiv}


def binary(ctx, item):
    name, method = item
    cat = catalogue(ctx.thorough)
    base = OPERATORS[name] if method == "operator" else INPLACE[name] if method == "inplace" else uf(name)
    for o1, o2_ in itertools.product(cat, cat):
        o2 = second(o2_)
        if o1.kind != "cosmo" and o2.kind != "cosmo":
            continue
        if name in ("matmul", "vecdot") and (o1.scalar or o2.scalar):
            continue
        if method == "call":
            judge(ctx, name, method, base, [o1, o2], kind_of(name))
        elif method == "operator":
            judge(ctx, name, method, base, [o1, o2], kind_of(name))
        elif method == "inplace":
            if o1.kind != "cosmo" or o1.scalar:
                continue

            def fn(x, y, b=base):
                z = x.copy()
                z = b(z, y)
                return z

            judge(ctx, name, method, fn, [o1, o2], kind_of(name))
        elif method == "outer":
            if o1.scalar or o2.scalar:
                continue
            judge(ctx, name, method, base.outer, [o1, o2], kind_of(name))
        elif method == "out":
            if o1.scalar and o2.scalar:
                continue
            for ofr, oexp in ((True, 1), (False, 2)):
                def fn(x, y, b=base, ofr=ofr, oexp=oexp):
                    if isinstance(x, cosmo_array) or isinstance(y, cosmo_array):
                        out = Op(ARR * 0 + 7, "kpc", frame=ofr, exp=oexp, comp="X").make()
                    else:
                        out = unyt.unyt_array(ARR * 0 + 7, "kpc")
                    r = b(x, y, out=out)
                    return out

                judge(ctx, name, f"out{ofr}", fn, [o1, o2], kind_of(name))


def unary(ctx, item):
    name, _ = item
    kind = "homog" if name in HOMOG1 else "local"
    f = uf(name)
    for o in catalogue(ctx.thorough):
        if o.kind != "cosmo":
            continue
        judge(ctx, name, "call", f, [o], kind)
        if not o.scalar:
            for neg in (Op(-o.vals, o.unit, o.kind, o.frame, o.exp, o.a, o.vt, o.comp, o.null),
                        Op(o.vals.reshape(3, 1), o.unit, o.kind, o.frame, o.exp, o.a, o.vt, o.comp, o.null)):
                judge(ctx, name, "call", f, [neg], kind)
    ops = {"negative": operator.neg, "absolute": operator.abs, "positive": operator.pos}
    if name in ops:
        for o in catalogue(ctx.thorough):
            if o.kind == "cosmo":
                judge(ctx, name, "operator", ops[name], [o], kind)


def reductions(ctx, item):
    name, _ = item
    f = uf(name)
    kind = {"multiply": "homog", "logical_and": "local", "logical_or": "local"}.get(name, "preserve")
    M = np.array([[1.0, 4.0], [9.0, 2.0], [3.0, 0.5]])
    for o in catalogue(ctx.thorough):
        if o.kind != "cosmo" or o.scalar:
            continue
        for shaped in (o.vals, M):
            q = Op(shaped, o.unit, o.kind, o.frame, o.exp, o.a, o.vt, o.comp, o.null)
            axes = (None, 0) if shaped.ndim == 1 else (None, 0, 1, -1, (0, 1))
            for ax in axes:
                for kd in (False, True):
                    judge(ctx, name, f"reduce(axis={ax},keepdims={kd})", lambda x, ax=ax, kd=kd: f.reduce(x, axis=ax, keepdims=kd), [q], kind)
            if name not in ("logical_and", "logical_or"):
                if name == "multiply" and shaped.ndim == 2:
                    continue  # unyt itself counts all elements here (it assumes axis=None)
                judge(ctx, name, "reduce()", lambda x: f.reduce(x), [q], kind)
            if name in ("add", "maximum", "minimum"):
                judge(ctx, name, "accumulate", lambda x: f.accumulate(x), [q], kind)
                judge(ctx, name, "reduceat", lambda x: f.reduceat(x, [0, 1]), [q], kind)


def setitem(ctx, item):
    """Assignment into an array: the stored element denotes the assigned quantity, or the assignment is refused."""
    cat = catalogue(ctx.thorough)
    for o1, o2 in itertools.product([c for c in cat if c.kind == "cosmo" and not c.scalar], [second(c) for c in cat]):
        if o2.kind != "cosmo":
            continue
        for how in ("element", "slice", "mask"):
            src = o2
            if how in ("element",) and not o2.scalar:
                continue
            def fn(x, y, how=how):
                x = x.copy()
                if how == "element":
                    x[1] = y
                elif how == "slice":
                    x[:] = y
                else:
                    x[np.array([True, True, True])] = y
                return x

            args = [o1.make(), src.make()]
            r, err, mixed = run_real(fn, args)
            ctx.step()
            ctx.state("setitem", how, o1.tag, o2.tag, o1.exp, o2.exp, o1.unit, o2.unit)
            case = dict(function="setitem", how=how, operands=[repr(o1), repr(o2)])
            key = f"setitem.{how}:{o1.tag}*{o2.tag}"
            if err is not None or mixed:
                continue
            ctx.trace()
            if unyt.Unit(o1.unit or "").dimensions != unyt.Unit(o2.unit or "").dimensions:
                # dimensionless values into an array with units are taken as plain numbers by unyt
                continue
            if o1.frame is None or o2.frame is None or o1.null or o2.null:
                continue
            if o1.exp != o2.exp or o1.a != o2.a:
                ctx.fail(f"accepted-different-factors:{key}", f"{case}: {r!r}", case)
                continue
            F, e_res, a_res = label(r)
            if not o2.can(F):
                ctx.fail(f"accepted-inconvertible:{key}", f"{case}: {r!r}", case)
                continue
            want = o1.values_in(F).copy()
            conv = float((1.0 * unyt.Unit(o2.unit or "")).to_value(unyt.Unit(o1.unit or "")))
            if how == "element":
                want[1] = o2.values_in(F) * conv
            else:
                want[:] = o2.values_in(F) * conv
            ctx.check(F == o1.frame and close(np.asarray(r), want), f"value:{key}", lambda: f"{case}: {r!r} want {want}", case)


DISPATCH = {"binary": binary, "unary": unary, "reductions": reductions, "setitem": setitem}


def work(ctx, item):
    with ctx.guard(item):
        DISPATCH[item[0]](ctx, item[1:])


def run(ctx):
    items = []
    for n in BINARY:
        items.append(("binary", n, "call"))
        if n in OPERATORS:
            items.append(("binary", n, "operator"))
        if n in INPLACE:
            items.append(("binary", n, "inplace"))
        if n not in ("matmul", "vecdot", "divmod", "power"):
            items.append(("binary", n, "outer"))
        if n not in ("matmul", "vecdot", "divmod") and n not in COMPARE + LOGICAL:
            items.append(("binary", n, "out"))
    items += [("unary", n, "") for n in HOMOG1 + LOCAL1]
    items += [("reductions", n, "") for n in ("add", "multiply", "maximum", "minimum", "fmax", "fmin", "hypot", "logical_and", "logical_or")]
    items.append(("setitem", "", ""))
    # every ufunc in the supported registry is exercised
    names = set(BINARY + HOMOG1 + LOCAL1)
    for f in getattr(cosmo_array, "_cosmo_factor_ufunc_registry", ()):
        if f.__name__ not in names and f.__name__ not in ("clip", "_ones_like", "ones_like", "arctan2", "isnat", "conjugate"):
            ctx.count("ufunc-not-covered:" + f.__name__)
    ctx.pmap(work, items)
    ctx.sample(dict(operand_catalogue=[repr(o) for o in catalogue(ctx.thorough)][:12]))
