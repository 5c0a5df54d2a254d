"""C10: construction gives a consistent quantity denoting what was asked for, or refuses; the input is never altered."""

import itertools
import warnings

import numpy as np
import unyt

from swiftsimio.objects import NULL_CF, cosmo_array, cosmo_factor, cosmo_quantity
from mc.cosmo import close, label

META = dict(
    level="model_checking",
    explanation="The full product of input kinds x class x unit x comoving x valid_transform x cosmo_factor forms x dtype x compression "
    "is constructed; the result (or the refusal) is judged against the meanings the arguments allow, computed from the plain description of the "
    "input, and the input is compared byte for byte and label for label before and after.",
    assumptions=["a unit argument given with data that already has a unit may convert or, as in unyt, relabel unyt data and scalars",
                 "sequences nested more than one level are documented as unsupported and not part of the menu"],
)
A = 0.5
CF1, CF2 = (1, A), (2, A)


class Item:
    """plain description of one datum: numbers, unit or None, frame, factor (exp, a) or None; cosmo tells the class"""

    def __init__(self, v, unit=None, cosmo=False, frame=None, cf=None, vt=True, comp=None):
        self.v, self.unit, self.cosmo, self.frame, self.cf, self.comp = np.asarray(v), unit, cosmo, frame, cf, comp
        self.vt = (vt if frame is not None else False) if cosmo else True

    def make(self):
        if self.cosmo:
            kw = {} if self.cf is None else dict(scale_exponent=self.cf[0], scale_factor=self.cf[1])
            cls, v = (cosmo_quantity, self.v.item()) if self.v.ndim == 0 else (cosmo_array, self.v.copy())
            return cls(v, unyt.Unit(self.unit), comoving=self.frame, valid_transform=self.vt, compression=self.comp, **kw)
        if self.unit is not None:
            return unyt.unyt_quantity(self.v.item(), self.unit) if self.v.ndim == 0 else unyt.unyt_array(self.v.copy(), self.unit)
        return self.v.item() if self.v.ndim == 0 else self.v.copy()


def q(v, frame=True, exp=1, a=A, **kw):
    return Item(v, "Mpc", True, frame, (exp, a), **kw)


def kinds():
    V = np.array([1.0, 2.0])
    out = {}

    def one(name, item):
        out[name] = ([item], item.make, "one")

    one("float", Item(3.0))
    one("int", Item(3))
    one("f8", Item(V))
    one("i8", Item(V.astype("i8")))
    one("f4", Item(V.astype("f4")))
    one("empty", Item(np.zeros(0)))
    one("matrix", Item(np.arange(4.0).reshape(2, 2)))
    out["numpy scalar"] = ([Item(3.0)], lambda: np.float64(3.0), "one")
    out["0-d array"] = ([Item(3.0)], lambda: np.array(3.0), "one")
    out["list"] = ([Item(V)], lambda: [1.0, 2.0], "one")
    out["tuple"] = ([Item(V.astype(int))], lambda: (1, 2), "one")
    out["nested list"] = ([Item(np.arange(4.0).reshape(2, 2))], lambda: [[0.0, 1.0], [2.0, 3.0]], "one")
    out["empty list"] = ([Item(np.zeros(0))], lambda: [], "one")
    out["None"] = ([], lambda: None, "bad")
    out["object"] = ([], object, "bad")
    one("unyt array", Item(V, "Mpc"))
    one("unyt quantity", Item(3.0, "Mpc"))
    for nm, fr, vt in (("co", True, True), ("ph", False, True), ("ph!", False, False), ("no", None, True)):
        one(f"{nm} array", Item(V, "Mpc", True, fr, CF1, vt, "D"))
        one(f"{nm} quantity", Item(3.0, "Mpc", True, fr, CF1, vt, "D"))
        one(f"{nm} array no factor", Item(V, "Mpc", True, fr, None, vt))
    one("co array exp 0", Item(V, "Mpc", True, True, (0, A)))
    one("co int array", Item(V.astype(int), "Mpc", True, True, CF1))

    def seq(name, *items, wrap=list):
        out[name] = (list(items), lambda: wrap([i.make() for i in items]), "seq")

    def objarr(x):
        r = np.empty(len(x), dtype=object)
        r[:] = x
        return r

    seq("unyt quantities", Item(1.0, "Mpc"), Item(2.0, "Mpc"))
    seq("unyt quantities mixed", Item(1.0, "Mpc"), Item(2.0, "kpc"))
    seq("unyt arrays", Item(V, "Mpc"), Item(V + 3, "Mpc"))
    seq("co quantities", q(1.0), q(2.0))
    seq("co quantities tuple", q(1.0), q(2.0), wrap=tuple)
    seq("co quantities object", q(1.0), q(2.0), wrap=objarr)
    seq("co/ph object", q(1.0), q(2.0, False), wrap=objarr)
    seq("ph quantities", q(1.0, False), q(2.0, False))
    seq("ph! quantities", q(1.0, False, vt=False), q(2.0, False, vt=False))
    seq("no quantities", q(1.0, None), q(2.0, None))
    seq("co/ph", q(1.0), q(2.0, False))
    seq("ph/co", q(1.0, False), q(2.0))
    seq("ph!/co", q(1.0, False, vt=False), q(2.0))
    seq("co/no", q(1.0), q(2.0, None))
    seq("different exponents", q(1.0), q(2.0, exp=2))
    seq("different a", q(1.0), q(2.0, a=0.25))
    seq("co/no factor", q(1.0), Item(2.0, "Mpc", True, True, None))
    seq("no factors", Item(1.0, "Mpc", True, True, None), Item(2.0, "Mpc", True, True, None))
    seq("co/unyt", q(1.0), Item(2.0, "Mpc"))
    seq("co/plain", q(1.0), Item(2.0))
    seq("co units mixed", q(1.0), Item(2.0, "kpc", True, True, CF1))
    seq("co arrays", Item(V, "Mpc", True, True, CF1), Item(V + 3, "Mpc", True, True, CF1))
    seq("co/ph arrays", Item(V, "Mpc", True, True, CF1, comp="D"), Item(V + 3, "Mpc", True, False, CF1, comp="D"))
    seq("one co", q(5.0))
    seq("compressions differ", q(1.0, comp="D"), q(2.0, comp="E"))
    return out


NONE = "omitted"
FACTORS = {  # form -> (kwargs, factor meant, consistent)
    NONE: ({}, None, True),
    "cf": (dict(cosmo_factor=cosmo_factor.create(A, 1)), CF1, True),
    "cf2": (dict(cosmo_factor=cosmo_factor.create(A, 2)), CF2, True),
    "pair": (dict(scale_factor=A, scale_exponent=1), CF1, True),
    "pair2": (dict(scale_factor=0.25, scale_exponent=1), (1, 0.25), True),
    "only a": (dict(scale_factor=A), None, False),
    "only exponent": (dict(scale_exponent=1), None, False),
    "cf+pair": (dict(cosmo_factor=cosmo_factor.create(A, 1), scale_factor=A, scale_exponent=1), CF1, True),
    "cf+other pair": (dict(cosmo_factor=cosmo_factor.create(A, 1), scale_factor=A, scale_exponent=2), None, False),
    "cf+other a": (dict(cosmo_factor=cosmo_factor.create(A, 1), scale_factor=0.25, scale_exponent=1), None, False),
    "cf+only a": (dict(cosmo_factor=cosmo_factor.create(A, 1), scale_factor=A), None, False),
}


def snap(x):
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [snap(y) for y in x]
    if isinstance(x, np.ndarray):
        return (x.dtype.str, np.asarray(x).tobytes(), str(getattr(x, "units", "")), getattr(x, "comoving", None), getattr(x, "valid_transform", None),
                repr(getattr(x, "cosmo_factor", None)), getattr(x, "compression", None), str(type(x)))
    return repr(x) if not type(x) is object else "object"


def ufac(u0, u1):
    return float(unyt.Unit(u0).base_value) / float(unyt.Unit(u1).base_value)


def judge(ctx, kname, kind, cls, units, comoving, vt, fform, dtype, comp):
    items, mk, shape = kind
    fkw, cf, okf = FACTORS[fform]
    kw = dict(fkw)
    if units != NONE:
        kw["units"] = units
    if comoving is not None:
        kw["comoving"] = comoving
    if vt is not None:
        kw["valid_transform"] = vt
    if dtype is not None:
        kw["dtype"] = dtype
    if comp is not None:
        kw["compression"] = comp
    desc = {k: str(v) for k, v in kw.items()}
    case = dict(input=kname, cls=cls.__name__, arguments=desc)
    key = f"{cls.__name__}({kname}):{','.join(sorted(k if k != 'comoving' else f'comoving={v}' for k, v in desc.items()))}"
    x = mk()
    before = snap(x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r, err = cls(x, **kw), None
        except Exception as e:  # noqa: BLE001
            r, err = None, e
    ctx.step()
    ctx.check(snap(x) == before, f"input-altered:{key}", lambda: f"{case}: input now {x!r}", case)

    # ---- what the arguments allow ---------------------------------------------------------------
    cos = [i for i in items if i.cosmo]
    must_refuse, may_refuse = [], []
    if shape == "bad":
        must_refuse.append("not data")
    if not okf:
        must_refuse.append("contradictory or incomplete factor arguments")
    scalar_in = shape == "one" and items and items[0].v.ndim == 0
    if cls is cosmo_array and scalar_in and kname in ("float", "int"):
        must_refuse.append("scalar for an array")
    if cls is cosmo_array and scalar_in:
        may_refuse.append("scalar for an array")
    if cls is cosmo_quantity and (kname in ("list", "tuple", "nested list", "empty list") or shape == "seq" and not kname.endswith("object")):
        may_refuse.append("sequence for a scalar")
    size = sum(i.v.size for i in items)
    if cls is cosmo_quantity and size > 1:
        must_refuse.append("more than one value for a scalar")
    own = {i.cf for i in cos if i.cf is not None}
    if len(own) > 1:
        must_refuse.append("items scale differently")
    if any(i.cf is None for i in cos):
        may_refuse.append("no factor attached")
    if cf is not None and own and own != {cf}:
        must_refuse.append("contradicts the factor of the input")
    known = {i.frame for i in cos if i.frame is not None}
    nofr = [i for i in cos if i.frame is None]
    if nofr and known:
        must_refuse.append("some items have no state")
    if len(cos) not in (0, len(items)):
        may_refuse.append("mixed with plain data")
    factor = cf if cf is not None else (next(iter(own)) if own else None)
    frames = [comoving] if comoving is not None else [True, False] if len(known) == 2 else list(known) if known else [None]
    # frame changes
    frames_ok = []
    for fr in frames:
        good = True
        for i in cos:
            if i.frame is not None and fr is not None and i.frame is not fr:
                if not i.vt or (i.cf is None and cf is None):
                    good = False
        if fr is True and (vt is False):
            good = False
        if good:
            frames_ok.append(fr)
    if not frames_ok:
        must_refuse.append("no meaningful state")
    if nofr and comoving is not None:
        may_refuse.append("declaring the state of data that has none")
    if vt is True and (any(not i.vt for i in cos) or frames == [None]):
        may_refuse.append("declaring convertible what is not")
    if any(i.unit for i in items) and units != NONE and unyt.Unit(units).dimensions != unyt.Unit("Mpc").dimensions:
        (must_refuse if (cos and cls is cosmo_array) or shape == "seq" else may_refuse).append("unit of another dimension")
    if dtype is not None and shape == "seq":
        may_refuse.append("dtype of a sequence of quantities")
    if vt is False and comoving is None and len(known) == 2:
        may_refuse.append("state left open")

    if err is not None:
        ctx.count("refused")
        if not must_refuse and not may_refuse:
            ctx.fail(f"refused:{key}", f"{case}: {type(err).__name__}: {err}", case)
        return
    ctx.count("built")
    if must_refuse:
        ctx.fail(f"accepted:{must_refuse[0]}:{key}", f"{case}: {must_refuse}; gave {r!r}", case)
        return
    # ---- the object built -------------------------------------------------------------------
    ctx.check(type(r) is cls, f"class:{key}", lambda: f"{case}: {type(r)}", case)
    fr, e, a = label(r)
    if not ctx.check(fr in frames_ok, f"state:{key}", lambda: f"{case}: gave {r!r}, allowed {frames_ok}", case):
        return
    want = (None, None) if factor is None else factor
    ctx.check((e, a) == want, f"factor:{key}", lambda: f"{case}: gave {r!r}, expected {want}", case)
    vin = all(i.vt for i in cos) if cos else True
    wv = [False] if fr is None else [vt] if vt is not None else [vin]
    ctx.check(r.valid_transform in wv and isinstance(r.valid_transform, (bool, np.bool_)), f"valid-transform:{key}", lambda: f"{case}: {r.valid_transform}, expected {wv}", case)
    ctx.check(not (fr is True and not r.valid_transform) and not (fr is None and r.valid_transform), f"inconsistent:{key}", lambda: f"{case}: {r!r}", case)
    comps = {i.comp for i in items}
    wc = comp if comp is not None else (next(iter(comps)) if len(comps) == 1 else None)
    ctx.check(r.compression == wc, f"compression:{key}", lambda: f"{case}: {r.compression!r}, expected {wc!r}", case)
    if dtype is not None and shape == "one":
        ctx.check(r.dtype == np.dtype(dtype), f"dtype:{key}", lambda: f"{case}: {r.dtype}", case)
    # numbers: convert to the state; then either convert or relabel the unit
    def numbers(i, relabel):
        v = np.asarray(i.v, dtype=float)
        if i.cosmo and i.frame is not None and fr is not None and i.frame is not fr:
            f = float(factor[1]) ** factor[0]
            v = v / f if fr else v * f
        u = i.unit if i.unit is not None else None
        if u is None or relabel:
            return v
        return v * ufac(u, str(r.units)) if unyt.Unit(u).dimensions == r.units.dimensions else v * np.nan
    units_in = {i.unit for i in items}
    ru = unyt.Unit(units) if units != NONE else (None if len(units_in) > 1 else unyt.Unit(next(iter(units_in)) or "") if units_in else None)
    if ru is not None:
        if units != NONE or shape != "seq":
            ctx.check(r.units == ru, f"unit:{key}", lambda: f"{case}: {r!r}, expected unit {ru}", case)
    ok = False
    for relabel in (False, True):
        if relabel and not (shape == "one" and (cls is cosmo_quantity or not cos)):
            continue
        w = [numbers(i, relabel) for i in items]
        w = w[0] if shape == "one" else np.array(w)
        ok |= close(np.asarray(r, dtype=float).reshape(w.shape) if np.asarray(r).size == w.size else np.asarray(r), w, 1e-6)
    ctx.check(ok, f"value:{key}", lambda: f"{case}: gave {r!r}", case)
    ctx.state(kname, cls.__name__, units, comoving, vt, fform, dtype, comp)
    ctx.trace()


def other(ctx):
    """from_astropy / from_pint / unit products / bypass_validation"""
    forms = []
    try:
        import astropy.units as au

        forms.append(("from_astropy", lambda v: (v * au.kpc), cosmo_array.from_astropy))
    except ImportError:
        ctx.count("astropy-missing")
    try:
        import pint

        ureg = pint.UnitRegistry()
        forms.append(("from_pint", lambda v: ureg.Quantity(v, "km"), cosmo_array.from_pint))
    except ImportError:
        ctx.count("pint-missing")
    for (name, mk, f), fr, vt, cf, comp in itertools.product(forms, (None, True, False), (None, True, False), (None, CF1), (None, "D")):
        kw = {}
        if fr is not None:
            kw["comoving"] = fr
        if vt is not None:
            kw["valid_transform"] = vt
        if cf is not None:
            kw["cosmo_factor"] = cosmo_factor.create(cf[1], cf[0])
        if comp is not None:
            kw["compression"] = comp
        case = dict(constructor=name, arguments={k: str(v) for k, v in kw.items()})
        key = f"{name}:{sorted(case['arguments'])}"
        x = mk(np.array([1.0, 2.0]))
        ctx.step()
        ctx.state(name, fr, vt, cf, comp)
        try:
            r = f(x, **kw)
        except Exception as e:  # noqa: BLE001
            if not (fr is True and vt is False or fr is None and vt is True):
                ctx.fail(f"refused:{key}", f"{case}: {e!r}", case)
            continue
        lab = label(r)
        ctx.check(lab == (fr, *(cf or (None, None))), f"labels:{key}", lambda: f"{case}: {r!r}", case)
        wv = False if fr is None else vt is not False
        ctx.check(not (fr is True and vt is False) and r.valid_transform is wv, f"valid-transform:{key}", lambda: f"{case}: {r!r}, expected {wv}", case)
        ctx.check(r.compression == comp and close(np.asarray(r), [1.0, 2.0]) and str(r.units) == ("kpc" if name == "from_astropy" else "km"),
                  f"value:{key}", lambda: f"{case}: {r!r} {r.compression}", case)
        ctx.trace()
    for cls, fr, vt, fform in itertools.product((cosmo_array, cosmo_quantity), (None, True, False), (None, True, np.True_), ("omitted", "cf", "pair")):
        fkw, cf, _ = FACTORS[fform]
        v = np.array([1.0, 2.0]) if cls is cosmo_array else 2.0
        kw = dict(fkw, comoving=fr, **({} if vt is None else dict(valid_transform=vt)))
        case = dict(bypass=True, cls=cls.__name__, arguments={k: str(x) for k, x in kw.items()})
        ctx.step()
        ctx.state("bypass", cls.__name__, fr, vt, fform)
        with ctx.guard(case):
            r = cls(v, unyt.Unit("Mpc"), bypass_validation=True, **kw)
            ctx.check(type(r) is cls and label(r) == (fr, *(cf or (None, None))) and close(np.asarray(r), v) and str(r.units) == "Mpc",
                      f"bypass:{cls.__name__}:{fform}", lambda: f"{case}: {r!r}", case)
    # a unit that only a registry of the caller's knows
    reg = unyt.UnitRegistry()
    reg.add("widget", 3.0 * float(unyt.Unit("Mpc").base_value), unyt.dimensions.length)
    mk = lambda v, u="Mpc": Item(v, u, True, True, CF1, True, None).make()
    sources = {"list": ([3.0, 6.0], 1, None), "array": (np.array([3.0, 6.0]), 1, None), "cosmo Mpc": (mk(np.array([3.0, 6.0])), 3, True), "cosmo kpc": (mk(np.array([3.0, 6.0]), "kpc"), 3e3, True),
               "quantities": ([mk(3.0), mk(6.0)], 3, True)}
    for (name, (v, by, fr)), how, com in itertools.product(sources.items(), ("text", "unit"), (None, True, False)):
        case = dict(registry=name, how=how, comoving=com)
        ctx.step()
        ctx.state("registry", name, how, com)
        with ctx.guard(case):
            kw = dict(comoving=com) if com is not None else {}
            if fr is None and com is not None:
                kw.update(scale_factor=A, scale_exponent=1)
            b = snap(v) if isinstance(v, np.ndarray) else None
            r = cosmo_array(v, "widget" if how == "text" else unyt.Unit("widget", registry=reg), registry=reg, **kw)
            k = (A if fr and com is False else 1.0) / by
            ctx.check(str(r.units) == "widget" and close(np.asarray(r), np.array([3.0, 6.0]) * k), f"registry:{name}", lambda: f"{case}: {r!r}", case)
            ctx.check(label(r)[0] is (com if com is not None else fr), f"registry-frame:{name}", lambda: f"{case}: {r!r}", case)
            ctx.check(b is None or snap(v) == b, f"registry-input:{name}", lambda: f"{case}: {v!r}", case)
    # attaching a unit to data that is there already
    for fr, vt, scalar in itertools.product((True, False, None), (True, False), (False, True)):
        if fr is not False and not vt:
            continue
        x = Item(3.0 if scalar else np.array([1.0, 2.0]), "Mpc", True, fr, CF1, vt, "D").make()
        for name, f, p in (("x*unit", lambda x: x * unyt.Unit("g"), 1), ("unit*x", lambda x: unyt.Unit("g") * x, 1), ("x/unit", lambda x: x / unyt.Unit("g"), 1),
                           ("unit/x", lambda x: unyt.Unit("g") / x, -1)):
            case = dict(operation=name, operand=repr(x))
            ctx.step()
            ctx.state(name, fr, vt, scalar)
            b = snap(x)
            with ctx.guard(case):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = f(x)
                ctx.check(label(r) == (fr, p, A) and r.valid_transform == x.valid_transform and isinstance(r, cosmo_quantity) == scalar,
                          f"unit-product:{name}:{'q' if scalar else ''}{fr}{vt}", lambda: f"{case}: {r!r}", case)
                ctx.check(close(np.asarray(r), np.asarray(x) ** p), f"unit-product-value:{name}", lambda: f"{case}: {r!r}", case)
                ctx.check(snap(x) == b, f"unit-product-operand:{name}", lambda: f"{case}: {x!r}", case)


def work(ctx, names):
    K = kinds()
    for n in names:
        if n == "other":
            other(ctx)
            continue
        for cls, units, com, vt, ff, dt, comp in itertools.product((cosmo_array, cosmo_quantity), (NONE, "Mpc", "kpc", unyt.Unit("cm"), "K"), (None, True, False),
                                                                   (None, True, False, np.False_), FACTORS, (None, "f4"), (None, "Z")):
            if not ctx.thorough and dt is not None and comp is not None:
                continue
            if isinstance(vt, np.bool_) and com is not False:
                continue  # read from files, these carry contradictory attributes of the file unchanged
            judge(ctx, n, K[n], cls, units, com, vt, ff, dt, comp)


def run(ctx):
    assert NULL_CF is not None
    names = list(kinds())
    ctx.pmap(work, [[n] for n in names] + [["other"]])
    ctx.sample(dict(inputs=names, factors=list(FACTORS)))
