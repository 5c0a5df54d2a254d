"""C08: conversions between frames and units keep the physical value, copies are independent, refusals change nothing."""

import itertools
import warnings

import numpy as np
import unyt

from swiftsimio.objects import InvalidConversionError, cosmo_array, cosmo_quantity  # noqa: F401
from mc.cosmo import close, label

META = dict(
    level="model_checking",
    explanation="Breadth-first search over the (frame, unit) states of every starting array: every conversion method is applied "
    "in every reachable state and judged against numbers computed by hand from the start; then all sequences of conversions to "
    "the depth bound are run keeping every intermediate object alive and compared with its own model after each step.",
    assumptions=["unyt's conversion factors between units are trusted"],
)

UNITS = {"Mpc": ("Mpc", "kpc", "cm"), "Msun/Mpc**3": ("Msun/Mpc**3", "g/cm**3", "Msun/kpc**3"), "km/s": ("km/s", "m/s", "kpc/Gyr"), "": ("", "percent", "m/km")}
A = 0.5


class Start:
    def __init__(self, kind, unit, frame, exp, a=A, vt=True, null=False, comp=None):
        self.kind, self.unit, self.frame, self.exp, self.a, self.vt, self.null, self.comp = kind, unit, frame, exp, a, vt, null, comp

    def __repr__(self):
        return f"{self.kind} {self.unit or '1'} {dict([(True,'co'),(False,'ph'),(None,'no')])[self.frame]} a^{self.exp} a={self.a}" + \
            ("" if self.vt else " no-transform") + (" no-factor" if self.null else "")

    @property
    def vals(self):
        base = np.array([2.0, -3.0, 5.0])
        return {"array": base, "f4": base.astype("f4"), "int": base.astype("i8"), "strided": np.array([2.0, 9, -3, 9, 5, 9])[::2],
                "quantity": np.array(2.0), "intquantity": np.array(2), "matrix": np.array([[1.0, 2], [3, 4]]), "fortran": np.asfortranarray([[1.0, 2], [3, 4]]),
                "empty": np.zeros(0), "one": np.array([7.0]), "big": base.astype(">f8")}[self.kind]

    def make(self):
        v = self.vals
        cls = cosmo_quantity if v.ndim == 0 else cosmo_array
        if v.ndim == 0:
            v = v.item()
        elif self.kind == "strided":
            v = np.array([2.0, 9, -3, 9, 5, 9])[::2]
        else:
            v = v.copy(order="K")
        kw = {} if self.null else dict(scale_factor=self.a, scale_exponent=self.exp)
        return cls(v, unyt.Unit(self.unit), comoving=self.frame, valid_transform=self.vt if self.frame is not None else False,
                   compression=self.comp, **kw)


def ufac(u0, u1):
    """number in u1 = number in u0 * ufac"""
    return float(unyt.Unit(u0).base_value) / float(unyt.Unit(u1).base_value)


def wrong(unit):
    return "K" if unit != "K" else "g"


def alphabet(unit, small=False):
    """(name, callable, target frame or 'keep', target unit or 'keep', in place?, value only?)"""
    L = []
    us = UNITS[unit][1:2] if small else UNITS[unit]

    def add(*t):
        L.append(t)

    for fr, cap in ((True, "comoving"), (False, "physical")):
        add(f"convert_to_{cap}()", lambda x, c=cap: getattr(x, f"convert_to_{c}")(), fr, "keep", True, False)
        add(f"to_{cap}()", lambda x, c=cap: getattr(x, f"to_{c}")(), fr, "keep", False, False)
        add(f"to(None,comoving={fr})", lambda x, f=fr: x.to(None, comoving=f), fr, "keep", False, False)
        for v in us + ((wrong(unit),)):
            add(f"convert_to_{cap}({v})", lambda x, c=cap, v=v: getattr(x, f"convert_to_{c}")(v), fr, v, True, False)
            add(f"to_{cap}({v})", lambda x, c=cap, v=v: getattr(x, f"to_{c}")(unyt.Unit(v)), fr, v, False, False)
            add(f"to({v},comoving={fr})", lambda x, f=fr, v=v: x.to(v, comoving=f), fr, v, False, False)
            add(f"to_{cap}_value({v})", lambda x, c=cap, v=v: getattr(x, f"to_{c}_value")(v), fr, v, False, True)
            add(f"to_value({v},comoving={fr})", lambda x, f=fr, v=v: x.to_value(v, comoving=f), fr, v, False, True)
    for v in us + ((wrong(unit),)):
        add(f"convert_to_units({v})", lambda x, v=v: x.convert_to_units(v), "keep", v, True, False)
        add(f"to({v})", lambda x, v=v: x.to(v), "keep", v, False, False)
        add(f"in_units({v})", lambda x, v=v: x.in_units(v), "keep", v, False, False)
        add(f"to_value({v})", lambda x, v=v: x.to_value(v), "keep", v, False, True)
    add("to_value()", lambda x: x.to_value(), "keep", "keep", False, True)
    add("in_base()", lambda x: x.in_base(), "keep", "mks", False, False)
    add("in_mks()", lambda x: x.in_mks(), "keep", "mks", False, False)
    add("in_cgs()", lambda x: x.in_cgs(), "keep", "cgs", False, False)
    if not small:
        add("in_base(galactic)", lambda x: x.in_base("galactic"), "keep", "galactic", False, False)
        add("convert_to_base()", lambda x: x.convert_to_base(), "keep", "mks", True, False)
        add("convert_to_cgs()", lambda x: x.convert_to_cgs(), "keep", "cgs", True, False)
        add("convert_to_mks()", lambda x: x.convert_to_mks(), "keep", "mks", True, False)
    return L


class Model:
    """what the object denotes: start numbers, and where it is now"""

    def __init__(self, start, frame=None, unit=None, dtype=None):
        self.s, self.frame, self.unit = start, frame, unit

    @classmethod
    def of(cls, s):
        return cls(s, s.frame, s.unit)

    def after(self, fr, un):
        """new model, or None if it must be refused"""
        frame = self.frame if fr == "keep" else fr
        if frame is not self.frame:
            if self.frame is None or not self.s.vt or self.s.null:
                return None
        if un == "keep":
            unit = self.unit
        elif un in ("mks", "cgs", "galactic"):
            unit = str(unyt.Unit(self.unit).get_base_equivalent(un))
        else:
            unit = un
            if unyt.Unit(un).dimensions != unyt.Unit(self.unit).dimensions:
                return None
        return Model(self.s, frame, unit)

    def numbers(self):
        v = np.asarray(self.s.vals, dtype=float) * ufac(self.s.unit, self.unit)
        if self.frame is not self.s.frame:
            f = float(self.s.a) ** self.s.exp
            v = v * f if self.frame is False else v / f
        return v

    def unit_ok(self, u):
        return u == unyt.Unit(self.unit)

    def key(self):
        return (self.frame, self.unit)


def snap(x):
    return (np.asarray(x).dtype.str, np.asarray(x).tobytes(), str(x.units), x.comoving, x.valid_transform, repr(x.cosmo_factor), x.compression, type(x))


def agrees(ctx, x, m, key, case, rtol):
    s = m.s
    ok = ctx.check(isinstance(x, cosmo_array) and isinstance(x, cosmo_quantity) == (np.asarray(s.vals).ndim == 0), f"class:{key}", lambda: f"{case}: {type(x)}", case)
    if not ok:
        return False
    fr, e, a = label(x)
    ok &= ctx.check(fr is m.frame, f"frame:{key}", lambda: f"{case}: {x!r}, expected frame {m.frame}", case)
    ok &= ctx.check((e, a) == (None, None) if s.null else (e is not None and abs(e - s.exp) < 1e-9 and a == s.a), f"factor:{key}", lambda: f"{case}: {x!r}", case)
    ok &= ctx.check(bool(x.valid_transform) == (s.vt if s.frame is not None else False), f"valid-transform:{key}", lambda: f"{case}: {x!r}", case)
    ok &= ctx.check(x.compression == s.comp, f"compression:{key}", lambda: f"{case}: {x.compression!r}", case)
    if ctx.check(m.unit_ok(x.units), f"unit:{key}", lambda: f"{case}: {x!r}, expected unit {m.unit}", case):
        ok &= ctx.check(close(np.asarray(x, dtype=float), m.numbers(), rtol), f"value:{key}", lambda: f"{case}: {x!r}, expected {m.numbers()} {m.unit}", case)
    else:
        ok = False
    return ok


def apply(ctx, x, m, op, s, trail, rtol):
    """returns (object to carry on with, its model) or None"""
    name, f, fr, un, inplace, value = op
    case = dict(start=repr(s), sequence=list(trail) + [name])
    key = f"{name}:{s.kind}{'' if s.vt else '!'}{'0' if s.null else ''}{'' if s.frame is not None else '?'}"
    before = snap(x)
    want = m.after(fr, un)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r, err = f(x), None
        except Exception as e:  # noqa: BLE001
            r, err = None, e
    ctx.step()
    if err is not None:
        ctx.count("refused")
        ctx.check(snap(x) == before, f"refusal-changed:{key}", lambda: f"{case}: {type(err).__name__} left {x!r} (was {before[2:6]})", case)
        if want is not None:
            if inplace and np.asarray(x).dtype.kind == "i":
                return None  # whole numbers cannot be scaled in place
            ctx.fail(f"refused:{key}", f"{case}: {type(err).__name__}: {err}", case)
        return None
    ctx.count("converted")
    if want is None:
        ctx.fail(f"meaningless-accepted:{key}", f"{case}: gave {(x if inplace else r)!r}", case)
        return None
    if inplace:
        if not agrees(ctx, x, want, key, case, rtol):
            return None
        return x, want
    ctx.check(snap(x) == before, f"source-changed:{key}", lambda: f"{case}: source now {x!r}", case)
    if value:
        ctx.check(not isinstance(r, unyt.unyt_array), f"bare:{key}", lambda: f"{case}: {r!r}", case)
        ctx.check(close(np.asarray(r, dtype=float), want.numbers(), rtol), f"value:{key}", lambda: f"{case}: {r!r}, expected {want.numbers()}", case)
        ctx.check(not np.shares_memory(np.asarray(r), np.asarray(x)), f"shares-memory:{key}", lambda: f"{case}", case)
        return None
    ctx.check(not np.shares_memory(np.asarray(r), np.asarray(x)), f"shares-memory:{key}", lambda: f"{case}: the copy shares memory with its source", case)
    if not agrees(ctx, r, want, key, case, rtol):
        return None
    return r, want


def rtol_of(s):
    return 3e-6 if s.kind == "f4" else 1e-9


def starts(thorough):
    L = []
    for kind in ("array", "f4", "int", "strided", "quantity", "intquantity", "matrix", "fortran", "empty", "one", "big"):
        L += [Start(kind, "Mpc", fr, 1, vt=vt) for fr, vt in ((True, True), (False, True), (False, False), (None, False))]
    for unit, exp in (("Msun/Mpc**3", -3), ("km/s", 0), ("km/s", 0.5), ("", 2), ("", 0)):
        for fr, vt in ((True, True), (False, True), (False, False), (None, False)):
            L += [Start(kind, unit, fr, exp, vt=vt, comp="Dmantissa") for kind in ("array", "quantity")]
    for a in (1.0, 0.3, 1.5):
        L += [Start("array", "Mpc", fr, -2, a=a) for fr in (True, False)]
    L += [Start("array", "Mpc", fr, 1, null=True) for fr in (True, False, None)]
    L += [Start("quantity", "Mpc", fr, 1, null=True) for fr in (True, False)]
    return L


def reach(ctx, s):
    """every conversion in every reachable state"""
    ops = alphabet(s.unit)
    todo = [((), Model.of(s))]
    seen = {Model.of(s).key()}
    while todo:
        trail, m = todo.pop(0)
        ctx.state(repr(s), m.key())
        for op in ops:
            x = s.make()
            mm = Model.of(s)
            dead = False
            for o in trail:  # rebuild the state
                got = apply(ctx, x, mm, o, s, (), rtol_of(s))
                if got is None:
                    dead = True
                    break
                x, mm = got
            if dead:
                continue
            got = apply(ctx, x, mm, op, s, [o[0] for o in trail], rtol_of(s))
            if got is not None and got[1].key() not in seen:
                seen.add(got[1].key())
                todo.append((trail + (op,), got[1]))
    x = s.make()
    if not s.null and s.frame is not None:
        f = float(s.a) ** s.exp
        for m, fr in (("compatible_with_comoving", True), ("compatible_with_physical", False)):
            r = getattr(x, m)()
            ctx.step()
            ctx.check(bool(r) == (s.frame is fr or f == 1.0), f"compatible:{m}", lambda: f"{s!r}: {m}() gave {r}", dict(start=repr(s)))


def sequences(ctx, s, depth, first):
    """all sequences: every object made on the way stays alive and must keep denoting the same"""
    ops = [o for o in alphabet(s.unit, small=True) if not o[5]]

    def rec(x, m, trail, olds, d):
        if d == 0:
            ctx.trace()
            return
        for op in ops if trail else [ops[first]]:
            # rebuild so that sibling branches are independent
            y, mm, keep, bad = replay(trail)
            if bad:
                return
            got = apply(ctx, y, mm, op, s, [o[0] for o in trail], rtol_of(s))
            for z, b, why in keep:
                if z is y and op[4]:
                    continue
                ctx.check(snap(z) == b, f"earlier-object-changed:{op[0]}", lambda: f"{s!r}: {[o[0] for o in trail] + [op[0]]} changed the object {why} to {z!r}", dict(start=repr(s), sequence=[o[0] for o in trail] + [op[0]]))
            if got is not None:
                rec(None, None, trail + (op,), None, d - 1)

    def replay(trail):
        x, m = s.make(), Model.of(s)
        keep = [(x, snap(x), "start")]
        for op in trail:
            r = None
            try:
                r = op[1](x)
            except Exception:  # noqa: BLE001
                return None, None, None, True
            m = m.after(op[2], op[3])
            if op[4]:
                keep = [k for k in keep if k[0] is not x]
            else:
                x = r
            keep.append((x, snap(x), "after " + op[0]))
        return x, m, keep, False

    rec(None, None, (), None, depth)


EQUIV = [  # name, from, to, kwargs, power law p with numbers(to) ~ numbers(from)**p
    ("mass_energy", "g", "erg", {}), ("thermal", "K", "erg", {}), ("spectral", "cm", "Hz", {}), ("spectral", "erg", "Hz", {}),
    ("schwarzschild", "Msun", "km", {}), ("compton", "g", "cm", {}), ("number_density", "g/cm**3", "cm**-3", {}),
    ("sound_speed", "K", "km/s", {}), ("effective_temperature", "K", "erg/s/cm**2", {}), ("lorentz", "km/s", "", {}),
]


def equivalences(ctx):
    """conversions between dimensions: the number read in either frame is that of the physical operand"""
    for (name, u0, u1, kw), exp, fr, how in itertools.product(EQUIV, (0, 1, -1), (True, False), ("to", "to_frame", "in_units", "convert", "to_value")):
        v = np.array([2.0, 5.0])
        x = cosmo_array(v.copy(), u0, comoving=fr, scale_factor=A, scale_exponent=exp)
        case = dict(equivalence=name, units=[u0, u1], exponent=exp, comoving=fr, how=how)
        phys = unyt.unyt_array(v * (A**exp if fr else 1.0), u0).to(u1, equivalence=name, **kw)
        ctx.step()
        ctx.state("equivalence", name, u0, u1, exp, fr, how)
        key = f"equivalence:{name} {u0}->{u1}"
        try:
            if how == "to":
                r = x.to(u1, equivalence=name, **kw)
                r = r.to_physical() if r.comoving else r
            elif how == "to_frame":
                r = x.to_physical(u1, equivalence=name, **kw)
            elif how == "in_units":
                r = x.in_units(u1, equivalence=name, **kw)
                r = r.to_physical() if r.comoving else r
            elif how == "to_value":
                r = unyt.unyt_array(x.to_physical_value(u1, equivalence=name, **kw), u1)
            else:
                r = x
                r.convert_to_physical(u1, equivalence=name, **kw)
        except Exception as e:  # noqa: BLE001
            ctx.count("equivalence-refused")
            if exp == 0 or (name in ("mass_energy", "thermal") and how == "to"):
                ctx.fail(f"refused-{key}", f"{case}: {e!r}", case)
            continue
        good = close(np.asarray(r, dtype=float), np.asarray(phys), 1e-7)
        ctx.check(good, key, lambda: f"{case}: gave {r!r}, the physical operand gives {phys!r}", case)
        ctx.trace()


def work(ctx, item):
    if item[0] == "reach":
        for s in item[1]:
            with ctx.guard(repr(s)):
                reach(ctx, s)
    elif item[0] == "equiv":
        equivalences(ctx)
    else:
        with ctx.guard(repr(item[1])):
            sequences(ctx, *item[1:])


def run(ctx):
    L = starts(ctx.thorough)
    items = [("reach", L[i::24]) for i in range(24)] + [("equiv",)]
    depth = 4 if ctx.thorough else 3
    for s in (Start("array", "Mpc", True, 1), Start("quantity", "Mpc", False, 1), Start("array", "Msun/Mpc**3", False, -3), Start("strided", "km/s", True, 0)):
        n = len([o for o in alphabet(s.unit, small=True) if not o[5]])
        items += [("seq", s, depth, i) for i in range(n)]
    ctx.pmap(work, items)
    ctx.sample(dict(start=repr(L[0]), operations=[o[0] for o in alphabet("Mpc")]))
