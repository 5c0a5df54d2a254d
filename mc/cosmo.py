"""Operands for the array-algebra checks, and the frame semantics used as the oracle.

An operand is described by plain numbers (values, unit, frame, exponent, scale factor).  Its meaning in a frame is a
plain unyt object built from those numbers; nothing of swiftsimio is used to compute it.
"""

import numpy as np
import unyt

import swiftsimio as sw  # noqa: F401
from swiftsimio.objects import a as SYM_A
from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity

FR = {True: "co", False: "ph", None: "no"}


class Op:
    """kind: 'cosmo' | 'unyt' | 'plain'."""

    def __init__(self, vals, unit=None, kind="cosmo", frame=True, exp=1, a=0.5, vt=True, comp=None, null=False):
        self.vals = np.array(vals, dtype=float) if not isinstance(vals, np.ndarray) else vals
        self.unit, self.kind, self.frame, self.exp, self.a, self.vt, self.comp = unit, kind, frame, exp, a, vt, comp
        self.null = null  # no cosmo_factor at all

    def __repr__(self):
        v = self.vals.tolist()
        if self.kind == "cosmo":
            return (f"cosmo({v} {self.unit or ''} {FR[self.frame]} " + ("no-factor" if self.null else f"a^{self.exp} a={self.a}")
                    + ("" if self.vt else " no-transform") + (f" {self.comp}" if self.comp else "") + ")")
        return f"{self.kind}({v} {self.unit or ''})"

    @property
    def tag(self):
        s = "" if self.vals.ndim else "q"
        if self.kind != "cosmo":
            return self.kind + s
        return FR[self.frame] + s + ("" if self.vt or self.frame is None else "!") + ("0" if self.null else "")

    @property
    def scalar(self):
        return self.vals.ndim == 0

    def make(self):
        v = self.vals.copy()
        if self.kind == "plain":
            return float(v) if v.ndim == 0 and v.dtype.kind == "f" else v
        if self.kind == "unyt":
            return unyt.unyt_quantity(float(v), self.unit or "") if v.ndim == 0 else unyt.unyt_array(v, self.unit or "")
        cls = cosmo_quantity if v.ndim == 0 else cosmo_array
        kw = {} if self.null else dict(scale_factor=self.a, scale_exponent=self.exp)
        return cls(v, unyt.Unit(self.unit or ""), comoving=self.frame, valid_transform=self.vt if self.frame is not None else False,
                   compression=self.comp, **kw)

    @property
    def known(self):
        return self.kind == "cosmo" and self.frame is not None

    def can(self, G):
        """can this operand be expressed in frame G (True comoving, False physical)?"""
        if self.kind != "cosmo" or self.frame is None or self.frame is G:
            return True
        return self.vt and not self.null

    def values_in(self, G):
        if not self.known or self.frame is G or G is None:
            return self.vals
        f = float(self.a) ** self.exp
        return self.vals * f if G is False else self.vals / f

    def inframe(self, G):
        v = self.values_in(G)
        if self.kind == "plain":
            return float(v) if v.ndim == 0 and v.dtype.kind == "f" else np.array(v)
        return unyt.unyt_quantity(v, self.unit or "") if v.ndim == 0 else unyt.unyt_array(v.copy(), self.unit or "")

    def exp_(self):
        return None if self.null else self.exp


def label(r):
    """(frame, exponent or None, a or None) as carried by a result."""
    cf = r.cosmo_factor
    if cf is not None and not isinstance(cf, cosmo_factor):
        return r.comoving, "malformed", None
    if cf is None or cf.expr is None:
        return r.comoving, None, getattr(cf, "scale_factor", None)
    e = exponent(cf.expr)
    return r.comoving, e, cf.scale_factor


_exp_memo = {}


def exponent(expr):
    try:
        return _exp_memo[expr]
    except KeyError:
        pass
    import sympy

    expr_ = sympy.sympify(expr)
    # value of expr at two points determines the exponent of a pure power
    v2, v4 = float(expr_.subs(SYM_A, 2.0)), float(expr_.subs(SYM_A, 4.0))
    e = np.log2(v2)
    if not (np.isfinite(e) and np.isclose(v4, 4.0**e)):
        e = None
    _exp_memo[expr] = e
    return e


def close(x, y, rtol=1e-9):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype == object or y.dtype == object:
        return bool(np.all(x == y))
    if x.dtype.kind in "b" or y.dtype.kind == "b":
        return np.array_equal(x, y)
    with np.errstate(all="ignore"):
        return bool(np.allclose(x, y, rtol=rtol, atol=0, equal_nan=True) or np.allclose(x, y, rtol=rtol, atol=1e-14 * (np.nanmax(np.abs(y)) if y.size and np.isfinite(np.nanmax(np.abs(y))) else 1), equal_nan=True))


def same_quantity(r, e, factor=1.0):
    """r: result with units (or bare), e: oracle (unyt or bare); compares r*factor with e."""
    ru, eu = getattr(r, "units", None), getattr(e, "units", None)
    rv, ev = np.asarray(r, dtype=None), np.asarray(e)
    if rv.dtype == object or ev.dtype == object:
        return False
    if rv.dtype.kind not in "b" and factor != 1.0:
        rv = rv * factor
    if eu is not None and eu != (ru if ru is not None else unyt.dimensionless):
        tgt = ru if ru is not None else unyt.dimensionless
        if eu.dimensions != tgt.dimensions:
            return False
        conv = float((1.0 * eu).to_value(tgt)) if eu.base_offset == 0 and tgt.base_offset == 0 else None
        if conv is None:
            ev = np.asarray(unyt.unyt_array(ev, eu).to(tgt))
        else:
            ev = ev * conv
    elif eu is None and ru is not None and not ru.is_dimensionless:
        return False
    elif eu is None and ru is not None:
        rv = rv * float(ru.base_value)
    return close(rv, ev)
