"""C29: printed forms state values, unit and frame, list what a file holds, and change nothing."""

import itertools
import os
import re

import h5py
import numpy as np
import unyt

import swiftsimio as sw
from swiftsimio.objects import a as a_symbol
from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity
from mc.snap import F, Snap
from mc.soap import build_soap

META = dict(
    level="model_checking",
    exhaustive=True,
    explanation="Every combination of class, shape, number type, unit, frame, exponent, scale factor, convertibility and compression x every printed form x print options, compared with what plain unyt prints for "
    "the values and with the labels; all pairs of labels for distinctness; and every history (up to the bound) of printing, reading, overwriting and deleting over data sets, groups, columns, metadata "
    "and statistics of several kinds of file, printed with the file in place and with the file moved away.",
    assumptions=["the wording around the values is unyt's and numpy's"],
)
FRAME = {True: "comoving", False: "physical", None: "not set"}
UNITS = ["Mpc", "Msun/Mpc**3", "dimensionless", "km/s", "1e10*Msun", "K", "sqrt(erg)"]
EXPS = [0, 1, -3, 2.5, -0.5, "none"]
SCALES = [0.5, 1.0, 0.0078125, 1.25]
VALUES = {
    "two": np.array([1.0, 2.5]), "one": np.array([3.0]), "empty": np.array([]), "square": np.array([[1.0, -2.0], [3.0, np.nan]]), "long": np.arange(1200) * 0.125, "single": np.array([1.5, 1 / 3], "f4"),
    "int": np.array([1, -7]), "bytes": np.array([1, 200], "u1"), "bool": np.array([True, False]), "tiny": np.array([1e-30, 1.0, np.inf]), "column": np.arange(3.0).reshape(3, 1), "scalar": np.array(2.5), "big": np.array([123456789.123, 0.5]),
    "complex": np.array([1 + 2j, 0]), "none at all": np.empty((0, 3)),
}
OPTIONS = [{}, dict(precision=2), dict(suppress=True), dict(threshold=3), dict(sign="+"), dict(linewidth=30)]


def make(shape, unit, frame, exp, scale, vt, comp, quantity):
    v = VALUES[shape]
    u = unyt.Unit(unit)
    kw = dict(comoving=frame, valid_transform=vt, compression=comp)
    if exp != "none":
        kw.update(scale_factor=scale, scale_exponent=exp)
    return (cosmo_quantity(v[()] if v.ndim == 0 else v.flat[0], u, **kw) if quantity else cosmo_array(v.copy(), u, **kw)), u


def legal(frame, exp, vt):
    if exp == "none":
        return frame is None and not vt
    return not (frame is None and vt) and not (frame and not vt)


def snapshot(x):
    return x.tobytes(), x.dtype, x.shape, x.units, x.comoving, x.cosmo_factor, x.valid_transform, x.compression


def marked(text, frame, rest):
    """text is rest followed by a mark of the frame and of no other"""
    if not text.startswith(rest):
        return False
    tail = text[len(rest):].lower()
    if frame is None:
        return ("comoving" in tail) == ("physical" in tail)
    return FRAME[frame] in tail and FRAME[not frame] not in tail and "not set" not in tail


def arrays(ctx, item):
    shape, quantity = item
    if quantity and (VALUES[shape].size == 0 or shape == "bool"):
        return
    seen = {}
    for unit, frame, exp, scale, vt, comp in itertools.product(UNITS, FRAME, EXPS, SCALES, (True, False), (None, "FMantissa9")):
        if not legal(frame, exp, vt) or (exp == "none" and scale != SCALES[0]):
            continue
        x, u = make(shape, unit, frame, exp, scale, vt, comp, quantity)
        plain = unyt.unyt_quantity(x.value[()], u) if quantity else unyt.unyt_array(x.value.copy(), u)
        for i, opt in enumerate(OPTIONS):
            if i and (comp or scale != SCALES[0]):
                continue
            case = dict(values=shape, quantity=quantity, unit=unit, comoving=frame, exponent=exp, scale_factor=scale, valid_transform=vt, options=opt)
            ctx.step()
            ctx.trace()
            ctx.state(*case.values(), comp)
            keep = snapshot(x)
            with ctx.guard(case), np.printoptions(**opt):
                s, r = str(x), repr(x)
                ctx.check(marked(s, frame, str(plain)), "str", lambda: f"{case}: {s!r}, values and unit are {str(plain)!r}", case)
                ctx.check(f"{s}" == "%s" % (x,) and [s, r] == [str(x), repr(x)], "repeated", lambda: f"{case}: {s} {x}", case)
                body = repr(plain)
                body = body[body.index("("): -1]
                ok = r.startswith(type(x).__name__ + "(") and r.endswith(")")
                # line breaks and indentation depend on the length of the name
                flat = lambda t: re.sub(r"\s+", "", t)
                ctx.check(ok and flat(r[len(type(x).__name__):]).startswith(flat(body)), "repr", lambda: f"{case}: {r!r}, values and unit are {repr(plain)!r}", case)
                tail = flat(r)[len(flat(type(x).__name__ + body)):]
                got = dict(re.findall(r",(\w+)='([^']*)'", tail))
                want = dict(comoving=str(frame), valid_transform=str(vt), cosmo_factor=flat(str(x.cosmo_factor)))
                ctx.check(all(got.get(k) == v for k, v in want.items()), "repr-labels", lambda: f"{case}: {r!r}: {got} rather than {want}", case)
                if not i:
                    # nothing that differs in unit, frame, exponent, scale factor or convertibility prints the same
                    label = (unit, frame, exp, scale if exp != "none" else None, vt)
                    ctx.check(seen.setdefault(r, label) == label, "distinct", lambda: f"{seen[r]} and {label} both print {r!r}", case)
                if not quantity:
                    t = np.array2string(x)
                    ctx.check(marked(t, frame, np.array2string(plain)) if frame is not None else t.startswith(np.array2string(plain)) and "physical" not in t[len(np.array2string(plain)):].split() and "(comoving)" not in t, "array2string", lambda: f"{case}: {t!r}", case)
                    ctx.check(np.array_repr(x) == r, "array_repr", lambda: f"{case}: {np.array_repr(x)!r} rather than {r!r}", case)
                    t = np.array_str(x)
                    ctx.check(x.ndim == 0 and t == np.array_str(plain) or marked(t, frame, np.array_str(plain)) or frame is None and t == np.array_str(plain), "array_str", lambda: f"{case}: {t!r}", case)
                    t = repr([x, x[:1]] if x.ndim else [x])
                    ctx.check(t.startswith("[" + r), "in-list", lambda: f"{case}: {t}", case)
            ctx.check(snapshot(x) == keep, "printing-changes", lambda: f"{case}", case)


def factors(ctx, item):
    """the printed factor states expression and scale factor, whatever the expression"""
    from sympy import simplify, sympify

    seen = {}
    for e, s in itertools.product([0, 1, 2, -1, -3, 0.5, 2.5, -0.25, 1 / 3, 10], [*SCALES, 0.1, 1 / 3, 1e-4]):
        f = cosmo_factor.create(s, e)
        ctx.step()
        ctx.trace()
        ctx.state(e, s)
        with ctx.guard((e, s)):
            m = re.fullmatch(r"(.*) at a=(.*)", str(f))
            n = re.fullmatch(r"cosmo_factor\(expr=(.*), scale_factor=(.*)\)", repr(f))
            for g in (m, n):
                if ctx.check(g is not None, "factor-form", lambda: f"{f!s} {f!r}"):
                    got = float(sympify(g[1], locals={"a": a_symbol}).subs(a_symbol, 0.3))
                    ctx.check(abs(got / 0.3**e - 1) < 1e-12 and float(g[2]) == s, "factor", lambda: f"a**{e} at {s}: {f!s} {f!r}")
            ctx.check(seen.setdefault(str(f), (e, s)) == (e, s), "factor-distinct", lambda: f"{seen[str(f)]} and {(e, s)} print {f!s}")


COLS = ["Hydrogen", "Helium"]


class World:
    def __init__(self, d):
        self.dir = d
        Snap(d + "/snap.hdf5", box=(4.0, 2.0, 2.0), ncell=(2, 1, 1), counts={"PartType0": [3, 2], "PartType4": [1, 2]}, a=0.5,
             fields=lambda p, n, s: {"ElementMassFractions": F(np.arange(2.0 * n).reshape(n, 2), columns=COLS), "Densities": F(np.arange(n) + 3.0, M=1, L=-3, a=-3)} if p == "PartType0" else {"BirthDensities": F(np.arange(n) + 1.0, M=1, L=-3)})
        build_soap(d + "/soap.hdf5")
        with open(d + "/statistics.txt", "w") as f:
            f.write("# (0)  Simulation step\n# (1)  Time since Big Bang.\n#      Unit = 3.08568e+19 s\n# (2)  Total mass.\n#      Unit = 1.98848e+43 g\n#\n#    (0)    (1)    (2)\n#    Step    Time    Total mass\n  0  0.0  2.5\n  1  0.5  3.5\n")


def listed(text, what):
    m = re.search(what + r":? *(.*)$", text, re.S)
    return None if m is None else [x.strip() for x in m[1].split(",")]


GROUPS = {
    "snap": {"gas": ["coordinates", "densities", "element_mass_fractions", "masses", "particle_ids"], "stars": ["birth_densities", "coordinates", "masses", "particle_ids"]},
    "soap": {"input_halos": ["halo_catalogue_index", "halo_centre"], "spherical_overdensity_200_crit": ["centre_of_mass", "total_mass"], "bound_subhalo": ["number_of_gas_particles"]},
}
OPS = ["print set", "print group", "print other", "print columns", "print metadata", "read", "overwrite", "delete", "read column"]


def operate(ds, kind, op, expected, ctx, case):
    g, o = [k for k in GROUPS[kind]][:2]
    field = GROUPS[kind][g][-2]
    if op == "print set":
        for t in (str(ds), repr(ds)):
            ctx.check(sorted(listed(t, "Available groups") or []) == sorted(GROUPS[kind]), "groups", lambda: f"{case}: {t}", case)
            ctx.check(os.path.basename(str(ds.filename)) in t, "file-name", lambda: f"{case}: {t}", case)
    elif op in ("print group", "print other"):
        n = g if op == "print group" else o
        for t in (str(getattr(ds, n)), repr(getattr(ds, n))):
            ctx.check(sorted(listed(t, "Available fields") or []) == sorted(GROUPS[kind][n]), "fields", lambda: f"{case}: {n}: {t}", case)
    elif op == "print columns":
        if kind == "snap":
            t = str(ds.gas.element_mass_fractions)
            ctx.check(re.findall(r"'(\w+)'", t) == [c.lower() for c in COLS] and t == repr(ds.gas.element_mass_fractions), "columns", lambda: f"{case}: {t}", case)
            ctx.check("ElementMassFractions" in t or "element_mass_fractions" in t, "column-name", lambda: f"{case}: {t}", case)
    elif op == "print metadata":
        for n in (g, o):
            m = getattr(ds.metadata, f"{n}_properties")
            ctx.check(n in str(m) and str(m) == repr(m) and (kind != "snap" or getattr(ds, n).group_metadata.group in str(m)), "group-metadata", lambda: f"{case}: {m!s}", case)
    elif op == "read":
        v = getattr(getattr(ds, g), field)
        ctx.check(snapshot(v)[1:] == snapshot(expected)[1:] and (np.array_equal(v.value, expected.value)), "value", lambda: f"{case}: {v} rather than {expected}", case)
    elif op == "overwrite":
        expected = expected * 2
        setattr(getattr(ds, g), field, expected.copy())
    elif op == "delete":
        delattr(getattr(ds, g), field)
        return None
    elif op == "read column":
        if kind == "snap":
            v = ds.gas.element_mass_fractions.helium
            ctx.check(len(v) in (3, 5) and v.value[1] == 3.0, "column-value", lambda: f"{case}: {v}", case)
    return expected


def histories(ctx, item):
    kind, masked, first = item
    w = World(ctx.scratch + f"/w{os.getpid()}") if os.path.exists(ctx.scratch + f"/w{os.getpid()}") else None
    if w is None:
        os.makedirs(ctx.scratch + f"/w{os.getpid()}")
        w = World(ctx.scratch + f"/w{os.getpid()}")
    path = f"{w.dir}/{kind}.hdf5"
    away = path + ".away"
    g = list(GROUPS[kind])[0]
    field = GROUPS[kind][g][-2]
    depth = 4 if ctx.thorough else 3

    def load():
        m = None
        if masked:
            m = sw.mask(path)
            m.constrain_spatial(cosmo_array([[0.1, 1.9], [0.1, 1.9], [0.1, 0.9]], unyt.Mpc, comoving=True, scale_factor=0.5, scale_exponent=1))
        return sw.load(path, mask=m)

    fresh = getattr(getattr(load(), g), field)
    for hist in itertools.product(OPS, repeat=depth - 1):
        hist = (first, *hist)
        ds, expected = load(), fresh
        for i, op in enumerate(hist):
            case = dict(file=kind, masked=masked, history=hist[: i + 1])
            ctx.step()
            ctx.state(kind, masked, hist[: i + 1])
            moved = op.startswith("print")
            if moved:  # printing does not touch the file
                os.rename(path, away)
            try:
                with ctx.guard(case):
                    expected = operate(ds, kind, op, expected, ctx, case)
            finally:
                if moved:
                    os.rename(away, path)
            if expected is None:
                expected = fresh  # deleted: read again from the file
        ctx.trace()
        ctx.check(not open_objects(), "left-open", lambda: f"{case}: {open_objects()} HDF5 file(s) open", case)


def open_objects():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def other(ctx, item):
    os.makedirs(ctx.scratch + f"/o{os.getpid()}", exist_ok=True)
    w = World(ctx.scratch + f"/o{os.getpid()}")
    s = sw.load_statistics(w.dir + "/statistics.txt")
    for t in (str(s), repr(s)):
        ctx.step()
        ctx.trace()
        ctx.check(listed(t, "fields") == s.header_snake_case_names if hasattr(s, "header_snake_case_names") else "total_mass" in t, "statistics", lambda: t)
        ctx.check("statistics.txt" in t and "total_mass" in t, "statistics", lambda: t)
    m = sw.load(w.dir + "/snap.hdf5").metadata
    for t in (str(m.mass_table), repr(m.mass_table)):
        ctx.check(all(n in t.split() for n in ("gas", "dark_matter", "stars", "black_holes")), "mass-table", lambda: t)


def dispatch(ctx, item):
    globals()[item[0]](ctx, item[1])


def run(ctx):
    items = [("arrays", (s, q)) for s in VALUES for q in (False, True)] + [("factors", None), ("other", None)]
    items += [("histories", (k, m, op)) for k in GROUPS for m in (False, True) for op in OPS]
    ctx.pmap(dispatch, items)
    ctx.sample(dict(values=list(VALUES), units=UNITS, exponents=EXPS, operations=OPS))
