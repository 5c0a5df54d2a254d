"""C11: written snapshots read back as the same data, and writing leaves the caller's arrays alone."""

import itertools
import os

import h5py
import numpy as np
import sympy
import unyt

import swiftsimio as sw
from swiftsimio import Writer
from swiftsimio.metadata.writer.unit_systems import cosmo_units
from swiftsimio.objects import cosmo_array
from mc.vis import ca

META = dict(
    level="model_checking",
    explanation="Every particle type alone and several together x particle numbers x unit systems x frames x scale factors x units x exponents x number types x "
    "dimensions x boxes x identifiers given or generated x compression and extra header, written by the real writer; the file's raw contents and attributes and what "
    "the reader returns are compared with values computed from an independent table of units.",
    assumptions=["the reader rounds unit sizes to five figures (documented), so values read through it are compared to that accuracy and raw contents to rounding"],
)
TYPES = dict(PartType0="gas", PartType1="dark_matter", PartType2="boundary", PartType3="sinks", PartType4="stars", PartType5="black_holes", PartType6="neutrinos", PartType7="sidm")
HANDLE = dict(coordinates="Coordinates", velocities="Velocities", masses="Masses", smoothing_lengths="SmoothingLengths", internal_energy="InternalEnergy", particle_ids="ParticleIDs")
EXP = dict(coordinates=1, velocities=0, masses=0, smoothing_lengths=1, internal_energy=-2)
DIMS = dict(coordinates=(1, 0, 0), velocities=(1, 0, -1), masses=(0, 1, 0), smoothing_lengths=(1, 0, 0), internal_energy=(2, 0, -2))  # length, mass, time
MPC, MSUN, YR = 3.0856775814913674e24, 1.988409870698051e33, 365.25 * 86400
# cgs size of the units used here, from their definitions
CGS = {"Mpc": MPC, "kpc": MPC / 1e3, "cm": 1.0, "m": 100.0, "km/s": 1e5, "cm/s": 1.0, "m/s": 100.0, "Mpc/Gyr": MPC / (YR * 1e9), "g": 1.0, "kg": 1e3, "Msun": None, "km**2/s**2": 1e10,
       "erg/g": 1.0, "J/kg": 1e4, "Mpc**2/Gyr**2": (MPC / (YR * 1e9)) ** 2}
UNITS = dict(coordinates=("Mpc", "kpc", "cm", "m"), velocities=("km/s", "cm/s", "Mpc/Gyr", "m/s"), masses=("Msun", "g", "kg", "Msun"), smoothing_lengths=("kpc", "Mpc", "m", "cm"),
             internal_energy=("km**2/s**2", "erg/g", "J/kg", "Mpc**2/Gyr**2"))
CGS["Msun"] = float(unyt.Unit("Msun").get_conversion_factor(unyt.g)[0])
CGS["Mpc"] = float(unyt.Unit("Mpc").get_conversion_factor(unyt.cm)[0])
for _k in ("kpc", "Mpc/Gyr", "Mpc**2/Gyr**2"):
    CGS[_k] = CGS[_k] / {"kpc": MPC, "Mpc/Gyr": MPC, "Mpc**2/Gyr**2": MPC**2}[_k] * {"kpc": CGS["Mpc"], "Mpc/Gyr": CGS["Mpc"], "Mpc**2/Gyr**2": CGS["Mpc"] ** 2}[_k]
SYSTEMS = {
    "cosmo": cosmo_units,
    **{n: n for n in ("cgs", "mks", "galactic", "solar", "imperial", "planck")},
    "odd": unyt.UnitSystem("verif_odd", unyt.unyt_quantity(3.7, "kpc"), unyt.unyt_quantity(5e7, "Msun"), unyt.unyt_quantity(2.5, "Myr")),
}


def fields(t):
    f = ["coordinates", "velocities", "masses"]
    return f + {"gas": ["internal_energy", "smoothing_lengths"], "stars": ["smoothing_lengths"]}.get(t, [])


def values(t, f, n, dim):
    k = list(TYPES.values()).index(t) + 1
    i = np.arange(n, dtype=float)
    j = np.arange(dim)
    if f == "coordinates":
        return (0.5 + i[:, None] * 0.75 + j * 0.125 + k * 0.0625)
    if f == "velocities":
        return (-1.0) ** i[:, None] * (100.0 + 3 * i[:, None] + j + 10 * k)
    return {"masses": 1.5 + i + k, "smoothing_lengths": 0.25 + i / 8 + k, "internal_energy": 2.0 + i * 5 + k}[f]


def base(us):
    """cgs size of the length, mass and time unit of a unit system"""
    s = unyt.unit_systems.unit_system_registry[us] if isinstance(us, str) else us
    b = s.base_units
    return [float(unyt.Unit(b[d]).get_conversion_factor(unyt.Unit(c))[0]) for d, c in ((unyt.dimensions.length, "cm"), (unyt.dimensions.mass, "g"), (unyt.dimensions.time, "s"))]


def rel(x, y, tol):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * np.abs(y) + 1e-300))


DEFAULT = dict(types=("gas",), n=(3,), us="cosmo", comoving=True, a=0.5, unit=0, dtype="f8", dim=3, box="cube", boxframe=True, boxunit="Mpc", ids="given", compress=True, extra=None, exps=None, gen=False)


def one(ctx, **kw):
    c = {**DEFAULT, **kw}
    case = dict(kw)
    ctx.trace()
    ctx.step()
    ctx.state(repr(sorted(c.items(), key=lambda x: x[0])))
    a, dim = c["a"], c["dim"]
    path = os.path.join(ctx.scratch, f"w{os.getpid()}.hdf5")
    us = SYSTEMS[c["us"]]
    side = dict(cube=[10.0] * 3, brick=[10.0, 20.0, 7.5])[c["box"]][:dim]
    box = ca(side, "Mpc", 1, a, c["boxframe"]).to(c["boxunit"])
    keep, given, want, ids = [], {}, {}, {}
    with ctx.guard(case):
        w = Writer(unit_system=us, boxsize=box, dimension=dim, compress=c["compress"], extra_header=c["extra"], scale_factor=a)
        first = 1
        for t, n in zip(c["types"], itertools.cycle(c["n"])):
            for i, f in enumerate(fields(t)):
                e = EXP[f] if c["exps"] is None else c["exps"][i % len(c["exps"])]
                unit = UNITS[f][c["unit"]]
                frame = c["comoving"] if c["comoving"] != "mixed" else bool((i + len(t)) % 2)
                v = values(t, f, n, dim).astype(c["dtype"])
                x = ca(v, unit, e, a, frame)
                want[t, f] = np.asarray(v, float) * CGS[unit] / (1.0 if frame else a ** float(e)), e  # comoving cgs
                if c["gen"] and f == "smoothing_lengths":
                    continue
                given[t, f] = x
            if c["ids"] == "given" or (c["ids"] == "some" and t == c["types"][0]):
                order = np.arange(n)[::-1]
                ids[t] = (first + order * 3 + (2**53 if n > 1 else 0)).astype("i8" if t != "stars" else "u8")
                first += 3 * n
                given[t, "particle_ids"] = cosmo_array(ids[t], "dimensionless", comoving=True, scale_factor=a, scale_exponent=0) if t != "stars" else ids[t]
        keep = {k: (x.copy(), getattr(x, "units", None), getattr(x, "comoving", None), getattr(x, "cosmo_factor", None), x.dtype) for k, x in given.items()}
        kbox = box.copy()
        for (t, f), x in given.items():
            setattr(getattr(w, t), f, x)
        if c["gen"]:
            for t in c["types"]:
                if "smoothing_lengths" in fields(t):
                    getattr(w, t).generate_smoothing_lengths()
                    n = dict(zip(c["types"], itertools.cycle(c["n"])))[t]
                    L = side[0] * CGS["Mpc"] / (1.0 if c["boxframe"] else a)
                    want[t, "smoothing_lengths"] = np.full(n, 2 * L / n ** (1 / dim)), 1
        for again in range(2):
            if os.path.exists(path):
                os.unlink(path)
            w.write(path)
            inspect(ctx, c, case, path, want, ids, side, us)
        for k, x in given.items():
            v, u, cm, cf, dt = keep[k]
            ctx.check(np.array_equal(np.asarray(x), np.asarray(v)) and getattr(x, "units", None) == u and getattr(x, "comoving", None) is cm and getattr(x, "cosmo_factor", None) == cf
                      and x.dtype == dt, "caller-changed", lambda: f"{case} {k}: {x!r} rather than {v!r}", case)
        ctx.check(np.array_equal(np.asarray(box), np.asarray(kbox)) and box.units == kbox.units and box.comoving is kbox.comoving, "caller-changed", lambda: f"{case}: box {box!r}", case)


def native(x, unit):
    """values in cgs, the multiplication done in double precision (float32 overflows in cgs)"""
    return np.asarray(x, dtype=float) * float(x.units.get_conversion_factor(unit)[0])


def inspect(ctx, c, case, path, want, ids, side, us):
    a, dim = c["a"], c["dim"]
    L, M, T = base(us)
    tol = 2e-6 if "4" in c["dtype"] else 1e-12
    names = dict(zip(c["types"], itertools.cycle(c["n"])))
    with h5py.File(path, "r") as h:
        ctx.check(set(h) == {"Header", "Units"} | {p for p, t in TYPES.items() if t in names}, "groups", lambda: f"{case}: {sorted(h)}", case)
        u, hd = h["Units"].attrs, h["Header"].attrs
        for k, v in (("Unit length in cgs (U_L)", L), ("Unit mass in cgs (U_M)", M), ("Unit time in cgs (U_t)", T)):
            ctx.check(rel(u[k], [v], 1e-12), "units", lambda: f"{case}: {k} {u[k]} rather than {v}", case)
        num = [names.get(t, 0) for t in TYPES.values()]
        for k in ("NumPart_Total", "NumPart_ThisFile"):
            ctx.check(list(hd[k]) == (num if k not in (c["extra"] or {}) else c["extra"][k]), "counts", lambda: f"{case}: {k} {hd[k]} rather than {num}", case)
        boxes = np.array(side) * CGS["Mpc"] / (1.0 if c["boxframe"] else a)
        ctx.check(rel(hd["BoxSize"] * L, boxes, 1e-12), "box", lambda: f"{case}: {hd['BoxSize']} of {L} cm", case)
        ctx.check(list(hd["Dimension"]) == [dim] and rel(hd["Scale-factor"], [a], 1e-7), "header", lambda: f"{case}: {dict(hd)}", case)
        for k, v in (c["extra"] or {}).items():
            ctx.check(k in hd and np.array_equal(hd[k], v), "extra-header", lambda: f"{case}: {k} {hd.get(k)}", case)
        seen = []
        for p, t in TYPES.items():
            if t not in names:
                continue
            ctx.check(set(h[p]) == {HANDLE[f] for f in fields(t)} | {"ParticleIDs"}, "fields", lambda: f"{case}: {t} {sorted(h[p])}", case)
            for f in fields(t):
                d = h[p][HANDLE[f]]
                v, e = want[t, f]
                at = d.attrs
                l, m, tt = DIMS[f]
                size = L**l * M**m * T**tt
                ctx.check(rel(d[...].astype(float) * size, v, tol), "stored-value", lambda: f"{case} {t}.{f}: {d[...].tolist()} of {size} cgs rather than {v.tolist()} cgs", case)
                ctx.check(rel(at["Conversion factor to CGS (not including cosmological corrections)"], [size], 1e-9)
                          and rel(at["Conversion factor to physical CGS (including cosmological corrections)"], [size * a ** float(e)], 1e-9)
                          and [float(at[k][0]) for k in ("U_L exponent", "U_M exponent", "U_t exponent", "U_T exponent", "U_I exponent", "h-scale exponent")] == [l, m, tt, 0, 0, 0]
                          and abs(float(at["a-scale exponent"][0]) - float(e)) < 1e-12, "attributes", lambda: f"{case} {t}.{f}: {dict(at)}", case)
                ctx.check(d.dtype.kind == "f" and (d.dtype.itemsize == np.dtype(c["dtype"]).itemsize or np.dtype(c["dtype"]).kind != "f"), "number-type",
                          lambda: f"{case} {t}.{f}: {d.dtype}", case)
                ctx.check((d.compression is not None) is bool(c["compress"]), "compression", lambda: f"{case} {t}.{f}: {d.compression}", case)
            i = h[p]["ParticleIDs"]
            ctx.check(len(i) == names[t] and all(float(i.attrs[k][0]) == 0 for k in i.attrs if "exponent" in k), "id-attributes", lambda: f"{case}: {t} {dict(i.attrs)}", case)
            seen += [int(x) for x in i[...]]
            if c["ids"] == "given":
                ctx.check(i.dtype.kind in "iu" and np.array_equal(i[...], ids[t]), "ids", lambda: f"{case}: {t} {i[...]} rather than {ids[t]}", case)
        ctx.check(len(set(seen)) == len(seen) and min(seen) > 0, "ids-unique", lambda: f"{case}: {seen}", case)
    # through the reader
    d = sw.load(path)
    md = d.metadata
    rt = 3e-4
    ctx.check(sorted(md.present_group_names) == sorted(names) and all(getattr(md, f"n_{t}") == names.get(t, 0) for t in TYPES.values()), "read-types",
              lambda: f"{case}: {md.present_group_names}", case)
    ctx.check(md.boxsize.comoving is True and rel(md.boxsize.to_comoving_value("cm"), boxes, rt) and abs(md.scale_factor - a) < 1e-7 and md.boxsize.cosmo_factor == ca(1.0, a=md.scale_factor).cosmo_factor,
              "read-box", lambda: f"{case}: {md.boxsize!r} {md.scale_factor}", case)
    for t, n in names.items():
        g = getattr(d, t)
        for f in fields(t):
            v, e = want[t, f]
            x = getattr(g, f)
            unit = unyt.Unit({"coordinates": "cm", "smoothing_lengths": "cm", "velocities": "cm/s", "masses": "g", "internal_energy": "cm**2/s**2"}[f])
            ok = x.comoving is True and x.units.dimensions == unit.dimensions and abs(float(x.cosmo_factor.a_factor) / a ** float(e) - 1) < 1e-6 and x.cosmo_factor.scale_factor == md.scale_factor
            ctx.check(ok, "read-label", lambda: f"{case} {t}.{f}: {x.units} {x.comoving} {x.cosmo_factor}", case)
            if ok:
                ctx.check(rel(native(x.to_comoving(), unit), v, rt) and rel(native(x.to_physical(), unit), v * a ** float(e), rt), "read-value",
                          lambda: f"{case} {t}.{f}: {x.to_comoving_value(unit).tolist()} rather than {v.tolist()}", case)
        x = g.particle_ids
        ctx.check(x.shape == (n,) and x.units.is_dimensionless and (c["ids"] != "given" or np.array_equal(np.asarray(x), ids[t])), "read-ids", lambda: f"{case}: {x!r}", case)


# a particle type registered by the user, with required fields of any dimension: length, mass, time and temperature powers, units
NEW = {
    "temperatures": ("Temperatures", (0, 0, 0, 1), ("K", "mK")),
    "densities": ("Densities", (-3, 1, 0, 0), ("g/cm**3", "Msun/kpc**3")),
    "entropies": ("Entropies", (4, -2 / 3, -2, 0), ("cm**4*g**(-2/3)/s**2", "kpc**4*Msun**(-2/3)/Myr**2")),
    "opacities": ("KeyOpacities", (2, -1, 0, 0), ("cm**2/g", "m**2/kg")),
    "heat_capacities": ("HeatCapacities", (2, 1, -2, -1), ("erg/K", "J/mK")),
    "curvatures": ("Curvatures", (-0.5, 0, 0.5, 0), ("sqrt(s/cm)", "sqrt(Myr/kpc)")),
    "metallicities": ("Metallicities", (0, 0, 0, 0), ("dimensionless", "dimensionless")),
}
DIMSYM = (unyt.dimensions.length, unyt.dimensions.mass, unyt.dimensions.time, unyt.dimensions.temperature)


def thermal(name, unit):
    return unyt.UnitSystem(name, "kpc", "Msun", "Myr", temperature_unit=unit)


HOT = {"cgs": "cgs", "odd": SYSTEMS["odd"], "millikelvin": thermal("verif_mk", "mK"), "hot": unyt.UnitSystem("verif_hot", unyt.unyt_quantity(2.0, "m"), unyt.unyt_quantity(3.0, "kg"),
       unyt.unyt_quantity(5.0, "yr"), temperature_unit=unyt.unyt_quantity(250.0, "K"))}


def registered(ctx, item):
    """a type of the user's own, next to the known ones"""
    import swiftsimio.metadata.particle.particle_types as pt
    from swiftsimio.metadata.writer import required_fields as rf

    us_name, com, a, names, exps, unit, number = item
    case = dict(kind="registered", us=us_name, comoving=com, a=a, fields=names, exponents=exps, unit=unit, number=number)
    ctx.trace()
    ctx.step()
    ctx.state(repr(case))
    group = f"PartType{number}"
    us = HOT[us_name]
    table = (pt.particle_name_underscores, pt.particle_name_class, pt.particle_name_text)
    old = [dict(t) for t in table]
    path = os.path.join(ctx.scratch, f"x{os.getpid()}.hdf5")
    for t, v in zip(table, ("wimps", "Wimps", "Wimp")):
        t[group] = v
    rf.wimps = {**rf._shared, **{n: {"handle": NEW[n][0], "dimensions": np.prod([d ** (p if p == int(p) else sympy.Rational(p).limit_denominator(6)) for d, p in zip(DIMSYM, NEW[n][1])]) if any(NEW[n][1]) else 1} for n in names}}
    try:
        with ctx.guard(case):
            w = Writer(unit_system=us, boxsize=ca([10.0] * 3, "kpc", 1, a), scale_factor=a)
            want = {}
            for t, n in (("wimps", 3), ("stars", 2)):
                for f in ("coordinates", "velocities", "masses"):
                    setattr(getattr(w, t), f, ca(values("gas", f, n, 3), UNITS[f][0], EXP[f], a, True))
            w.stars.smoothing_lengths = ca(values("gas", "smoothing_lengths", 2, 3), "kpc", 1, a, True)
            for n, e in zip(names, itertools.cycle(exps)):
                unt = unyt.Unit(NEW[n][2][unit])
                v = np.array([1.5, 2.5, 7.0]) + len(n)
                if NEW[n][0] == "Metallicities":
                    e = 0  # (pure numbers are taken as they are)
                frame = com if e else True
                cgs = float(unt.get_conversion_factor(unt.get_base_equivalent("cgs"))[0])
                want[n] = v * cgs / (1.0 if frame else a ** float(e)), e, unt
                setattr(w.wimps, n, ca(v, unt, e, a, frame))
            if os.path.exists(path):
                os.unlink(path)
            w.write(path)
            base_units = (unyt.unit_systems.unit_system_registry[us] if isinstance(us, str) else us).base_units
            sizes = [float(unyt.Unit(base_units[d]).get_conversion_factor(unyt.Unit(c))[0]) for d, c in zip(DIMSYM, ("cm", "g", "s", "K"))]
            with h5py.File(path, "r") as h:
                ctx.check(set(h) == {"Header", "Units", group, "PartType4"}, "groups", lambda: f"{case}: {sorted(h)}", case)
                num = list(h["Header"].attrs["NumPart_Total"])
                ctx.check(num == [2 if i == 4 else 3 if i == number else 0 for i in range(max(8, number + 1))], "counts", lambda: f"{case}: {num}", case)
                ctx.check(rel(h["Units"].attrs["Unit temperature in cgs (U_T)"], [sizes[3]], 1e-12), "units", lambda: f"{case}: {dict(h['Units'].attrs)}", case)
                for n, (v, e, _) in want.items():
                    d = h[group][NEW[n][0]]
                    size = float(np.prod([s**p for s, p in zip(sizes, NEW[n][1])]))
                    ctx.check(rel(d[...] * size, v, 1e-11), "stored-value", lambda: f"{case} {n}: {d[...].tolist()} of {size} cgs rather than {v.tolist()} cgs", case)
                    at = d.attrs
                    got = [float(at[k][0]) for k in ("U_L exponent", "U_M exponent", "U_t exponent", "U_T exponent", "U_I exponent", "a-scale exponent")]
                    ctx.check(np.allclose(got, [*NEW[n][1], 0, float(e)], atol=1e-12), "attributes", lambda: f"{case} {n}: {dict(at)}", case)
                    ctx.check(rel(at["Conversion factor to CGS (not including cosmological corrections)"], [size], 1e-9)
                              and rel(at["Conversion factor to physical CGS (including cosmological corrections)"], [size * a ** float(e)], 1e-9), "attributes", lambda: f"{case} {n}: {dict(at)}", case)
                ids = list(h[group]["ParticleIDs"][...]) + list(h["PartType4"]["ParticleIDs"][...])
                ctx.check(len(set(ids)) == 5, "ids-unique", lambda: f"{case}: {ids}", case)
            d = sw.load(path)
            ctx.check(d.metadata.n_wimps == 3 and d.metadata.n_stars == 2, "read-types", lambda: f"{case}: {d.metadata.present_group_names}", case)
            for n, (v, e, unt) in want.items():
                x = getattr(d.wimps, {"opacities": "key_opacities"}.get(n, n))
                ok = x.comoving is True and x.units.dimensions == unt.dimensions and abs(float(x.cosmo_factor.a_factor) / a ** float(e) - 1) < 1e-6
                ctx.check(ok, "read-label", lambda: f"{case} {n}: {x!r}", case)
                if ok:
                    ctx.check(rel(native(x, unt.get_base_equivalent("cgs")), v, 3e-4), "read-value", lambda: f"{case} {n}: {x!r} rather than {v} cgs", case)
    finally:
        for t, o in zip(table, old):
            t.clear()
            t.update(o)
        if hasattr(rf, "wimps"):
            del rf.wimps


def new_types(T):
    every = tuple(NEW)
    sets = [(n,) for n in every] + [every] + ([p for p in itertools.permutations(every, 2)] if T else [])
    for us, com, a, names, exps, unit in itertools.product(HOT, (True, False), (1.0, 0.5), sets, ((0, 2), (-1.5, 1)), (0, 1)):
        yield us, com, a, names, exps, unit, 8 if len(names) > 1 else 9 if us == "hot" else 8


def cases(T):
    names = list(TYPES.values())
    AS = (1.0, 0.5, 0.03125) if not T else (1.0, 0.5, 0.03125, 0.1, 2.0, np.float32(0.3))
    some = [(t,) for t in names] + [("gas", "stars"), ("stars", "dark_matter", "gas"), tuple(names)]
    if T:
        some = [x for r in range(1, 9) for x in itertools.combinations(names, r)]
    for types in some:
        for com, a in itertools.product((True, False, "mixed"), AS if not T else (1.0, 0.5)):
            yield dict(types=types, comoving=com, a=a, n=(2, 3, 1))
    for us, com, a, unit in itertools.product(SYSTEMS, (True, False), AS, range(4)):
        yield dict(types=("gas", "dark_matter"), us=us, comoving=com, a=a, unit=unit, n=(2, 1))
    for dt, us, com, a in itertools.product(("f4", "f8", ">f4", ">f8", "i4", "i8"), ("cosmo", "odd"), (True, False), AS[:2]):
        yield dict(dtype=dt, us=us, comoving=com, a=a)
    for dim, box, bf, bu, us, a in itertools.product((1, 2, 3), ("cube", "brick"), (True, False), ("Mpc", "kpc", "cm"), ("cosmo", "cgs", "odd"), AS[:2]):
        yield dict(dim=dim, box=box, boxframe=bf, boxunit=bu, us=us, a=a)
        if box == "cube" or dim == 1:
            yield dict(types=("gas", "stars", "sinks"), dim=dim, box=box, boxframe=bf, boxunit=bu, us=us, a=a, gen=True, n=(3, 8))
    for n, ids, types in itertools.product(itertools.product((1, 2, 5), repeat=2), ("given", "some", "none"), (("gas", "dark_matter"), ("neutrinos", "boundary"), ("sidm", "gas", "stars"))):
        yield dict(n=n, ids=ids, types=types)
    for exps in ((0, 1, 2), (-1, -2, -3), (0.5, -1.5, 3), (1.25, 0, -0.75)):
        for com, a, us in itertools.product((True, False, "mixed"), AS, ("cosmo", "cgs")):
            yield dict(types=("gas", "black_holes"), exps=exps, comoving=com, a=a, us=us)
    for comp, extra in itertools.product((True, False), (None, {"Foo": 3}, {"RunName": "abc", "Redshift": [1.0]}, {"NumPart_Total": [9, 9]}, {"Time": [0.5], "List": [1.0, 2.0]})):
        yield dict(compress=comp, extra=extra)
    yield dict(n=(1000,), types=("dark_matter", "gas"))


def _chunk(ctx, item):
    for kw in item:
        registered(ctx, kw) if isinstance(kw, tuple) else one(ctx, **kw)


def run(ctx):
    todo = list(cases(ctx.thorough)) + list(new_types(ctx.thorough))
    k = 32
    ctx.pmap(_chunk, [todo[i::k] for i in range(k)])
