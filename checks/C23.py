"""C23: the cosmology derived from a snapshot has the snapshot's parameters and follows the Friedmann equation."""

import itertools
import os

import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio.conversions import swift_cosmology_to_astropy
from mc.snap import F, GYRISH, MPC, MSUN10, write_field, write_header, write_units

META = dict(
    level="model_checking",
    explanation="Bounded exhaustive enumeration of the stored cosmology: every combination of values of the densities, Hubble constant, equation of state, radiation temperature (present, zero, absent), "
    "neutrino numbers, masses and degeneracies (each present in several forms or absent), unit systems and run flags, through the conversion routine and through loaded files of each kind, with the "
    "parameters read back from the object and its expansion rate and critical density compared with the Friedmann equation evaluated by independent formulas (massive neutrinos by a Fermi-Dirac integral).",
    assumptions=["where the stored radiation temperature is absent or zero the photons make up the stored radiation density; a neutrino content astropy cannot represent (fractional degeneracy, or numbers that do not add up) may be refused"],
)
# constants (CODATA 2018/2022 agree to well within the tolerances)
G, C, SIGMA, K_B, EV = 6.6743e-8, 2.99792458e10, 5.670374419e-5, 1.380649e-16, 1.602176634e-12
A_RAD = 4 * SIGMA / C
TNU = 0.7137658555036082
SYSTEMS = [dict(L=MPC, M=MSUN10, t=GYRISH), dict(L=1.0, M=1.0, t=1.0), dict(L=3.0856e21, M=1.9884e33, t=3.1557e13)]

DENS = [(0.3, 0.7, 0.05, 0.0), (0.25, 0.6, 0.0, 0.0), (0.31, 0.6, 0.045, 9.2e-5), (1.0, 0.0, 0.1, 0.0), (0.4, 0.9, 0.02, 1e-3)]
HUBBLE = [70.0, 67.74, 100.0, 50.5]
STATE = [(-1.0, 0.0), (-0.9, 0.1), (-1.1, -0.2), (-1.0, 0.3)]
TEMP = [None, 0.0, 2.7255, 2.6, 15.0]
# values far from the usual ones, each met alone and together with each other one
FAR = [
    [(0.05, 0.0, 0.05, 0.0), (0.3, -0.2, 0.05, 1e-4), (0.2, 1.3, 0.04, 5e-5), (0.9, 0.1, 0.3, 0.02), (0.01, 0.99, 0.001, 1e-6), (2.5, 0.7, 0.0, 0.0)],
    [10.0, 1.0, 33.3, 99.5, 73.04, 300.0, 1000.0],
    [(0.0, 0.0), (-0.3, -0.5), (-2.0, 1.0), (-0.95, 0.0), (0.2, 0.0), (-1.0, -1.5), (-1.0, 1e-3)],
    [0.1, 0.5, 1.0, 1.5, 1.99, 2.0, 2.5, 2.725, 3.0, 5.0, 40.0],
    [(3.046, 2.0328, (1e-4,), (1.0,)), (3.046, 2.0328, (30.0,), (1.0,)), (7.0, 7.0, None, None), (1.0, 1.0, None, None), (4.0, 0.0, (0.1, 0.2, 0.3, 0.4), (1.0, 1.0, 1.0, 1.0)), (6.1, 0.0, (0.1, 0.02), (2.0, 4.0)), (3.5, 3.5, None, None),
     (2.99, 2.99, (), ()), (5.0, 2.0, (0.05,), (3.0,)), (3.0, 0.0, (0.3, 0.1, 0.2), (1.0, 1.0, 1.0))],
]
# (N_eff, N_ur, masses, degeneracies): stored values or None where absent
NU = [
    (None, None, None, None), (3.046, 3.046, None, None), (3.046, None, None, None), (None, 3.046, None, None), (3.04, 3.04, (), ()), (0.0, 0.0, None, None), (2.0, 2.0, None, None), (4.05, 4.05, None, None),
    (3.046, 2.0328, (0.06,), (1.0,)), (3.044, 1.0196, (0.05, 0.12), (1.0, 1.0)), (3.046, 0.00641, (0.06,), (3.0,)), (3.046, 0.00641, (0.01, 0.02, 0.3), (1.0, 1.0, 1.0)), (3.046, 0.00641, (0.2, 0.07), (1.0, 2.0)), (3.046, 0.00641, (0.2, 0.07), (2.0, 1.0)),
    (4.06, 1.0, (0.5, 0.07), (1.0, 2.0)), (None, 2.03, (0.06,), (1.0,)), (1.02, 0.0, (0.1,), (1.0,)), (3.046, 2.0328, (0.0,), (1.0,)),
    # not representable, or not consistent: right or refused
    (3.046, 2.0328, (0.06,), None), (3.046, None, (0.06,), (1.0,)), (3.046, 2.0328, None, (1.0,)), (3.046, 1.0, (0.06,), (1.5,)), (3.046, 3.046, (0.06,), (1.0,)), (3.046, 1.0, (0.06,), (1.0,)), (3.046, None, (0.06,), None), (2.0, 2.0, (0.06,), None),
    (None, None, (0.06,), None), (None, None, None, (3.0,)), (3.046, 0.00641, (0.06,), None), (3.046, 0.0, (0.1, 0.2, 0.3), None),
    # fractional degeneracies whose whole parts add up
    (2.046, 1.0, (0.06,), (1.5,)), (3.046, 1.0, (0.06,), (2.9,)), (3.046, 0.0, (0.1, 0.2), (1.5, 2.0)), (3.046, 0.0, (0.1, 0.2), (2.0, 1.1)),
]


def stored(dens, h, state, temp, nu, t_unit, flag=True):
    om, ol, ob, orad = dens
    d = {"H0 [internal units]": h * 1e5 / 3.0856775814913674e24 * t_unit, "Omega_m": om, "Omega_lambda": ol, "Omega_b": ob, "Omega_r": orad, "Omega_k": 1 - om - ol - orad, "w_0": state[0], "w_a": state[1], "h": h / 100, "Redshift": 1.0, "Scale-factor": 0.5}
    if flag is not None:
        d["Cosmological run"] = int(flag)
    if temp is not None:
        d["T_CMB_0 [K]"] = temp
    d = {k: np.array([v]) for k, v in d.items()}
    for k, v in zip(("N_eff", "N_ur", "M_nu_eV", "deg_nu"), nu):
        if v is not None:
            d[k] = np.array(v if isinstance(v, tuple) else [v], "f8")
    return d


def content(nu):
    """(number, masses of the species) the file states, and whether it must be representable"""
    n_eff, n_ur, m, deg = nu
    N = 3.04 if n_eff is None else n_eff
    masses = [] if m is None else list(m)
    if deg is None:
        degs = [1.0] * len(masses)
    else:
        degs = list(deg)
        if m is None:
            masses = [0.0] * len(degs)
    whole = all(float(d).is_integer() for d in degs)
    ur = (3.04 if n_ur is None else n_ur)
    ok = whole and int(N) == int(sum(degs)) + int(ur)
    # absent values where others are given leave the content open: it may be refused
    must = ok and (m is None) == (deg is None) and not (n_ur is None and m)
    species = sorted(sum(([x] * int(d) for x, d in zip(masses, degs)), []))
    return N, species, ok, must


def fermi(y):
    """energy density of a neutrino species of mass over temperature y, relative to a massless one"""
    x, w = fermi.nodes
    f = w * x**2 / (np.exp(x) + 1)
    return (f * np.sqrt(x**2 + y**2)).sum() / (f * x).sum()


_x, _w = np.polynomial.legendre.leggauss(120)
fermi.nodes = (_x + 1) * 25, _w * 25


def expected_E2(z, h, dens, state, T, N, species):
    om, ol, ob, _ = dens
    H = h * 1e5 / 3.0856775814913674e24
    crit = 3 * H * H / (8 * np.pi * G)
    og = A_RAD * T**4 / (C * C * crit)
    n = int(np.floor(N))
    per = N / n if n else 0.0
    nrel = lambda zz: 7 / 8 * (4 / 11) ** (4 / 3) * (N - per * len([m for m in species if m > 0]) + per * sum(fermi(m * EV / (K_B * TNU * T * (1 + zz))) for m in species if m > 0)) if T > 0 else 0.0
    ok = 1 - om - ol - og * (1 + nrel(0.0))
    a = 1 / (1 + z)
    de = ol * a ** (-3 * (1 + state[0] + state[1])) * np.exp(-3 * state[1] * (1 - a))
    return og * (1 + nrel(z)) * (1 + z) ** 4 + om * (1 + z) ** 3 + ok * (1 + z) ** 2 + de, crit, og


def close(x, y, tol):
    return abs(x - y) <= tol * max(abs(x), abs(y), 1e-300)


def check(ctx, c, combo, case, unit_tol=1e-9):
    dens, h, state, temp, nu = combo
    N, species, _, _ = content(nu)
    v = lambda q: float(getattr(q, "value", q))
    ctx.check(close(c.H0.to_value("km/(s*Mpc)"), h, unit_tol), "hubble", lambda: f"{case}: {c.H0} rather than {h}", case)
    for attr, want in (("Om0", dens[0]), ("Ode0", dens[1]), ("Ob0", dens[2]), ("w0", state[0]), ("wa", state[1]), ("Neff", N)):
        got = v(getattr(c, attr))
        ctx.check(abs(got - want) <= 1e-12, attr, lambda: f"{case}: {attr} is {got} rather than {want}", case)
    H = h * 1e5 / 3.0856775814913674e24
    crit = 3 * H * H / (8 * np.pi * G)
    if temp:
        T = temp
        ctx.check(v(c.Tcmb0) == temp, "temperature", lambda: f"{case}: {c.Tcmb0}", case)
    else:
        T = (dens[3] * crit * C * C / A_RAD) ** 0.25
        ctx.check(close(v(c.Ogamma0), dens[3], 1e-6 + 10 * unit_tol), "radiation-density", lambda: f"{case}: photons {c.Ogamma0} rather than {dens[3]}", case)
    ctx.check(close(v(c.Tcmb0.to_value("K")), T, 1e-4), "temperature", lambda: f"{case}: {c.Tcmb0} rather than {T}", case)
    if T > 0:
        m = [] if c.m_nu is None else sorted(np.atleast_1d(c.m_nu.to_value("eV")).tolist())
        want = sorted(species + [0.0] * (int(np.floor(N)) - len(species)))
        ctx.check(m == want or (c.m_nu is None and not want), "neutrino-masses", lambda: f"{case}: {m} rather than {want}", case)
    for z in (0.0, 1.0, 9.0, 1000.0):
        e2, crit_, og = expected_E2(z, h, dens, state, T, N, species)
        if e2 <= 0:
            continue
        ctx.step()
        got = float(c.efunc(z)) ** 2
        tol = 5e-3 if any(m > 0 for m in species) else 1e-3
        ctx.check(close(got, e2, tol if T else 1e-10), "expansion", lambda: f"{case}: E^2({z}) = {got} rather than {e2}", case)
        ctx.check(close(float(c.H(z).to_value("1/s")) ** 2, got * H * H, 1e-8 + 3 * unit_tol), "expansion-rate", lambda: f"{case}: H({z})", case)
        ctx.check(close(float(c.critical_density(z).to_value("g/cm**3")), got * crit_, 1e-4 + 3 * unit_tol), "critical-density", lambda: f"{case}: {c.critical_density(z)} rather than {got * crit_}", case)
    ctx.check(close(v(c.Ogamma0), og, 1e-3), "photons", lambda: f"{case}: {c.Ogamma0} rather than {og}", case)


def convert(ctx, item):
    path = os.path.join(ctx.scratch, f"u{os.getpid()}.hdf5")
    units = []
    for s in SYSTEMS:
        if os.path.exists(path):
            os.remove(path)
        with h5py.File(path, "w") as hf:
            write_units(hf, **s)
        units.append(sw.SWIFTUnits(path))
    for i, combo in item:
        dens, h, state, temp, nu = combo
        k = i % len(SYSTEMS)
        case = dict(densities=dens, H0=h, w=state, T=temp, neutrinos=nu, system=k)
        ctx.trace()
        ctx.state(combo)
        d = stored(dens, h, state, temp, nu, float(units[k].time.to_value("s")))
        keep = {a: b.copy() for a, b in d.items()}
        N, species, ok, must = content(nu)
        try:
            c = swift_cosmology_to_astropy(d, units[k])
        except AttributeError as e:
            ctx.check(not must and "cosmological model" in str(e), "refused", lambda: f"{case}: {e}", case)
            ctx.count("refused")
            continue
        except Exception as e:
            ctx.unexpected(e, case)
            continue
        ctx.check(ok, "accepted", lambda: f"{case}: a neutrino content that cannot be represented is accepted as {c}", case)
        if ok:
            with ctx.guard(case):
                check(ctx, c, combo, case)
        ctx.check(set(d) == set(keep) and all(np.array_equal(d[a], keep[a]) for a in d), "parameters-changed", lambda: f"{case}", case)


def files(ctx, item):
    """through files: the run flag in each form, other groups absent, each file type, two files at a time"""
    prev = None
    for i, (combo, flag, out, form) in item:
        dens, h, state, temp, nu = combo
        k = i % len(SYSTEMS)
        path = os.path.join(ctx.scratch, f"f{os.getpid()}-{i % 2}.hdf5")
        if os.path.exists(path):
            os.remove(path)
        with h5py.File(path, "w") as hf:
            write_header(hf, box=(1, 1, 1), numpart=[3] + [0] * 6, a=0.5, out=out, extra={"NumSubhalos_ThisFile": np.array([3]), "NumGroup_ThisFile": np.array([3]), "SubhaloTypes": np.array(["SO/200_crit"], dtype=h5py.string_dtype())})
            write_units(hf, **SYSTEMS[k])
            g = {b"FullVolume": "PartType0", b"LineOfSight": "LOS_0000", b"SOAP": "SO/200_crit", b"FOF": "Groups"}[out]
            write_field(hf.create_group(g), "Masses", F(np.arange(3.0), M=1))
            if form != "no group":
                c = hf.create_group("Cosmology")
                for a, v in stored(dens, h, state, temp, nu, SYSTEMS[k]["t"], flag).items():
                    c.attrs[a] = v if form == "array" or a != "Cosmological run" else v[0]
        case = dict(densities=dens, H0=h, w=state, T=temp, neutrinos=nu, system=k, flag=flag, type=out.decode(), form=form)
        ctx.trace()
        ctx.step()
        ctx.state(i)
        with ctx.guard(case):
            m = sw.load(path).metadata
            if form == "no group" or not flag:
                ctx.check(m.cosmology is None, "not-cosmological", lambda: f"{case}: {m.cosmology}", case)
                ctx.check((m.cosmology_raw is None) == (form == "no group"), "raw", lambda: f"{case}: {m.cosmology_raw}", case)
            elif ctx.check(m.cosmology is not None, "cosmological", lambda: f"{case}: no cosmology", case):
                # (the reader rounds the time unit to five figures)
                check(ctx, m.cosmology, combo, case, 1e-4)
                if prev is not None:
                    check(ctx, *prev, 1e-4)
                prev = m.cosmology, combo, case


def run(ctx):
    hs = HUBBLE if ctx.thorough else HUBBLE[:2]
    combos = list(itertools.product(DENS, hs, STATE, TEMP, NU))
    if not ctx.thorough:
        # every pair of values of any two of the five parameters is met: the neutrino content with each of the others in full, the rest on a diagonal
        combos = [c for j, c in enumerate(combos) if (DENS.index(c[0]) + hs.index(c[1]) + STATE.index(c[2]) + TEMP.index(c[3])) % 2 == 0]
    # single usual values and all pairs of far ones
    usual = [DENS[2], 67.74, STATE[1], 2.7255, NU[1]]
    for i, j in itertools.combinations(range(5), 2):
        ends = [[DENS, hs, STATE, TEMP, NU][k] if ctx.thorough else [usual[k]] for k in (i, j)]
        for a, b in itertools.product(FAR[i] + ends[0], FAR[j] + ends[1]):
            combos.append(tuple(a if k == i else b if k == j else usual[k] for k in range(5)))
    c = list(enumerate(combos))
    jobs = [("convert", c[i::16]) for i in range(16)]
    fine = [nu for nu in NU if content(nu)[3]]
    base = [(DENS[2], 67.74, STATE[1], t, nu) for t in TEMP for nu in fine] + [(d, h, s, 2.7255, fine[0]) for d in DENS for h in HUBBLE for s in STATE]
    fl = [(b, 1, out, "array") for b in base for out in (b"FullVolume", b"LineOfSight", b"SOAP", b"FOF")]
    fl += [(base[j % len(base)], flag, out, form) for j, (flag, out, form) in enumerate(itertools.product((0, 1, None), (b"FullVolume", b"LineOfSight", b"SOAP", b"FOF"), ("array", "scalar", "no group")))]
    c = list(enumerate(fl))
    jobs += [("files", c[i::16]) for i in range(16)]
    ctx.pmap(dispatch, jobs)


def dispatch(ctx, job):
    globals()[job[0]](ctx, job[1])
