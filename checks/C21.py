"""C21: metadata is decoded to what the file says, for every file type and combination of attributes."""

import itertools
import os
from pathlib import Path
import shutil
import warnings
from datetime import datetime

import h5py
import numpy as np
import unyt

import swiftsimio as sw
from swiftsimio.metadata import objects as mo
from swiftsimio.objects import cosmo_array, cosmo_quantity
from mc.snap import F, GYRISH, MPC, MSUN10, write_field, write_units

META = dict(
    level="model_checking",
    explanation="Bounded exhaustive enumeration of the attributes of a field (unit exponents, scale-factor exponent, state, convertibility, description, mask, compression, each "
    "present, absent and in each storage form), of the header (type, counts, box, times, tables, strings, dates, each present, absent and in each storage form), of the tables of "
    "named columns, maps and scheme groups, of subsets of particle types, sightlines, overdensity groups and of unit systems, loaded with the real reader and compared with the "
    "attributes written; and of every ordered pair and alternation of differing files, to show that no file's or field's values reach another.",
    assumptions=["unit sizes are rounded to five significant figures by the reader, as documented"],
)
NAMES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
CGS = dict(L=("cm", "length"), M=("g", "mass"), t=("s", "time"), I=("A", "current"), T=("K", "temperature"))
SYSTEMS = [
    dict(L=MPC, M=MSUN10, t=GYRISH, I=1.0, T=1.0), dict(L=1.0, M=1.0, t=1.0, I=1.0, T=1.0), dict(L=1e2, M=1e3, t=1.0, I=2.0, T=1.5), dict(L=3.0856e21, M=1.9884e33, t=3.1557e13, I=1.0, T=10.0),
    dict(L=6.3781e8, M=5.9724e27, t=1.0, I=1.0, T=1.0), dict(L=1.5e13, M=2.5e30, t=4.5e7, I=3e-3, T=0.25), dict(L=9.2570e24, M=7e40, t=9.9e16, I=1e5, T=1e4), dict(L=4e5, M=8e20, t=6e9, I=1.0, T=1e-3),
]


# ---------------------------------------------------------------- fields
EXPS = [dict(), dict(L=1), dict(M=1), dict(t=1), dict(T=1), dict(I=1), dict(L=1, t=-1), dict(M=1, L=-3), dict(L=2, t=-2), dict(M=1, L=2, t=-2), dict(L=-2, t=1, I=0.5), dict(T=-1.5, M=0.5),
        dict(M=1, t=-2, I=-1), dict(M=1, L=-1, t=-2, T=1, I=2), dict(L=1 / 3)]
AEXP = [None, 0.0, 1.0, -3.0, -1.5, 2.0 / 3.0]
PHYS = [None, 0, 1]
CONV = [None, 0, 1]
DESC = [None, "b", "s"]
MASK = [None, False, ("M/A",), ("M/A", "M/B"), ["M/C"]]  # (the last is stated but not in force)
COMP = [(None, None), (None, "b"), (True, "s"), (True, None), (False, None), (False, "b")]
DTYPES = ["f4", "f8", "i4", "i8", "u8", ">f8"]


def field_case(i, combo):
    a, phys, conv, desc, mask, comp = combo
    name = f"Field{i}Of" + "ABCDEFGH"[i % 8]
    return dict(i=i, name=name, exps=EXPS[(i * 7 + i // len(EXPS)) % len(EXPS)], a=a, phys=phys, conv=conv, desc=desc, mask=mask, comp=comp, dtype=DTYPES[(i // 3) % len(DTYPES)])


def write_case(g, c):
    ds = g.create_dataset(c["name"], data=np.array([1, 2, 3], dtype=c["dtype"]) + c["i"] % 100)
    for k in "ILMTt":
        ds.attrs[f"U_{k} exponent"] = np.array([float(c["exps"].get(k, 0))])
    put = ds.attrs.__setitem__
    if c["a"] is not None:
        put("a-scale exponent", np.array([c["a"]]))
    if c["phys"] is not None:
        put("Value stored as physical", np.array([c["phys"]], "i4"))
    if c["conv"] is not None:
        put("Property can be converted to comoving", np.array([c["conv"]], "i4"))
    text = f"What field {c['i']} is (ä)."
    if c["desc"] is not None:
        put("Description", text if c["desc"] == "s" else np.bytes_(text.encode()))
    if c["mask"] is not None:
        put("Masked", isinstance(c["mask"], tuple))
        if c["mask"]:
            put("Mask Datasets", list(c["mask"]))
            put("Mask Threshold", 10 + c["i"])
    is_c, filt = c["comp"]
    if is_c is not None:
        put("Is Compressed", is_c)
    if filt is not None:
        put("Lossy compression filter", f"Filter{c['i']}" if filt == "s" else np.bytes_(f"Filter{c['i']}"))


def size(system, exps):
    v, d = 1.0, unyt.dimensionless
    for k, e in exps.items():
        v *= system[k] ** e
        d = d * unyt.Unit(CGS[k][0]) ** e
    return v, d


def check_units(ctx, x, system, exps, case, key="units"):
    v, d = size(system, exps)
    got = x.units
    ok = got.dimensions == d.dimensions and abs(float(got.base_value) / (v * float(d.base_value)) - 1) < 1e-4 * (1 + sum(abs(e) for e in exps.values()))
    ctx.check(ok, key, lambda: f"{case}: {got} ({float(got.base_value)}, {got.dimensions}) rather than {v} {d}", case)


def check_field(ctx, x, c, system, scale, case):
    case = dict(case, field=c["name"], **{k: c[k] for k in ("exps", "a", "phys", "conv", "desc", "mask", "comp")})
    if not ctx.check(isinstance(x, cosmo_array), "field-type", lambda: f"{case}: {type(x)}", case):
        return
    ctx.check(np.asarray(x).tolist() == (np.array([1, 2, 3]) + c["i"] % 100).tolist() and np.asarray(x).dtype == np.dtype(c["dtype"]).newbyteorder("=") or np.asarray(x).dtype == np.dtype(c["dtype"]),
              "field-values", lambda: f"{case}: {np.asarray(x)!r}", case)
    check_units(ctx, x, system, c["exps"], case, "field-units")
    want = 0.0 if c["a"] is None else c["a"]
    ctx.check(abs(float(x.cosmo_factor.a_factor) - scale**want) <= 1e-12 * scale**want and x.cosmo_factor.scale_factor == scale, "field-exponent", lambda: f"{case}: {x.cosmo_factor} rather than exponent {want} at {scale}", case)
    ctx.check(bool(x.comoving) == (c["phys"] != 1), "field-state", lambda: f"{case}: comoving={x.comoving}", case)
    ctx.check(bool(x.valid_transform) == (c["conv"] != 0), "field-convertible", lambda: f"{case}: valid_transform={x.valid_transform}", case)
    text = "No description available." if c["desc"] is None else f"What field {c['i']} is (ä)."
    mask = "Not masked." if not isinstance(c["mask"], tuple) else f"Only computed for objects where {' + '.join(c['mask'])} >= {10 + c['i']}."
    ctx.check(x.name == f"{text} {mask}", "field-description", lambda: f"{case}: {x.name!r}", case)
    is_c, filt = c["comp"]
    comp = "Not compressed." if is_c is False else ("No compression info available" if filt is None else f"Filter{c['i']}")
    ctx.check(x.compression == comp, "field-compression", lambda: f"{case}: {x.compression!r} rather than {comp!r}", case)


def snake(name):
    """an underscore goes before a capital that follows a small letter or digit"""
    out = ""
    for i, ch in enumerate(name):
        if "A" <= ch <= "Z" and i and (name[i - 1].isdigit() or "a" <= name[i - 1] <= "z"):
            out += "_"
        out += ch.lower()
    return out


def header(h, *, box=(1.0, 2.0, 3.0), n=(3, 0, 0, 0, 0, 0, 0), a=0.5, out="b:FullVolume", extra=None, drop=()):
    g = h.create_group("Header")
    at = {"BoxSize": np.array(box), "NumPart_ThisFile": np.array(n, "i8"), "NumFilesPerSnapshot": np.array([1], "i4"), "Dimension": np.array([3], "i4"), "Redshift": np.array([1 / a - 1]),
          "Scale-factor": np.array([a]), "Time": np.array([0.25])}
    if out is not None:
        at["OutputType"] = text(out)
    at.update(extra or {})
    for k, v in at.items():
        if k not in drop and v is not None:
            g.attrs[k] = v


def cells(h, **counts):
    """one cell holding everything"""
    c = h.create_group("Cells")
    c.create_dataset("Centres", data=np.array([[0.5, 1.0, 1.5]]))
    for k, n in counts.items():
        c.create_dataset(f"Counts/{k}", data=np.array([n]))
        c.create_dataset(f"OffsetsInFile/{k}", data=np.array([0]))
        c.create_dataset(f"Files/{k}", data=np.array([0], "i4"))
    g = c.create_group("Meta-data")
    g.attrs["size"], g.attrs["dimension"], g.attrs["nr_cells"] = np.array([1.0, 2.0, 3.0]), np.array([1, 1, 1], "i4"), np.array([1], "i4")


def text(s):
    return np.bytes_(s[2:].encode()) if s[0] == "b" else s[2:]


def fields(ctx, item):
    """item: list of (file, [(index, combination)...])"""
    for fi, combos in item:
        system, scale = SYSTEMS[fi % len(SYSTEMS)], (0.5, 1.0, 0.125, 1 / 3)[fi % 4]
        cases = [field_case(i, combo) for i, combo in combos]
        path = os.path.join(ctx.scratch, f"f{os.getpid()}-{fi}.hdf5")
        with h5py.File(path, "w") as h:
            header(h, a=scale)
            write_units(h, **system)
            g = h.create_group("PartType0")
            for c in cases:
                write_case(g, c)
            cells(h, PartType0=3)
        ctx.trace()
        case = dict(kind="field", file=fi)
        with ctx.guard(case):
            d = sw.load(path)
            ctx.check(sorted(d.metadata.gas_properties.field_names) == sorted(snake(c["name"]) for c in cases), "field-names", lambda: f"{case}: {d.metadata.gas_properties.field_names}", case)
            ctx.check(sorted(d.metadata.gas_properties.field_paths) == sorted(f"PartType0/{c['name']}" for c in cases), "field-paths", case=case, msg="")
            # forwards and, from another load, backwards: no field's attributes reach the next
            for x, order in ((d, cases), (sw.load(path), cases[::-1]), (sw.load(path, mask=sw.mask(path)), cases)):
                for c in order:
                    ctx.step()
                    ctx.state("field", c["i"])
                    with ctx.guard(dict(case, field=c["name"])):
                        check_field(ctx, getattr(x.gas, snake(c["name"])), c, system, scale, case)
        os.remove(path)


# ---------------------------------------------------------------- headers
def options(tier):
    """header entries with the forms each can take: name -> list of (stored value or None, checker)"""
    o = {}
    o["Time"] = [np.array([0.25]), None, np.array([3e-5], "f4")]
    o["Redshift"] = [np.array([1.0]), None, np.array([0.0])]
    o["Scale-factor"] = [np.array([0.5]), None, np.array([1.0])]
    o["Dimension"] = [np.array([3], "i4"), None, np.array([2], "i4")]
    o["BoxSize"] = [np.array([1.0, 2.0, 3.0]), 4.5, np.array([2.5])]
    o["NumFilesPerSnapshot"] = [np.array([1], "i4"), np.array([4], "i4"), np.array([16], "i4")]
    o["MassTable"] = [None, np.arange(8) / 2.0, np.arange(1.0, 7.0)]
    o["InitialMassTable"] = [None, np.arange(8) / 4.0, np.arange(3.0, 10.0)]
    o["CanHaveTypes"] = [None, "same", "more"]
    o["RunName"] = [None, "b:a run é", "s:Another Run é"]
    o["SelectOutput"] = [None, "b:Default", "s:Snipshot"]
    o["System"] = [None, "b:machine", "s:host.local"]
    o["SnapshotDate"] = [None, "b:12:34:56 2020-01-02 UTC", "s:23:59:01 1999-12-31 GMT", "b:Thu Jan  2 12:34:56 2020\n", "s:yesterday", "b:not a date"]
    o["Snapshot date"] = [None, "b:01:02:03 2021-03-04 UTC", "s:01:02:04 2021-03-04 UTC"]
    return o


TYPES = [None, "b:FullVolume", "s:FullVolume", "b:VolumeSubset", "s:VolumeSubset", "b:LineOfSight", "s:LineOfSight", "b:SOAP", "s:SOAP", "b:SOAPSubset", "s:SOAPSubset", "b:FOF", "s:FOF", "b:FOFSubset", "s:FOFSubset"]
KINDS = dict(FullVolume="SWIFTSnapshotMetadata", VolumeSubset="SWIFTSnapshotMetadata", LineOfSight="SWIFTLineOfSightMetadata", SOAP="SWIFTSOAPMetadata", SOAPSubset="SWIFTSOAPMetadata", FOF="SWIFTFOFMetadata", FOFSubset="SWIFTFOFMetadata")
FLAGS = dict(SWIFTSnapshotMetadata=(True, None, False), SWIFTLineOfSightMetadata=(False, None, False), SWIFTSOAPMetadata=(True, "Subhalos", True), SWIFTFOFMetadata=(False, None, True))


def build(path, cfg, system):
    """a file of any type from a configuration of header entries"""
    kind = KINDS[(cfg["OutputType"] or "b:FullVolume")[2:]]
    n = cfg.get("n", (3, 0, 0, 0, 2, 0, 0))
    extra = {}
    for k, v in cfg.items():
        if k in ("OutputType", "n", "CanHaveTypes"):
            continue
        extra[k] = text(v) if isinstance(v, str) else v
    if cfg.get("CanHaveTypes") == "same":
        extra["CanHaveTypes"] = (np.array(n) > 0).astype("i4")
    elif cfg.get("CanHaveTypes") == "more":
        extra["CanHaveTypes"] = np.array([1, 1, 0, 0, 1, 0, 0, 0], "i4")
    if kind == "SWIFTSOAPMetadata":
        extra["NumSubhalos_ThisFile"] = np.array([3], "i8")
        extra["SubhaloTypes"] = np.array(["SO/200_crit", "InputHalos", "BoundSubhalo"], dtype=h5py.string_dtype())
    if kind == "SWIFTFOFMetadata":
        extra["NumGroup_ThisFile"] = np.array([3], "i8")
    with h5py.File(path, "w") as h:
        header(h, n=n, out=cfg["OutputType"], extra=extra, drop=[k for k, v in extra.items() if v is None])
        write_units(h, **system)
        groups = groups_of(cfg)
        for k, g in enumerate(groups):
            write_field(h.require_group(g), "Masses", F(np.arange(3.0) + k, M=1))
        if kind == "SWIFTSOAPMetadata":
            h.create_group("Other/Nested")
    return kind


def groups_of(cfg):
    kind = KINDS[(cfg["OutputType"] or "b:FullVolume")[2:]]
    n = cfg.get("n", (3, 0, 0, 0, 2, 0, 0))
    if kind == "SWIFTSOAPMetadata":
        return ["SO/200_crit", "InputHalos", "BoundSubhalo"]
    if kind == "SWIFTFOFMetadata":
        return ["Groups"]
    if kind == "SWIFTLineOfSightMetadata":
        return ["LOS_0000", "LOS_0003"]
    have = [1, 1, 0, 0, 1, 0, 0, 0] if cfg.get("CanHaveTypes") == "more" else n
    return [f"PartType{i}" for i, v in enumerate(have) if v]


GROUPNAME = {"SO/200_crit": "spherical_overdensity_200_crit", "InputHalos": "input_halos", "BoundSubhalo": "bound_subhalo", "Groups": "fof_groups", "LOS_0000": "los_0000", "LOS_0003": "los_0003"}
GROUPNAME.update({f"PartType{i}": n for i, n in enumerate(NAMES)})


def date_of(cfg):
    v = cfg.get("SnapshotDate") or cfg.get("Snapshot date")
    if v is None:
        return ""
    v = v[2:]
    return {"12:34:56 2020-01-02 UTC": datetime(2020, 1, 2, 12, 34, 56), "23:59:01 1999-12-31 GMT": datetime(1999, 12, 31, 23, 59, 1), "Thu Jan  2 12:34:56 2020\n": datetime(2020, 1, 2, 12, 34, 56),
            "01:02:03 2021-03-04 UTC": datetime(2021, 3, 4, 1, 2, 3), "01:02:04 2021-03-04 UTC": datetime(2021, 3, 4, 1, 2, 4)}.get(v, v)


def check_header(ctx, m, cfg, kind, system, case):
    A = 0.5
    ctx.check(type(m).__name__ == kind, "file-type", lambda: f"{case}: {type(m).__name__} rather than {kind}", case)
    ctx.check((m.masking_valid, m.shared_cell_counts, m.homogeneous_arrays) == FLAGS[kind], "file-type-flags", lambda: f"{case}: {(m.masking_valid, m.shared_cell_counts, m.homogeneous_arrays)}", case)
    out = cfg["OutputType"]
    ctx.check(m.output_type == ("" if out is None else out[2:]), "output-type", lambda: f"{case}: {m.output_type!r}", case)
    v = cfg.get("Scale-factor", np.array([A]))
    scale = 1.0 if v is None else float(v[0])
    ctx.check(m.scale_factor == scale and m.a == scale, "scale-factor", lambda: f"{case}: {m.scale_factor}, {m.a}", case)
    v = cfg.get("Redshift", np.array([1 / A - 1]))
    got = getattr(m, "redshift", None), getattr(m, "z", None)
    ctx.check(got == ((None, None) if v is None else (v[0], v[0])), "redshift", lambda: f"{case}: {got}", case)
    v = cfg.get("Time", np.array([0.25]))
    got = getattr(m, "time", None), getattr(m, "t", None)
    if v is None:
        ctx.check(got == (None, None), "time", lambda: f"{case}: {got}", case)
    elif ctx.check(all(isinstance(g, unyt.unyt_quantity) and float(g.value) == float(v[0]) for g in got), "time", lambda: f"{case}: {got}", case):
        for g in got:
            check_units(ctx, g, system, dict(t=1), case, "time-units")
    v = cfg.get("Dimension", np.array([3]))
    ctx.check(getattr(m, "dimension", None) == (None if v is None else v[0]), "dimension", lambda: f"{case}: {getattr(m, 'dimension', None)}", case)
    v = cfg.get("BoxSize", np.array([1.0, 2.0, 3.0]))
    b = m.boxsize
    ok = isinstance(b, cosmo_array if isinstance(v, np.ndarray) else cosmo_quantity) and np.asarray(b).tolist() == np.asarray(v).tolist() and b.comoving is True and b.cosmo_factor.scale_factor == scale and b.cosmo_factor.a_factor == scale and b.valid_transform
    ctx.check(ok, "boxsize", lambda: f"{case}: {b!r}", case)
    check_units(ctx, b, system, dict(L=1), case, "boxsize-units")
    n = cfg.get("n", (3, 0, 0, 0, 2, 0, 0))
    ctx.check(np.asarray(m.num_part).tolist() == list(n), "counts", lambda: f"{case}: {m.num_part}", case)
    for i, name in enumerate(NAMES):
        ctx.check(int(getattr(m, f"n_{name}")) == (n[i] if i < len(n) else 0), "count-of-type", lambda: f"{case}: {name} {getattr(m, f'n_{name}')}", case)
    nf = cfg.get("NumFilesPerSnapshot", np.array([1]))
    ctx.check(m.num_files_per_snapshot == nf, "files", lambda: f"{case}", case)
    if kind in ("SWIFTSnapshotMetadata", "SWIFTLineOfSightMetadata"):
        ctx.check(bool(m.partial_snapshot) == (nf[0] > 1), "partial", lambda: f"{case}: {m.partial_snapshot}", case)
    for key, attr in (("MassTable", "mass_table"), ("InitialMassTable", "initial_mass_table")):
        v = cfg.get(key)
        for i, name in enumerate(NAMES):
            want = 0.0 if v is None else (v[i] if i < len(v) else None)
            q = getattr(getattr(m, attr), name)
            ctx.check(q is None if want is None else float(q.value) == want, "mass-table", lambda: f"{case}: {key} {name} {q} rather than {want}", case)
            if q is not None and want is not None:
                check_units(ctx, q, system, dict(M=1), case, "mass-table-units")
    for key, attr in (("RunName", "run_name"), ("SelectOutput", "select_output"), ("System", "system_name")):
        v = cfg.get(key)
        ctx.check(getattr(m, attr) == ("" if v is None else v[2:]), "string", lambda: f"{case}: {attr} {getattr(m, attr)!r}", case)
    ctx.check(m.snapshot_date == date_of(cfg), "date", lambda: f"{case}: {m.snapshot_date!r} rather than {date_of(cfg)!r}", case)
    groups = sorted(groups_of(cfg))
    ctx.check(sorted(m.present_groups) == groups, "groups", lambda: f"{case}: {m.present_groups} rather than {groups}", case)
    ctx.check([GROUPNAME[g] for g in m.present_groups] == list(m.present_group_names), "group-names", lambda: f"{case}: {m.present_group_names}", case)
    for g in groups:
        p = getattr(m, f"{GROUPNAME[g]}_properties", None)
        ctx.check(p is not None and p.group == g and p.field_names == ["masses"] and p.field_paths == [f"{g}/Masses"], "group-properties", lambda: f"{case}: {g} {p!r}", case)
    if kind == "SWIFTSOAPMetadata":
        ctx.check(m.n_subhalos == 3, "subhalos", lambda: f"{case}: {m.n_subhalos}", case)
    if kind == "SWIFTFOFMetadata":
        ctx.check(m.num_group == 3, "groups-count", lambda: f"{case}: {m.num_group}", case)
    # absent groups of the file
    for attr in ("photon_group_edges", "reduced_lightspeed", "gas_gamma", "cosmology", "cosmology_raw", "code", "gravity_scheme", "hydro_scheme", "parameters", "policy", "runtime_pars", "subgrid_scheme", "stars_scheme", "unused_parameters", "internal_code_units"):
        ctx.check(getattr(m, attr) is None, "absent", lambda: f"{case}: {attr} is {getattr(m, attr)!r}", case)


def check_groups(ctx, d, cfg, system, scale, case):
    for k, g in enumerate(groups_of(cfg)):
        x = getattr(d, GROUPNAME[g]).masses
        ctx.check(np.asarray(x).tolist() == [k, k + 1.0, k + 2.0] and x.comoving is True and x.cosmo_factor.scale_factor == scale, "group-values", lambda: f"{case}: {g} {x!r}", case)
        check_units(ctx, x, system, dict(M=1), case, "group-units")
    ctx.check(all(hasattr(d, GROUPNAME[g]) == (g in groups_of(cfg)) for g in GROUPNAME), "group-attributes", lambda: f"{case}: {[g for g in GROUPNAME if hasattr(d, GROUPNAME[g])]}", case)


def headers(ctx, item):
    for i, cfg in item:
        system = SYSTEMS[i % len(SYSTEMS)]
        path = os.path.join(ctx.scratch, f"h{os.getpid()}.hdf5")
        if os.path.exists(path):
            os.remove(path)
        kind = build(path, cfg, system)
        case = dict(kind="header", system=i % len(SYSTEMS), cfg={k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in cfg.items()})
        ctx.trace()
        ctx.step()
        ctx.state("header", repr(cfg))
        with ctx.guard(case), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = sw.load(path)
            check_header(ctx, d.metadata, cfg, kind, system, case)
            check_groups(ctx, d, cfg, system, d.metadata.scale_factor, case)
            for k, (u, dim) in CGS.items():
                check_units(ctx, getattr(d.units, dim), system, {k: 1}, case, "unit-system") if getattr(d.units, dim).value == 1 else ctx.check(
                    abs(float(getattr(d.units, dim).to_value(u)) / system[k] - 1) < 1e-4, "unit-system", lambda: f"{case}: {dim} {getattr(d.units, dim)} rather than {system[k]}", case)
            m = getattr(mo, kind)(path)
            check_header(ctx, m, cfg, kind, system, dict(case, direct=True))
            with h5py.File(path, "r") as h:
                check_header(ctx, sw.load(h).metadata, cfg, kind, system, dict(case, handle=True))
            # types that can be masked can, others say so
            if kind in ("SWIFTFOFMetadata", "SWIFTLineOfSightMetadata"):
                try:
                    sw.mask(path)
                    ctx.fail("masked", f"{case}: a mask of a file that cannot be masked", case)
                except NotImplementedError:
                    pass


def unknown(ctx, item):
    path = os.path.join(ctx.scratch, f"u{os.getpid()}.hdf5")
    for name in item:
        if os.path.exists(path):
            os.remove(path)
        with h5py.File(path, "w") as h:
            header(h, out=name)
            write_units(h)
            write_field(h.create_group("PartType0"), "Masses", F(np.arange(3.0), M=1))
        case = dict(kind="unknown", type=name)
        ctx.trace()
        ctx.step()
        ctx.state("unknown", name)
        try:
            m = sw.load(path).metadata
            ctx.fail("unknown-type", f"{case}: loaded as {type(m).__name__}", case)
        except ValueError:
            pass
        except Exception as e:
            ctx.unexpected(e, case)


def recognised(ctx, item):
    """a file is recognised by the code that wrote it, whatever else it holds"""
    path = os.path.join(ctx.scratch, f"r{os.getpid()}.hdf5")
    for code, rest, how in item:
        if os.path.exists(path):
            os.remove(path)
        with h5py.File(path, "w") as h:
            if rest:
                header(h)
                write_units(h)
            if code != "no group":
                g = h.create_group("Code")
                if code is not None:
                    g.attrs["Code"] = np.bytes_(code)
                g.attrs["Code Version"] = np.bytes_(b"SWIFT")
            else:
                h.attrs["Code"] = np.bytes_(b"SWIFT")
        case = dict(kind="recognised", code=str(code), rest=rest, how=how)
        ctx.trace()
        ctx.step()
        ctx.state("recognised", str(code), rest, how)
        handle = h5py.File(path, "r") if how == "handle" else None
        try:
            got = sw.validate_file(handle if handle is not None else path if how == "text" else Path(path))
        except IOError as e:
            got = "SWIFT" in str(e) and "refused"
        except Exception as e:
            ctx.unexpected(e, case)
            continue
        finally:
            if handle is not None:
                ctx.check(bool(handle), "recognised-handle", lambda: f"{case}: the caller's file is closed", case)
                handle.close()
        ctx.check(got == (True if code == b"SWIFT" else "refused"), "recognised", lambda: f"{case}: {got!r}", case)


# ---------------------------------------------------------------- named columns, maps, schemes
COLUMNS = [("Carbon", "Oxygen", "Iron"), ("HI", "HeII", "CIV"), ("H", "He", "e"), ("Graphite", "MgSilicates"), ("carbon", "oxygen"), ("Graphite", "Silicates"), ("elec", "HI", "HII", "Hm"), ("GAMA_u", "GAMA_g"), ("A", "B", "CC")]


def case_of(names):
    caps = sum(sum(c.isupper() for c in n) for n in names) / len(names)
    return [n.lower() for n in names] if caps < 1.01 else list(names)


def columns(ctx, item):
    path = os.path.join(ctx.scratch, f"c{os.getpid()}.hdf5")
    for i, (ca, cb, mapping, grain) in item:
        if os.path.exists(path):
            os.remove(path)
        A, B = COLUMNS[ca], COLUMNS[cb]
        scale = 0.25
        data = np.arange(len(A) * len(B)).reshape(len(A), len(B)) + 0.5
        with h5py.File(path, "w") as h:
            header(h, n=(4, 3, 0, 0, 0, 0, 0), a=scale)
            write_units(h)
            g0, g1 = h.create_group("PartType0"), h.create_group("PartType1")
            for k, (g, rows) in enumerate(((g0, 4), (g1, 3))):
                write_field(g, "DustMassFractions", F(np.arange(rows * len(A)).reshape(rows, len(A)) + 100.0 * k, M=k, a=1, physical=k, desc=f"dust {k}"))
                write_field(g, "ElementMassFractions", F(np.arange(rows * len(B)).reshape(rows, len(B)) + 1000.0 * k, L=1, a=-2, desc=f"elements {k}"))
                write_field(g, "Masses", F(np.arange(float(rows)), M=1))
            s = h.create_group("SubgridScheme")
            nc = s.create_group("NamedColumns")
            nc.create_dataset("DustMassFractions", data=np.array([n.encode() for n in A]))
            nc.create_dataset("ElementMassFractions", data=np.array([n.encode() for n in B]))
            nc.create_dataset("AnElementOfDustGrains", data=np.array([b"One", b"Two"]))
            nc.create_dataset("SpeciesFractions", data=np.array([b"HI", b"Element", b"Dust"]))
            if mapping:
                s.create_dataset(f"{'Grain' if grain else 'Dust'}ToElementMapping", data=data)
                s.create_dataset("ElementToDustMapping", data=-data.T)
                s.create_dataset("SomethingElse", data=np.zeros(2))
            if i % 2:
                s.create_dataset("PhotonGroupEdges", data=np.array([1.0, 2.0, 3.5]) + i)
                s.create_dataset("ReducedLightspeed", data=np.array([7.0 + i]))
            cells(h, PartType0=4, PartType1=3)
        case = dict(kind="columns", names=[A, B], mapping=mapping, grain=grain)
        ctx.trace()
        ctx.step()
        ctx.state("columns", ca, cb, mapping, grain)
        with ctx.guard(case), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            d = sw.load(path)
            m = d.metadata
            if mapping and grain:
                ctx.check(any(issubclass(v.category, DeprecationWarning) and "Grain" in str(v.message) for v in w), "grain-warning", lambda: f"{case}", case)
            ctx.check(m.named_columns == {"DustMassFractions": list(A), "ElementMassFractions": list(B), "AnElementOfDustGrains": ["One", "Two"], "SpeciesFractions": ["HI", "Element", "Dust"]}, "named-columns", lambda: f"{case}: {m.named_columns}", case)
            e = sw.load(path, mask=sw.mask(path))
            for (x, k, g, rows) in ((d, 0, "gas", 4), (d, 1, "dark_matter", 3), (e, 0, "gas", 4), (e, 1, "dark_matter", 3)):
                p = getattr(m, f"{g}_properties")
                ctx.check(p.named_columns == {f"PartType{k}/DustMassFractions": case_of(A), f"PartType{k}/ElementMassFractions": case_of(B), f"PartType{k}/Masses": None}, "named-columns-of-group",
                          lambda: f"{case}: {p.named_columns}", case)
                for field, names, off, exps, phys, aexp, desc in (("dust_mass_fractions", A, 100.0 * k, dict(M=k) if k else {}, k, 1, f"dust {k}"), ("element_mass_fractions", B, 1000.0 * k, dict(L=1), 0, -2, f"elements {k}")):
                    f = getattr(getattr(x, g), field)
                    ctx.check(list(f.named_columns) == case_of(names), "columns-listed", lambda: f"{case}: {f.named_columns}", case)
                    for j, col in enumerate(case_of(names)):
                        v = getattr(f, col)
                        cc = dict(case, group=g, field=field, column=col)
                        want = (np.arange(rows * len(names)).reshape(rows, len(names)) + off)[:, j].tolist()
                        ctx.check(isinstance(v, cosmo_array) and np.asarray(v).tolist() == want, "column-values", lambda: f"{cc}: {v!r} rather than {want}", cc)
                        check_units(ctx, v, SYSTEMS[0], exps, cc, "column-units")
                        ctx.check(bool(v.comoving) == (not phys) and v.cosmo_factor.a_factor == scale**aexp, "column-frame", lambda: f"{cc}: {v!r}", cc)
                        ctx.check(v.name == f"{desc} Not masked. [Column {j}, {col}]", "column-description", lambda: f"{cc}: {v.name!r}", cc)
            maps = {"element_to_dust_mapping": (-data.T, B, A, "Element", "Dust"), f"{'grain' if grain else 'dust'}_to_element_mapping": (data, A, B, "Dust", "Element")} if mapping else {}
            for name in ("element_to_dust_mapping", "dust_to_element_mapping", "grain_to_element_mapping"):
                ctx.check(hasattr(m, name) == (name in maps), "mapping-present", lambda: f"{case}: {name}", case)
            for name, (dat, X, Y, nx, ny) in maps.items():
                t = getattr(m, name)
                ctx.check(np.array_equal(t.data, dat) and (t.named_columns_x, t.named_columns_y, t.named_columns_x_name, t.named_columns_y_name) == (list(X), list(Y), f"{nx}MassFractions", f"{ny}MassFractions"),
                          "mapping-table", lambda: f"{case}: {t!r}", case)
                for (p, nx_), (q, ny_) in itertools.product(enumerate(X), enumerate(Y)):
                    v = getattr(t, f"{nx_.lower()}_to_{ny_.lower()}")
                    ctx.check(v == dat[p, q], "mapping-entry", lambda: f"{case}: {name} {nx_} {ny_} {v}", case)
            if i % 2:
                e, c = m.photon_group_edges, m.reduced_lightspeed
                ctx.check(np.asarray(e).tolist() == (np.array([1.0, 2.0, 3.5]) + i).tolist() or abs(e.to_value("1/s") * GYRISH / (np.array([1.0, 2.0, 3.5]) + i) - 1).max() < 1e-4, "photon-edges", lambda: f"{case}: {e!r}", case)
                check_q(ctx, e, (np.array([1.0, 2.0, 3.5]) + i) / GYRISH, "1/s", "photon-edges", case)
                check_q(ctx, c, (7.0 + i) * MPC / GYRISH, "cm/s", "reduced-lightspeed", case)
            else:
                ctx.check(m.photon_group_edges is None and m.reduced_lightspeed is None, "radiation-absent", lambda: f"{case}", case)


def check_q(ctx, q, want, unit, key, case):
    try:
        ok = np.all(np.abs(np.asarray(q.to_value(unit)) / want - 1) < 1e-4)
    except unyt.exceptions.UnitConversionError:
        ok = False
    ctx.check(ok, key, lambda: f"{case}: {q!r} rather than {want} {unit}", case)


def schemes(ctx, item):
    path = os.path.join(ctx.scratch, f"s{os.getpid()}.hdf5")
    groups = {"Code": "code", "Cosmology": "cosmology_raw", "GravityScheme": "gravity_scheme", "HydroScheme": "hydro_scheme", "InternalCodeUnits": "internal_code_units", "Parameters": "parameters", "Policy": "policy",
              "RuntimePars": "runtime_pars", "SubgridScheme": "subgrid_scheme", "StarsScheme": "stars_scheme", "UnusedParameters": "unused_parameters"}
    for i, present in item:
        if os.path.exists(path):
            os.remove(path)
        at = {}
        names = list(groups)
        with h5py.File(path, "w") as h:
            header(h, out=(None, "b:LineOfSight", "s:FOF")[i % 3], extra={"NumGroup_ThisFile": np.array([3])} if i % 3 == 2 else {})
            write_units(h)
            g = (("PartType0",), ("LOS_0000",), ("Groups",))[i % 3][0]
            write_field(h.create_group(g), "Masses", F(np.arange(3.0), M=1))
            for k in present:
                v = dict(Number=np.array([i + 0.5]), Name=np.bytes_(f"{k}{i}".encode()), Text=f"{k} {i}")
                if k == "Code":
                    v.update({n: np.bytes_(f"{n[:3]}{i}".encode()) for n in ("Code", "Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library", "FFTW library version", "GSL library version", "HDF5 library version")})
                if k == "HydroScheme":
                    v.update({n: np.bytes_(f"{n[:3]}{i}".encode()) for n in ("Scheme", "Kernel function", "Viscosity Model")})
                    for j, n in enumerate(("Kernel eta", "Kernel target N_ngb", "CFL parameter", "Alpha viscosity", "Viscosity decay length [internal units]", "Beta viscosity", "Alpha viscosity (min)", "Alpha viscosity (max)",
                                           "Diffusion alpha", "Diffusion beta", "Diffusion alpha (min)", "Diffusion alpha (max)")):
                        v[n] = np.array([j + i / 100])
                    v["Dimension"] = np.array([3.0])
                    v["Adiabatic index"] = np.array([1.25 + i])
                if k == "Cosmology":
                    v["Cosmological run"] = np.array([0])
                at[k] = v
                gg = h.create_group(k)
                for n, x in v.items():
                    gg.attrs[n] = x
        case = dict(kind="schemes", present=present, type=i % 3)
        ctx.trace()
        ctx.step()
        ctx.state("schemes", present, i % 3)
        with ctx.guard(case):
            m = sw.load(path).metadata
            for k, attr in groups.items():
                got = getattr(m, attr)
                if k not in present:
                    ctx.check(got is None, "scheme-absent", lambda: f"{case}: {attr} {got}", case)
                else:
                    ok = got is not None and set(got) == set(at[k]) and all(np.all(got[n] == x) for n, x in at[k].items())
                    ctx.check(ok, "scheme", lambda: f"{case}: {attr} {got}", case)
            g = m.gas_gamma
            ctx.check((g is None) if "HydroScheme" not in present else float(np.asarray(g).item()) == 1.25 + i, "gamma", lambda: f"{case}: {g}", case)
            ctx.check(m.cosmology is None, "no-cosmology", lambda: f"{case}: {m.cosmology}", case)
            if i % 3 < 2:
                s = lambda n: f"{n[:3]}{i}"
                if "Code" in present:
                    ctx.check(m.code_info == f"{s('Code')} ({s('Git Branch')})\n{s('Git Revision')}\n{s('Git Date')}", "code-info", lambda: f"{case}: {m.code_info}", case)
                    ctx.check(m.compiler_info == f"{s('Compiler Name')} ({s('Compiler Version')})\n{s('MPI library')}", "compiler-info", lambda: f"{case}: {m.compiler_info}", case)
                    ctx.check(m.library_info == f"FFTW v{s('FFTW')}\nGSL v{s('GSL')}\nHDF5 v{s('HDF5')}", "library-info", lambda: f"{case}: {m.library_info}", case)
                if "HydroScheme" in present:
                    f = lambda j: f"{j + i / 100:4.2f}"
                    ctx.check(m.hydro_info == f"{s('Scheme')}\n{s('Kernel function')} in 3D\n$\\eta$ = {f(0)} ({f(1)} $N_{{ngb}}$)\n$C_{{\\rm CFL}}$ = {f(2)}", "hydro-info", lambda: f"{case}: {m.hydro_info}", case)
                    ctx.check(m.viscosity_info == f"{s('Viscosity Model')}\n$\\alpha_{{V, 0}}$ = {f(3)}, $\\ell_V$ = {f(4)}, $\\beta_V$ = {f(5)}\n{f(6)} < $\\alpha_V$ < {f(7)}", "viscosity-info", lambda: f"{case}: {m.viscosity_info}", case)
                    ctx.check(m.diffusion_info == f"$\\alpha_{{D, 0}}$ = {f(8)}, $\\beta_D$ = {f(9)}\n${f(10)} < \\alpha_D < {f(11)}$", "diffusion-info", lambda: f"{case}: {m.diffusion_info}", case)


# ---------------------------------------------------------------- particle types, sightlines, field and group names
FIELDNAMES = ["Coordinates", "ParticleIDs", "SFRs", "H2Masses", "XrayLuminositiesInBand", "SubgridTemperatures", "lower", "FOFGroupIDs", "A", "BirthScaleFactors", "MetalMassFractionsFromSNIa", "AtomicHydrogenMasses1D",
              "StellarMass_30kpc", "EncounteredMassUnits", "ABCd", "Mass2", "X9Y"]
SOAPNAMES = [("BoundSubhalo", "bound_subhalo", "BoundSubhalo"), ("InputHalos", "input_halos", "InputHalos"), ("InputHalos/HBTplus", "input_halos_hbtplus", None), ("InclusiveSphere/50kpc", "inclusive_sphere_50kpc", None),
             ("ExclusiveSphere/100kpc", "exclusive_sphere_100kpc", None), ("SO/200_crit", "spherical_overdensity_200_crit", None), ("SO/BN98", "spherical_overdensity_bn98", None), ("SOAP", "soap", None),
             ("ProjectedAperture/10kpc/projx", "projected_aperture_10kpc_projx", None), ("SO/5xR_500_crit", "spherical_overdensity_5xr_500_crit", None)]


def types(ctx, item):
    path = os.path.join(ctx.scratch, f"t{os.getpid()}.hdf5")
    for i, (kind, sub) in item:
        if os.path.exists(path):
            os.remove(path)
        with h5py.File(path, "w") as h:
            if kind == "types":
                length, mode, have = sub
                n = [(k + 2) if have >> k & 1 else 0 for k in range(length)]
                groups = [(f"PartType{k}", NAMES[k]) for k in range(length) if n[k]]
                extra = {}
                if mode == "has":
                    # a type that can be there but has no particles yet; one that is not listed is not shown
                    extra["CanHaveTypes"] = np.array([1 if k in (0, 4) or n[k] else 0 for k in range(length)], "i4")
                    groups = [(f"PartType{k}", NAMES[k]) for k in range(length) if n[k] or k in (0, 4)]
                header(h, n=n, extra=extra)
                rows = {f"PartType{k}": n[k] for k in range(length)}
            elif kind == "los":
                names = [f"LOS_{k:04d}" for k in range(12) if sub >> k & 1]
                groups = [(g, g.lower()) for g in names]
                rows = {g: k + 1 for k, g in enumerate(names)}
                header(h, out="b:LineOfSight")
                h.create_group("LineOfSightParameters")
            else:
                groups = [(g, u) for k, (g, u, _) in enumerate(SOAPNAMES) if sub >> k & 1]
                rows = {g: 3 for g, _ in groups}
                header(h, out="s:SOAP", extra={"NumSubhalos_ThisFile": np.array([3]), "SubhaloTypes": np.array([g for g, _ in groups], dtype=h5py.string_dtype())})
            write_units(h)
            names = {}
            for k, (g, u) in enumerate(groups):
                gg = h.require_group(g)
                names[u] = [FIELDNAMES[(i + k + j * 3) % len(FIELDNAMES)] for j in range(1 + (i + k) % 4)]
                for j, f in enumerate(names[u]):
                    write_field(gg, f, F(np.arange(float(rows[g])) + 10 * k + 100 * j, M=1, a=j))
                if kind == "los":
                    for q, nm in enumerate(("Xpos", "Ypos", "Zpos", "NumParts", "Xaxis")):
                        gg.attrs[nm] = np.array([q + 10.0 * k]) if q < 3 else np.array([q + k])
        case = dict(kind=kind, sub=sub)
        ctx.trace()
        ctx.step()
        ctx.state(kind, sub)
        with ctx.guard(case):
            d = sw.load(path)
            m = d.metadata
            ctx.check(sorted(m.present_group_names) == sorted(u for _, u in groups), "present", lambda: f"{case}: {m.present_group_names}", case)
            ctx.check(sorted(m.present_groups) == sorted(g for g, _ in groups), "present-groups", lambda: f"{case}: {m.present_groups}", case)
            nice = [m.get_nice_name(g) for g, _ in groups]
            ctx.check(len(set(nice)) == len(nice), "nice-names", lambda: f"{case}: {nice}", case)
            ctx.check(all(u in str(d) for _, u in groups), "summary", lambda: f"{case}: {d}", case)
            for k, (g, u) in enumerate(groups):
                p = getattr(m, f"{u}_properties")
                x = getattr(d, u)
                ctx.check(sorted(p.field_names) == sorted(snake(f) for f in names[u]), "fields", lambda: f"{case}: {u} {p.field_names} rather than {names[u]}", case)
                for j, f in enumerate(names[u]):
                    v = getattr(x, snake(f))
                    ctx.check(np.asarray(v).tolist() == (np.arange(float(rows[g])) + 10 * k + 100 * j).tolist() and v.cosmo_factor.a_factor == 0.5**j, "group-field", lambda: f"{case}: {u} {f} {v!r}", case)
                ctx.check(set(p.group_attributes) == ({"xpos", "ypos", "zpos", "num_parts", "xaxis"} if kind == "los" else set()), "group-attributes", lambda: f"{case}: {p.group_attributes}", case)
                if kind == "los":
                    for q, nm in enumerate(("xpos", "ypos", "zpos", "num_parts", "xaxis")):
                        v = getattr(x, nm)
                        ctx.check(float(np.asarray(v).item()) == (q + 10.0 * k if q < 3 else q + k), "sightline-attribute", lambda: f"{case}: {u} {nm} {v!r}", case)
                        check_units(ctx, v, SYSTEMS[0], dict(L=1) if q < 3 else {}, case, "sightline-attribute-units")
                        ctx.check(bool(v.comoving) == (q < 3) and v.cosmo_factor.a_factor == (0.5 if q < 3 else 1.0), "sightline-attribute-frame", lambda: f"{case}: {u} {nm} {v!r}", case)


# ---------------------------------------------------------------- files do not affect one another
def digest(d):
    """everything the loaded metadata reports, and one field"""
    out = {}
    for k, v in sorted(vars(d.metadata).items()):
        if k in ("filename", "_handle", "_handle_manager", "units") or k.endswith("_properties") or "handle" in k or k in ("mass_table", "initial_mass_table"):
            continue
        out[k] = repr(v)
    for t in ("mass_table", "initial_mass_table"):
        out[t] = {n: repr(getattr(getattr(d.metadata, t), n)) for n in NAMES}
    out["units"] = {dim: repr(getattr(d.units, dim)) for _, dim in CGS.values()}
    for u in d.metadata.present_group_names:
        p = getattr(d.metadata, f"{u}_properties")
        out[u] = (p.field_names, p.field_paths, repr(p.named_columns), repr(p.group_attributes))
        x = getattr(d, u).masses
        out[u + " masses"] = (repr(x), str(x.units), x.comoving, repr(x.cosmo_factor), x.name, x.compression)
    return out


def apart(ctx, item):
    base = os.path.join(ctx.scratch, f"p{os.getpid()}")
    os.makedirs(base, exist_ok=True)
    cfgs, first = item
    paths, alone = [], []
    for i, cfg in enumerate(cfgs):
        p = os.path.join(base, f"{i}.hdf5")
        build(p, cfg, SYSTEMS[i % len(SYSTEMS)])
        paths.append(p)
    with ctx.guard(dict(kind="apart")):
        alone = [digest(sw.load(p)) for p in paths]
        for j in range(len(cfgs)):
            # loads and reads interleaved in each order, from both path and handle
            for order in range(4):
                case = dict(kind="apart", files=(first, j), order=order)
                ctx.trace()
                ctx.step()
                ctx.state("apart", first, j, order)
                with h5py.File(paths[j], "r") as h:
                    a = sw.load(paths[first])
                    b = sw.load(h if order & 1 else paths[j])
                    if order & 2:
                        gb, ga = digest(b), digest(a)
                    else:
                        ga, gb = digest(a), digest(b)
                    ctx.check(ga == alone[first] and gb == alone[j], "apart", lambda: f"{case}: {[(k, ga[k]) for k in ga if ga[k] != alone[first].get(k)][:3]} {[(k, gb[k]) for k in gb if gb[k] != alone[j].get(k)][:3]}", case)
                    ctx.check(digest(a) == ga, "apart-again", lambda: f"{case}", case)
    shutil.rmtree(base)


def run(ctx):
    combos = list(itertools.product(AEXP, PHYS, CONV, DESC, MASK, COMP))
    per = 54
    files = [(k // per, list(enumerate(combos))[k : k + per]) for k in range(0, len(combos), per)]
    # every pair of unit exponents with every state is met in the thorough tier by shifting the assignment
    reps = len(EXPS) if ctx.thorough else 1
    work = []
    for r in range(reps):
        work += [(f + 1000 * r, [(i + r, c) for i, c in cs]) for f, cs in files]
    jobs = [("fields", work[i::16]) for i in range(16)]

    o = options(ctx.tier)
    keys = list(o)
    base = {k: v[0] for k, v in o.items()}
    cfgs = []
    for out in TYPES:
        c0 = dict(base, OutputType=out)
        cfgs.append(c0)
        depth = 2 if ctx.thorough or out in (None, "b:FullVolume", "s:SOAP") else 1
        for d in range(1, depth + 1):
            for ks in itertools.combinations(keys, d):
                for vs in itertools.product(*(range(1, len(o[k])) for k in ks)):
                    cfgs.append({**c0, **{k: o[k][v] for k, v in zip(ks, vs)}})
    for n in [(3, 0, 0, 0, 2, 0), (3, 1, 1, 1, 1, 1, 1, 1), (0, 0, 0, 0, 0, 7, 0, 2), (2**33, 0, 0, 0, 2, 0, 0)]:
        for t in (None, "b:FullVolume", "s:VolumeSubset"):
            for can in o["CanHaveTypes"][:2]:
                cfgs.append(dict(base, OutputType=t, n=n, CanHaveTypes=can))
    if ctx.thorough:
        for ks in itertools.combinations(keys, 3):
            for vs in itertools.product(*(range(1, len(o[k])) for k in ks)):
                cfgs.append({**base, "OutputType": "s:FullVolume", **{k: o[k][v] for k, v in zip(ks, vs)}})
    c = list(enumerate(cfgs))
    jobs += [("headers", c[i::32]) for i in range(32)]
    jobs += [("unknown", ["b:", "s:", "b:Fullvolume", "s:FULLVOLUME", "s:FullVolume2", "b:SOAPs", "s:Fof", "b:LineOfSights", "s:SOAP ", "b:Snapshot", "s:EAGLE"])]

    jobs += [("recognised", list(itertools.product([b"SWIFT", b"swift", b"GADGET", b"SWIFTSIM", b"SWIF", b"SOAP", b" SWIFT", None, "no group"], (True, False), ("text", "path", "handle"))))]

    combos = [(a, b, m, g) for a in range(len(COLUMNS)) for b in range(len(COLUMNS)) for m in (0, 1) for g in ((0, 1) if m else (0,))]
    c = list(enumerate(combos))
    jobs += [("columns", c[i::16]) for i in range(16)]

    names = ["Code", "Cosmology", "GravityScheme", "HydroScheme", "InternalCodeUnits", "Parameters", "Policy", "RuntimePars", "SubgridScheme", "StarsScheme", "UnusedParameters"]
    subs = [s for d in range(len(names) + 1) for s in itertools.combinations(names, d) if ctx.thorough or d <= 2 or d >= len(names) - 1]
    c = [(3 * i + k, s) for i, s in enumerate(subs) for k in range(3)]
    jobs += [("schemes", c[i::8]) for i in range(8)]

    c = [("types", (length, mode, have)) for length in (6, 7, 8) for mode in ("num", "has") for have in range(0 if mode == "has" else 1, 2**length)]
    c += [("los", s) for s in (range(1, 2**12) if ctx.thorough else [2**k for k in range(12)] + [2**k | 2**j for k in range(12) for j in range(k)] + [2**k - 1 for k in range(1, 13)])]
    c += [("soap", s) for s in range(1, 2 ** len(SOAPNAMES)) if ctx.thorough or bin(s).count("1") in (1, 2, len(SOAPNAMES))]
    c = list(enumerate(c))
    jobs += [("types", c[i::24]) for i in range(24)]

    apartcfg = [dict(base, OutputType=t) for t in ("b:FullVolume", "s:LineOfSight", "s:SOAP", "b:FOF")]
    apartcfg += [{k: v[1 % len(v)] for k, v in o.items()} | dict(OutputType=None), {k: v[2 % len(v)] for k, v in o.items()} | dict(OutputType="s:FullVolume", CanHaveTypes="same"),
                 {k: v[2 % len(v)] for k, v in o.items()} | dict(OutputType="b:SOAP"), dict(base, OutputType="b:VolumeSubset", n=(1, 2, 3, 4, 5, 6, 7, 8))]
    jobs += [("apart", (apartcfg, i)) for i in range(len(apartcfg))]
    jobs.sort(key=lambda j: j[0] != "apart")
    ctx.pmap(dispatch, jobs)


def dispatch(ctx, job):
    globals()[job[0]](ctx, job[1])
