"""C05: a subset file is equivalent to the masked original, and is itself a valid file to mask and subset."""

import itertools
import os

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_quantity
from swiftsimio.masks import SWIFTMask
from swiftsimio.subset_writer import write_subset
from mc.snap import F, NAMES, Snap
from mc.soap import build_soap

META = dict(
    level="model_checking",
    explanation="Every subset of cells (x representation x value constraint) of several snapshot layouts, and every row "
    "subset of a catalogue, is written to a subset file; its raw HDF5 contents and its loaded view are compared "
    "with set arithmetic on the original rows; the cell table is re-derived from the particle identities; every "
    "single-cell region is selected from the subset file; and subsets of subsets are taken (every cell subset of "
    "selected subsets), to depth 3.",
    assumptions=["total particle counts of the parent run in the header (NumPart_Total) are not part of the claim",
                 "catalogues of friends-of-friends groups cannot be masked, so they have no subsets"],
)
A = 0.5
PARTS = 5


def q(x, unit=u.Mpc, exp=1):
    return cosmo_quantity(x, unit, comoving=True, scale_factor=A, scale_exponent=exp)


def worlds():
    def fields(ch):
        def f(p, n, s):
            i = np.arange(n)
            el = np.stack([i + 0.25, i + 0.5, -1.0 * i], axis=1).reshape(n, 3)
            c1 = (lambda k: (k,)) if ch else (lambda k: None)
            c2 = (lambda k, j: (k, j)) if ch else (lambda k, j: None)
            return {
                "Key": F((i * 5) % 11 + 1.0, L=1, a=1, chunks=c1(2) if n >= 2 else None, comp="FMantissa9"),
                "ElementMassFractions": F(el, columns=["Hydrogen", "Helium", "Carbon"], dtype="f4",
                                          chunks=c2(2, 3) if n >= 2 else None),
                "Velocities": F(el * 2, L=1, t=-1, physical=1, convertible=0),
                "SingleColumn": F(el[:, :1], M=1, chunks=c2(2, 1) if n >= 2 else None),
                "Tensors": F(np.stack([el, el * 3 + 1], axis=1), L=-1, a=-1, chunks=(2, 1, 3) if ch and n >= 2 else None),
                "Flags": F(i % 3, dtype="i1", extra={"Extra note": np.bytes_(b"hello")}),
                "TimesInCellsGas": F(i * 2.0, t=1),
            }
        return f

    W = {}
    W["plain"] = dict(ncell=(4, 1, 1), fields=fields(True),
                      counts=dict(PartType0=[2, 1, 0, 3], PartType1=[1, 2, 1, 1], PartType4=[0, 0, 2, 0]))
    W["mpi"] = dict(ncell=(4, 1, 1), fields=fields(False), rank_order=[0, 2, 1, 3], minmax=False, legacy_offsets=True,
                    counts=dict(PartType0=[0, 2, 0, 2], PartType1=[2, 1, 3, 1], PartType5=[0, 1, 1, 0]))
    # a type that the run can have but that has no particles yet (SWIFT writes empty data sets)
    W["emptytype"] = dict(ncell=(4, 1, 1), fields=fields(False), rank_order=[1, 3, 0, 2],
                          counts=dict(PartType0=[1, 2, 1, 1], PartType1=[1, 1, 1, 1], PartType4=[0, 0, 0, 0]),
                          header_extra={"CanHaveTypes": np.array([1, 1, 0, 0, 1, 0, 0, 0], "i4")})
    return W


def extra(h, s):
    g = h.create_group("Parameters")
    g.attrs["Gravity:eta"] = np.bytes_(b"0.025")
    g = h.create_group("Code")
    g.attrs["Code"] = np.bytes_(b"SWIFT")
    g = h.create_group("Cosmology")
    g.attrs["Cosmological run"] = np.array([0])
    h["SubgridScheme"].create_dataset("NamedColumns/Other", data=np.array([b"a", b"b"]))


def build(name, scratch, tag):
    path = os.path.join(scratch, f"C05_{name}_{tag}.hdf5")
    s = Snap(path, box=(4.0, 1.0, 1.0), a=A, extra=extra, **worlds()[name])
    return s


def attrs_equal(a, b):
    if set(a) != set(b):
        return False
    return all(np.array_equal(a[k], b[k]) for k in a)


def compare_file(ctx, s, path, rows, case):
    """raw and loaded contents of a subset file against the expected original rows per type."""
    src, dst = h5py.File(s.path, "r"), h5py.File(path, "r")
    try:
        hdr = dst["Header"].attrs
        num = np.asarray(hdr["NumPart_ThisFile"])
        for i in range(8):
            p = f"PartType{i}"
            want = len(rows[p]) if p in rows else 0
            ctx.check(int(num[i]) == want, "header-count", lambda: f"{case}: {p} header says {num[i]}, want {want}", case)
        ot = hdr["OutputType"]
        ot = ot.decode() if hasattr(ot, "decode") else ot
        ctx.check(ot == "VolumeSubset", "output-type", lambda: f"{case}: {ot}", case)
        for k in ("BoxSize", "Redshift", "Scale-factor", "Time", "CanHaveTypes", "Dimension", "RunName"):
            ctx.check(k in hdr and np.array_equal(hdr[k], src["Header"].attrs[k]), "header-attribute", lambda: f"{case}: {k}", case)
        for grp in ("Units", "InternalCodeUnits", "Parameters", "Code", "Cosmology"):
            ok = grp in dst and attrs_equal(dict(src[grp].attrs), dict(dst[grp].attrs))
            ctx.check(ok, "metadata-group", lambda: f"{case}: {grp}", case)
        for k, v in src["SubgridScheme/NamedColumns"].items():
            ok = f"SubgridScheme/NamedColumns/{k}" in dst and np.array_equal(dst[f"SubgridScheme/NamedColumns/{k}"][...], v[...])
            ctx.check(ok, "named-columns", lambda: f"{case}: {k}", case)
        for p, r in rows.items():
            for name, f in s.fields[p].items():
                full = f"{p}/{name}"
                if full not in dst:
                    ctx.fail("field-missing", f"{case}: {full}", case)
                    continue
                got, want = dst[full][...], f.data[r]
                ok = got.shape == want.shape and np.array_equal(got, want) and \
                    got.dtype.newbyteorder("=") == want.dtype.newbyteorder("=")
                ctx.check(ok, "field-data", lambda: f"{case}: {full} got {got.shape} {got.tolist()}, want {want.shape} {want.tolist()}", case)
                ctx.check(attrs_equal(dict(src[full].attrs), dict(dst[full].attrs)), "field-attributes", lambda: f"{case}: {full}", case)
            ctx.check(set(dst[p].keys()) == set(s.fields[p]), "field-list", lambda: f"{case}: {p} {list(dst[p].keys())}", case)
            link = f"{NAMES[p].title().replace('_', '')}Particles"
            l = dst.get(link, getlink=True)
            ctx.check(isinstance(l, h5py.SoftLink) and l.path == f"/{p}", "link", lambda: f"{case}: {link} {l}", case)
        # cell table: rebuild from identities
        off = dst["Cells/OffsetsInFile"] if "Cells/OffsetsInFile" in dst else dst["Cells/Offsets"]
        centres = dst["Cells/Centres"][...]
        ctx.check(sorted(map(tuple, centres)) == sorted(map(tuple, s.centres)), "cell-centres", lambda: f"{case}", case)
        idx = [int(np.argmin(np.abs(s.centres - c).sum(axis=1))) for c in centres]
        for p, r in rows.items():
            cnt, o = dst[f"Cells/Counts/{p}"][...], off[p][...]
            covered = 0
            for j, k in enumerate(idx):
                seg = np.arange(o[j], o[j] + cnt[j])
                ok = cnt[j] >= 0 and (cnt[j] == 0 or (o[j] >= 0 and o[j] + cnt[j] <= len(r) and np.all(s.cellof[p][np.array(r)[seg]] == k)))
                ctx.check(ok, "cell-table", lambda: f"{case}: {p} cell {k}: rows {o[j]}+{cnt[j]}", case)
                covered += int(cnt[j])
                if s.minpos and "MinPositions" in dst["Cells"]:
                    ok = np.array_equal(dst[f"Cells/MinPositions/{p}"][j], s.minpos[p][k]) and \
                        np.array_equal(dst[f"Cells/MaxPositions/{p}"][j], s.maxpos[p][k])
                    ctx.check(ok, "cell-extents", lambda: f"{case}: {p} cell {k}", case)
            ctx.check(covered == len(r), "cell-cover", lambda: f"{case}: {p} counts sum {covered} of {len(r)}", case)
    finally:
        src.close()
        dst.close()


def compare_loaded(ctx, s, d, rows, case, key="loaded"):
    for p, r in rows.items():
        g = getattr(d, NAMES[p])
        f = s.fields[p]
        pairs = [(g.coordinates, "Coordinates"), (g.particle_ids, "ParticleIDs"), (g.masses, "Masses"), (g.key, "Key"),
                 (g.velocities, "Velocities"), (g.flags, "Flags")]
        for a, n in pairs:
            ok = np.array_equal(np.asarray(a), f[n].data[r]) and np.asarray(a).shape == f[n].data[r].shape
            ctx.check(ok, f"{key}-data", lambda: f"{case}: {p}/{n}: {a}", case)
            ctx.check(a.comoving == (not f[n].physical) and a.valid_transform == bool(f[n].convertible)
                      and a.compression == f[n].comp, f"{key}-attributes", lambda: f"{case}: {p}/{n}", case)
        a = g.element_mass_fractions.helium
        ctx.check(np.array_equal(np.asarray(a), f["ElementMassFractions"].data[r, 1]), f"{key}-columns", lambda: f"{case}: {p}", case)
        ctx.check(key == "mask-after" or int(getattr(d.metadata, f"n_{NAMES[p]}")) == len(r), f"{key}-count", lambda: f"{case}: {p}", case)
    ctx.step(len(rows))


def select(m, s, cells, cut, rep):
    for k in cells:
        lo = s.centres[k][0] - 0.25
        m.constrain_spatial([[q(lo), q(lo + 0.5)], None, None], union=True)
    if cut:
        m.constrain_property("gas", "key", q(cut[0]), q(cut[1]))
    (m.convert_masks_to_bool if rep else m.convert_masks_to_ranges)()


def expected(s, rows_in, cells, cut):
    out = {}
    for p in s.counts:
        r = np.asarray(rows_in[p], dtype=int)
        r = r[np.isin(s.cellof[p][r], cells)]
        if cut and p == "PartType0":
            v = s.fields[p]["Key"].data[r]
            r = r[(v > cut[0]) & (v <= cut[1])]
        out[p] = r
    return out


def cell_subsets(n=4):
    return [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]


def chain(ctx, s, src_path, rows_in, hist, depth, tag, part=None):
    """Take every subset of the file at src_path; recurse."""
    md = sw.load(src_path).metadata
    cuts = [None, (2.0, 8.0)] if depth == 1 else [None] + ([(3.0, 12.0)] if ctx.thorough else [])
    for ic, cells in enumerate(cell_subsets()):
        if part is not None and ic % PARTS != part:
            continue
        for cut in cuts:
            for rep in ((0, 1) if depth == 1 else (0,)):
                if depth > 1 and not ctx.thorough and len(cells) > 2:
                    continue
                case = dict(world=tag, history=hist + [dict(cells=cells, cut=cut, bool=rep)])
                m = SWIFTMask(src_path, md)
                select(m, s, cells, cut, rep)
                out = f"{src_path[:-5]}_{depth}.hdf5"
                with ctx.guard(case):
                    write_subset(out, m)
                    rows = expected(s, rows_in, cells, cut)
                    ctx.step()
                    ctx.trace()
                    ctx.state(tag, depth, tuple((p, tuple(r)) for p, r in rows.items()))
                    compare_file(ctx, s, out, rows, case)
                    if depth == 1 or len(cells) == 2:
                        compare_loaded(ctx, s, sw.load(out), rows, case)
                        # the mask can still be used on the original
                        compare_loaded(ctx, s, sw.load(src_path, mask=m), rows, case, "mask-after") if depth == 1 and rep else None
                    # every single-cell selection of the new file
                    if rep == 0 and (depth == 1 or cells == (0, 2)):
                        md2 = sw.load(out).metadata
                        for k in range(4):
                            m2 = SWIFTMask(out, md2)
                            select(m2, s, (k,), None, 0)
                            d2 = sw.load(out, mask=m2)
                            exp2 = expected(s, rows, (k,), None)
                            for p, r in exp2.items():
                                got = np.asarray(getattr(d2, NAMES[p]).particle_ids)
                                want = s.ids[p][r]
                                ok = set(want) <= set(got) and len(set(got)) == len(got) and \
                                    np.array_equal(np.sort(got), np.sort(want))
                                # padding may bring in neighbouring cells only when the region is near a face (it is not)
                                ctx.check(ok, "remask", lambda: f"{case} then cell {k}: {p} got {got} want {want}", case)
                            ctx.trace()
                    deep = 3 if ctx.thorough else 2
                    if depth < deep and rep == 0 and (len(cells) in (2, 3) if depth == 1 else cells == (0, 2)) and \
                            (cut is None or cells in ((0, 1, 3),)):
                        chain(ctx, s, out, rows, case["history"], depth + 1, tag)
                if os.path.exists(out):
                    os.unlink(out)


def soap(ctx, item):
    path = os.path.join(ctx.scratch, f"C05_soap_{os.getpid()}.hdf5")
    s = build_soap(path, counts=(2, 1, 0, 1, 1, 0, 2, 0))
    with h5py.File(path, "a") as h:
        h["SpecialLink"] = h5py.SoftLink("/SO/200_crit")
        h.create_group("Parameters").attrs["x"] = np.bytes_(b"1")
    md = sw.load(path).metadata
    n = s.nrows
    for bits in range(2**n):
        rows = [i for i in range(n) if bits >> i & 1]
        case = dict(world="soap", rows=rows)
        with ctx.guard(case):
            m = SWIFTMask(path, md)
            m.constrain_indices(np.array(rows, dtype=int))
            if bits % 2:
                m.convert_masks_to_bool()
            out = path[:-5] + "_s.hdf5"
            write_subset(out, m)
            check_soap(ctx, s, out, rows, case)
            if bits % 5 == 0 and len(rows) > 2:
                md2 = sw.load(out).metadata
                m2 = SWIFTMask(out, md2)
                m2.constrain_indices([0, len(rows) - 1])
                out2 = path[:-5] + "_s2.hdf5"
                write_subset(out2, m2)
                check_soap(ctx, s, out2, [rows[0], rows[-1]], dict(case, then="first and last row"))
                m2 = SWIFTMask(out, md2)
                k = s.cellof[rows[1]]
                m2.constrain_spatial([[q(x - 0.25 * z), q(x + 0.25 * z)] for x, z in zip(s.centres[k], s.size)])
                d2 = sw.load(out, mask=m2)
                want = [r for r in rows if s.cellof[r] == k]
                got = np.asarray(d2.input_halos.halo_catalogue_index)
                ctx.check(np.array_equal(got, want), "soap-remask", lambda: f"{case}: got {got} want {want}", case)
    for k in range(len(s.centres)):
        case = dict(world="soap", cell=k)
        with ctx.guard(case):
            m = SWIFTMask(path, md)
            m.constrain_spatial([[q(x - 0.25 * z), q(x + 0.25 * z)] for x, z in zip(s.centres[k], s.size)])
            out = path[:-5] + "_s.hdf5"
            write_subset(out, m)
            check_soap(ctx, s, out, [int(i) for i in np.where(s.cellof == k)[0]], case)


def check_soap(ctx, s, out, rows, case):
    ctx.step()
    ctx.trace()
    ctx.state("soap", tuple(rows))
    with h5py.File(s.path, "r") as src, h5py.File(out, "r") as dst:
        for k, f in s.fields.items():
            ok = k in dst and np.array_equal(dst[k][...], f.data[rows]) and dst[k].dtype == f.data.dtype and \
                attrs_equal(dict(src[k].attrs), dict(dst[k].attrs))
            ctx.check(ok, "soap-field", lambda: f"{case}: {k}", case)
        n = int(np.atleast_1d(dst["Header"].attrs["NumSubhalos_ThisFile"])[0])
        ctx.check(n == len(rows), "soap-count", lambda: f"{case}: {n}", case)
        ot = dst["Header"].attrs["OutputType"]
        ot = ot.decode() if hasattr(ot, "decode") else ot
        ctx.check(ot == "SOAPSubset", "soap-output-type", lambda: f"{case}: {ot}", case)
        cnt, off = dst["Cells/Counts/Subhalos"][...], dst["Cells/OffsetsInFile/Subhalos"][...]
        cen = dst["Cells/Centres"][...]
        cov = 0
        for j in range(len(cnt)):
            k = int(np.argmin(np.abs(s.centres - cen[j]).sum(axis=1)))
            seg = [rows[i] for i in range(off[j], off[j] + cnt[j]) if i < len(rows)]
            ctx.check(cnt[j] >= 0 and len(seg) == cnt[j] and all(s.cellof[i] == k for i in seg), "soap-cell-table", lambda: f"{case}: cell {k}", case)
            cov += int(cnt[j])
        ctx.check(cov == len(rows), "soap-cell-cover", lambda: f"{case}: {cov}", case)
        l = dst.get("SpecialLink", getlink=True)
        ctx.check(isinstance(l, h5py.SoftLink), "soap-link", lambda: f"{case}", case)
    d = sw.load(out)
    ctx.check(np.array_equal(np.asarray(d.input_halos.halo_catalogue_index), rows), "soap-loaded", lambda: f"{case}", case)


def dispatch(ctx, item):
    with ctx.guard(item):
        if item[0] == "soap":
            return soap(ctx, item)
        name, part = item
        s = build(name, ctx.scratch, f"{part}_{os.getpid()}")
        rows = {p: np.arange(s.n[p]) for p in s.counts}
        # unconstrained masks need the explicit override
        m = SWIFTMask(s.path, sw.load(s.path).metadata)
        out = s.path[:-5] + "_u.hdf5"
        try:
            write_subset(out, m)
            ctx.fail("unconstrained-accepted", f"{name}", dict(world=name))
        except ValueError:
            ctx.check(not os.path.exists(out), "unconstrained-left-file", f"{name}")
        write_subset(out, m, allow_unconstrained=True)
        compare_file(ctx, s, out, rows, dict(world=name, history=["unconstrained"]))
        chain(ctx, s, s.path, rows, [], 1, name, part)
        ctx.sample(dict(world=name, counts=s.counts, order=s.order))


def run(ctx):
    ctx.pmap(dispatch, [("soap", 0)] + [(n, i) for i in range(PARTS) for n in worlds()])
