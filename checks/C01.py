"""C01: reading through a mask == reading everything and selecting, for every selection and layout."""

import itertools
import os

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_quantity
from swiftsimio.accelerated import ranges_from_array, read_ranges_from_file
from swiftsimio.masks import SWIFTMask
from mc.snap import F, NAMES, Snap
from mc.soap import build_soap

META = dict(
    level="model_checking",
    explanation="(1) range reader: every subset of the rows of a small data set, every partition of rows into cells "
    "(with empty cells) and every subset of cells, for every chunk length, 1-D / 2-D / single column, against "
    "numpy selection; (2) full stack: every subset of rows selected by row lists on a catalogue with fields of "
    "every number type, byte order, layout and compression; (3) every subset of cells x value constraint on a "
    "snapshot, including named columns; values, dtype and attributes compared with the unmasked load.",
    assumptions=["fields have one to three dimensions",
                 "one large contiguous selection exercises the large-range read path"],
)


def put(h, name, data, chunks):
    return h.create_dataset(name, data=data, chunks=chunks)


def reader_subsets(ctx, item):
    """read_ranges_from_file on every subset of rows."""
    _, n, c = item
    path = os.path.join(ctx.scratch, f"C01_r{n}_{c}_{os.getpid()}.hdf5")
    d1 = np.arange(n) * 3 + 1
    d2 = np.stack([d1, d1 * 7 + 2, -d1], axis=1)
    with h5py.File(path, "w") as h:
        a = put(h, "a", d1, (c,) if c else None)
        b = put(h, "b", d2, (c, 2) if c else None)
        for bits in range(2**n):
            rows = np.array([i for i in range(n) if bits >> i & 1], dtype=int)
            r = ranges_from_array(rows)
            case = dict(n=n, chunk=c, rows=rows)
            ctx.state("subset", n, c, bits)
            got = read_ranges_from_file(a, r, output_shape=len(rows), output_type=a.dtype)
            ctx.check(np.array_equal(got, d1[rows]), "reader-1d", lambda: f"{case}: {got}", case)
            g2 = read_ranges_from_file(b, r, output_shape=(len(rows), 3), output_type=b.dtype)
            ctx.check(np.array_equal(g2, d2[rows]), "reader-2d", lambda: f"{case}: {g2}", case)
            col = bits % 3
            g3 = read_ranges_from_file(b, r, output_shape=len(rows), output_type=b.dtype, columns=np.s_[col])
            ctx.check(np.array_equal(g3, d2[rows, col]), "reader-column", lambda: f"{case} col {col}: {g3}", case)
            ctx.step(3)
            ctx.trace(3)
    os.unlink(path)


def reader_cells(ctx, item):
    """cell-range masks: every count table (0..2 per cell), every subset of cells, including empty ranges."""
    _, c = item
    ncell = 6 if ctx.thorough else 5
    path = os.path.join(ctx.scratch, f"C01_c{c}_{os.getpid()}.hdf5")
    with h5py.File(path, "w") as h:
        ds = {}
        for n in range(1, 2 * ncell + 1):
            d = np.arange(n) * 5 + 2
            ds[n] = (d, put(h, f"a{n}", d, (min(c, n),) if c else None))
        for counts in itertools.product((0, 1, 2), repeat=ncell):
            n = sum(counts)
            if n == 0:
                continue
            off = np.r_[0, np.cumsum(counts)[:-1]]
            d, a = ds[n]
            for bits in range(1, 2**ncell):
                cells = [k for k in range(ncell) if bits >> k & 1]
                r = np.array([[off[k], off[k] + counts[k]] for k in cells])
                rows = np.concatenate([np.arange(*x) for x in r]).astype(int)
                got = read_ranges_from_file(a, r, output_shape=len(rows), output_type=a.dtype)
                case = dict(chunk=c, counts=counts, cells=cells)
                ctx.check(np.array_equal(got, d[rows]), "reader-cells", lambda: f"{case}: {got}", case)
                ctx.step()
                ctx.trace()
                ctx.state("cells", c, counts, bits)
    os.unlink(path)


def same_meta(ctx, key, masked, full, case):
    ok = (masked.units == full.units and masked.comoving == full.comoving
          and masked.valid_transform == full.valid_transform and masked.compression == full.compression
          and masked.cosmo_factor == full.cosmo_factor
          and masked.cosmo_factor.expr == full.cosmo_factor.expr
          and masked.cosmo_factor.scale_factor == full.cosmo_factor.scale_factor)
    ctx.check(ok, key, lambda: f"{case}: {masked.units} {masked.cosmo_factor} vs {full.units} {full.cosmo_factor}",
              case)


def same_data(ctx, key, masked, full, truth, rows, case):
    m, f = np.asarray(masked), np.asarray(full)
    ctx.check(np.array_equal(f, truth), key + ":full", lambda: f"{case}: full read {f}", case)
    ok = m.shape == truth[rows].shape and np.array_equal(m, truth[rows]) and \
        m.dtype.newbyteorder("=") == truth.dtype.newbyteorder("=") and m.dtype.isnative
    ctx.check(ok, key, lambda: f"{case}: got {m!r}, want {truth[rows]!r}", case)


SOAP_DT = ["f4", "f8", "i4", "i8", "u4", "u8", "i2", "f2", ">f8", ">f4", ">i4", ">i8"]
N = 7


def soap_fields():
    out = {}
    base = np.arange(N) + 1
    for i, dt in enumerate(SOAP_DT):
        big = dt in ("i8", "u8", ">i8")
        b = base * (2**60 + 12345) // 8 if big else base * 3
        for lay, ch in (("c", None), ("k1", 1), ("k2", 2), ("k3", 3), ("k7", 7)):
            nm = f"Q{dt.replace('>', 'B')}{lay}".replace("f", "F").replace("i", "I").replace("u", "U")
            out[f"BoundSubhalo/{nm}"] = F(b.astype(dt), M=1 if i % 2 else 0, L=i % 3, a=(i % 4) - 1,
                                          physical=i % 2, convertible=int(i % 3 != 0), comp=f"filter{i}{lay}",
                                          chunks=(ch,) if ch else None, gzip=bool(ch) and i % 2 == 0)
            if i % 2 == 0 or lay in ("c", "k3"):
                v = np.stack([b, b + 1, b * 2 % 97], axis=1).astype(dt)
                out[f"BoundSubhalo/V{nm}"] = F(v, L=1, t=-1, a=0.5, comp="v", chunks=(ch, 2) if ch else None)
            if i % 4 == 1 and lay in ("c", "k2"):
                w = np.stack([np.stack([b, b + 1, b * 2 % 97], axis=1), np.stack([b * 3 % 89, b, b + 5], axis=1)], axis=1)
                out[f"BoundSubhalo/W{nm}"] = F(w.astype(dt), L=2, a=2, comp="w", chunks=(ch, 1, 2) if ch else None)
    return out


def soap_stack(ctx, item):
    _, part, nparts = item
    path = os.path.join(ctx.scratch, f"C01_soap_{os.getpid()}.hdf5")
    s = build_soap(path, counts=(2, 1, 0, 3, 1, 0, 0, 0), extra_groups=soap_fields())
    full = sw.load(path)
    md = full.metadata
    names = {k.rsplit("/", 1)[1]: v for k, v in s.fields.items() if k.startswith("BoundSubhalo")}
    fmap = dict(zip(md.bound_subhalo_properties.field_paths, md.bound_subhalo_properties.field_names))
    fulls = {}
    for bits in range(2**N):
        if bits % nparts != part:
            continue
        rows = [i for i in range(N) if bits >> i & 1]
        case = dict(kind="row list", rows=rows)
        m = SWIFTMask(path, md)
        m.constrain_indices(np.array(rows, dtype=int))
        if bits % 3 == 1:
            m.convert_masks_to_bool()
        d = sw.load(path, mask=m)
        ctx.state("rows", bits)
        for path_, fname in fmap.items():
            f = names[path_.rsplit("/", 1)[1]]
            g = getattr(d.bound_subhalo, fname)
            if fname not in fulls:
                fulls[fname] = getattr(full.bound_subhalo, fname)
            c = dict(case, field=fname)
            same_data(ctx, "masked-rows", g, fulls[fname], f.data, rows, c)
            same_meta(ctx, "masked-attributes", g, fulls[fname], c)
            ctx.check(g.compression == f.comp and g.comoving == (not f.physical)
                      and g.valid_transform == bool(f.convertible), "attributes", lambda: f"{c}: {g.compression} {g.comoving} {g.valid_transform}; {f.comp} {f.physical} {f.convertible}", c)
            ctx.step()
        ctx.trace()
    ctx.sample(dict(kind="row list", last_rows=rows, fields=len(fmap)))
    os.unlink(path)


def snap_stack(ctx, item):
    """cells x value constraint on a multi-type snapshot with named columns."""
    _, variant = item
    path = os.path.join(ctx.scratch, f"C01_snap_{os.getpid()}.hdf5")

    def fields(p, n, s):
        i = np.arange(n)
        el = np.stack([i + 0.25, i + 0.5, -1.0 * i], axis=1)
        ch = (lambda k: (k,)) if variant == "chunked" else (lambda k: None)
        ch2 = (lambda k: (k, 2)) if variant == "chunked" else (lambda k: None)
        return {
            "Key": F((i * 5) % 11 + 1.0, L=1, a=1, chunks=ch(2) if n >= 2 else None),
            "ElementMassFractions": F(el, columns=["Hydrogen", "Helium", "Carbon"],
                                      chunks=ch2(3) if n >= 3 else None, dtype="f4"),
            "Velocities": F(el * 2, L=1, t=-1, a=0.0, physical=1, chunks=ch2(2) if n >= 2 else None),
            "Temps": F(i * 10.0, T=1, convertible=0, physical=1, dtype=">f8"),
        }

    order = [0, 2, 1, 4, 3]
    s = Snap(path, box=(5.0, 1.0, 1.0), ncell=(5, 1, 1), a=0.5, fields=fields, rank_order=order,
             counts=dict(PartType0=[2, 0, 3, 1, 2], PartType1=[0, 2, 1, 0, 1], PartType4=[1, 1, 1, 0, 0]))
    full = sw.load(path)
    md = full.metadata
    cuts = {None: (-1, 99), "k": (2.0, 8.0), "none": (50.0, 60.0)}

    def q(x):
        return cosmo_quantity(x, u.Mpc, comoving=True, scale_factor=0.5, scale_exponent=1)

    for bits in range(1, 2**5):
        cells = [k for k in range(5) if bits >> k & 1]
        for cutname, (lo, hi) in cuts.items():
            for rep in ("ranges", "bool"):
                m = SWIFTMask(path, md)
                for k in cells:
                    m.constrain_spatial([[q(k + 0.25), q(k + 0.75)], None, None], union=True)
                if cutname:
                    m.constrain_property("gas", "key", q(lo), q(hi))
                (m.convert_masks_to_ranges if rep == "ranges" else m.convert_masks_to_bool)()
                d = sw.load(path, mask=m)
                ctx.trace()
                for p in s.counts:
                    rows = np.where(np.isin(s.cellof[p], cells))[0]
                    if p == "PartType0" and cutname:
                        key = s.fields[p]["Key"].data
                        rows = rows[(key[rows] > lo) & (key[rows] <= hi)]
                    ctx.state("snap", variant, p, tuple(rows), rep)
                    g, gf = getattr(d, NAMES[p]), getattr(full, NAMES[p])
                    case = dict(variant=variant, cells=cells, cut=cutname, rep=rep, type=p)
                    pairs = [("key", g.key, gf.key, "Key"), ("coordinates", g.coordinates, gf.coordinates, "Coordinates"),
                             ("velocities", g.velocities, gf.velocities, "Velocities"),
                             ("temps", g.temps, gf.temps, "Temps"), ("particle_ids", g.particle_ids, gf.particle_ids, "ParticleIDs"),
                             ("masses", g.masses, gf.masses, "Masses")]
                    for fname, a, b, raw in pairs:
                        c = dict(case, field=fname)
                        same_data(ctx, "snap-rows", a, b, s.fields[p][raw].data, rows, c)
                        same_meta(ctx, "snap-attributes", a, b, c)
                        ctx.step()
                    for j, col in enumerate(("hydrogen", "helium", "carbon")):
                        a = getattr(g.element_mass_fractions, col)
                        b = getattr(gf.element_mass_fractions, col)
                        c = dict(case, field=col)
                        same_data(ctx, "named-column-rows", a, b, s.fields[p]["ElementMassFractions"].data[:, j], rows, c)
                        same_meta(ctx, "named-column-attributes", a, b, c)
                        ctx.step()
    ctx.sample(dict(kind="cells x cut", variant=variant, case=case))
    os.unlink(path)


def big(ctx, item):
    """selections with very long ranges take another read path"""
    n = 1_200_000
    path = os.path.join(ctx.scratch, f"C01_big_{os.getpid()}.hdf5")
    d = (np.arange(n) % 251).astype("u1")
    with h5py.File(path, "w") as h:
        a = h.create_dataset("a", data=d, chunks=(7001,))
        for r in ([[0, 600000], [600001, n]], [[1, 2], [3, n]], [[5, n - 3]], [[0, 0], [0, n]], [[n - 1, n], [n, n]],
                  [[0, 499999], [500000, 999999]], [[7000, 7001], [7001, 7003], [14002, 1014002]]):
            r = np.array(r)
            want = np.concatenate([d[x:y] for x, y in r])
            got = read_ranges_from_file(a, r, output_shape=len(want), output_type=a.dtype)
            ctx.check(np.array_equal(got, want), "reader-big", lambda: f"{r.tolist()}", dict(ranges=r))
            ctx.step()
            ctx.trace()
            ctx.state("big", r.tolist())
    os.unlink(path)


def dispatch(ctx, item):
    with ctx.guard(item):
        dict(sub=reader_subsets, cells=reader_cells, soap=soap_stack, snap=snap_stack, big=big)[item[0]](ctx, item)


def run(ctx):
    t = ctx.thorough
    items = [("snap", v) for v in ("chunked", "contiguous")] + [("big",)]
    items += [("soap", k, 4) for k in range(4)]
    items += [("cells", c) for c in ((None, 1, 2, 3, 4, 5, 6, 8, 12) if t else (1, 2, 3, 5))]
    items += [("sub", n, c) for n in ((1, 4, 8, 10, 12) if t else (1, 5, 8)) for c in (None, 1, 2, 3, 4, 5, 7, 11) if not c or c <= n]
    ctx.pmap(dispatch, items)
