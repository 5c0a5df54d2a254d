"""C03: spatial masks select every particle in the region, cell-granular, once each.

Exhaustive enumeration of (file layout) x (region) on the real mask + reader; oracle is brute-force
periodic geometry on the particle positions and the recorded cell extents.
"""

import itertools
import os

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array, cosmo_quantity
from swiftsimio.masks import SWIFTMask
from mc.snap import F, Snap, NAMES

META = dict(
    level="model_checking",
    explanation="All axis-aligned regions on a coordinate grid (interior, wrapping, inverted, degenerate, "
    "outside the primary box, unrestricted, wider than the box) for every file layout in the "
    "list: cell order in file (as single-rank, MPI-interleaved with per-rank offsets, empty "
    "cells), recorded extents or padding, drifted particles, particle types. Each region is run "
    "through the real mask and the rows are really loaded (chunked and contiguous fields).",
    assumptions=["regions are open intervals: particles exactly on a face of the region are not required",
                 "drift keeps particles within the recorded extents / safe padding",
                 "region corners on a binary grid so that comparisons are exact"],
)

A = 0.5


def fields(p, n, s):
    return {
        "Chunked": F(s.ids[p], dtype="i8", chunks=(2,) if n > 1 else None),
        "Chunked3": F(np.stack([s.ids[p], s.ids[p] * 2], axis=1), dtype="i4",
                      chunks=(3, 2) if n > 2 else None),
    }


def small_drift(amp):
    def drift(p, cells, home, s):
        # alternate drift directions, crossing cell faces (and the box edge) by up to amp of a cell
        n = len(cells)
        out = np.zeros((n, 3))
        for i in range(n):
            sg = [(1, 1, -1), (-1, 1, 1), (1, -1, 1), (-1, -1, -1)][i % 4]
            # move to just outside the nearest face in that direction
            lo = s.centres[cells[i]] - 0.5 * s.size
            hi = lo + s.size
            for d in range(3):
                tgt = hi[d] + amp * s.size[d] if sg[d] > 0 else lo[d] - amp * s.size[d]
                out[i, d] = (tgt - home[i, d]) if (i + d) % 2 == 0 else 0.0
        return out

    return drift


def layouts():
    """name -> Snap kwargs"""
    L = {}
    c8 = dict(PartType0=[2, 1, 1, 3, 1, 1, 2, 1], PartType1=[1, 1, 2, 1, 1, 1, 1, 2])
    # 4x2x1 cells; several ranks own interleaved cells; some types absent from whole ranks
    mpi = [0, 2, 5, 7, 1, 3, 4, 6]
    L["single"] = dict(ncell=(4, 2, 1), counts=c8)
    L["mpi"] = dict(ncell=(4, 2, 1), counts=c8, rank_order=mpi)
    L["mpi_emptygas"] = dict(
        ncell=(4, 2, 1), rank_order=mpi,
        counts=dict(PartType0=[0, 2, 0, 1, 1, 0, 0, 0], PartType1=[1, 2, 1, 1, 0, 3, 2, 1],
                    PartType4=[0, 0, 2, 0, 0, 1, 1, 0]))
    L["drift"] = dict(ncell=(4, 2, 1), counts=c8, drift=small_drift(0.25))
    L["drift_mpi_big"] = dict(ncell=(4, 2, 1), rank_order=mpi, drift=small_drift(0.75),
                              counts=dict(PartType0=[3, 0, 1, 4, 0, 2, 1, 1], PartType4=[0, 1, 0, 0, 0, 0, 0, 1]))
    L["pad_default"] = dict(ncell=(4, 2, 1), counts=c8, minmax=False, drift=small_drift(0.0625))
    L["pad_default_mpi"] = dict(ncell=(4, 2, 1), counts=c8, minmax=False, rank_order=mpi,
                                drift=small_drift(0.0625), legacy_offsets=True)
    L["pad_off"] = dict(ncell=(4, 2, 1), counts=c8, minmax=False, safe_padding=False)
    L["pad_half"] = dict(ncell=(4, 2, 1), counts=c8, minmax=False, safe_padding=0.5,
                         drift=small_drift(0.4375))
    # many cells, so that the sort of cells is not a trivially stable small sort
    many = [1 if k % 3 else 0 for k in range(32)]
    many1 = [1 if k % 5 else 2 for k in range(32)]
    L["many"] = dict(ncell=(8, 2, 2), counts=dict(PartType0=many, PartType1=many1),
                     rank_order=[k for r in range(4) for k in range(32) if (k * 7 // 5) % 4 == r])
    L["one_cell"] = dict(ncell=(1, 1, 1), counts=dict(PartType0=[3], PartType1=[2]), drift=small_drift(0.0625))
    return L


def build(name, scratch):
    kw = dict(layouts()[name])
    pad = kw.pop("safe_padding", None)
    path = os.path.join(scratch, f"C03_{name}_{os.getpid()}.hdf5")
    s = Snap(path, box=(4.0, 2.0, 1.0) if name != "many" else (8.0, 2.0, 2.0), a=A, fields=fields, **kw)
    s.pad = pad
    s.minmax = kw.get("minmax", True)
    return s


def intervals_full(L, step):
    v = np.arange(-L / 2, 1.5 * L + step / 2, step)
    return [(a, b) for a in v for b in v]


def regions(name, s, thorough):
    Lx, Ly, Lz = s.box
    out = []
    step = Lx / 16 if thorough else Lx / 8
    off = step / 2 if not thorough else 0.0
    # one restricted axis, all pairs; both on the cell faces and off them
    main = thorough or name in ("drift", "pad_default_mpi", "mpi_emptygas")
    if not main:
        step = Lx / 4
    for a, b in intervals_full(Lx, step):
        out.append(((a, b), None, None))
    if not thorough:
        q = Lx / 32
        vals = [-Lx / 2 + q, -3 * q, -q, q, 3 * q, 7 * q, Lx / 4 + q, Lx / 2 - q, Lx / 2 + q, 3 * Lx / 4 - 5 * q,
                Lx - 3 * q, Lx - q, Lx + q, Lx + 5 * q, 3 * Lx / 2 - q]
        if not main:
            vals = vals[2::2]
        out += [((a, b), None, None) for a in vals for b in vals]
    q = Ly / 16
    vals = [-Ly / 2, -q, 0, 3 * q, Ly / 2, Ly / 2 + q, Ly - q, Ly, Ly + 3 * q, 3 * Ly / 2]
    if not main:
        vals = vals[1::2]
    out += [(None, (a, b), None) for a in vals for b in vals]
    q = Lz / 16
    vals = [-Lz / 2, -q, 0, 3 * q, Lz - q, Lz, Lz + q]
    if not main:
        vals = vals[1::2]
    out += [(None, None, (a, b)) for a in vals for b in vals]
    # combinations of representative intervals
    def reps(L, n):
        e = L / 32
        r = [None, (e, L / 4 - e), (L - 2 * e, L + 2 * e), (-2 * e, 2 * e), (L - 2 * e, 2 * e), (L / 2 + e, L / 2 + e),
             (L / 4 + e, 3 * L / 4 - e), (0, L), (L / 4, L / 2), (-L / 2, -L / 4 - e), (5 * L / 4, 3 * L / 2)]
        return r[:n]
    n = 9 if thorough else 5 if main else 4
    out += [r for r in itertools.product(reps(Lx, n), reps(Ly, n), reps(Lz, 6 if thorough else 4 if main else 2))]
    return out


def mk(region, kind, s):
    def q(x):
        if kind == "comoving":
            return cosmo_quantity(x, u.Mpc, comoving=True, scale_factor=A, scale_exponent=1)
        if kind == "physical":
            return cosmo_quantity(x * A, u.Mpc, comoving=False, scale_factor=A, scale_exponent=1)
        if kind == "kpc":
            return cosmo_quantity(x * 1000.0, u.kpc, comoving=True, scale_factor=A, scale_exponent=1)
        raise ValueError(kind)
    if kind == "array":
        return cosmo_array([list(r) if r is not None else [0, L] for r, L in zip(region, s.box)], u.Mpc,
                           comoving=True, scale_factor=A, scale_exponent=1)
    return [None if r is None else [q(r[0]), q(r[1])] for r in region]


def normalise(r, L):
    """interval -> ('all',) or open interval (lo, hi) with lo <= hi."""
    if r is None:
        return None
    lo, hi = r
    if abs(hi - lo) > L:
        return None
    if hi < lo:
        hi = hi + L  # inverted: wraps through the boundary
    return lo, hi


def inside(x, r, L):
    if r is None:
        return np.ones(len(x), bool)
    lo, hi = r
    return np.logical_or.reduce([(x + k * L > lo) & (x + k * L < hi) for k in range(-4, 5)])


def touches(lo_c, hi_c, r, L):
    if r is None:
        return np.ones(len(lo_c), bool)
    lo, hi = r
    return np.logical_or.reduce([(hi_c + k * L >= lo) & (lo_c + k * L <= hi) for k in range(-4, 5)])


def expect(s, region):
    norm = [normalise(r, L) for r, L in zip(region, s.box)]
    out = {}
    for p in s.counts:
        need = np.ones(s.n[p], bool)
        allow_c = np.ones(len(s.centres), bool)
        if s.minmax:
            lo_c = np.minimum(s.minpos[p], s.centres - 0.5 * s.size)
            hi_c = np.maximum(s.maxpos[p], s.centres + 0.5 * s.size)
        else:
            pad = 0.1 if s.pad is None or s.pad is True else float(s.pad)
            lo_c = s.centres - (0.5 + pad) * s.size - 1e-12
            hi_c = s.centres + (0.5 + pad) * s.size + 1e-12
        for d in range(3):
            need &= inside(s.pos[p][:, d], norm[d], s.box[d])
            allow_c &= touches(lo_c[:, d], hi_c[:, d], norm[d], s.box[d])
        out[p] = (need, allow_c[s.cellof[p]] if s.n[p] else np.zeros(0, bool))
    return out


def one(ctx, s, md, name, region, kind):
    case = dict(layout=name, region=region, kind=kind)
    kw = {} if s.pad is None else dict(safe_padding=s.pad)
    m = SWIFTMask(s.path, md, **kw)
    reg = mk(region, kind, s)
    refused = False
    try:
        m.constrain_spatial(reg)
    except ValueError as e:
        refused = True
        bad = any(r is not None and not (-0.5 * L <= min(r) and max(r) <= 1.5 * L)
                  for r, L in zip(region, s.box))
        # values exactly on the limit may be refused after unit conversion rounding
        edge = kind != "comoving" and any(
            r is not None and any(abs(x + 0.5 * L) < 1e-9 or abs(x - 1.5 * L) < 1e-9 for x in r)
            for r, L in zip(region, s.box))
        ctx.check(bad or edge, "refused-valid-region", lambda: f"{case}: {e}", case)
    ctx.step()
    ctx.trace()
    exp = expect(s, region)
    d = sw.load(s.path, mask=m)
    sel_key = []
    for p, (need, allow) in exp.items():
        g = getattr(d, NAMES[p])
        if refused:
            need, allow = np.ones(s.n[p], bool), np.ones(s.n[p], bool)
        got = np.asarray(g.particle_ids)
        base = s.ids[p][0] if s.n[p] else 0
        rows = got.astype("i8") - base
        if len(rows) and (rows.min() < 0 or rows.max() >= s.n[p]):
            ctx.fail("garbage-rows", f"{case} {p}: ids {got}", case)
            continue
        mask = np.zeros(s.n[p], bool)
        mask[rows] = True
        ctx.check(len(rows) == mask.sum(), "duplicate-rows", lambda: f"{case} {p}: {rows}", case)
        miss = np.where(need & ~mask)[0]
        ctx.check(len(miss) == 0, "missing-particle",
                  lambda: f"{case} {p}: rows {miss} at {s.pos[p][miss]} not loaded", case)
        extra = np.where(mask & ~allow)[0]
        ctx.check(len(extra) == 0, "untouched-cell-loaded",
                  lambda: f"{case} {p}: rows {extra} at {s.pos[p][extra]} loaded", case)
        # whole cells
        for k in range(len(s.centres)):
            inc = mask[s.cellof[p] == k]
            ctx.check(inc.all() or not inc.any(), "partial-cell", lambda: f"{case} {p} cell {k}", case)
        # every field of the type gives the same rows in the same order
        ok = (np.array_equal(np.asarray(g.coordinates), s.pos[p][rows])
              and np.array_equal(np.asarray(g.chunked), s.ids[p][rows])
              and np.array_equal(np.asarray(g.chunked3)[:, 1] if len(rows) else np.zeros(0), 2 * s.ids[p][rows])
              and np.array_equal(np.asarray(g.masses), 0.5 * s.ids[p][rows]))
        ctx.check(ok, "fields-disagree", lambda: f"{case} {p}: rows {rows} coordinates/chunked fields differ", case)
        sel_key.append(tuple(np.where(mask)[0]))
    ctx.state(name, tuple(sel_key))
    ctx.count("regions")
    if refused:
        ctx.count("refused")


def job(ctx, item):
    name, part, nparts = item
    s = build(name, ctx.scratch)
    md = sw.load(s.path).metadata
    regs = regions(name, s, ctx.thorough)
    for i, r in enumerate(regs):
        if i % nparts != part:
            continue
        with ctx.guard((name, r)):
            one(ctx, s, md, name, r, "comoving")
        if (i // nparts) % 12 == 0:
            for kind in ("physical", "kpc", "array"):
              with ctx.guard((name, r, kind)):
                one(ctx, s, md, name, r, kind)
        if i < 3:
            ctx.sample(dict(layout=name, region=r))
    os.unlink(s.path)


def groupcat(ctx, item):
    """Subhalo catalogue: one shared cell table, no drift, no padding, one shared selection."""
    from mc.soap import build_soap

    path = os.path.join(ctx.scratch, f"C03_soap_{os.getpid()}.hdf5")
    s = build_soap(path)
    md = sw.load(path).metadata
    L = s.box[0]
    vals = [-L / 2, -L / 16, L / 16, L / 4, 3 * L / 8, L / 2, 13 * L / 16, L, 17 * L / 16, 3 * L / 2]
    for a, b in itertools.product(vals, vals):
        for other in (None, (s.box[1] / 16, s.box[1] / 8)):
            region = ((a, b), other, None)
            case = dict(layout="soap", region=region)
            m = SWIFTMask(path, md)
            m.constrain_spatial(mk(region, "comoving", s))
            d = sw.load(path, mask=m)
            got = np.asarray(d.input_halos.halo_catalogue_index).astype(int)
            got2 = np.asarray(d.spherical_overdensity_200_crit.total_mass).astype(int)
            norm = [normalise(r, LL) for r, LL in zip(region, s.box)]
            need = np.ones(s.nrows, bool)
            allow = np.ones(len(s.centres), bool)
            for dd in range(3):
                need &= inside(s.pos[:, dd], norm[dd], s.box[dd])
                allow &= touches(s.centres[:, dd] - s.size[dd] / 2, s.centres[:, dd] + s.size[dd] / 2,
                                 norm[dd], s.box[dd])
            mask = np.zeros(s.nrows, bool)
            mask[got] = True
            ctx.check(len(got) == mask.sum(), "soap-duplicate", str(case), case)
            ctx.check(np.array_equal(got, got2), "soap-groups-disagree", str(case), case)
            ctx.check(not (need & ~mask).any(), "soap-missing", str(case), case)
            ctx.check(not (mask & ~allow[s.cellof]).any(), "soap-untouched-cell-loaded", str(case), case)
            ctx.step()
            ctx.trace()
            ctx.count("soap_regions")
            ctx.state("soap", tuple(got))
    os.unlink(path)


def dispatch(ctx, item):
    if item[0] == "soap":
        groupcat(ctx, item)
    else:
        job(ctx, item)


def run(ctx):
    names = list(layouts())
    nparts = 8 if ctx.thorough else 3
    items = [(n, k, nparts) for k in range(nparts) for n in names] + [("soap", 0, 1)]
    ctx.pmap(dispatch, items)
