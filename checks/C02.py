"""C02: batched remote range requests deliver the wanted rows, in order."""

import itertools
import os

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_quantity
from swiftsimio.accelerated import read_ranges_from_file
from mc.snap import F, NAMES, Snap

META = dict(
    level="model_checking",
    explanation="Every list of row ranges (all intervals incl. empty ones, up to the stated length, in every order) is "
    "read through a fake remote data set that records its requests and serves exactly them; 1-D, 2-D and "
    "single-column; plus whole masked loads of a snapshot through a remote-like file compared with the "
    "local load for every subset of cells.",
    assumptions=["the server honours requests: sorted, non-empty, disjoint slices, concatenated in order into the "
                 "destination buffer; anything else is reported"],
)


class Remote:
    """Serves slices of an array the way the range service does; rejects malformed requests."""

    def __init__(self, data, chunks=None):
        self.data, self.shape, self.ndim, self.dtype, self.chunks = data, data.shape, data.ndim, data.dtype, chunks
        self.requests = []

    def request_slices(self, slices, dest=None):
        self.requests.append(slices)
        parts = []
        last = -1
        for s in slices:
            rs = s[0] if isinstance(s, tuple) else s
            if not (rs.start < rs.stop):
                raise AssertionError(f"empty slice requested {slices}")
            if rs.start < last:
                raise AssertionError(f"unsorted or overlapping request {slices}")
            if rs.stop > self.shape[0] or rs.start < 0:
                raise AssertionError(f"out of range request {slices}")
            last = rs.stop
            parts.append(self.data[s])
        out = np.concatenate(parts).astype(self.dtype)
        if dest is None:
            return out
        if dest.shape != out.shape or dest.dtype != out.dtype:
            raise AssertionError(f"destination {dest.shape} {dest.dtype} does not fit {out.shape} {out.dtype}")
        dest[...] = out
        return dest


ROWS = 5


def lists(ctx, item):
    _, first, maxlen, rows_n = item
    iv = [(a, b) for a in range(rows_n + 1) for b in range(a, rows_n + 1)]
    d1 = np.arange(rows_n) * 3 + 1
    d2 = np.stack([d1, d1 * 2, -d1], axis=1)
    for ln in range(1, maxlen + 1):
        for rest in itertools.product(iv, repeat=ln - 1):
            rs = (iv[first],) + rest
            r = np.array(rs)
            flat = [i for a, b in rs for i in range(a, b)]
            ordered = all(rs[i][1] <= rs[j][0] for i in range(ln) for j in range(i + 1, ln) if rs[i][1] > rs[i][0] and rs[j][1] > rs[j][0])
            overlap = len(set(flat)) != len(flat)
            mode = (first + ln + len(flat)) % 3 if ln == maxlen else None
            for kind in (0, 1, 2) if mode is None else (mode,):
                data = d1 if kind == 0 else d2
                cols = np.s_[:] if kind < 2 else np.s_[1]
                rem = Remote(data, chunks=(2,) + data.shape[1:])
                shape = (len(flat), 3) if kind == 1 else len(flat)
                want = data[np.array(flat, dtype=int)] if kind < 2 else data[np.array(flat, dtype=int), 1]
                ctx.step()
                case = dict(ranges=rs, kind=kind)
                try:
                    got = read_ranges_from_file(rem, r, output_shape=shape, output_type=data.dtype, columns=cols)
                except AssertionError as e:
                    ctx.fail("bad-request", f"{case}: {e}", case)
                    continue
                except Exception as e:
                    ctx.check(overlap, "refused", lambda: f"{case}: {e!r}", case)
                    ctx.count("refused_overlap")
                    continue
                ctx.trace()
                ctx.check(np.array_equal(got, want), "wrong-rows", lambda: f"{case}: got {got.tolist()}, want {want.tolist()}", case)
                cover = sorted(i for s in rem.requests for x in s for i in range(*(x[0] if isinstance(x, tuple) else x).indices(rows_n)))
                ctx.check(cover == sorted(set(flat)), "wrong-cover", lambda: f"{case}: requested rows {cover}", case)
                ctx.check(len(rem.requests) <= 1, "not-batched", lambda: f"{case}: {len(rem.requests)} requests", case)
            ctx.state(rs)
    ctx.sample(dict(last=rs))


class RemoteDataset(h5py.Dataset):
    """An h5py data set that also offers the batched request interface (strict as above)."""

    log = []

    def request_slices(self, slices, dest=None):
        rem = Remote(h5py.Dataset(self.id)[...])
        RemoteDataset.log.append(len(slices))
        return rem.request_slices(slices, dest=dest)


class RemoteFile(h5py.File):
    def __getitem__(self, k):
        o = super().__getitem__(k)
        return RemoteDataset(o.id) if isinstance(o, h5py.Dataset) else o


def stack(ctx, item):
    path = os.path.join(ctx.scratch, f"C02_{os.getpid()}.hdf5")

    def fields(p, n, s):
        i = np.arange(n)
        el = np.stack([i + 0.25, i + 0.5, -1.0 * i], axis=1)
        return {"ElementMassFractions": F(el, columns=["Hydrogen", "Helium", "Carbon"], dtype="f4"),
                "Velocities": F(el * 2, L=1, t=-1, physical=1), "Big": F(i * 1.5, dtype=">f8")}

    s = Snap(path, box=(5.0, 1.0, 1.0), ncell=(5, 1, 1), a=0.5, fields=fields, rank_order=[0, 2, 1, 4, 3],
             counts=dict(PartType0=[2, 0, 3, 1, 2], PartType1=[0, 2, 1, 0, 1]))

    def q(x):
        return cosmo_quantity(x, u.Mpc, comoving=True, scale_factor=0.5, scale_exponent=1)

    def both(cells, cut):
        res = []
        for cls in (h5py.File, RemoteFile):
            with cls(path, "r") as h:
                RemoteDataset.log.clear()
                m = sw.mask(h)
                for k in cells:
                    m.constrain_spatial([[q(k + 0.25), q(k + 0.75)], None, None], union=True)
                if cut:
                    m.constrain_property("gas", "coordinates" if False else "masses",
                                         cosmo_quantity(0.6, s_units.mass, comoving=True, scale_factor=0.5, scale_exponent=0),
                                         cosmo_quantity(3.1, s_units.mass, comoving=True, scale_factor=0.5, scale_exponent=0))
                d = sw.load(h, mask=m)
                out = {}
                for p in s.counts:
                    g = getattr(d, NAMES[p])
                    for f in ("coordinates", "particle_ids", "masses", "velocities", "big"):
                        out[p, f] = getattr(g, f)
                    for c in ("hydrogen", "carbon"):
                        out[p, c] = getattr(g.element_mass_fractions, c)
                res.append(out)
                if cls is RemoteFile:
                    ctx.count("remote_requests", len(RemoteDataset.log))
        return res

    s_units = sw.load(path).units
    for bits in range(1, 32):
        cells = [k for k in range(5) if bits >> k & 1]
        for cut in (False, True):
            loc, rem = both(cells, cut)
            ctx.trace()
            for k in loc:
                a, b = loc[k], rem[k]
                ctx.step()
                ctx.check(np.array_equal(np.asarray(a), np.asarray(b)) and a.dtype == b.dtype and a.units == b.units
                          and a.comoving == b.comoving and a.cosmo_factor == b.cosmo_factor, "remote-differs",
                          lambda: f"cells {cells} cut {cut} {k}: {a} vs {b}", dict(cells=cells, cut=cut, field=k))
            ctx.state("stack", bits, cut)
    os.unlink(path)


def dispatch(ctx, item):
    with ctx.guard(item):
        (lists if item[0] == "lists" else stack)(ctx, item)


def run(ctx):
    rows_n = 7 if ctx.thorough else 5
    n = (rows_n + 1) * (rows_n + 2) // 2
    ctx.pmap(dispatch, [("stack",)] + [("lists", i, 4, rows_n) for i in range(n)])
