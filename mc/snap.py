"""Builds tiny synthetic SWIFT files (and keeps the plain-numpy truth beside them).

The builder writes with h5py only; it shares no code with swiftsimio.
"""

import h5py
import numpy as np

MPC = 3.08567758e24
MSUN10 = 1.98841e43
GYRISH = 3.08567758e19
NAMES = {
    "PartType0": "gas",
    "PartType1": "dark_matter",
    "PartType2": "boundary",
    "PartType3": "sinks",
    "PartType4": "stars",
    "PartType5": "black_holes",
    "PartType6": "neutrinos",
    "PartType7": "sidm",
}


class F:
    """One field: data plus HDF5 attributes."""

    def __init__(self, data, I=0.0, L=0.0, M=0.0, T=0.0, t=0.0, a=0.0, physical=0,
                 convertible=1, desc="A field.", comp="None", chunks=None, dtype=None,
                 columns=None, extra=None, drop=(), gzip=None):
        self.data = np.asarray(data) if dtype is None else np.asarray(data).astype(dtype)
        self.exps = dict(I=I, L=L, M=M, T=T, t=t)
        self.a, self.physical, self.convertible = a, physical, convertible
        self.desc, self.comp, self.chunks, self.columns = desc, comp, chunks, columns
        self.extra = extra or {}
        self.drop = set(drop)
        self.gzip = gzip


def write_field(group, name, f):
    kw = {}
    if f.chunks:
        kw["chunks"] = tuple(f.chunks)
    if f.gzip:
        kw["compression"] = "gzip"
    ds = group.create_dataset(name, data=f.data, **kw)
    at = {}
    for k, v in f.exps.items():
        at[f"U_{k} exponent"] = np.array([float(v)])
    at["a-scale exponent"] = np.array([float(f.a)])
    at["h-scale exponent"] = np.array([0.0])
    at["Value stored as physical"] = np.array([int(f.physical)], dtype="i4")
    at["Property can be converted to comoving"] = np.array([int(f.convertible)], dtype="i4")
    at["Description"] = np.bytes_(f.desc)
    at["Lossy compression filter"] = np.bytes_(f.comp)
    at.update(f.extra)
    for k, v in at.items():
        if k not in f.drop:
            ds.attrs[k] = v
    return ds


def write_units(h, L=MPC, M=MSUN10, t=GYRISH, I=1.0, T=1.0, group="Units"):
    g = h.create_group(group)
    for k, v in dict(U_L=L, U_M=M, U_t=t, U_I=I, U_T=T).items():
        n = dict(U_L="length", U_M="mass", U_t="time", U_I="current", U_T="temperature")[k]
        g.attrs[f"Unit {n} in cgs ({k})"] = np.array([float(v)])
    return g


def write_header(h, *, box, numpart, a=1.0, out=b"FullVolume", dim=3, time=1.0, nfiles=1,
                 extra=None, drop=()):
    g = h.create_group("Header")
    n = np.asarray(numpart, dtype="u8")
    at = dict(
        BoxSize=np.asarray(box, dtype="f8"),
        CanHaveTypes=(n > 0).astype("i4"),
        Dimension=np.array([dim], dtype="i4"),
        Flag_Entropy_ICs=np.zeros(len(n), dtype="i4"),
        NumFilesPerSnapshot=np.array([nfiles], dtype="i4"),
        NumPart_ThisFile=n,
        NumPart_Total=n.astype("u4"),
        NumPart_Total_HighWord=np.zeros(len(n), dtype="u4"),
        NumPartTypes=np.array([len(n)], dtype="i4"),
        OutputType=np.bytes_(out),
        Redshift=np.array([1.0 / a - 1.0]),
        RunName=np.bytes_(b"mc"),
        MassTable=np.zeros(len(n)),
        InitialMassTable=np.zeros(len(n)),
        SnapshotDate=np.bytes_(b"12:34:56 2020-01-02 UTC"),
        Time=np.array([float(time)]),
        Virtual=np.array([0], dtype="i4"),
        ThisFile=np.array([0], dtype="i4"),
    )
    at["Scale-factor"] = np.array([float(a)])
    at.update(extra or {})
    for k, v in at.items():
        if k not in drop:
            g.attrs[k] = v
    return g


class Snap:
    """A cell-structured snapshot.

    counts[ptype] : particles per cell (cell index = row of Centres)
    rank_order    : order in which cells are laid out in the file (same for every type)
    ranks         : list of cell groups; empty-cell offsets follow SWIFT (running offset of its rank)
    """

    def __init__(self, path, *, box, ncell, counts, rank_order=None, a=0.5, minmax=True,
                 drift=None, fields=None, legacy_offsets=False, out=b"FullVolume", extra=None,
                 pos_grid=4, header_extra=None, column_names=None, virtual_total=True,
                 cell_time="offsets", units=None, posmap=None, centre_order=None):
        self.path = str(path)
        self.box = np.asarray(box, dtype="f8")
        self.ncell = tuple(ncell)
        self.a = a
        nc = int(np.prod(ncell))
        self.size = self.box / np.asarray(ncell)
        idx = np.stack(np.unravel_index(np.arange(nc), ncell), axis=-1)
        if centre_order is not None:
            idx = idx[np.asarray(centre_order)]
        self.centres = (idx + 0.5) * self.size
        self.order = list(range(nc)) if rank_order is None else list(rank_order)
        self.counts = {k: np.asarray(v, dtype="i8") for k, v in counts.items()}
        self.offsets, self.cellof, self.pos, self.home, self.ids = {}, {}, {}, {}, {}
        self.minpos, self.maxpos = {}, {}
        nid = 1
        for p, c in self.counts.items():
            off = np.zeros(nc, dtype="i8")
            run = 0
            cells = []
            for k in self.order:
                off[k] = run
                run += c[k]
                cells += [k] * int(c[k])
            self.offsets[p] = off
            self.cellof[p] = np.array(cells, dtype="i8")
            n = run
            # deterministic positions inside the home cell: a low-discrepancy lattice pattern
            home = np.zeros((n, 3))
            for i, k in enumerate(cells):
                j = i - off[k]
                frac = np.array([(2 * ((j * m + s) % pos_grid) + 1) / (2 * pos_grid)
                                 for m, s in ((1, 0), (3, 1), (2, 1))])
                home[i] = (idx[k] + frac) * self.size
            if posmap is not None:
                home = posmap(p, cells, home, self)
            self.home[p] = home
            d = drift(p, cells, home, self) if drift is not None else np.zeros_like(home)
            # SWIFT box-wraps positions on output
            self.drifted = home + d
            self.pos[p] = np.mod(self.drifted, self.box)
            lo = np.full((nc, 3), np.inf)
            hi = np.full((nc, 3), -np.inf)
            for i, k in enumerate(cells):
                lo[k] = np.minimum(lo[k], self.drifted[i])
                hi[k] = np.maximum(hi[k], self.drifted[i])
            # SWIFT initialises empty cells to the cell extents
            e = c == 0
            lo[e] = (self.centres - 0.5 * self.size)[e]
            hi[e] = (self.centres + 0.5 * self.size)[e]
            self.minpos[p], self.maxpos[p] = lo, hi
            self.ids[p] = np.arange(nid, nid + n)
            nid += n
        self.n = {p: int(c.sum()) for p, c in self.counts.items()}
        numpart = [self.n.get(f"PartType{i}", 0) for i in range(8)]
        self.fields = {}
        with h5py.File(self.path, "w") as h:
            write_header(h, box=self.box, numpart=numpart, a=a, out=out, extra=header_extra)
            write_units(h, **(units or {}))
            write_units(h, group="InternalCodeUnits", **(units or {}))
            g = h.create_group("Cells")
            g.create_dataset("Centres", data=self.centres)
            for p in self.counts:
                g.create_dataset(f"Counts/{p}", data=self.counts[p])
                if legacy_offsets:
                    g.create_dataset(f"Offsets/{p}", data=self.offsets[p])
                else:
                    g.create_dataset(f"OffsetsInFile/{p}", data=self.offsets[p])
                    g.create_dataset(f"Files/{p}", data=np.zeros(nc, dtype="i4"))
                if minmax:
                    g.create_dataset(f"MinPositions/{p}", data=self.minpos[p])
                    g.create_dataset(f"MaxPositions/{p}", data=self.maxpos[p])
            m = g.create_group("Meta-data")
            m.attrs["dimension"] = np.array(self.ncell, dtype="i4")
            m.attrs["nr_cells"] = np.array([nc], dtype="i4")
            m.attrs["size"] = self.size
            for p in self.counts:
                n = self.n[p]
                gp = h.create_group(p)
                gp.attrs["NumberOfParticles"] = np.array([n], dtype="i8")
                fs = {
                    "Coordinates": F(self.pos[p], L=1, a=1, desc="Co-moving positions"),
                    "ParticleIDs": F(self.ids[p], dtype="u8", desc="Unique IDs"),
                    "Masses": F(self.ids[p] * 0.5, M=1, desc="Masses", dtype="f8"),
                }
                fs.update((fields(p, n, self) or {}) if fields else {})
                self.fields[p] = fs
                gp.attrs["NumberOfFields"] = np.array([len(fs)], dtype="i4")
                for name, f in fs.items():
                    write_field(gp, name, f)
                h[f"{NAMES[p].title().replace('_', '')}Particles"] = h5py.SoftLink(f"/{p}")
            cols = {}
            for p in self.fields:
                for name, f in self.fields[p].items():
                    if f.columns:
                        cols[name] = f.columns
            if cols:
                nd = h.create_group("SubgridScheme/NamedColumns")
                for name, c in cols.items():
                    nd.create_dataset(name, data=np.array([np.bytes_(x) for x in c], dtype="S32"))
            if extra:
                extra(h, self)
