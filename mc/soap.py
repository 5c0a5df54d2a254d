"""Tiny synthetic subhalo catalogue (SOAP-like), friends-of-friends and line-of-sight files."""

import h5py
import numpy as np

from mc.snap import F, write_field, write_header, write_units


class Soap:
    pass


def build_soap(path, *, box=(4.0, 2.0, 1.0), ncell=(4, 2, 1), counts=(2, 1, 0, 3, 1, 1, 2, 1),
               order=(0, 2, 5, 7, 1, 3, 4, 6), a=0.5, extra_groups=None):
    s = Soap()
    s.path = str(path)
    s.box = np.asarray(box, "f8")
    nc = int(np.prod(ncell))
    s.size = s.box / np.asarray(ncell)
    idx = np.stack(np.unravel_index(np.arange(nc), ncell), axis=-1)
    s.centres = (idx + 0.5) * s.size
    s.counts = np.asarray(counts)
    s.offsets = np.zeros(nc, "i8")
    run, cells = 0, []
    for k in order:
        s.offsets[k] = run
        run += counts[k]
        cells += [k] * counts[k]
    s.cellof = np.array(cells)
    s.nrows = run
    s.pos = np.array([(idx[k] + np.array([(i % 3 + 0.5) / 4, (i % 2 + 0.5) / 3, 0.5])) * s.size
                      for i, k in enumerate(cells)])
    s.a = a
    n = run
    s.fields = {
        "InputHalos/HaloCatalogueIndex": F(np.arange(n), dtype="i8"),
        "InputHalos/HaloCentre": F(s.pos, L=1, a=1),
        "SO/200_crit/TotalMass": F(np.arange(n), M=1, dtype="f4", chunks=(3,)),
        "SO/200_crit/CentreOfMass": F(s.pos, L=1, a=1, physical=0),
        "BoundSubhalo/NumberOfGasParticles": F(np.arange(n) * 2, dtype="u4"),
    }
    s.fields.update(extra_groups or {})
    groups = sorted({k.rsplit("/", 1)[0] for k in s.fields})
    with h5py.File(path, "w") as h:
        g = write_header(h, box=s.box, numpart=[0] * 8, a=a, out=b"SOAP",
                         extra={"NumSubhalos_ThisFile": np.array([n], "i8"),
                                "NumSubhalos_Total": np.array([n], "i8"),
                                "SubhaloTypes": np.array(groups, dtype=h5py.string_dtype())})
        write_units(h)
        write_units(h, group="InternalCodeUnits")
        c = h.create_group("Cells")
        c.create_dataset("Centres", data=s.centres)
        c.create_dataset("Counts/Subhalos", data=s.counts)
        c.create_dataset("OffsetsInFile/Subhalos", data=s.offsets)
        m = c.create_group("Meta-data")
        m.attrs["size"] = s.size
        m.attrs["dimension"] = np.array(ncell, "i4")
        m.attrs["nr_cells"] = np.array([nc], "i4")
        code = h.create_group("Code")
        code.attrs["Code"] = np.bytes_(b"SOAP")
        for k, f in s.fields.items():
            gname, name = k.rsplit("/", 1)
            gg = h.require_group(gname)
            gg.attrs["Masked"] = False
            write_field(gg, name, f)
    return s
