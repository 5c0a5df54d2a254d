"""Run everything swiftsimio offers with some packages absent: absent.py DIR NAMES OUT [ops...] (one process per combination)."""

import contextlib
import io
import os
import pickle
import sys
import warnings


class Without:
    """a finder that does not find the packages named"""

    def __init__(self, finder, names):
        self.finder, self.names = finder, names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            return None
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, key):
        return getattr(self.finder, key)


def operations(folder):
    import h5py
    import numpy as np
    import unyt

    import swiftsimio as sw
    from swiftsimio import Writer, cosmo_array, cosmo_quantity

    snap = folder + "/snap.hdf5"
    tag = f"{os.getpid()}"
    q = lambda v, unit="Mpc", exp=1, a=0.5: (cosmo_quantity if np.ndim(v) == 0 else cosmo_array)(v, unyt.Unit(unit), comoving=True, scale_factor=a, scale_exponent=exp)

    def out(x):
        if hasattr(x, "cosmo_factor"):
            return np.asarray(x.value), str(x.units), str(x.cosmo_factor), x.comoving, x.valid_transform, x.compression
        if hasattr(x, "units"):
            return np.asarray(x.value), str(x.units)
        return x

    def fields(d):
        r = {}
        for g in d.metadata.present_group_names:
            o = getattr(d, g)
            for f in o.group_metadata.field_names:
                v = getattr(o, f)
                if hasattr(v, "named_columns"):
                    for c in v.named_columns:
                        r[g, f, c] = out(getattr(v, c))
                else:
                    r[g, f] = out(v)
        return r

    def temp(name):
        return os.path.join(folder, f"{tag}-{name}")

    def masked(how="cells"):
        m = sw.mask(snap, spatial_only=how == "cells")
        m.constrain_spatial(q([[0.2, 1.9], [0.0, 3.9], [0.3, 3.0]]))
        if how != "cells":
            m.constrain_mask("gas", "masses", q(1.5, "1e10*Msun", 0), q(9, "1e10*Msun", 0))
        return m

    def load():
        return fields(sw.load(snap))

    def mask_cells():
        return fields(sw.load(snap, mask=masked()))

    def mask_rows():
        return fields(sw.load(snap, mask=masked("rows")))

    def subset():
        p = temp("subset.hdf5")
        sw.subset_writer.write_subset(p, masked("rows"))
        with h5py.File(p) as h:
            names = []
            h.visit(names.append)
        r = fields(sw.load(p)), sorted(names)
        os.remove(p)
        return r

    def write():
        p = temp("ic.hdf5")
        w = Writer(unit_system="galactic", boxsize=q([2.0, 3, 4]), scale_factor=0.5)
        n = 6
        w.gas.coordinates = q(np.arange(3.0 * n).reshape(n, 3) / 20)
        w.gas.velocities = q(np.arange(3.0 * n).reshape(n, 3), "km/s", 0)
        w.gas.masses = q(np.arange(n) + 1.0, "Msun", 0)
        w.gas.internal_energy = q(np.arange(n) + 1.0, "km**2/s**2", -2)
        w.gas.smoothing_lengths = q(np.arange(n) + 0.1)
        w.write(p)
        r = fields(sw.load(p))
        os.remove(p)
        return r

    def generated_lengths():
        w = Writer(unit_system="galactic", boxsize=q([2.0, 2, 2]), scale_factor=0.5)
        n = 40
        w.gas.coordinates = q((np.arange(3.0 * n).reshape(n, 3) * 0.618) % 2)
        w.gas.generate_smoothing_lengths()
        return out(w.gas.smoothing_lengths)

    def statistics():
        s = sw.load_statistics(folder + "/statistics.txt")
        return {f: out(getattr(s, f)) for f in ("time", "total_mass")}

    def arrays():
        x, y = q([1.0, 2, 3]), q([4.0, 5, 7], "kpc")
        r = [x + y, x * y, np.sqrt(x * x), np.concatenate([x, x]), x.to_physical(), x.to("cm"), np.histogram(x, bins=q([0.0, 2, 4]))[0], x.to_pint() if "pint" in sys.modules else 0, np.dot(x, y), repr(x), str(y)]
        return [out(v) for v in r]

    def astropy():
        v = unyt.unyt_array([1.0, 2], "Mpc").to_astropy()
        x = q([1.0, 2]).to_astropy()
        return v.value, str(v.unit), np.asarray(x.value), str(x.unit)

    def cosmology():
        m = sw.load(snap).metadata
        raw = {k: np.asarray(v) for k, v in m.cosmology_raw.items()}
        if isinstance(m.cosmology, dict):
            given = {k: np.asarray(v) for k, v in m.cosmology.items()}
            return given, "raw" if list(given) == list(raw) else "changed"
        c = m.cosmology
        return raw, [float(getattr(v, "value", v)) for v in (c.H0, c.Om0, c.Ode0, c.Ob0, c.w0, c.Tcmb0, c.efunc(1.0))]

    def metadata():
        m = sw.load(snap).metadata
        return str(m.boxsize), str(m.time), m.n_gas, m.z, m.gas_properties.field_names, m.code_info, sorted(m.code), m.present_group_names

    def tool():
        from swiftsimio import swiftsnap

        old, text = sys.argv, io.StringIO()
        sys.argv = ["swiftsnap", snap]
        try:
            with contextlib.redirect_stdout(text):
                swiftsnap.swiftsnap()
        finally:
            sys.argv = old
        text = text.getvalue()
        i, j = text.index("Cosmology:"), text.index("Gravity scheme:")  # the cosmology is shown as astropy writes it
        return [s for s in (text[:i] + text[j:]).splitlines() if s.strip()][2:]

    def project(backend, parallel=False):
        from swiftsimio.visualisation.projection import project_gas

        d = sw.load(snap)
        return out(project_gas(d, 6, backend=backend, parallel=parallel, periodic=True))

    def cut(backend="sph", parallel=False):
        from swiftsimio.visualisation.slice import slice_gas

        return out(slice_gas(sw.load(snap), 6, z_slice=q(1.2), backend=backend, parallel=parallel))

    def render(parallel=False):
        from swiftsimio.visualisation.volume_render import render_gas

        return out(render_gas(sw.load(snap), 5, parallel=parallel))

    def deposit():
        from swiftsimio.visualisation.power_spectrum import render_to_deposit

        return out(render_to_deposit(sw.load(snap).gas, 5))

    def spectrum():
        from swiftsimio.visualisation.power_spectrum import deposition_to_power_spectrum, folded_depositions_to_power_spectrum, render_to_deposit

        d = sw.load(snap)
        f = [render_to_deposit(d.gas, 6, folding=i) for i in (0, 1)]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            a = deposition_to_power_spectrum(f[0], d.metadata.boxsize, wavenumber_bins=q([1.0, 4, 8], "1/Mpc", -1))
            b = folded_depositions_to_power_spectrum({0: f[0], 1: f[1]}, d.metadata.boxsize, 3, wavenumber_range=(q(1.0, "1/Mpc", -1), q(9.0, "1/Mpc", -1)), track_progress=True)
        return [out(v) for v in (*a[:2], *b[:2])]

    def lengths():
        from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths

        d = sw.load(snap)
        return out(generate_smoothing_lengths(d.gas.coordinates, d.metadata.boxsize, 1.9, neighbours=4, speedup_fac=1, dimension=3))

    def rotation():
        from swiftsimio.visualisation.rotation import rotation_matrix_from_vector

        return rotation_matrix_from_vector(np.array([1.0, 2.0, 3.0]), "z")

    def visualised():
        from swiftsimio.visualisation.volume_render import visualise_render

        return visualise_render((np.arange(24.0).reshape(2, 3, 4) + 1) / 24, [0.3, 0.7], 0.2)[0]

    def options():
        from swiftsimio.visualisation.volume_render import visualise_render_options

        ax = visualise_render_options([0.3, 0.7], 0.2)[1]
        return [np.asarray(l.get_ydata()) for l in ax.lines]

    def colours():
        from swiftsimio.visualisation.tools.cmaps import LinearSegmentedCmap2D

        c = LinearSegmentedCmap2D(colors=[[1.0, 0, 0], [0, 0, 1.0]], coordinates=[[0.0, 0], [1, 1]], name="x", description="y")
        return c([0.1, 0.5], [0.2, 0.9])

    def checks():
        return sw.validate_file(snap), *(str(x).replace(folder, "") for x in (sw.load(snap), sw.load(snap).gas))

    everything = [load, mask_cells, mask_rows, subset, write, generated_lengths, statistics, arrays, astropy, cosmology, metadata, tool, deposit, spectrum, lengths, rotation, visualised, options, colours, checks]
    r = {f.__name__: f for f in everything}
    for b in ("histogram", "fast", "renormalised", "subsampled", "subsampled_extreme", "reference", "gpu"):
        r[f"project {b}"] = lambda b=b: project(b)
    r["project fast parallel"] = lambda: project("fast", True)
    r["cut"], r["cut parallel"], r["cut nearest"] = cut, lambda: cut(parallel=True), lambda: cut("nearest_neighbours")
    r["render"], r["render parallel"] = render, lambda: render(True)
    return r


def main(folder, names, target, chosen):
    names = set(names.split(",")) - {""}
    sys.meta_path[:] = [Without(f, names) for f in sys.meta_path]
    warnings.simplefilter("ignore")
    printed, results = io.StringIO(), {}
    with contextlib.redirect_stdout(printed):
        ops = operations(folder)
    for k, f in ops.items():
        if chosen and k not in chosen:
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                results[k] = "value", f()
        except Exception as e:  # noqa: BLE001
            results[k] = "error", [c.__name__ for c in type(e).__mro__], str(e)[:300]
    with open(target, "wb") as h:
        pickle.dump((printed.getvalue(), sorted(names & set(sys.modules)), results), h)


if __name__ == "__main__":
    main(*sys.argv[1:4], sys.argv[4:])
