"""C18: visualising never alters the data and commutes with conversions."""

import contextlib
import io
import itertools

import numpy as np
import unyt

from swiftsimio.objects import cosmo_array
from swiftsimio.visualisation.power_spectrum import deposition_to_power_spectrum, render_to_deposit
from swiftsimio.visualisation.projection import project_gas, project_pixel_grid
from swiftsimio.visualisation.projection_backends import backends
from swiftsimio.visualisation.slice import slice_gas, slice_pixel_grid
from swiftsimio.visualisation.slice_backends import backends as slices
from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths
from swiftsimio.visualisation.volume_render import render_gas, render_voxel_grid
from mc.vis import ca, dataset, fill

META = dict(
    level="model_checking",
    explanation="All sequences up to three of image calls (projections with every backend, slices, volume renders, deposits and spectra, generated smoothing lengths; with "
    "regions, depths, rotations, masks, periodic or not) on one data set, with every array, label, box and argument compared byte for byte after each call and every image "
    "compared with the one made from untouched data; then every combination of frames and units of coordinates, smoothing lengths, "
    "projected field and region, and every equivalent form of mask, compared as physical images with the unit, frame and exponent recomputed.",
)
A = 0.5
BOX = (10.0, 10.0, 10.0)
N = 19


def points(outside=True):
    i = np.arange(N)
    pos = np.stack([(0.613 + 3.1337 * i) % 10, (9.271 + 2.1719 * i) % 10, (4.537 + 4.117 * i) % 10], axis=1)
    if outside:
        pos[::4] += 10.0
        pos[1::5] -= 10.0
    h = (0.31 + 0.37 * (i * 2 % 5)) / 1.936492
    return pos, h, 1.0 + i


def label(a):
    return (type(a).__name__, getattr(a, "dtype", None) and a.dtype.str, np.shape(a), np.asarray(a).tobytes() if a is not None else None, str(getattr(a, "units", None)),
            getattr(a, "comoving", None), str(getattr(a, "cosmo_factor", None)), getattr(a, "compression", None), getattr(a, "valid_transform", None), getattr(a, "name", None),
            getattr(getattr(a, "flags", None), "writeable", None))


FIELDS = ("coordinates", "smoothing_lengths", "masses", "particle_ids", "densities", "velocities", "energies", "phys")


def make(ctx, frame, loaded):
    pos, h, m = points()
    d = dataset(ctx, BOX, A, n=N)
    if not loaded:
        fill(d, pos, h, m, A, frame)
        g = d.gas
        g.densities = ca(1.0 + (np.arange(N) % 4), "g/Mpc**3", -3, a=A)
        g.energies = ca(m * 2.0, "erg", 2, a=A)
        g.phys = ca(m * 3.0, "K", 1, a=A, comoving=False, valid_transform=False)
    else:
        d.gas.energies = ca(m * 2.0, "erg", 2, a=A)
        d.gas.phys = ca(m * 3.0, "K", 1, a=A, comoving=False, valid_transform=False)
    d.gas.velocities
    return d


def arguments():
    from swiftsimio.visualisation.rotation import rotation_matrix_from_vector

    i = np.arange(N)
    return dict(
        flat=ca([1.0, 9.0, 2.0, 6.0], a=A), deep=ca([-1.0, 4.0, 2.0, 7.0, 8.0, 13.0], a=A), cube=ca([2.0, 8.0, -1.0, 5.0, 6.0, 12.0], a=A),
        phys=ca(np.array([1.0, 9.0, 2.0, 6.0]) * A, a=A, comoving=False), kpc=ca(np.array([1.0, 9.0, 2.0, 6.0]) * 1e3, "kpc", a=A),
        R=rotation_matrix_from_vector(np.array([1.0, -2.0, 0.5])), c=ca([3.0, 4.0, 5.0], a=A), cp=ca(np.array([3.0, 4.0, 5.0]) * A, a=A, comoving=False),
        bool=i % 3 != 1, index=np.flatnonzero(i % 3 != 1), z=ca(3.7, a=A), zp=ca(3.7 * A, a=A, comoving=False),
    )


CALLS = {
    "project": lambda d, g: project_gas(d, 4),
    "project region": lambda d, g: project_gas(d, 4, region=g["flat"], mask=g["bool"]),
    "project deep": lambda d, g: project_gas(d, 4, region=g["deep"], project="energies"),
    "project open": lambda d, g: project_pixel_grid(d.gas, 4, region=g["phys"], periodic=False, project="phys"),
    "project histogram": lambda d, g: project_gas(d, 4, backend="histogram", region=g["kpc"], mask=g["index"]),
    "project subsampled": lambda d, g: project_gas(d, 3, backend="subsampled", project=None),
    "project renormalised": lambda d, g: project_gas(d, 3, backend="renormalised", region=g["deep"], project="masses"),
    "project rotated": lambda d, g: project_gas(d, 4, rotation_matrix=g["R"], rotation_center=g["c"], periodic=False),
    "slice": lambda d, g: slice_gas(d, 4, z_slice=g["z"]),
    "slice region": lambda d, g: slice_pixel_grid(d.gas, 4, z_slice=g["zp"], region=g["flat"], mask=g["bool"], project="energies"),
    "slice nearest": lambda d, g: slice_gas(d, 4, z_slice=g["z"], backend="nearest_neighbours", region=g["phys"]),
    "slice rotated": lambda d, g: slice_gas(d, 4, z_slice=g["z"], rotation_matrix=g["R"], rotation_center=g["cp"], periodic=False, backend="nearest_neighbours"),
    "volume": lambda d, g: render_gas(d, 3, project="energies"),
    "volume region": lambda d, g: render_voxel_grid(d.gas, 3, region=g["cube"], mask=g["index"]),
    "volume rotated": lambda d, g: render_gas(d, 3, region=g["cube"], rotation_matrix=g["R"], rotation_center=g["c"], periodic=False),
    "deposit": lambda d, g: render_to_deposit(d.gas, 3, folding=1),
    "spectrum": lambda d, g: deposition_to_power_spectrum(render_to_deposit(d.gas, 4), d.metadata.boxsize)[1],
    "lengths": lambda d, g: generate_smoothing_lengths(wrapped(d), d.metadata.boxsize, 1.8, neighbours=8),
}
_w = {}


def wrapped(d):
    x = d.gas.coordinates
    return x % d.metadata.boxsize.to(comoving=x.comoving)


def state(d, g):
    return [(f, label(getattr(d.gas, f))) for f in FIELDS] + [("boxsize", label(d.metadata.boxsize))] + [(k, label(v)) for k, v in g.items()]


def diff(s, t):
    return [f"{a[0]}: {a[1][4:]} -> {b[1][4:]}" + (" values" if a[1][3] != b[1][3] else "") for a, b in zip(s, t) if a != b]


def sequences(ctx, item):
    frame, loaded, first = item
    alone = {}
    for n, f in CALLS.items():
        d, g = make(ctx, frame, loaded), arguments()
        with ctx.guard(dict(call=n, comoving=frame)):
            alone[n] = label(f(d, g))
    names = list(alone)
    if first not in alone:
        return
    depth = 3
    if loaded or (not frame and not ctx.thorough):
        depth = 2
    for rest in itertools.chain(*(itertools.product(names, repeat=k) for k in range(0, depth))):
        seq = (first,) + rest
        d, g = make(ctx, frame, loaded), arguments()
        s0 = state(d, g)
        held = {f: getattr(d.gas, f) for f in FIELDS}
        ctx.trace()
        ctx.state(frame, loaded, *seq)
        for i, n in enumerate(seq):
            ctx.step()
            if i < len(seq) - 1 and len(seq) > 1 and i + 1 < len(seq) - 1:
                CALLS[n](d, g)  # this prefix was compared on its own
                continue
            with ctx.guard(dict(sequence=seq, comoving=frame)):
                im = CALLS[n](d, g)
                if i == len(seq) - 1:
                    ctx.check(label(im) == alone[n], f"image-differs:{n}", lambda: f"after {seq[:-1]} the image {n} differs from the one of untouched data (comoving {frame})", dict(sequence=seq))
                    s1 = state(d, g)
                    ctx.check(s1 == s0, f"data-altered:{n}", lambda: f"after {seq} (comoving {frame}): {diff(s0, s1)}", dict(sequence=seq))
                    ctx.check(all(getattr(d.gas, f) is held[f] for f in FIELDS), f"data-replaced:{n}", lambda: f"after {seq}", dict(sequence=seq))
                    # the image is not a window into the data
                    ctx.check(not any(np.shares_memory(np.asarray(im), np.asarray(v)) for v in (*held.values(), *g.values())), f"image-shares:{n}", lambda: f"{seq}", dict(sequence=seq))


# -- conversions -----------------------------------------------------------------
def physical(im, unit, expo, dims):
    return im.to_value(unit, comoving=True)


FIELD = {"masses": ("g", 0), "energies": ("erg", 2), "densities": ("g/cm**3", -3), "speeds": ("km/s", -1)}
KINDS = ("project fast", "project histogram", "project renormalised", "slice", "nearest", "volume")


def image(kind, d, field, g, region, z):
    if kind.startswith("project"):
        return project_gas(d, 4, project=field, backend=kind.split()[1], region=region), 2
    if kind == "volume":
        return render_gas(d, 4, project=field, region=region), 3
    return slice_gas(d, 4, z_slice=z, project=field, region=region, backend="sph" if kind == "slice" else "nearest_neighbours"), 3


def commute(ctx, item):
    kind, field = item
    unit, expo = FIELD[field]
    pos, h, m = points(outside=False)
    q = m * 1.7

    def reg(frame, u):
        v = [2.0, 8.0, 1.0, 7.0, 3.0, 9.0] if kind == "volume" else [1.0, 9.0, 2.0, 6.0]
        return ca(np.array(v) * (1 if frame else A), "Mpc", a=A, comoving=frame).to(u)

    want = None
    frames = (True, False)
    for cf, hf, qf, rf, cu, hu, qu, ru in itertools.product(frames, frames, frames, (None, True, False), ("Mpc", "kpc"), ("Mpc", "kpc"), (None, "SI"), ("Mpc", "cm")):
        if (rf is None) != (ru == "cm") and rf is None:
            continue
        if not ctx.thorough and (hu == "kpc") + (cu == "kpc") + (qu == "SI") + (ru == "cm") > 2:
            continue
        d = dataset(ctx, BOX, A, n=N)
        g = d.gas
        g.coordinates = ca(pos * (1 if cf else A), a=A, comoving=cf).to(cu)
        g.smoothing_lengths = ca(h * (1 if hf else A), a=A, comoving=hf).to(hu)
        g.masses = ca(m, "g", 0, a=A)
        g.densities = ca(1.0 + np.arange(N) % 4, "g/Mpc**3", -3, a=A)
        arr = ca(q * (1.0 if qf else A**expo), unit, expo, a=A, comoving=qf)
        if qu:
            arr = arr.to(arr.units.get_mks_equivalent())
        setattr(g, field if field not in ("masses", "densities") else "quantity", arr)
        name = field if field not in ("masses", "densities") else "quantity"
        z = ca(3.7 * (1 if rf is not False else A), a=A, comoving=rf is not False).to(ru)
        case = dict(kind=kind, field=field, coordinates=(cf, cu), lengths=(hf, hu), field_comoving=qf, field_unit=str(arr.units), region=(rf, ru))
        ctx.step()
        ctx.trace()
        ctx.state(*map(str, case.values()))
        with ctx.guard(case):
            im, n = image(kind, d, name, g, None if rf is None else reg(rf, ru), z)
            full = unyt.Unit(f"({unit})/Mpc**{n}")
            ctx.check(isinstance(im, cosmo_array) and im.units.dimensions == full.dimensions, "unit", lambda: f"{case}: {im.units}", case)
            ctx.check(im.comoving is qf, "frame", lambda: f"{case}: comoving {im.comoving}", case)
            co = im.to_value(full, comoving=True)
            ph = im.to_value(full, comoving=False)
            ctx.check(np.allclose(ph, co * A ** (expo - n), rtol=1e-6), "exponent", lambda: f"{case}: {im.cosmo_factor}", case)
            if want is None:
                want = {}
            key = rf is None
            w = want.setdefault(key, co)
            tol = 3e-5 * np.abs(w).max()
            ctx.check(co.shape == w.shape and np.abs(co - w).max() <= tol, f"image:{kind}", lambda: f"{case}: {co.tolist()}, with everything comoving in Mpc {w.tolist()}", case)
            ctx.check(np.abs(w).max() > 0, "vacuous", lambda: f"{case}")


def masks(ctx, item):
    kind, frame = item
    pos, h, m = points()
    i = np.arange(N)
    for name, keep in (("some", i % 3 != 1), ("all", i >= 0), ("none", i < 0), ("one", i == 4), ("first", i < 9)):
        ref = None
        idx = np.flatnonzero(keep)
        forms = {"bool": keep, "list of bool": keep.tolist(), "index": idx, "int32": idx.astype(np.int32), "uint8": idx.astype(np.uint8), "list": idx.tolist() if len(idx) else None,
                 "reversed": idx[::-1], "negative": idx - N}
        if name == "first":
            forms["slice"] = np.s_[:9]
        if name == "all":
            forms["none given"] = None
            forms["ellipsis"] = np.s_[...]
            forms["slice"] = np.s_[:]
        for form, mk in forms.items():
            if mk is None and form == "list":
                continue
            if kind == "nearest" and name == "none":
                continue
            d = fill(dataset(ctx, BOX, A, n=N), pos, h, m, A, frame)
            d.gas.densities = ca(1.0 + np.arange(N) % 4, "g/Mpc**3", -3, a=A)
            e = fill(dataset(ctx, BOX, A, n=N), pos[idx], h[idx], m[idx], A, frame)
            e.gas.densities = ca((1.0 + np.arange(N) % 4)[idx], "g/Mpc**3", -3, a=A)
            for deep in (None, "region") + (("deep",) if form in ("bool", "none given", "ellipsis") and kind.startswith("project") else ()):
                case = dict(kind=kind, comoving=frame, rows=name, form=form, region=deep)
                g = arguments()
                r = None if deep is None else g["cube"] if kind == "volume" else g["flat" if deep == "region" else "deep"]

                def f(D, mask):
                    if kind.startswith("project"):
                        return project_gas(D, 4, backend=kind.split()[1], region=r, mask=mask)
                    if kind == "volume":
                        return render_gas(D, 4, region=r, mask=mask)
                    return slice_gas(D, 4, z_slice=g["z"], region=r, mask=mask, backend="sph" if kind == "slice" else "nearest_neighbours")

                ctx.step()
                ctx.trace()
                ctx.state(*map(str, case.values()))
                with ctx.guard(case):
                    got = f(d, mk)
                    want = f(e, None)
                    ctx.check(np.allclose(got, want, rtol=1e-5, atol=2e-6 * max(np.abs(np.asarray(want)).max(), 1e-30)) and label(got)[4:9] == label(want)[4:9],
                              f"mask:{kind}", lambda: f"{case}: {got!r}, only those rows {want!r}", case)


def fields(ctx, item):
    """what is projected keeps its meaning: by name, nested, counted, or without a frame"""
    kind, frame = item
    pos, h, m = points(outside=False)
    d = fill(dataset(ctx, BOX, A, n=N), pos, h, m, A, frame)
    d.gas.densities = ca(1.0 + np.arange(N) % 4, "g/Mpc**3", -3, a=A)
    n = 2 if kind.startswith("project") else 3
    z = ca(3.7, a=A)
    base = image(kind, d, "masses", None, None, z)[0]
    L = f"Mpc**{n}"
    bare = base.to_value(f"g/{L}", comoving=frame)
    tol = dict(rtol=1e-5, atol=1e-6 * np.abs(bare).max())

    class Group:
        pass

    d.gas.nested = Group()
    d.gas.nested.inner = ca(m, "K", 1, a=A)
    d.gas.plain = m.copy()
    d.gas.unyt = unyt.unyt_array(m.copy(), "K")
    d.gas.bare = cosmo_array(m.copy(), "K")
    d.gas.fixed = ca(m, "K", 1, a=A, comoving=frame, valid_transform=frame)
    d.gas.ints = ca(m.astype(int), "g", 0, a=A, comoving=frame)
    d.gas.single = ca(m.astype(np.float32), "g", 0, a=A, comoving=frame)
    d.gas.negative = ca(-m, "g", 0, a=A, comoving=frame)
    for name, unit, co in (("nested.inner", "K", True), ("plain", "dimensionless", None), ("unyt", "K", None), ("bare", "K", None), ("fixed", "K", frame),
                           ("ints", "g", frame), ("single", "g", frame), ("negative", "g", frame)):
        case = dict(kind=kind, comoving=frame, field=name)
        ctx.step()
        ctx.trace()
        ctx.state(*map(str, case.values()))
        with ctx.guard(case):
            im = image(kind, d, name, None, None, z)[0]
            ctx.check(im.units.dimensions == unyt.Unit(f"{unit}/{L}").dimensions and im.comoving is co, "field-label", lambda: f"{case}: {im.units} comoving {im.comoving}", case)
            v = np.asarray(im.view(unyt.unyt_array).to_value(f"{unit}/{L}"))
            w = bare * (-1 if name == "negative" else 1)
            if co is not None and co != frame:
                w = base.to_value(f"g/{L}", comoving=co)
            elif co is None:
                w = bare  # per area in the frame of the coordinates
            ctx.check(np.allclose(v, w, **tol), "field-value", lambda: f"{case}: {im!r}, expected {w.tolist()}", case)
            if name == "fixed":
                ctx.check(im.valid_transform == frame, "field-convertible", lambda: f"{case}: {im.valid_transform}", case)
    # None counts particles
    with ctx.guard(dict(kind=kind, counting=True)):
        im = image(kind, d, None, None, None, z)[0]
        d.gas.unity = ca(np.ones(N), "dimensionless", 0, a=A, comoving=frame)
        want = image(kind, d, "unity", None, None, z)[0]
        ctx.check(np.allclose(im.to_value(f"1/{L}", comoving=frame), want.to_value(f"1/{L}", comoving=frame), rtol=1e-5), "count", lambda: f"{kind}: {im!r}, expected {want!r}")


def dispatch(ctx, item):
    with contextlib.redirect_stdout(io.StringIO()):
        dict(sequences=sequences, commute=commute, masks=masks, fields=fields)[item[0]](ctx, item[1])


def run(ctx):
    d, g = make(ctx, True, False), arguments()
    for f in CALLS.values():
        with ctx.guard():
            f(d, g)
    items = []
    items += [("sequences", (fr, ld, n)) for fr, ld in ((True, False), (False, False), (True, True)) for n in CALLS]
    items += [("commute", (k, f)) for k in KINDS for f in FIELD]
    items += [("masks", (k, f)) for k in KINDS for f in (True, False)]
    items += [("fields", (k, f)) for k in KINDS for f in (True, False)]
    ctx.pmap(dispatch, items)
    ctx.sample(dict(calls=list(CALLS)))
