"""C19: rotation matrices are proper rotations that bring the vector onto the axis, and renders use them so."""

import itertools

import numpy as np
import unyt

from swiftsimio.visualisation.projection import project_gas, project_pixel_grid
from swiftsimio.visualisation.projection_backends import backends
from swiftsimio.visualisation.rotation import rotation_matrix_from_vector
from swiftsimio.visualisation.slice import slice_gas, slice_pixel_grid
from swiftsimio.visualisation.volume_render import render_gas, render_voxel_grid
from mc.vis import ca, dataset, fill

META = dict(
    level="model_checking",
    explanation="Rotations for every direction of an integer lattice cube x axis x length x vector class, and for every direction within small steps of each "
    "axis and its opposite, checked for orthogonality, handedness and the direction they bring onto the axis; renders of every kind with each of the 24 "
    "rotations of the cube and with generated rotations, about several centres given in several units and frames, compared with renders of particles rotated beforehand.",
    assumptions=["directions within 1e-6 of an axis are brought onto it to that accuracy"],
)
AX = dict(x=0, y=1, z=2)


def one(ctx, v, axis, case, tol):
    ctx.step()
    with ctx.guard(case):
        keep = np.array(v, copy=True)
        R = rotation_matrix_from_vector(v, axis)
        ctx.check(np.array_equal(np.asarray(v), keep), "argument-changed", lambda: f"{case}", case)
        n = np.asarray(keep, dtype=float) / np.linalg.norm(np.asarray(keep, dtype=float))
        e = np.eye(3)[AX[axis]]
        ok = isinstance(R, np.ndarray) and R.shape == (3, 3) and np.isfinite(R).all()
        ctx.check(ok and not hasattr(R, "units"), "shape", lambda: f"{case}: {R!r}", case)
        if ok:
            R = np.asarray(R)
            ctx.check(np.abs(R @ R.T - np.eye(3)).max() < 1e-9, "orthogonal", lambda: f"{case}: {R.tolist()}", case)
            ctx.check(abs(np.linalg.det(R) - 1) < 1e-9, "handed", lambda: f"{case}: determinant {np.linalg.det(R)}", case)
            d = np.abs(R @ n - e).max()
            ctx.check(d < tol, "direction", lambda: f"{case}: {n.tolist()} is brought to {(R @ n).tolist()}", case)
            return R


def lattice(ctx, axis):
    N = 9 if ctx.thorough else 5
    for v in itertools.product(range(-N, N + 1), repeat=3):
        if not any(v):
            continue
        ctx.trace()
        ctx.state(axis, v)
        base = one(ctx, np.array(v, float), axis, dict(vector=v, axis=axis), 1e-9)
        if base is None:
            continue
        for label, w, tol in (("int", np.array(v), 1e-12), ("tiny", np.array(v) * 1e-100, 1e-9), ("huge", np.array(v) * 1e100, 1e-9), ("third", np.array(v) / 3, 1e-9),
                              ("float32", np.array(v, np.float32) * np.float32(1e-12), 2e-6), ("unyt", unyt.unyt_array(v, "km/s*kpc") * 1e7, 1e-9),
                              ("cosmo", ca(np.array(v, float), "Mpc"), 1e-12), ("physical", ca(np.array(v, float) * 1e30, "g*cm**2/s", 2, comoving=False), 1e-9)):
            R = one(ctx, w, axis, dict(vector=v, axis=axis, variant=label), max(tol, 1e-9))
            if R is not None:
                ctx.check(np.abs(R - base).max() <= tol, "length", lambda: f"{v} {axis} {label}: {R.tolist()} rather than {base.tolist()}")


def near(ctx, axis):
    """every direction a small step from the axis and from its opposite, on a ladder of steps about the threshold"""
    for sign in (1.0, -1.0):
        for e in [0.0] + [10.0**-k * c for k in range(1, 17) for c in ((1, 2, 5) if not ctx.thorough else (1, 1.5, 2, 3, 5, 7, 9.99))] + [1e-6 * (1 + s * 1e-9) for s in range(-3, 4)]:
            for d in itertools.product((-1, 0, 1, 0.3), repeat=2):
                if (not any(d)) != (e == 0):
                    continue
                v = np.zeros(3)
                i = AX[axis]
                v[i] = sign
                v[(i + 1) % 3], v[(i + 2) % 3] = np.array(d) * e
                ctx.trace()
                ctx.state(axis, sign, e, d)
                for s in (1.0, 1e-5, 3e7):
                    one(ctx, v * s, axis, dict(vector=(v * s).tolist(), axis=axis), 2.5e-6)


def names(ctx, item):
    for a in ("w", "X", "xy", "", 0, None, "zz"):
        ctx.step()
        try:
            rotation_matrix_from_vector(np.array([1.0, 2, 3]), a)
            ctx.fail("axis-not-refused", f"axis {a!r} was accepted")
        except (ValueError, TypeError):
            pass
    ctx.check(np.array_equal(rotation_matrix_from_vector(np.array([1.0, 2, 3])), rotation_matrix_from_vector(np.array([1.0, 2, 3]), "z")), "default-axis", "the default axis is not z")


def cube_rotations():
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, p[i]] = s[i]
            if np.linalg.det(R) > 0:
                yield R


def renders(ctx, item):
    R, exact, cname, region = item
    R = np.array(R)
    a = 0.5
    box = (10.0, 10.0, 10.0)
    i = np.arange(23)
    pos = np.stack([(0.613 + 3.1337 * i) % 10, (9.271 + 2.1719 * i) % 10, (4.537 + 4.117 * i) % 10], axis=1)
    h = (0.1 + 0.37 * (i * 2 % 5)) / 1.936492
    m = 1.0 + i
    c, centre = {"origin": ((0, 0, 0), ca([0.0, 0, 0], a=a)), "middle": ((5, 5, 5), ca([5.0, 5, 5], a=a)),
                 "off": ((1.7, 6.2, 3.9), ca([1.7, 6.2, 3.9], a=a)), "kpc": ((1.7, 6.2, 3.9), ca([1700.0, 6200, 3900], "kpc", a=a)),
                 "physical": ((1.7, 6.2, 3.9), ca(np.array([1.7, 6.2, 3.9]) * a, a=a, comoving=False)),
                 "outside": ((-3.0, 12, 5), ca([-3.0, 12, 5], a=a))}[cname]
    c = np.array(c, float)
    d, e = dataset(ctx, box, a, n=23), dataset(ctx, box, a, n=23)
    for frame in (True, False):
        fill(d, pos, h, m, a, frame)
        fill(e, c + (pos - c) @ R.T, h, m, a, frame)
        reg4 = None if not region else ca([1.0, 9.0, 3.0, 7.0], a=a)
        reg6 = None if not region else ca([1.0, 9.0, 3.0, 7.0, 2.0, 8.0], a=a)
        cub = None if not region else ca([1.0, 8.0, 3.0, 10.0, 2.0, 9.0], a=a)
        keep = None if region != "mask" else i % 3 != 1
        kw = dict(rotation_matrix=R, rotation_center=centre, periodic=False, mask=keep)
        nk = dict(periodic=False, mask=keep)
        calls = [(f"project {b}", lambda D, k, b=b, g=g: project_gas(D, 5, backend=b, region=g, **k), 0.0) for b in ("fast", "histogram", "subsampled", "renormalised") for g in ((reg4, reg6) if region else (None,))]
        calls.append(("grid", lambda D, k: project_pixel_grid(D.gas, 5, region=reg4, **k), 0.0))
        for zs in (None, 0.0, 1.3, -2.6):
            def cut(D, k, zs=zs, f=slice_gas, b="sph"):
                z = zs
                if D is e:
                    z = (zs or 0.0) + c[2]
                return f(D if f is slice_gas else D.gas, 5, z_slice=None if z is None else ca(z, a=a), region=reg4, backend=b, **k)
            calls.append((f"slice {zs}", cut, 0.0))
            if zs == 1.3:
                calls.append((f"slice grid", lambda D, k: cut(D, k, zs=1.3, f=slice_pixel_grid), 0.0))
                if keep is None:
                    rho = ca(1.0 + i, "g/Mpc**3", -3, a=a) if frame else ca((1.0 + i), "g/Mpc**3", -3, a=a, comoving=False)
                    d.gas.densities = rho
                    e.gas.densities = rho
                    calls.append((f"slice nearest", lambda D, k: cut(D, k, zs=1.3, b="nearest_neighbours"), 0.0))
        calls.append(("volume", lambda D, k: render_gas(D, 5, region=cub, **k), 0.0))
        calls.append(("volume grid", lambda D, k: render_voxel_grid(D.gas, 5, region=cub, **k), 0.0))
        for label, f, _ in calls:
            case = dict(render=label, rotation=R.tolist(), centre=cname, region=region, comoving=frame)
            ctx.step()
            ctx.trace()
            ctx.state(label, exact, np.round(R, 6).tolist(), cname, region, frame)
            with ctx.guard(case):
                got, want = f(d, kw), f(e, nk)
                scale = np.abs(np.asarray(want)).max()
                dev = np.abs(np.asarray(got) - np.asarray(want)).max() if got.shape == want.shape else np.inf
                ctx.check(dev <= 1e-4 * max(scale, 1e-30) and got.units == want.units and got.comoving == want.comoving,
                          f"render:{label.split()[0]}", lambda: f"{case}: {got!r}, pre-rotated {want!r}", case)
                if label.startswith("project") and "hist" not in label:
                    ctx.count("nonzero", int(scale > 0))


def dispatch(ctx, item):
    dict(lattice=lattice, near=near, names=names, renders=renders)[item[0]](ctx, item[1])


def run(ctx):
    d = dataset(ctx, n=3)
    fill(d, [[1.0, 2, 3], [4, 5, 6], [7, 8, 9]], [1.0, 1, 1], [1.0, 2, 3])
    for b in ("fast", "histogram", "subsampled", "renormalised"):
        project_gas(d, 4, backend=b, periodic=False)
    slice_gas(d, 4, periodic=False)
    render_gas(d, 4, periodic=False)
    items = [(k, a) for k in ("lattice", "near") for a in "xyz"] + [("names", None)]
    cubes = list(cube_rotations())
    assert len(cubes) == 24
    centres = ("origin", "middle", "off", "kpc", "physical", "outside")
    for n, R in enumerate(cubes):
        for cn in centres:
            for reg in (None, "region", "mask"):
                if reg and not ctx.thorough and cn not in ("off", "physical"):
                    continue
                items.append(("renders", (R.tolist(), True, cn, reg)))
    for v in ((1, 2, 3), (-1, 0.5, 0.2), (0, 0, -1), (0.3, -0.3, -2)):
        for axis in "xyz":
            R = rotation_matrix_from_vector(np.array(v, float), axis)
            items.append(("renders", (R.tolist(), False, "off", None)))
    ctx.pmap(dispatch, items)
    ctx.sample(dict(rotations=24, centres=centres))
