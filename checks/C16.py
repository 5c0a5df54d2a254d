"""C16: slices and volume renders sample the same sum of kernels."""

import itertools
import math
from fractions import Fraction

import numpy as np

from swiftsimio.visualisation.projection import project_gas
from swiftsimio.visualisation.slice import slice_gas
from swiftsimio.visualisation.slice_backends import backends as slices
from swiftsimio.visualisation.volume_render import render_gas
from swiftsimio.visualisation.volume_render_backends import backends as volumes
from mc.render import G3, particle3, slice3
from mc.vis import ca, dataset, fill

META = dict(
    level="model_checking",
    explanation="Slice and volume backends are run on every particle of a sub-voxel lattice x kernel sizes x slice depths x open and periodic boxes smaller, "
    "equal and larger than the image, alone and together, against an independent sum of 3D kernels over periodic images (nearest-neighbour slices "
    "against an exhaustive minimum-image search); then the public functions over boxes, regions, depths, masks and rotations against the same "
    "reference, with slices at voxel centres compared to planes of the render and the column sum of the render to the projection.",
    assumptions=["kernels no wider than the box"],
)
SIZES = (0.3, 0.45, 0.55, 0.8, 0.95, 1.2, 1.7, 2.3, 3.1)  # kernel radius in voxels


def arrays(*v):
    return [np.array(a, dtype=float) for a in v]


def run_slice(name, x, y, z, m, h, zs, xres, yres, box):
    x, y, z, m, h = arrays(x, y, z, m, h)
    return slices[name](x=x, y=y, z=z, m=m, h=h, z_slice=float(zs), xres=xres, yres=yres, box_x=float(box[0]), box_y=float(box[1]), box_z=float(box[2]))


def run_volume(x, y, z, m, h, res, box):
    x, y, z, m, h = arrays(x, y, z, m, h)
    return volumes["scatter"](x=x, y=y, z=z, m=m, h=h, res=res, box_x=float(box[0]), box_y=float(box[1]), box_z=float(box[2]))


def lattice(res, box, step, coarse=False):
    k = np.arange(0, int(round(box * res * step)) if box else 2 * res * step) / (res * step) + 0.17 / (res * step)
    if not box:
        k = k - 0.5
    else:
        k = k[k < box]
    return k[:: 2 if coarse else 1]


def compare(ctx, got, want, scale, key, case):
    d = np.abs(got - want).max() if got.shape == want.shape else np.inf
    return ctx.check(d <= 2e-5 * scale + 1e-9, key, lambda: f"{case}: differs by {d:g} (scale {scale:g}): {np.round(got, 3).tolist()}, expected {np.round(want, 3).tolist()}", case)


def volume(ctx, item):
    res, box, n, step = item
    h = n / res / G3
    ax = [lattice(res, b, step, coarse=not ctx.thorough and i == 1) for i, b in enumerate(box)]
    total, P = np.zeros((res,) * 3), []
    for p in itertools.product(*ax):
        case = dict(resolution=res, box=box, position=[float(a) for a in p], kernel_radius_in_voxels=n)
        ctx.step()
        im = run_volume(*([a] for a in p), [1.0], [h], res, box)
        want, scale = particle3(p, h, res, box)
        ctx.state("v", res, box, n, tuple(np.round(want, 5).ravel().tolist()))
        if compare(ctx, im, want, scale, "volume", case):
            w = 1 + 0.618 * len(P) % 3
            P.append((*p, w, h))
            total += w * im
        if n >= 1.7 and all(n / res <= a <= 1 - n / res for a in p) and all(b == 0 or b >= 1 for b in box):
            ctx.check(abs(im.sum() / res**3 - 1) < 0.3 / n**2, "volume-mass", lambda: f"{case}: holds {im.sum() / res**3}", case)
        if not any(box) and len(P) % 5 == 1:
            for axis in range(3):
                q = list(p)
                q[axis] = 1 - q[axis]
                mir = run_volume(*([a] for a in q), [1.0], [h], res, box)
                compare(ctx, np.flip(mir, axis), im, scale, "volume-mirror", case)
            for perm in itertools.permutations(range(3)):
                compare(ctx, run_volume(*([p[i]] for i in perm), [1.0], [h], res, box), np.transpose(im, perm), scale, "volume-swap", case)
    ctx.trace()
    if P:
        im = run_volume(*np.array(P).T, res, box)
        compare(ctx, im, total, scale * np.abs(np.array(P)[:, 3]).sum(), "volume-sum", dict(resolution=res, box=box, n=n))
    ctx.check(not run_volume([], [], [], [], [], res, box).any(), "volume-empty", lambda: "an empty render is not zero")


def plane(ctx, item):
    shape, box, n = item
    xres, yres = shape
    res = max(shape)
    h = n / res / G3
    step = 3 if ctx.thorough else 2
    X, Y = lattice(res, box[0], step), lattice(res, box[1], step, coarse=not ctx.thorough)
    zbox = box[2] or 1.0
    for zs in (0.0, 0.11, 0.5, 0.93) if box[2] != 0 else (-0.3, 0.0, 0.47, 1.2):
        zs = zs * zbox
        total, P = np.zeros(shape), []
        for x, y, dz in itertools.product(X, Y, (-1.05, -0.93, -0.4, -0.1, 0.0, 0.3, 0.6, 0.97, 1.02)):
            z = zs + dz * n / res
            if box[2]:
                z %= zbox
                if z >= zbox:
                    continue
            case = dict(shape=shape, box=box, position=(float(x), float(y), float(z)), z_slice=zs, kernel_radius_in_pixels=n)
            ctx.step()
            im = run_slice("sph", [x], [y], [z], [1.0], [h], zs, xres, yres, box)
            want, scale = slice3((x, y, z), h, zs, xres, yres, box)
            ctx.state("s", shape, box, n, tuple(np.round(want, 5).ravel().tolist()))
            if compare(ctx, im, want, scale, "slice", case):
                w = 1 + 0.618 * len(P) % 3
                P.append((x, y, z, w, h))
                total += w * im
        ctx.trace()
        if P:
            im = run_slice("sph", *np.array(P).T, zs, xres, yres, box)
            compare(ctx, im, total, scale * np.abs(np.array(P)[:, 3]).sum(), "slice-sum", dict(shape=shape, box=box, n=n, z_slice=zs))
    ctx.check(not run_slice("sph", [], [], [], [], [], 0.5, xres, yres, box).any(), "slice-empty", lambda: "an empty slice is not zero")


def nearest(ctx, item):
    """each pixel holds m / h^3 of the nearest particle under the periodic metric"""
    box, k = item
    shape = (3, 4)
    base = [(0.05, 0.1, 0.15), (0.93, 0.87, 0.02), (0.5, 0.52, 0.9), (0.31, 0.77, 0.44), (0.72, 0.2, 0.61)]
    b = np.array([x or 1.0 for x in box])
    for sel in itertools.permutations(range(5), k):
        P = np.array([base[i] for i in sel]) * b
        m, h = np.array([2.0, 3, 5, 7, 11])[list(sel)], np.array([0.1, 0.2, 0.3, 0.4, 0.5])[list(sel)]
        for zs in (0.0, 0.3, 0.55, 0.99):
            ctx.step()
            ctx.trace()
            ctx.state("n", box, sel, zs)
            im = run_slice("nearest_neighbours", *P.T, m, h, zs, *shape, box)
            want = np.zeros(shape)
            for i, j in itertools.product(range(shape[0]), range(shape[1])):
                d = P - np.array([(i + 0.5) / 4, (j + 0.5) / 4, zs])
                for c in range(3):
                    if box[c]:
                        d[:, c] -= box[c] * np.round(d[:, c] / box[c])
                q = np.argmin((d**2).sum(axis=1))
                want[i, j] = m[q] / h[q] ** 3
            ctx.check(im.shape == shape and np.allclose(im, want, rtol=1e-6), "nearest", lambda: f"box {box}, particles {P.tolist()}, z {zs}: {im.tolist()}, expected {want.tolist()}")


# -- public functions ----------------------------------------------------------
F = Fraction
REGIONS = {"none": None, "box": ((0, 1), (0, 1), (0, 1)), "corner": ((0, F(1, 4)),) * 3, "centre": ((F(1, 4), F(3, 4)),) * 3,
           "wrap": ((F(-1, 4), F(1, 4)), (F(3, 4), F(5, 4)), (F(1, 2), 1)), "far": ((3, 4), (-2, -1), (5, 6)), "double": ((0, 2),) * 3, "long": ((-1, 2), (F(1, 2), F(7, 2)), (-2, 1)), "column": ((0, F(1, 2)), (-1, F(5, 2)), (F(1, 2), 1)),
           "wide": ((0, 1), (F(1, 4), F(3, 4)), (0, 1)), "tall": ((F(1, 2), F(3, 4)), (0, 1), (0, 1))}

# cubes in the box that is not one
CUBES = {"cube": ((0, 1), (0, F(2, 3)), (0, F(4, 5))), "cube inside": ((F(1, 2), F(3, 4)), (F(1, 3), F(1, 2)), (F(7, 10), F(9, 10))), "cube across": ((F(3, 4), F(5, 4)), (F(-1, 6), F(1, 6)), (F(4, 5), F(6, 5))),
         "cube double": ((-1, 1), (0, F(4, 3)), (F(1, 5), F(9, 5))), "cube all": ((0, F(3, 2)), (0, 1), (0, F(6, 5)))}


def particles(box, seed):
    f = np.array([0.013, 0.27, 0.51, 0.766, 0.951])
    pos = np.array(list(itertools.product(f, f, [0.04, 0.33, 0.58, 0.91])))[seed::2]
    i = np.arange(len(pos))
    h = np.array([0.021, 0.0713, 0.1437, 0.2719])[(i * 3 + seed) % 4] * min(box) / G3
    return pos * np.array(box), h, 1 + (i * 0.618) % 2


def public(ctx, item):
    box, rname, periodic = item
    region = (REGIONS | CUBES)[rname]
    L = np.array(box)
    a = 0.5
    cubic = region is not None or len(set(box)) == 1
    lims = [(0.0, b) for b in box] if region is None else [(float(r[0]) * b, float(r[1]) * b) for r, b in zip(region, box)]
    widths = [hi - lo for lo, hi in lims]
    mr = max(widths[:2])
    res = 4
    for seed in (0, 1):
        pos, h, m = particles(box, seed)
        if not periodic:
            pos[::7, 0] -= 0.3 * box[0]
            pos[3::5, 2] += 0.6 * box[2]
        d = fill(dataset(ctx, box, a), pos, h, m, a)
        for masked in (None, "bool", "index"):
            keep = np.arange(len(m)) % 3 != 1 if masked else np.ones(len(m), bool)
            sel = None if not masked else keep if masked == "bool" else np.flatnonzero(keep)
            pb = tuple(L / mr) if periodic else (0, 0, 0)
            case0 = dict(box=box, region=rname, periodic=periodic, mask=masked, particles=seed)
            cube = None
            flat = None if region is None else ca([x for lo_hi in lims for x in lo_hi], a=a)
            if cubic and abs(max(widths) - min(widths)) < 1e-9:
                ctx.step()
                ctx.state("cube", *case0.values())
                with ctx.guard(case0):
                    got = render_gas(d, res, region=flat, periodic=periodic, mask=sel)
                    want, tol = np.zeros((res,) * 3), 0
                    for p, hh, mm, k in zip(pos, h, m, keep):
                        if k:
                            w, s = particle3([(p[i] - lims[i][0]) / mr for i in range(3)], hh / mr, res, pb)
                            want += mm * w
                            tol += mm * s * 2e-5
                    cube = got.to_value("g/Mpc**3", comoving=True)
                    dev = np.abs(cube - want / mr**3).max() if cube.shape == want.shape else np.inf
                    ctx.check(dev <= tol / mr**3, f"render:{'periodic' if periodic else 'open'}", lambda: f"{case0}: differs by {dev}: {cube.tolist()}, expected {(want / mr**3).tolist()}", case0)
            elif not masked and seed == 0:
                try:
                    render_gas(d, res, region=flat, periodic=periodic)
                    ctx.fail("render-not-refused", f"{case0}: a region that is not a cube was rendered")
                except AttributeError:
                    pass
            reg = None if region is None else flat[:4]
            shape = tuple(math.ceil(F(res) * F(w).limit_denominator(1000) / F(mr).limit_denominator(1000)) for w in widths[:2])
            for zf in (None, 0.0, 0.125, 0.5, 0.96, 1.0, -0.25, 2.5):
                ctx.step()
                ctx.trace()
                case = dict(case0, z_slice=zf)
                ctx.state("slice", *case.values())
                with ctx.guard(case):
                    got = slice_gas(d, res, z_slice=None if zf is None else ca(zf * box[2], a=a), region=reg, periodic=periodic, mask=sel)
                    zs = (zf or 0) * box[2] / mr
                    want, tol = np.zeros(shape), 0
                    for p, hh, mm, k in zip(pos, h, m, keep):
                        if k:
                            w, s = slice3(((p[0] - lims[0][0]) / mr, (p[1] - lims[1][0]) / mr, p[2] / mr), hh / mr, zs, *shape, pb)
                            want += mm * w
                            tol += mm * s * 2e-5
                    g = got.to_value("g/Mpc**3", comoving=True)
                    dev = np.abs(g - want / mr**3).max() if g.shape == want.shape else np.inf
                    ctx.check(dev <= tol / mr**3, f"cut:{'periodic' if periodic else 'open'}", lambda: f"{case}: differs by {dev} from {(want / mr**3).tolist()}: {g.tolist()}", case)
                    if not masked:
                        wv = np.zeros(shape)
                        amb = np.zeros(shape, bool)
                        for i, j in itertools.product(range(shape[0]), range(shape[1])):
                            q = np.array([lims[0][0] + (i + 0.5) * mr / res, lims[1][0] + (j + 0.5) * mr / res, (zf or 0) * box[2]])
                            dd = pos - q
                            if periodic:
                                dd -= L * np.round(dd / L)
                            r = np.sort((dd**2).sum(axis=1))
                            amb[i, j] = r[1] - r[0] < 1e-9 * r[1]
                            wv[i, j] = np.argmin((dd**2).sum(axis=1))
                        rho = (np.arange(len(m)) + 1.0) * 0.25
                        d.gas.densities = ca(rho, "g/Mpc**3", -3, a=a)
                        gn = slice_gas(d, res, z_slice=None if zf is None else ca(zf * box[2], a=a), region=reg, periodic=periodic, backend="nearest_neighbours")
                        gv = gn.to_value("g/Mpc**3", comoving=True)
                        wv = rho[wv.astype(int)]
                        ctx.check(gv.shape == shape, "nearest-shape", lambda: f"{case}: {gv.shape}", case)
                        ctx.check(gv.shape != shape or np.allclose(gv[~amb], wv[~amb], rtol=1e-5), "nearest-public", lambda: f"{case}: {gv.tolist()}, expected {wv.tolist()}", case)
            # planes of the render through voxel centres are slices at those depths
            if cube is not None:
                for k in range(res):
                    ctx.step()
                    z = lims[2][0] + (k + 0.5) * widths[2] / res
                    with ctx.guard(case0):
                        g = slice_gas(d, res, z_slice=ca(z, a=a), region=reg, periodic=periodic, mask=sel).to_value("g/Mpc**3", comoving=True)
                        small = G3 * h / mr * res < 0.5  # these go into single voxels of the render
                        if not (small & keep).any():
                            ctx.check(np.abs(g - cube[:, :, k]).max() <= 1e-4 * np.abs(cube).max(), "plane", lambda: f"{case0} plane {k}: {g.tolist()}, render {cube[:, :, k].tolist()}", case0)


def columns(ctx, item):
    """a render summed along z is the projection, for kernels resolved by both"""
    d = dataset(ctx)
    for pos in itertools.product((1.3, 5.2, 9.4), repeat=3):
        for h in (0.9, 1.4):
            ctx.step()
            ctx.trace()
            ctx.state("col", pos, h)
            fill(d, [pos], [h], [3.0])
            cube = render_gas(d, 40).to_value("g/Mpc**3", comoving=True)
            flat = project_gas(d, 40, backend="renormalised").to_value("g/Mpc**2", comoving=True)
            col = cube.sum(axis=2) * 0.25
            # the two normalise a 2D and a 3D kernel of slightly different support: centroids and totals agree
            ctx.check(abs(col.sum() / flat.sum() - 1) < 0.01, "column-total", lambda: f"{pos} {h}: {col.sum() / flat.sum()}")
            ang = np.exp(2j * np.pi * (np.arange(40) + 0.5) / 40)
            for w in (ang[:, None], ang[None]):
                c, f = (col * w).sum(), (flat * w).sum()
                ctx.check(abs(np.angle(c / f)) < 2 * np.pi * 0.05 / 40, "column-centroid", lambda: f"{pos} {h}: centroids differ by {np.angle(c / f)}")


def dispatch(ctx, item):
    dict(volume=volume, plane=plane, nearest=nearest, public=public, columns=columns)[item[0]](ctx, item[1])


def run(ctx):
    run_volume([0.5], [0.5], [0.5], [1.0], [0.3], 4, (0, 0, 0))
    run_slice("sph", [0.5], [0.5], [0.5], [1.0], [0.3], 0.5, 4, 4, (0, 0, 0))
    items = [("columns", None)]
    boxes = ((10.0, 10.0, 10.0), (8.0, 12.0, 10.0))
    items += [("public", (b, r, p)) for b in boxes for r in (REGIONS if b is boxes[0] else REGIONS | CUBES) for p in (True, False)]
    for n in SIZES:
        for box in ((0, 0, 0), (1, 1, 1), (1.5, 1.0, 2.0), (1.0, 1.75, 0.75), (0, 1.25, 0), (0.75, 0, 1), (0.3, 0.45, 0.28)):
            if any(b and n / 4 > b for b in box):
                continue
            for res in (1, 3, 4):
                if any(b and n / res > b for b in box):
                    continue
                items.append(("volume", (res, box, n, 2 if res == 4 and not ctx.thorough else 3)))
            for shape in ((4, 4), (3, 5), (5, 2), (1, 1)):
                if any(b and n / max(shape) > b for b in box):
                    continue
                items.append(("plane", (shape, box, n)))
    items += [("nearest", (box, k)) for box in ((0, 0, 0), (1, 1, 1), (2, 1.5, 1.0), (1, 0.5, 1), (0.4, 0.3, 0.5)) for k in (1, 2, 3, 4 if not ctx.thorough else 5)]
    ctx.pmap(dispatch, items)
    ctx.sample(dict(kernel_radii=SIZES, regions=list(REGIONS)))
