"""C15: projected maps are sums of the particles' kernels over their periodic images."""

import contextlib
import io
import itertools
import math
from fractions import Fraction

import numpy as np

from swiftsimio.visualisation.projection import project_gas, project_pixel_grid
from swiftsimio.visualisation.projection_backends import backends
from mc.render import G2, particle2
from mc.vis import ca, dataset, fill

META = dict(
    level="model_checking",
    explanation="Every backend is run on every particle of a sub-pixel lattice (on and across the edges) x kernel sizes from zero to the box x resolutions x "
    "open and periodic boxes smaller, equal and larger than the image, alone and all together, against an independent sum over periodic images "
    "(exact pixel integrals for the subsampled backends); then the public function over the product of boxes, regions (sub-box, non-square, wrapping, "
    "far, depth-limited), periodicity, resolution, masks and backends against the same reference.",
    assumptions=["kernels no wider than the box", "coordinates within the range where single precision resolves a hundredth of a kernel"],
)
NAMES = ["histogram", "fast", "renormalised", "subsampled", "subsampled_extreme", "reference"]
SIZES = (0, 0.05, 0.2, 0.23, 0.27, 0.5, 0.9, 1.1, 1.5, 1.9, 2.1, 2.6, 3.3, 5.2)  # kernel radius in pixels


def tolerance(name, n, scale):
    """largest deviation for a unit mass"""
    if name.startswith("subsampled"):
        t = dict(subsampled=(0.045, 0.018, 0.003), subsampled_extreme=(0.023, 0.009, 0.0015))[name]
        return (t[0] if n <= 0.25 else t[1] if n < 1 else t[2]) * scale + 1e-9
    return 2e-5 * scale + 1e-9


@contextlib.contextmanager
def quiet():
    yield


def call(name, x, y, m, h, res, bx, by):
    x, y, m, h = (np.array(a, dtype=float) for a in (x, y, m, h))
    keep = [a.copy() for a in (x, y, m, h)]
    im = backends[name](x=x, y=y, m=m, h=h, res=res, box_x=float(bx), box_y=float(by))
    return im, all(np.array_equal(a, b) for a, b in zip(keep, (x, y, m, h)))


def lattice(res, box, step):
    """sub-pixel positions that no rounding moves across an edge"""
    k = np.arange(0, int(box * res * step) if box else 2 * res * step) / (res * step)
    if not box:
        k = k - 0.5
    if res & (res - 1):
        k = k + 0.37 / (res * step)
    return k if not box else k[k < box]


def backend(ctx, item):
    name, res, bx, by, step = item
    step = step[1] if name.startswith("subsampled") else step[0]
    X, Y = lattice(res, bx, step), lattice(res, by, step)
    if not ctx.thorough:
        Y = Y[::2]
    for n in SIZES:
        h = n / res / G2
        if (bx and n / res > bx) or (by and n / res > by):
            continue
        if n == 0 and name == "reference":
            continue
        total, scale, P = np.zeros((res, res)), 0.0, []
        tol = 0.0
        for x, y in itertools.product(X, Y):
            case = dict(backend=name, resolution=res, box=(bx, by), x=float(x), y=float(y), kernel_radius_in_pixels=n)
            ctx.step()
            im, untouched = call(name, [x], [y], [1.0], [h], res, bx, by)
            ctx.check(untouched, f"arguments-changed:{name}", lambda: f"{case}", case)
            want, scale = particle2(x, y, h, res, bx, by, name)
            d = np.abs(im - want).max()
            ok = ctx.check(im.shape == want.shape and np.isfinite(im).all() and d <= tolerance(name, n, scale), f"single:{name}",
                           lambda: f"{case}: differs by {d:g}: {np.round(im, 4).tolist()}, expected {np.round(want, 4).tolist()}", case)
            ctx.state(name, res, bx, by, n, tuple(np.round(want, 6).ravel().tolist()))
            # a particle whose kernel and the pixels that hold it are within the image gives its whole mass
            if name not in ("fast", "reference") and max(x, y) < 1 and n / res <= min(x, y, 1 - x, 1 - y) and (not bx or bx >= 1) and (not by or by >= 1):
                ctx.check(abs(im.sum() / res**2 - 1) <= (0.002 if name.startswith("sub") else 1e-5), f"mass:{name}", lambda: f"{case}: holds {im.sum() / res**2}", case)
            if not bx and not by and n > 0 and 0 < x < 1 and 0 < y < 1 and (res * x) % 1 and (res * y) % 1:
                mir, _ = call(name, [1 - x], [y], [1.0], [h], res, bx, by)
                ctx.check(np.abs(mir[::-1] - im).max() <= (2e-5 if n >= 1 or not name.startswith("sub") else tolerance(name, n, 1) / 20) * max(scale, 1e-30),
                          f"mirror:{name}", lambda: f"{case}: {np.round(mir[::-1], 4).tolist()}, mirrored {np.round(im, 4).tolist()}", case)
                sw_, _ = call(name, [y], [x], [1.0], [h], res, bx, by)
                ctx.check(np.abs(sw_.T - im).max() <= 2e-5 * max(scale, 1e-30), f"swap:{name}", lambda: f"{case}", case)
            if ok:
                w = 1 + 0.618 * len(P) % 3 - 1.5 * (len(P) % 4 == 3)
                P.append((x, y, w, h))
                total += w * im
                tol += abs(w) * 2e-5 * scale
        if P:
            ctx.step()
            ctx.trace()
            for order in (1, -1):
                im, _ = call(name, *np.array(P).T[:, ::order], res, bx, by)
                ctx.check(np.abs(im - total).max() <= tol + 1e-9, f"sum:{name}", lambda: f"{name} {res} {bx, by} {n}: {len(P)} particles together differ from their sum by {np.abs(im - total).max()}")
            # particles of different kernels together, and none at all
    im, _ = call(name, [], [], [], [], res, bx, by)
    ctx.check(im.shape == (res, res) and not im.any(), f"empty:{name}", lambda: f"{im}")


def mixed(ctx, item):
    """several particles of different kernels in every order"""
    (name,) = item
    res = 4
    P = [(0.1, 0.3, 2.0, 0.3 / G2), (0.6, 0.95, 1.0, 0.02 / G2), (0.99, 0.01, -3.0, 0.55 / G2), (0.4, 0.4, 0.0, 0.4 / G2), (0.6, 0.9, 5.0, 0.2 / G2)]
    for box in (0.0, 1.0):
        for k in range(1, 6):
            for perm in itertools.permutations(P, k):
                ctx.step()
                ctx.trace()
                im, _ = call(name, *np.array(perm).T, res, box, box)
                want = sum(m * particle2(x, y, h, res, box, box, name)[0] for x, y, m, h in perm)
                tol = sum(abs(m) * tolerance(name, G2 * h * res, particle2(x, y, h, res, box, box, name)[1]) for x, y, m, h in perm)
                ctx.check(np.abs(im - want).max() <= tol, f"mixed:{name}", lambda: f"{name} box {box} {perm}: {im.tolist()}, expected {want.tolist()}")


# -- the public function -------------------------------------------------------
F = Fraction
REGIONS = {  # fractions of the box (min, max) per axis
    "none": None,
    "box": ((0, 1), (0, 1)),
    "corner": ((0, F(1, 4)), (0, F(1, 4))),
    "centre": ((F(1, 4), F(3, 4)), (F(1, 4), F(3, 4))),
    "wide": ((0, 1), (F(1, 4), F(3, 4))),
    "tall": ((F(1, 2), F(3, 4)), (0, 1)),
    "low wrap": ((F(-1, 4), F(3, 4)), (F(1, 2), F(3, 2))),
    "edge": ((F(3, 4), F(5, 4)), (F(-1, 4), F(1, 4))),
    "double": ((0, 2), (0, 2)),
    "triple": ((-1, 2), (F(1, 2), F(7, 2))),
    "column": ((F(1, 4), F(3, 4)), (F(-3, 2), 4)),
    "row": ((-2, F(9, 4)), (0, F(1, 2))),
    "far": ((7, 8), (-5, -4)),
    "thin": ((F(1, 8), F(7, 8)), (F(3, 8), F(1, 2))),
}
DEPTHS = {"all": None, "low": (0, F(1, 4)), "mid": (F(1, 4), F(3, 4)), "wrap": (F(3, 4), F(5, 4)), "negative": (F(-1, 4), F(1, 8)), "whole": (0, 1),
          "far": (F(9, 4), F(5, 2)), "shifted whole": (F(-1, 2), F(1, 2)), "top": (F(1, 2), 1)}


def particles(box, seed):
    """a lattice of positions, none on an edge of a pixel, region or depth; and every edge of the box"""
    f = np.array([0.013, 0.21, 0.387, 0.51, 0.766, 0.951])
    z = np.array([0.03, 0.14, 0.33, 0.58, 0.71, 0.89])
    pos, h, m = [], [], []
    for i, (a, b) in enumerate(itertools.product(f, f)):
        pos.append((a * box[0], b * box[1], z[(i + i // 6 + seed) % 6] * box[2]))
        h.append(min(box[:2]) * (0.0031, 0.0207, 0.0713, 0.1737, 0.3119)[(i * 2 + seed) % 5] / G2)
        m.append(1 + (i * 0.618) % 2)
    return np.array(pos), np.array(h), np.array(m)


def reference(box, region, depth, periodic, res, pos, h, m, name, keep):
    L = [F(b).limit_denominator(1000) for b in box]
    if region is None:
        r = [(F(0), L[0]), (F(0), L[1])]
    else:
        r = [(F(a) * l, F(b) * l) for (a, b), l in zip(region, L)]
    rng = [b - a for a, b in r]
    mr = max(rng)
    shape = tuple(math.ceil(res * x / mr) for x in rng)
    im, tol = np.zeros((res, res)), 0.0
    mr_ = float(mr)
    for p, hh, mm, k in zip(pos, h, m, keep):
        if not k:
            continue
        if depth is not None:
            lo, hi = (float(F(d) * L[2]) for d in depth)
            zs = [p[2]] if not periodic else [p[2] + s * box[2] for s in range(-12, 13)]
            if not any(lo <= z <= hi for z in zs):
                continue
        x, y = (p[0] - float(r[0][0])) / mr_, (p[1] - float(r[1][0])) / mr_
        bx, by = (box[0] / mr_, box[1] / mr_) if periodic else (0, 0)
        w, s = particle2(x, y, hh / mr_, res, bx, by, name)
        im += mm * w
        tol = max(tol, mm * s * (1e-4 if not name.startswith("sub") else tolerance(name, G2 * hh / mr_ * res, 1)))
    copies = max(math.ceil(x / l) for x, l in zip(rng, L))  # particles and their images that share a pixel
    return im[: shape[0], : shape[1]] / mr_**2, 2 * copies * tol / mr_**2


def public(ctx, item):
    box, rname, periodic = item
    a = 0.5
    region = REGIONS[rname]
    sel = None
    for seed in range(3):
        pos, h, m = particles(box, seed)
        if not periodic:  # also particles outside of the box
            pos[::7, 0] -= 0.3 * box[0]
            pos[3::11, 1] += 0.6 * box[1]
        d = dataset(ctx, box, a)
        for (dname, depth), name, res, masked in itertools.product(DEPTHS.items(), NAMES, (4, 5) if ctx.thorough else (5,), (None, "bool", "index")):
            if (region is None and depth is not None) or (masked and name not in ("fast", "histogram")) or (not ctx.thorough and seed and name in ("subsampled_extreme", "reference")):
                continue
            if masked == "index" and depth is not None:
                continue
            fill(d, pos, h, m, a)
            keep = np.ones(len(m), bool)
            if masked:
                keep = np.arange(len(m)) % 3 != 1
            sel = None if not masked else keep if masked == "bool" else np.flatnonzero(keep)
            reg = None
            if region is not None:
                v = [float(x) * l for (r, l) in zip(region, box) for x in r]
                if depth is not None:
                    v += [float(x) * box[2] for x in depth]
                reg = ca(v, a=a)
            case = dict(box=box, region=rname, depth=dname, periodic=periodic, backend=name, resolution=res, mask=masked, particles=seed)
            ctx.step()
            ctx.state(*[str(x) for x in case.values()])
            with ctx.guard(case):
                kw = dict(resolution=res, region=reg, periodic=periodic, backend=name, mask=sel)
                with contextlib.redirect_stdout(io.StringIO()):
                    im = project_gas(d, project="masses", **kw) if seed != 1 else project_pixel_grid(d.gas, project="masses", **kw)
                want, tol = reference(box, region, depth, periodic, res, pos, h, m, name, keep)
                got = im.to_value("g/Mpc**2", comoving=True) if hasattr(im, "to_value") else im
                dev = np.abs(np.asarray(got) - want).max() if np.shape(got) == want.shape else np.inf
                ctx.check(dev <= tol, f"public:{name}:{'periodic' if periodic else 'open'}",
                          lambda: f"{case}: shape {np.shape(got)}, differs by {dev:g} (allowed {tol:g}) from {np.round(want, 3).tolist()}: {np.round(np.asarray(got), 3).tolist()}", case)
                ctx.trace()


def refusals(ctx, item):
    """what cannot be projected is refused rather than drawn wrongly"""
    d = dataset(ctx)
    fill(d, *particles((10, 10, 10), 0))
    for hi in (1.01, 1.5, 3):
        ctx.step()
        ctx.trace()
        try:
            project_gas(d, 4, region=ca([0, 10, 0, 10, 0, 10 * hi]))
            ctx.fail("depth-not-refused", f"a periodic projection {hi} boxes deep was not refused")
        except ValueError:
            pass
    ctx.step()
    try:
        project_gas(d, 4, rotation_matrix=np.identity(3), rotation_center=ca([5.0, 5, 5]), periodic=True)
        ctx.fail("rotation-not-refused", "rotation of a periodic box was not refused")
    except ValueError:
        pass


def dispatch(ctx, item):
    dict(backend=backend, mixed=mixed, public=public, refusals=refusals)[item[0]](ctx, item[1])


def run(ctx):
    for n in NAMES:  # compile before forking
        call(n, [0.5], [0.5], [1.0], [0.3], 4, 0.0, 0.0)
    items = [("mixed", (n,)) for n in NAMES] + [("refusals", ())]
    boxes = ((10.0, 10.0, 10.0), (8.0, 12.0, 10.0)) + (((12.0, 8.0, 6.0),) if ctx.thorough else ())
    items += [("public", (b, r, p)) for b in boxes for r in REGIONS for p in (True, False)]
    for n in NAMES:
        for res, bx, by in ((4, 0, 0), (4, 1, 1), (4, 1.5, 1), (4, 0.625, 0.75), (4, 0, 1), (4, 3, 0), (5, 0, 0), (5, 1, 1), (1, 1, 1), (1, 0, 0), (3, 0.5, 1.25), (7, 0.3, 0.25), (6, 1, 0.18), (6, 0.22, 1)):
            items.append(("backend", (n, res, bx, by, (8, 4) if ctx.thorough else (4, 3))))
    ctx.pmap(dispatch, items)
    ctx.sample(dict(kernel_radii=SIZES, regions=list(REGIONS), depths=list(DEPTHS)))
