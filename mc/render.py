"""Reference images: sums of kernels over periodic images, in plain numpy double precision."""

import itertools

import numpy as np

G2, K2 = 1.897367, 7 / np.pi
G3, K3 = 1.936492, 21 / (2 * np.pi)


def w2(r, H):
    q = np.minimum(r / H, 1)
    return K2 / H**2 * (1 - q) ** 4 * (1 + 4 * q)


def w3(r, H):
    q = np.minimum(r / H, 1)
    return K3 / H**3 * (1 - q) ** 4 * (1 + 4 * q)


_N = 1200


def _cumulative():
    """C(u, v): integral of the unit-width 2D kernel over (-1, u) x (-1, v), tabulated"""
    c = (np.arange(_N) + 0.5) / _N * 2 - 1
    k = w2(np.hypot(c[:, None], c[None]), 1.0)
    k /= k.sum()
    C = np.zeros((_N + 1, _N + 1))
    C[1:, 1:] = k.cumsum(0).cumsum(1)
    return C


_C = None


def cumulative(u, v):
    global _C
    if _C is None:
        _C = _cumulative()
    iu, iv = ((np.clip(np.asarray(a), -1, 1) + 1) * _N / 2 for a in (u, v))
    ju, jv = np.minimum(iu.astype(int), _N - 1), np.minimum(iv.astype(int), _N - 1)
    fu, fv = iu - ju, iv - jv
    return _C[ju, jv] * (1 - fu) * (1 - fv) + _C[ju + 1, jv] * fu * (1 - fv) + _C[ju, jv + 1] * (1 - fu) * fv + _C[ju + 1, jv + 1] * fu * fv


def copies(p, box, H):
    """coordinates of the periodic copies whose kernel can reach [0, 1]"""
    if not box:
        return [p]
    lo = int(np.floor((-H - p) / box)) - 1
    hi = int(np.ceil((1 + H - p) / box)) + 1
    return [p + s * box for s in range(lo, hi + 1) if -H <= p + s * box <= 1 + H]


def particle2(x, y, h, res, bx, by, mode):
    """image of a particle of unit mass on res x res pixels of [0, 1]^2, and the magnitude of its largest pixel"""
    im = np.zeros((res, res))
    H = G2 * h
    n = H * res
    if mode == "reference" and n < 2:
        return im, 0.0
    c = (np.arange(res) + 0.5) / res
    edges = np.arange(res + 1) / res
    for px, py in itertools.product(copies(x, bx, H), copies(y, by, H)):
        if mode == "histogram" or mode in ("fast", "renormalised") and n < 1 or H == 0:
            i, j = int(np.floor(px * res)), int(np.floor(py * res))
            if 0 <= i < res and 0 <= j < res:
                im[i, j] += res * res
        elif mode in ("subsampled", "subsampled_extreme"):
            u, v = np.meshgrid((edges - px) / H, (edges - py) / H, indexing="ij")
            C = cumulative(u, v)
            im += (C[1:, 1:] - C[1:, :-1] - C[:-1, 1:] + C[:-1, :-1]) * res * res
        else:
            w = w2(np.hypot((c - px)[:, None], (c - py)[None]), H)
            if mode == "renormalised":
                m = int(np.ceil(n)) + 1
                i, j = np.floor(px * res) + np.arange(-m, m + 1), np.floor(py * res) + np.arange(-m, m + 1)
                w = w / w2(np.hypot(((i + 0.5) / res - px)[:, None], ((j + 0.5) / res - py)[None]), H).sum() * res * res
            im += w
    return im, (res * res if n < 1 or H == 0 or mode == "histogram" else max(K2 / H**2, res * res if mode == "renormalised" and n < 2 else 0))


def particle3(p, h, res, box, pixel=True):
    """cube of a particle of unit mass on [0, 1]^3, and the magnitude of its largest voxel"""
    im = np.zeros((res,) * 3)
    H = G3 * h
    c = (np.arange(res) + 0.5) / res
    for q in itertools.product(*(copies(a, b, H) for a, b in zip(p, box))):
        if H * res < 0.5:
            i = tuple(int(np.floor(a * res)) for a in q)
            if all(0 <= k < res for k in i):
                im[i] += res**3
        else:
            d = [(c - a) ** 2 for a in q]
            im += w3(np.sqrt(d[0][:, None, None] + d[1][None, :, None] + d[2]), H)
    return im, (res**3 if H * res < 0.5 else K3 / H**3)


def slice3(p, h, zs, xres, yres, box):
    """plane z = zs of the field of a particle of unit mass; pixels of width 1/max(xres, yres)"""
    im = np.zeros((xres, yres))
    H = G3 * h
    res = max(xres, yres)
    cx, cy = (np.arange(xres) + 0.5) / res, (np.arange(yres) + 0.5) / res
    zc = [p[2]] if not box[2] else [p[2] + s * box[2] for s in range(int(np.floor((zs - H - p[2]) / box[2])), int(np.ceil((zs + H - p[2]) / box[2])) + 1)]
    for a, b, z in itertools.product(copies(p[0], box[0], H), copies(p[1], box[1], H), zc):
        im += w3(np.sqrt(((cx - a) ** 2)[:, None] + ((cy - b) ** 2)[None] + (z - zs) ** 2), H)
    return im, K3 / H**3
