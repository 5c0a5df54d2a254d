"""C27: visualised volume renders are the documented sums along the line of sight, coloured and combined as asked."""

import itertools
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from swiftsimio.visualisation.volume_render import visualise_render, visualise_render_options  # noqa: E402

META = dict(
    level="model_checking",
    exhaustive=True,
    explanation="Cubes of every shape up to a size with every single voxel (and pair of voxels) set apart from the others, and cubes whose voxels all differ (finite, very large, infinite and "
    "undefined values; every number type and memory order) x lists of centres and widths x colour maps x normalisations (none, one, one each, fixed or autoscaling) x kinds of return, "
    "against the sums of Gaussians evaluated by numpy.",
    assumptions=["widths are positive"],
)


def layer(cube, c, w):
    with np.errstate(all="ignore"):
        x = (c - np.asarray(cube, dtype="f8")) / w
        return (np.exp(-0.5 * x * x) / (w * np.sqrt(2 * np.pi))).sum(axis=2)


def scale(raw, norm):
    """norm: None (to the layer's own range), (vmin, vmax) or ('auto',) kept from the first layer"""
    lo, hi = norm
    with np.errstate(all="ignore"):
        return np.zeros_like(raw) if lo == hi else (raw - lo) / (hi - lo)


CENTERS = [([0.0], 1.0), ([0.5, 2.0], 0.25), ([1.0, 0.0, 3.0], [0.5, 1.0, 2.0]), ([2.0, 2.0], [0.1, 3.0]), ([-1e3, 1.0], [1e2, 0.5]), ((1.0, 2.0, 3.0, 4.0), (0.5, 0.25, 0.5, 1.0)),
           (np.array([0.25, 0.75]), np.array([0.125, 0.5]))]
NORMS = ["none", "one fixed", "one auto", "each fixed", "each auto"]
KINDS = ["all", "lighten", "add"]


def make_norm(kind, n):
    if kind == "none":
        return None
    if kind == "one fixed":
        return plt.Normalize(vmin=0.1, vmax=1.5)
    if kind == "one auto":
        return plt.Normalize()
    if kind == "each fixed":
        return [plt.Normalize(vmin=0.1 * k, vmax=1.0 + k) for k in range(n)]
    return [plt.Normalize() for _ in range(n)]


def ranges(kind, raws):
    if kind == "one fixed":
        return [(0.1, 1.5)] * len(raws)
    if kind == "each fixed":
        return [(0.1 * k, 1.0 + k) for k in range(len(raws))]
    own = [(r.min(), r.max()) for r in raws]
    return [own[0]] * len(raws) if kind == "one auto" else own


def judge(ctx, cube, ci, cmap, nk, kind, case):
    centers, widths = CENTERS[ci]
    n = len(centers)
    ws = [widths] * n if isinstance(widths, float) else list(widths)
    norm = make_norm(nk, n)
    before = cube.tobytes(), repr(centers), repr(widths)
    got, norms = visualise_render(cube, centers, widths, cmap=cmap, return_type=kind, norm=norm)
    ctx.step()
    ctx.check((cube.tobytes(), repr(centers), repr(widths)) == before, "arguments-changed", f"{case}", case)
    raws = [layer(cube, c, w) for c, w in zip(centers, ws)]
    rng = ranges(nk, raws)
    cols = plt.get_cmap(cmap)(np.linspace(0, 1, n))[:, :3]
    want = [scale(r, g)[:, :, None] * col for r, g, col in zip(raws, rng, cols)]
    # how sharp the comparison can be: rounding of a layer relative to the range it is stretched over
    tol = [1e-9 * max(1.0, np.abs(r).max() / (g[1] - g[0]) if g[1] > g[0] else 1.0) for r, g in zip(raws, rng)]
    flat = any(0 < g[1] - g[0] < 1e-12 * max(abs(g[1]), 1e-300) for g in rng)  # (constant but for rounding: no range of its own)
    if kind == "all":
        ok = isinstance(got, list) and len(got) == n
        pairs = list(zip(got, want, tol)) if ok else []
    else:
        ok = True
        pairs = [(got, np.max(want, axis=0) if kind == "lighten" else sum(want), sum(tol))]
    ctx.check(ok, "number-of-images", lambda: f"{case}: {type(got)}", case)
    for g, w, t in pairs:
        if not ctx.check(np.shape(g) == w.shape, f"image-shape:{kind}", lambda: f"{case}: {np.shape(g)} rather than {w.shape}", case):
            return
        if not flat:
            ctx.check(np.allclose(np.asarray(g), w, rtol=0, atol=t), f"image:{kind}", lambda: f"{case}: {np.asarray(g).tolist()} rather than {w.tolist()}", case)
    if ctx.check(isinstance(norms, list) and len(norms) == n, "norms", lambda: f"{case}: {norms}", case):
        if norm is not None:
            same = [norm] * n if not isinstance(norm, list) else norm
            ctx.check(all(a is b for a, b in zip(norms, same)), "norms", lambda: f"{case}: other normalisations than given", case)
        for a, g in zip(norms, rng):
            ctx.check(np.allclose([a.vmin, a.vmax], g, rtol=1e-9, atol=0), "norm-range", lambda: f"{case}: {a.vmin}..{a.vmax} rather than {g}", case)


def single(ctx, shape):
    """one voxel, or two, unlike the rest"""
    vox = list(itertools.product(*map(range, shape)))
    marks = [(v,) for v in vox] + list(itertools.combinations(vox, 2) if ctx.thorough or len(vox) <= 12 else zip(vox, vox[1:]))
    for k, m in enumerate(marks):
        cube = np.full(shape, 5.0)
        for v in m:
            cube[v] = 1.0
        for ci, kind in ((1, "add"), (2, "all"), (2, "lighten")):
            case = dict(kind="voxel", shape=shape, voxels=m, centers=ci, returned=kind)
            ctx.state("voxel", shape, m, ci, kind)
            ctx.trace()
            with ctx.guard(case):
                judge(ctx, cube, ci, "viridis", "each fixed", kind, case)


SPECIAL = ["distinct", "f4", "i4", "fortran", "strided", "reversed", "-inf", "inf", "large", "tiny", "constant"]


def cube_of(shape, form):
    x = (np.arange(np.prod(shape)) * 7 % 11 / 4.0).reshape(shape) - 0.25
    if form == "f4":
        return x.astype("f4")
    if form == "i4":
        return (x * 4).astype("i4")
    if form == "fortran":
        return np.asfortranarray(x)
    if form == "strided":
        return np.repeat(x, 2, axis=2)[:, :, ::2]
    if form == "reversed":
        return x[::-1, :, ::-1]
    if form in ("-inf", "inf"):
        x.ravel()[:: 2 if x.size > 2 else 1] = float(form)
    if form == "large":
        x.ravel()[::2] = 1e200
        x.ravel()[1::3] = -1e200
    if form == "tiny":
        x *= 1e-200
    if form == "constant":
        x[...] = 0.5
    return x


def product(ctx, shape):
    for form, ci, nk, kind in itertools.product(SPECIAL, range(len(CENTERS)), NORMS, KINDS):
        for cmap in ("viridis", "twilight") if form == "distinct" else ("viridis",):
            case = dict(kind="product", shape=shape, cube=form, centers=ci, norm=nk, returned=kind, cmap=cmap)
            ctx.state("product", shape, form, ci, nk, kind, cmap)
            ctx.trace()
            with ctx.guard(case), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                judge(ctx, cube_of(shape, form), ci, cmap, nk, kind, case)
    for ci, cmap in itertools.product(range(len(CENTERS)), ("viridis", "twilight")):
        centers, widths = CENTERS[ci]
        case = dict(kind="options", centers=ci, cmap=cmap)
        ctx.step()
        ctx.state("options", ci, cmap)
        with ctx.guard(case):
            fig, ax = visualise_render_options(centers, widths, cmap=cmap)
            ws = [widths] * len(centers) if isinstance(widths, float) else list(widths)
            cols = plt.get_cmap(cmap)(np.linspace(0, 1, len(centers)))[:, :3]
            curves = [l for l in ax.lines if len(l.get_xdata()) > 2]
            marks = [l for l in ax.lines if len(l.get_xdata()) == 2]
            ok = len(curves) == len(marks) == len(centers)
            if ctx.check(ok, "options", lambda: f"{case}: {len(curves)} curves", case):
                for l, v, c, w, col in zip(curves, marks, centers, ws, cols):
                    x = np.asarray(l.get_xdata(), float)
                    y = np.exp(-0.5 * ((x - c) / w) ** 2) / (w * np.sqrt(2 * np.pi))
                    good = np.allclose(l.get_ydata(), y) and x.min() <= c - 3 * w and x.max() >= c + 3 * w and np.allclose(np.asarray(v.get_xdata(), float), c)
                    good = good and np.allclose(matplotlib.colors.to_rgb(l.get_color()), col) and np.allclose(matplotlib.colors.to_rgb(v.get_color()), col)
                    ctx.check(good, "options", lambda: f"{case}: centre {c} width {w}", case)
            plt.close(fig)


def dispatch(ctx, job):
    globals()[job[0]](ctx, job[1])


def run(ctx):
    top = 4 if ctx.thorough else 3
    shapes = list(itertools.product(range(1, top + 1), repeat=3))
    jobs = [("single", s) for s in shapes + [(5, 2, 2), (2, 5, 2), (4, 4, 4)]]
    jobs += [("product", s) for s in (shapes if ctx.thorough else [s for s in shapes if sum(s) in (3, 5, 6, 9)]) + [(8, 8, 8), (7, 3, 4), (3, 7, 2)]]
    jobs.sort(key=lambda j: -np.prod(j[1]))
    ctx.pmap(dispatch, jobs)
