"""C25: two-dimensional colour maps colour every point by its pair of values."""

import colorsys
import itertools
import os
import warnings

import numpy as np
import unyt
from PIL import Image

from swiftsimio.visualisation.tools import cmaps
from swiftsimio.visualisation.tools.cmaps import Cmap2D, ImageCmap2D, LinearSegmentedCmap2D, LinearSegmentedCmap2DHSV

META = dict(
    level="model_checking",
    exhaustive=True,
    explanation="Generation: every ordered set of up to three (four) colours from a pool at every choice of lattice coordinates, in RGB and HSV form, at every grid point, against the "
    "distance-weighted mean computed independently. Application: every pair of values from the set of all cell edges, their floating-point neighbours, middles, values outside the range, "
    "infinities and nan, for every grid shape up to a size, as every container, number type and shape, on grids whose every cell has its own colour, surrounded by poison. Images: every mode "
    "and shape of small images. Plots: what is shown at each point against the colour the map gives it.",
    assumptions=["points further than one from every colour have no defined colour in a generated map", "a value within a rounding step of a cell's edge may take either cell"],
)

POOL = [(1.0, 0.0, 0.0), [0.0, 1.0, 0.0], (0.0, 0.0, 1.0, 1.0), [0.25, 0.5, 0.75], (1.0, 1.0, 1.0, 0.25), np.array([0.9, 0.8, 0.1, 0.0]), (0.0, 0.0, 0.0)]
PLACES = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 0.25)]


def rgba(c):
    return [float(x) for x in c] + [1.0] * (4 - len(c))


def blend(colors, places, x, y, hsv):
    w = [max(1.0 - ((x - p[0]) ** 2 + (y - p[1]) ** 2) ** 0.5, 0.0) for p in places]
    tot = sum(w)
    if tot <= 1e-9:
        return None
    cols = [rgba(c) for c in colors]
    if hsv:
        cols = [list(colorsys.rgb_to_hsv(*c[:3])) + c[3:] for c in cols]
    m = [sum(wi * c[k] for wi, c in zip(w, cols)) / tot for k in range(4)]
    return list(colorsys.hsv_to_rgb(*m[:3])) + m[3:] if hsv else m


def generation(ctx, item):
    size, sets = item
    # (a smaller grid makes more maps affordable; where the size cannot be chosen the grid is checked at its own)
    if hasattr(cmaps, "COLOR_MAP_GRID_SIZE"):
        cmaps.COLOR_MAP_GRID_SIZE = size
    for hsv, cs, ps in sets:
        colors, places = [POOL[i] for i in cs], [PLACES[i] for i in ps]
        case = dict(kind="generation", hsv=hsv, colors=[list(map(float, c)) for c in colors], coordinates=places)
        before = repr((colors, places))
        cls = LinearSegmentedCmap2DHSV if hsv else LinearSegmentedCmap2D
        with ctx.guard(case), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = cls(colors=colors, coordinates=places, name="n", description="d")
            g = m.color_map_grid
            ctx.step()
            ctx.state("generation", size, hsv, cs, ps)
            ctx.check(repr((colors, places)) == before, "generation-arguments", f"{case}: {colors} {places}", case)
            if not ctx.check(isinstance(g, np.ndarray) and g.ndim == 3 and g.shape[0] == g.shape[1] and g.shape[2] == 4, "grid-shape", lambda: f"{case}: {getattr(g, 'shape', g)}", case):
                continue
            ctx.check(m.color_map_grid is g or np.array_equal(m.color_map_grid, g, equal_nan=True), "grid-changes", f"{case}", case)
            n = len(g)
            idx = range(n) if n <= 32 else range(0, n, 17)
            bad = []
            for i, j in itertools.product(idx, idx):
                want = blend(colors, places, j / (n - 1), i / (n - 1), hsv)
                # (stored colours are a factor 1.0001 darker, so that they stay below one)
                if want is not None and not np.allclose(g[i, j], want, rtol=0, atol=1.5e-3 if hsv else 3e-4):
                    bad.append((i, j, g[i, j].tolist(), want))
            ctx.check(not bad, f"generation:{'hsv' if hsv else 'rgb'}", lambda: f"{case}: {bad[:3]}", case)
            # what the plot shows where: at (x, y) row y and column x of the image drawn from below
            seen, points = shown(m)
            at = (np.arange(n) + 1e-4) / (n - 1)
            given = m(*np.meshgrid(at, at)) if n <= 32 else None
            if given is not None and not np.array_equal(seen, given, equal_nan=True):
                ok = np.array_equal(seen, np.swapaxes(given, 0, 1), equal_nan=True)
                ctx.fail("plot-transposed" if ok else "plot", f"{case}: the plot shows another colour at (x, y) than the map gives x and y", case)
            ctx.check(len(points) == len(colors) and all(np.allclose(p[0], q) and np.allclose(p[1], rgba(c)) for p, q, c in zip(points, places, colors)), "plot-points", lambda: f"{case}: {points}", case)
        ctx.trace()


class Axes:
    """takes what is drawn"""

    def __init__(self):
        self.image, self.kw, self.points = None, {}, []

    def imshow(self, x, *a, **k):
        self.image, self.kw = np.array(x), k

    def scatter(self, x, y, *a, color=None, **k):
        self.points.append(((float(x), float(y)), np.asarray(color, float).ravel()))

    def __getattr__(self, name):
        return lambda *a, **k: None


def shown(m):
    ax = Axes()
    m.plot(ax, include_points=True)
    im = ax.image
    if ax.kw.get("origin") != "lower":
        im = im[::-1]
    return im, ax.points


class Fixed(Cmap2D):
    """a map with a grid of its own"""

    def __init__(self, grid):
        super().__init__("fixed", None)
        self.grid = grid

    def generate_color_map_grid(self):
        self._color_map_grid = self.grid


def labelled(n, m):
    """a grid whose cells all differ, in the midst of a larger poisoned one"""
    big = np.full((n + 6, m + 6, 4), 7.5, dtype="f4")
    i, j = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    big[3 : 3 + n, 3 : 3 + m] = np.stack([i / 64.0, j / 64.0, (i + j) / 128.0, 0.25 + 0 * i], -1)
    return big[3 : 3 + n, 3 : 3 + m], big


def values(n):
    v = [0.0, -0.0, 1.0, -1.0, 2.0, 1e300, -1e300, np.inf, -np.inf, np.nan, 5e-324, 1e-30]
    for k in range(n):
        e = k / max(n - 1, 1)
        v += [e, np.nextafter(e, 2), np.nextafter(e, -1), e + 0.5 / max(n - 1, 1)]
    return np.unique(np.array(v))


def cells(v, n):
    """the cells a value may be given (None: undefined)"""
    if np.isnan(v):
        return None
    x = min(max(float(v), 0.0), 1.0) * (n - 1)
    lo = int(x)
    near = round(x)
    return {lo} | ({near, max(near - 1, 0)} if abs(x - near) < 1e-6 * max(n, 1) and near < n else set())


def judge(ctx, got, h, v, n, m, case):
    h, v = np.asarray(h, dtype="f8"), np.asarray(v, dtype="f8")
    if not ctx.check(isinstance(got, np.ndarray) and got.shape == h.shape + (4,), "applied-shape", lambda: f"{case}: {getattr(got, 'shape', got)} for {h.shape}", case):
        return
    flat = got.reshape(-1, 4)
    for k, (a, b) in enumerate(zip(h.ravel(), v.ravel())):
        ca, cb = cells(a, n), cells(b, m)
        c = flat[k]
        if ca is None or cb is None:
            if not ctx.check(np.array_equal(c, [0, 0, 0, 0]), "undefined-value", lambda: f"{case}: values {a!r}, {b!r} gave {c.tolist()}", case):
                return
            continue
        i, j = round(float(c[0]) * 64), round(float(c[1]) * 64)
        ok = i in ca and j in cb and abs(c[2] - (i + j) / 128) < 1e-6 and c[3] == 0.25
        if not ctx.check(ok, "applied-colour", lambda: f"{case}: values {a!r}, {b!r} gave {c.tolist()}, cells {ca} x {cb} wanted", case):
            return


FORMS = ["1d", "2d", "3d", "list", "tuple", "list of lists", "f4", "strided", "fortran", "unyt", "column", "empty", "scalar", "mixed list array", "reversed"]


def application(ctx, item):
    n, m = item
    H, V = (x.ravel() for x in np.meshgrid(values(n), values(m), indexing="ij"))
    for form in FORMS:
        case = dict(kind="application", grid=(n, m), form=form)
        ctx.state("application", n, m, form)
        ctx.trace()
        with ctx.guard(case), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid, big = labelled(n, m)
            keep = big.copy()
            f = Fixed(grid)
            h, v = H.copy(), V.copy()
            if form == "2d":
                h, v = h.reshape(len(values(n)), -1), v.reshape(len(values(n)), -1)
            elif form == "3d":
                h, v = h.reshape(len(values(n)), -1, 1), v.reshape(len(values(n)), -1, 1)
            elif form == "list":
                h, v = h.tolist(), v.tolist()
            elif form == "tuple":
                h, v = tuple(h.tolist()), tuple(v.tolist())
            elif form == "list of lists":
                h, v = h.reshape(len(values(n)), -1).tolist(), v.reshape(len(values(n)), -1).tolist()
            elif form == "f4":
                with np.errstate(all="ignore"):
                    h, v = h.astype("f4"), v.astype("f4")
            elif form == "strided":
                h, v = np.repeat(h, 2)[::2], np.repeat(v, 3)[1::3]
            elif form == "fortran":
                h, v = np.asfortranarray(h.reshape(len(values(n)), -1)), v.reshape(len(values(n)), -1)
            elif form == "unyt":
                h, v = unyt.unyt_array(h, "dimensionless"), unyt.unyt_array(v, "dimensionless")
            elif form == "column":
                h, v = h[:, None], v[:, None]
            elif form == "empty":
                h, v = h[:0], v[:0]
            elif form == "scalar":
                for a, b in itertools.product(values(n)[::3], values(m)[::3]):
                    ctx.step()
                    judge(ctx, f(np.float64(a), np.float64(b)), a, b, n, m, case)
                continue
            elif form == "mixed list array":
                v = v.tolist()
            elif form == "reversed":
                h, v = h[::-1], v[::-1]
            hb, vb = repr(h), repr(v)
            got = f(h, v)
            ctx.step(H.size)
            judge(ctx, got, np.array(h, dtype="f8"), np.array(v, dtype="f8"), n, m, case)
            ctx.check(repr(h) == hb and repr(v) == vb and np.array_equal(big, keep), "applied-arguments", f"{case}: the values or the grid changed", case)
            got[...] = 3.0
            ctx.check(np.array_equal(big, keep), "result-shares-grid", f"{case}: the result shares memory with the map", case)
    # integers: only the ends
    case = dict(kind="application", grid=(n, m), form="integers")
    for dt in ("i4", "i8", "u1", "?"):
        with ctx.guard(case):
            grid, _ = labelled(n, m)
            h, v = (np.array(x, dtype=dt) for x in ([0, 0, 1, 1], [0, 1, 0, 1]))
            judge(ctx, Fixed(grid)(h, v), h, v, n, m, case)
            ctx.step(4)
            judge(ctx, Fixed(grid)(h.tolist(), v.tolist()), h, v, n, m, case)
    # what is not of one shape is refused
    for a, b in itertools.product([(), (1,), (2,), (3,), (2, 1), (1, 2), (2, 2), (4,), (0,)], repeat=2):
        if a == b:
            continue
        case = dict(kind="shapes", grid=(n, m), shapes=(a, b))
        ctx.step()
        ctx.state("shapes", n, m, a, b)
        grid, _ = labelled(n, m)
        try:
            r = Fixed(grid)(np.full(a, 0.5), np.full(b, 0.5))
        except Exception:  # noqa: BLE001
            continue
        ctx.fail("shapes-accepted", f"{case}: values of different shapes gave an array of shape {r.shape}", case)


MODES = ["RGBA", "RGB", "L", "LA", "P", "1"]


def images(ctx, item):
    (n, m), mode = item
    case = dict(kind="image", shape=(n, m), mode=mode)
    rng = np.arange(n * m * 4).reshape(n, m, 4) * 37 % 256
    im = Image.fromarray(rng.astype("u1"), "RGBA").convert(mode)
    path = os.path.join(ctx.scratch, f"im{os.getpid()}.png")
    im.save(path)
    px = np.array([[Image.open(path).convert("RGBA").getpixel((j, i)) for j in range(m)] for i in range(n)]) / 255.0
    ctx.state("image", n, m, mode)
    ctx.trace()
    with ctx.guard(case):
        c = ImageCmap2D(filename=path, name="image")
        i, j = (x.ravel() for x in np.meshgrid(np.arange(n), np.arange(m), indexing="ij"))
        h, v = (i + 0.25) / max(n - 1, 1), (j + 0.25) / max(m - 1, 1)
        got = c(h, v)
        ctx.step(n * m)
        ctx.check(np.allclose(got, px[i, j], atol=1e-6), f"image:{mode}", lambda: f"{case}: {got.tolist()} rather than {px[i, j].tolist()}", case)


def dispatch(ctx, job):
    globals()[job[0]](ctx, job[1])


def run(ctx):
    sets = []
    depth = 4 if ctx.thorough else 3
    for k in range(1, depth + 1):
        for cs in itertools.combinations(range(len(POOL)), k):
            for ps in itertools.permutations(range(len(PLACES)), k):
                if not ctx.thorough and k == 3 and (sum(cs) + sum(ps)) % 2:
                    continue  # (half of the triples; all of them in the thorough tier)
                for hsv in (False, True):
                    sets.append((hsv, cs, ps))
    jobs = [("generation", (size, sets[i::32])) for size in (5,) for i in range(32)]
    # every order of the same colours gives the same map
    perm = [(hsv, cs, tuple(ps[i] for i in order)) for hsv in (False, True) for order in itertools.permutations(range(3)) for cs, ps in [(tuple((0, 3, 4)[i] for i in order), (0, 4, 3))]]
    jobs += [("generation", (9, perm)), ("generation", (256, [(False, (0, 1, 2, 6), (0, 1, 2, 3)), (True, (0, 1, 2, 6), (0, 1, 2, 3))]))]
    top = 9 if ctx.thorough else 5
    jobs += [("application", (n, m)) for n in [*range(1, top + 1), 256 if ctx.thorough else 17] for m in [*range(1, top + 1), 33 if ctx.thorough else 16]]
    jobs += [("images", (s, mode)) for s in ((2, 3), (3, 2), (5, 4), (1, 4), (7, 7)) for mode in MODES]
    jobs.sort(key=lambda j: j[0] != "generation")
    ctx.pmap(dispatch, jobs)
