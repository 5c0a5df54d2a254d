"""C07: array functions denote the same physical quantity as on physical operands, or are refused."""

import itertools
import warnings

import numpy as np
import unyt

from swiftsimio.objects import cosmo_array, cosmo_quantity  # noqa: F401
from mc.cosmo import Op, label, same_quantity

META = dict(
    level="model_checking",
    explanation="Every numpy array function the arrays accept is called in its listed argument forms on every combination "
    "of operands from a catalogue (frame x unit x exponent x scale factor x convertibility x plain); each result is read "
    "through its labels in both frames and compared with the same function of plain unyt operands converted by hand; "
    "operands must come out unchanged unless the function is there to modify them.",
    assumptions=["unyt's own unit handling is trusted within one frame; calls that plain unyt refuses are compared with "
                 "numpy on bare numbers or skipped",
                 "for functions that are not homogeneous (rounding, sinc) the claim is about numbers in the frame of the label"],
)
np_ = np
V = np.array([1.0, 4.0, 9.0])
V2 = np.array([2.0, 0.5, 4.0])
V3 = np.array([3.0, 1.0, 0.25])
M = np.array([[4.0, 1.0, 0.5], [1.0, 8.0, 2.0], [0.5, 2.0, 16.0]])
MASK = np.array([True, False, True])
IDX = np.array([2, 0])


class Fn:
    """one call form. slots: list of 'v' vector, 'w' second vector, 'z' third, 's' scalar, 'm' matrix."""

    def __init__(self, name, f, slots="v", kind="homog", form="", units=None, fallback=None, menu=None, inplace=False, ofn=None):
        self.name, self.f, self.slots, self.kind, self.form = name, f, slots, kind, form
        self.units = units
        self.ofn = ofn or f
        self.fallback, self.menu, self.inplace = fallback, menu, inplace

    @property
    def id(self):
        return f"{self.name}{('[' + self.form + ']') if self.form else ''}"


def T():
    L = []

    def add(name, f, slots="v", kind="homog", form="", **kw):
        L.append(Fn(name, f, slots, kind, form, **kw))

    # reductions and order statistics
    for n in ("sum", "mean", "median", "std", "max", "min", "ptp", "cumsum", "nansum", "nanmean", "nanmedian", "nanstd",
              "nanmax", "nanmin", "nancumsum", "sort", "var", "nanvar", "prod", "nanprod", "amax", "amin"):
        g = getattr(np, n)
        add(n, g, "v")
        add(n, g, "m", form="matrix")
        for ax in (0, 1, -1):
            add(n, lambda x, g=g, ax=ax: g(x, axis=ax), "m", form=f"axis={ax}")
        if n not in ("cumsum", "nancumsum", "sort"):
            add(n, lambda x, g=g: g(x, axis=0, keepdims=True), "m", form="keepdims")
            if n not in ("median", "nanmedian", "ptp"):
                add(n, lambda x, g=g: g(x, axis=(0, 1)), "m", form="axis=(0,1)")
            add(n, lambda x, g=g: g(x, None), "m", form="positional axis")
            add(n, lambda x, g=g: g(x, 1), "m", form="positional axis 1")
    for n in ("percentile", "nanpercentile"):
        g = getattr(np, n)
        add(n, lambda x, g=g: g(x, 30.0), "v")
        add(n, lambda x, g=g: g(x, [25, 50], axis=0), "m", form="list")
        add(n, lambda x, g=g: g(x, q=30.0), "v", form="q=")
    for n in ("quantile", "nanquantile"):
        g = getattr(np, n)
        add(n, lambda x, g=g: g(x, 0.3), "v")
        add(n, lambda x, g=g: g(x, [0.25, 0.5], axis=1), "m", form="list")
    add("average", np.average, "v")
    add("average", lambda x: np.average(x, axis=0), "m", form="axis")
    add("average", lambda x, w: np.average(x, weights=w), "vW", form="weights")
    add("average", lambda x, w: np.average(x, weights=w, returned=True), "vW", form="weights returned")
    add("average", lambda x: np.average(x, weights=np.array([1.0, 2, 3])), "v", form="plain weights")
    add("average", lambda x: np.average(x, returned=True), "v", form="returned")
    add("partition", lambda x: np.partition(x, 1), "v")
    add("sum", lambda x, s: np.sum(x, initial=s), "vs", "preserve", form="initial")
    add("max", lambda x, s: np.max(x, initial=s), "vs", "preserve", form="initial")
    add("sum", lambda x: np.sum(x, where=MASK), "v", form="where")
    add("mean", lambda x: np.mean(x, where=MASK), "v", form="where")
    # methods
    for n in ("sum", "mean", "std", "max", "min", "cumsum", "var", "prod", "ptp", "argmax", "argsort", "argmin", "any", "all",
              "nonzero"):
        if hasattr(np.ndarray, n):
            add("method " + n, lambda x, n=n: getattr(x, n)(), "v", "local" if n == "argsort" else "homog")
            if n not in ("nonzero",):
                add("method " + n, lambda x, n=n: getattr(x, n)(axis=0), "m", "local" if n.startswith("arg") else "homog", form="axis")
    add("method dot", lambda x, y: x.dot(y), "vW", menu="known")
    add("method clip", lambda x, a: x.clip(a), "vs", "preserve", form="lower", menu="known")
    add("method clip", lambda x, b: x.clip(max=b), "vs", "preserve", form="upper", menu="known")
    add("method sum", lambda x, s: x.sum(initial=s), "vs", "preserve", form="initial")
    add("method max", lambda x, s: x.max(initial=s), "vs", "preserve", form="initial")
    add("method sort", lambda x: _inplace(x, lambda z: z.sort()), "v")
    add("method clip", lambda x, a, b: x.clip(a, b), "vst", "preserve")
    add("method trace", lambda x: x.trace(), "m")
    add("method round", lambda x: x.round(1), "v", "local")
    # indices and tests: same in any frame
    for n in ("argmax", "argmin", "argsort", "nonzero", "flatnonzero", "argwhere", "count_nonzero", "any", "all", "nanargmax",
              "nanargmin", "shape", "size", "ndim", "isneginf", "isposinf", "iscomplexobj", "isrealobj"):
        add(n, getattr(np, n), "v", "local" if n == "argsort" else "homog")
        add(n, getattr(np, n), "m", "local" if n == "argsort" else "homog", form="matrix")
    add("lexsort", lambda x: np.lexsort((x,)), "v")
    add("argpartition", lambda x: np.argpartition(x, 1), "v", "local")
    # differences
    add("diff", np.diff, "v")
    add("diff", lambda x: np.diff(x, n=2), "v", form="n=2")
    add("diff", lambda x, s: np.diff(x, prepend=s), "vs", "preserve", form="prepend")
    add("ediff1d", np.ediff1d, "v")
    add("gradient", np.gradient, "v")
    add("gradient", np.gradient, "m", form="matrix")
    add("trapezoid", np.trapezoid, "v")
    add("trapezoid", lambda y, x: np.trapezoid(y, x), "vW", form="x")
    add("trapezoid", lambda y, x: np.trapezoid(y, x=x), "vW", form="x=")
    add("trapezoid", lambda y, s: np.trapezoid(y, dx=s), "vS", form="dx=")
    # shape
    for n, a in (("flip", ()), ("roll", (1,)), ("squeeze", ()), ("ravel", ()), ("transpose", ()), ("atleast_1d", ()),
                 ("atleast_2d", ()), ("atleast_3d", ()), ("copy", ()), ("trim_zeros", ()), ("nan_to_num", ()), ("real", ()),
                 ("imag", ()), ("zeros_like", ()), ("unique", ()), ("sort_complex", ()), ("absolute", ()), ("diag", ()),
                 ("diagflat", ()), ("conj", ())):
        add(n, lambda x, n=n, a=a: getattr(np, n)(x, *a), "v")
        if n not in ("trim_zeros", "sort_complex", "diagflat"):
            add(n, lambda x, n=n, a=a: getattr(np, n)(x, *a), "m", form="matrix")
    add("reshape", lambda x: np.reshape(x, (9,)), "m")
    add("reshape", lambda x: np.reshape(x, (3, 1)), "v")
    add("expand_dims", lambda x: np.expand_dims(x, 0), "v")
    add("broadcast_to", lambda x: np.broadcast_to(x, (2, 3)), "v")
    add("tile", lambda x: np.tile(x, 2), "v")
    add("repeat", lambda x: np.repeat(x, 2), "v")
    add("resize", lambda x: np.resize(x, (5,)), "v")
    add("take", lambda x: np.take(x, IDX), "v")
    add("take", lambda x: np.take(x, 1), "v", form="scalar")
    add("take_along_axis", lambda x: np.take_along_axis(x, IDX, 0), "v")
    add("compress", lambda x: np.compress(MASK, x), "v")
    add("extract", lambda x: np.extract(MASK, x), "v")
    add("delete", lambda x: np.delete(x, 1), "v")
    add("swapaxes", lambda x: np.swapaxes(x, 0, 1), "m")
    add("moveaxis", lambda x: np.moveaxis(x, 0, 1), "m")
    add("rollaxis", lambda x: np.rollaxis(x, 1), "m")
    add("rot90", np.rot90, "m")
    add("fliplr", np.fliplr, "m")
    add("flipud", np.flipud, "m")
    add("triu", np.triu, "m")
    add("tril", np.tril, "m")
    add("trace", np.trace, "m")
    add("diagonal", np.diagonal, "m")
    add("unique", lambda x: np.unique(x, return_index=True, return_counts=True, return_inverse=True), "v", form="all")
    add("split", lambda x: tuple(np.split(x, 3)), "v")
    add("array_split", lambda x: tuple(np.array_split(x, 2)), "v")
    add("hsplit", lambda x: tuple(np.hsplit(x, 3)), "m")
    add("vsplit", lambda x: tuple(np.vsplit(x, 3)), "m")
    add("unstack", lambda x: tuple(np.unstack(x)), "m")
    add("full_like", lambda x, s: np.full_like(x, s), "vs", "preserve")
    add("broadcast_arrays", lambda x, y: tuple(np.broadcast_arrays(x, y)), "vM", "each")
    add("meshgrid", lambda x, y: tuple(np.meshgrid(x, y)), "vW", "each")
    add("meshgrid", lambda x, y: tuple(np.meshgrid(x, y, indexing="ij", sparse=True)), "vW", "each", form="sparse")
    add("around", lambda x: np.around(x, 1), "v", "local")
    add("round", lambda x: np.round(x), "v", "local")
    add("fix", np.fix, "v", "local")
    add("apply_along_axis", lambda x: np.apply_along_axis(np.sum, 0, x), "m")
    add("apply_over_axes", lambda x: np.apply_over_axes(np.sum, x, (0, 1)), "m")
    add("apply_over_axes", lambda x: np.apply_over_axes(np.sum, x, (0,)), "m", form="one")
    add("piecewise", lambda x: np.piecewise(x, [x > 2 * x[0], x <= 2 * x[0]], [lambda t: 2 * t, lambda t: t]), "v")
    add("nan_to_num", lambda x, s: np.nan_to_num(x / (x != x[0]), posinf=s), "vs", "preserve", form="posinf")
    # joins
    for n in ("concatenate", "vstack", "hstack", "dstack", "column_stack", "stack"):
        g = getattr(np, n)
        add(n, lambda x, y, g=g: g([x, y]), "vw", "preserve")
        add(n, lambda x, y, g=g: g((x, y)), "vw", "preserve", form="tuple")
        add(n, lambda x, y, z, g=g: g([x, y, z]), "vwz", "preserve", form="three")
    add("concatenate", lambda x, y: np.concatenate([x, y], axis=0), "mm", "preserve", form="axis")
    add("concatenate", lambda x, y: np.concatenate([x, y], axis=None), "mv", "preserve", form="axis=None")
    add("stack", lambda x, y: np.stack([x, y], axis=1), "vw", "preserve", form="axis")
    add("block", lambda x, y: np.block([x, y]), "vw", "preserve")
    add("block", lambda x, y: np.block([[x, y], [y, x]]), "vw", "preserve", form="nested")
    add("append", lambda x, y: np.append(x, y), "vw", "preserve")
    add("insert", lambda x, s: np.insert(x, 1, s), "vs", "preserve")
    add("insert", lambda x, y: np.insert(x, [0, 1, 2], y), "vw", "preserve", form="array")
    add("pad", lambda x: np.pad(x, 1, mode="edge"), "v")
    add("pad", lambda x: np.pad(x, 1), "v", form="zeros")
    add("pad", lambda x, s: np.pad(x, 1, constant_values=s), "vs", "preserve", form="constant")
    # choices
    add("where", lambda x, y: np.where(MASK, x, y), "vw", "preserve")
    add("where", lambda x, s: np.where(MASK, x, s), "vs", "preserve", form="scalar")
    add("where", lambda x: np.where(MASK, x, 0), "v", form="zero", menu="known")
    add("where", lambda x: np.where(x), "v", form="condition only")
    add("where", lambda x: np.where(x > x[0], x, x), "v", form="computed condition")
    add("choose", lambda x, y: np.choose(np.array([0, 1, 0]), [x, y]), "vw", "preserve")
    add("select", lambda x, y: np.select([MASK, ~MASK], [x, y]), "vw", "preserve")
    add("select", lambda x, y, s: np.select([MASK, MASK], [x, y], default=s), "vws", "preserve", form="default")
    for form, f in (("positional", lambda x, a, b: np.clip(x, a, b)), ("keywords", lambda x, a, b: np.clip(x, a_min=a, a_max=b)),
                    ("min max", lambda x, a, b: np.clip(x, min=a, max=b))):
        add("clip", f, "vst", "preserve", form=form)
    add("clip", lambda x, a: np.clip(x, a, None), "vs", "preserve", form="lower only")
    add("clip", lambda x, a: np.clip(x, None, a), "vs", "preserve", form="upper only")
    add("clip", lambda x, a: np.clip(x, min=a), "vs", "preserve", form="min only")
    add("clip", lambda x, a: np.clip(x, max=a), "vs", "preserve", form="max only")
    add("searchsorted", lambda x, y: np.searchsorted(x, y), "vw", "compare")
    add("digitize", lambda x, y: np.digitize(y, x), "vw", "compare")
    for n in ("isin",):
        add(n, lambda x, y, n=n: getattr(np, n)(x, y), "vw", "compare")
    for n in ("intersect1d", "union1d", "setdiff1d", "setxor1d"):
        add(n, lambda x, y, n=n: getattr(np, n)(x, y), "vw", "preserve")
    add("isclose", lambda x, y: np.isclose(x, y), "vw", "compare")
    add("isclose", lambda x, y: np.isclose(x, y, rtol=0.6), "vw", "compare", form="rtol")
    add("isclose", lambda x, y, s: np.isclose(x, y, atol=s), "vws", "compare", form="atol")
    add("allclose", lambda x, y: np.allclose(x, y), "vw", "compare")
    add("allclose", lambda x: np.allclose(x, x), "v", form="self")
    add("array_equal", lambda x, y: np.array_equal(x, y), "vw", "compare")
    add("array_equiv", lambda x, y: np.array_equiv(x, y), "vw", "compare")
    # products
    for n in ("dot", "vdot", "inner", "outer", "kron", "convolve", "correlate", "cross", "matmul", "vecdot"):
        add(n, lambda x, y, n=n: getattr(np, n)(x, y), "vW")
        if n in ("dot", "inner", "matmul", "kron"):
            add(n, lambda x, y, n=n: getattr(np, n)(x, y), "mM", form="matrix")
            add(n, lambda x, y, n=n: getattr(np, n)(x, y), "mW", form="mixed")
    add("tensordot", lambda x, y: np.tensordot(x, y, axes=1), "mM")
    add("einsum", lambda x, y: np.einsum("i,i->", x, y), "vW")
    add("einsum", lambda x, y: np.einsum("ij,j->i", x, y), "mW", form="matvec")
    add("einsum", lambda x: np.einsum("ii->i", x), "m", form="diagonal")
    add("einsum", lambda x: np.einsum("ij->j", x), "m", form="sum")
    la = np.linalg
    for n in ("inv", "pinv", "det", "eigvals", "eigvalsh", "norm", "trace", "diagonal", "matrix_transpose", "matrix_norm", "svdvals"):
        add("linalg." + n, getattr(la, n), "m")
    for n in ("norm", "vector_norm"):
        add("linalg." + n, getattr(la, n), "v", form="vector")
        add("linalg." + n, lambda x, n=n: getattr(la, n)(x, axis=1), "m", form="axis")
        for o in (1, np.inf, 3):
            add("linalg." + n, lambda x, n=n, o=o: getattr(la, n)(x, ord=o), "v", form=f"ord={o}")
    for n in ("svd", "eig", "eigh", "cholesky", "qr", "cond", "matrix_rank", "slogdet"):
        add("linalg." + n, lambda x, n=n: tuple_(getattr(la, n)(x)), "m", kind="factor" if n in ("svd", "eig", "eigh") else "local" if n in ("qr", "cholesky") else "maybe")
    add("linalg.svd", lambda x: la.svd(x, compute_uv=False), "m", form="values")
    add("linalg.matrix_power", lambda x: la.matrix_power(x, 2), "m", "maybe")
    add("linalg.tensorinv", lambda x: la.tensorinv(x, ind=1), "m")
    add("linalg.solve", la.solve, "mW")
    add("linalg.tensorsolve", la.tensorsolve, "mW")
    add("linalg.lstsq", lambda x, y: tuple_(la.lstsq(x, y)), "mW")
    add("linalg.outer", la.outer, "vW")
    add("linalg.cross", la.cross, "vW")
    add("linalg.vecdot", la.vecdot, "vW")
    add("linalg.matmul", la.matmul, "mM")
    add("linalg.tensordot", lambda x, y: la.tensordot(x, y, axes=1), "mM")
    add("linalg.multi_dot", lambda x, y: la.multi_dot([x, y]), "mM", "maybe")
    for n in ("fft", "ifft", "rfft", "hfft", "ihfft", "fftn", "ifftn", "rfftn", "irfft", "irfftn"):
        add("fft." + n, getattr(np.fft, n), "v")
    for n in ("fft2", "ifft2", "rfft2", "irfft2"):
        add("fft." + n, getattr(np.fft, n), "m")
    add("fft.fftshift", np.fft.fftshift, "v")
    add("fft.ifftshift", np.fft.ifftshift, "v")
    # ranges and interpolation
    add("linspace", lambda a, b: np.linspace(a, b, 4), "st", "preserve")
    add("linspace", lambda a, b: np.linspace(a, b, 4, retstep=True), "st", "preserve", form="retstep")
    add("geomspace", lambda a, b: np.geomspace(a, b, 4), "st", "preserve")
    add("logspace", lambda a, b: np.logspace(a, b, 4), "st", "local", menu="dimless")
    add("interp", lambda x, xp, fp: np.interp(x, xp, fp), "wvZ", "interp")
    for side, x0 in (("left", [-1.0, 0.5]), ("right", [0.5, 9.0])):
        add("interp", lambda x, s, side=side, x0=x0: np.interp(x0, [0.0, 1.0, 2.0], x, **{side: s}), "vs", "preserve", form=side)
    add("interp", lambda x, y, s: np.interp(x, y, [4.0, 5.0, 7.0], period=s), "vws", "preserve", form="period")
    add("sinc", np.sinc, "v", "local", menu="dimless")
    add("angle", np.angle, "v", "bare")
    add("unwrap", lambda x, s: np.unwrap(x, period=s), "vs", "preserve", form="period")
    add("unwrap", np.unwrap, "v", "local", menu="dimless", form="default")
    add("cov", np.cov, "m", "maybe")
    add("corrcoef", np.corrcoef, "m", "maybe")
    # histograms
    add("histogram", lambda x: np.histogram(x, bins=3), "v")
    add("histogram", lambda x: np.histogram(x, bins=3, density=True), "v", form="density")
    add("histogram", lambda x, w: np.histogram(x, bins=3, weights=w), "vW", "each2", form="weights")
    add("histogram", lambda x, w: np.histogram(x, bins=3, weights=w, density=True), "vW", form="weights density")
    add("histogram", lambda x, b: np.histogram(x, bins=b), "vb", "preserve", form="bins")
    add("histogram", lambda x, b, w: np.histogram(x, bins=b, weights=w, density=True), "vbW", "hist3", form="bins weights density")
    add("histogram", lambda x, b, w: np.histogram(x, bins=b, weights=w), "vbW", "hist3", form="bins weights")
    add("histogram", lambda x, a, b: np.histogram(x, bins=3, range=(a, b)), "vst", "preserve", form="range")
    add("histogram_bin_edges", lambda x: np.histogram_bin_edges(x, bins=3), "v")
    add("histogram_bin_edges", lambda x, b: np.histogram_bin_edges(x, bins=b), "vb", "preserve", form="bins", ofn=lambda x, b: (_same_dim(x, b), b.copy())[1])
    add("histogram2d", lambda x, y: np.histogram2d(x, y, bins=2), "vW", "each")
    add("histogram2d", lambda x, y: np.histogram2d(x, y, bins=2, density=True), "vW", "homog", form="density")
    add("histogram2d", lambda x, y, b: np.histogram2d(x, y, bins=(b, 2)), "vWb", "hist2b", form="bins")
    add("histogram2d", lambda x, y, w: np.histogram2d(x, y, bins=2, weights=w), "vWZ", "each", form="weights")
    add("histogram2d", lambda x, y, w: np.histogram2d(x, y, bins=2, weights=w, density=True), "vWZ", "homog", form="density weights")
    add("histogram2d", lambda y, x, b: np.histogram2d(x, y, bins=(2, b)), "vWb", "hist2b", form="second bins")
    add("histogram2d", lambda x, y, a, b: np.histogram2d(x, y, bins=2, range=([a, b], None)), "vWst", "hist2r", form="range")
    add("histogramdd", lambda x, y, b: np.histogramdd((x, y), bins=(b, 2)), "vWb", "hist2b", form="bins")
    add("histogramdd", lambda x, y, z: np.histogramdd((x, y, z), bins=2), "vWZ", "each", form="three")
    add("histogramdd", lambda x, y, z: np.histogramdd((x, y, z), bins=2, density=True), "vWZ", "homog", form="three density")
    add("histogramdd", lambda x, y: np.histogramdd((x, y), bins=2), "vW", "each")
    add("histogramdd", lambda x, y: np.histogramdd((x, y), bins=2, density=True), "vW", "homog", form="density")
    add("histogramdd", lambda x, y, w: np.histogramdd((x, y), bins=2, density=True, weights=w), "vWZ", "homog", form="density weights")
    add("histogramdd", lambda x, y, w: np.histogramdd((x, y), bins=2, weights=w), "vWZ", "each", form="weights")
    # modifying functions: the target keeps its own labels
    for n, f in (("copyto", lambda z, y: np.copyto(z, y)), ("put", lambda z, y: np.put(z, [0, 1, 2], y)),
                 ("place", lambda z, y: np.place(z, MASK, y)), ("putmask", lambda z, y: np.putmask(z, MASK, y)),
                 ("put_along_axis", lambda z, y: np.put_along_axis(z, np.array([2, 0, 1]), y, 0)),
                 ):
        add(n, lambda x, y, f=f: _inplace(x, lambda z: f(z, y)), "vw", "preserve", inplace=True)
        if n != "put_along_axis":
            add(n, lambda x, y, f=f: _inplace(x, lambda z: f(z, y)), "vs", "preserve", form="scalar", inplace=True)
    add("copyto", lambda x, y: _inplace(x, lambda z: np.copyto(z, y, where=MASK)), "vw", "preserve", form="where", inplace=True)
    add("fill_diagonal", lambda x, s: _inplace(x, lambda z: np.fill_diagonal(z, s)), "ms", "preserve", inplace=True)
    # out=
    for n in ("sum", "mean", "cumsum", "max", "min", "median", "nansum", "nanmax", "prod", "ptp", "var"):
        g = getattr(np, n)
        for fr in (True, False):
            add(n, lambda x, g=g, fr=fr: _out(lambda o: g(x, axis=0, out=o), [x], fr, (3, 3) if g is np.cumsum else (3,)), "m", form=f"out {fr}")
    for n in ("dot", "outer"):
        for fr in (True, False):
            add(n, lambda x, y, n=n, fr=fr: _out(lambda o: getattr(np, n)(x, y, out=o), [x, y], fr, (3, 3)), "mM" if n == "dot" else "vW", form=f"out {fr}")
    for fr in (True, False):
        add("clip", lambda x, a, b, fr=fr: _out(lambda o: np.clip(x, a, b, out=o), [x, a, b], fr, (3,)), "vst", "preserve", form=f"out {fr}")
        add("around", lambda x, fr=fr: _out(lambda o: np.around(x, 1, out=o), [x], fr, (3,)), "v", "local", form=f"out {fr}")
        add("percentile", lambda x, fr=fr: _out(lambda o: np.percentile(x, 30, axis=0, out=o), [x], fr, (3,)), "m", form=f"out {fr}")
        add("take", lambda x, fr=fr: _out(lambda o: np.take(x, [1, 1, 0], out=o, mode="clip"), [x], fr, (3,)), "v", form=f"out {fr}")
        add("trace", lambda x, fr=fr: _out(lambda o: np.trace(np.stack([x, x], axis=2), out=o), [x], fr, (2,)), "m", form=f"out {fr}")
        add("concatenate", lambda x, y, fr=fr: _out(lambda o: np.concatenate([x, y], out=o), [x, y], fr, (6,)), "vw", "preserve", form=f"out {fr}")
        add("choose", lambda x, y, fr=fr: _out(lambda o: np.choose(np.array([0, 1, 0]), [x, y], out=o, mode="clip"), [x, y], fr, (3,)), "vw", "preserve", form=f"out {fr}")
        add("einsum", lambda x, y, fr=fr: _out(lambda o: np.einsum("ij,j->i", x, y, out=o), [x, y], fr, (3,)), "mW", form=f"out {fr}")
        add("stack", lambda x, y, fr=fr: _out(lambda o: np.stack([x, y], out=o), [x, y], fr, (2, 3)), "vw", "preserve", form=f"out {fr}")
    return [f for f in L if f is not None]


# plain numbers are taken as numbers in the array's own state
QUIET = ("interp[left]", "interp[right]", "interp[period]", "copyto", "full_like", "nan_to_num", "fill_diagonal", "place", "put", "put_along_axis", "putmask", "sum[initial]", "max[initial]",
         "method sum[initial]", "method max[initial]", "isclose[atol]", "diff[prepend]", "pad[constant]")
NUMPY_BARE = ("copy", "diag", "diagflat", "broadcast_to", "broadcast_arrays", "method trace")


# some items of the result come from one operand only
SEPARATE = ("average", "interp", "histogram", "histogram2d", "histogramdd", "linalg.lstsq")
# the operands that must be alike where the others need not be
PAIR = {"hist3": (0, 1), "interp": (0, 1), "hist2b": (0, 2), "hist2r": (0, 2, 3)}
# the result is shaped and labelled like the first operand, which the other is assigned into
TARGET = ("full_like", "nan_to_num")


def quiet(fn):
    return fn.name in QUIET or fn.id in QUIET


def tuple_(r):
    return tuple(r) if isinstance(r, tuple) else r


def _same_dim(x, b):
    if hasattr(x, "units") and hasattr(b, "units") and x.units.dimensions != b.units.dimensions:
        raise ValueError


def _inplace(x, f):
    z = x.copy()
    f(z)
    return z


def _out(f, x, fr, shape):
    if any(isinstance(y, cosmo_array) for y in x):
        o = Op(np.full(shape, 7.0), "kpc", frame=fr, exp=3 if fr else 1).make()
    else:
        o = unyt.unyt_array(np.full(shape, 7.0), "kpc")
    f(o)
    return o


BASE = {"v": V, "w": V2, "z": V3, "W": V2, "Z": V3, "s": np.array(2.0), "t": np.array(5.0), "S": np.array(2.0), "m": M,
        "M": M[::-1].copy() + 1.0, "b": np.array([0.0, 2.0, 5.0, 12.0])}


def options(slot, first, small, menu=None):
    b = BASE[slot]
    if menu == "dimless":
        return [Op(b, "", frame=fr, exp=e, vt=vt) for fr, vt in ((True, True), (False, True), (False, False)) for e in (0, 1)] + \
            ([] if first else [Op(b, kind="plain")])
    if slot in "WZSM":  # another dimension
        o = [Op(b, "Msun", frame=True, exp=2), Op(b, "Msun", frame=False, exp=2), Op(b, "Msun", frame=False, exp=2, vt=False)]
        if not small:
            o += [Op(b, "Msun", frame=None, exp=2), Op(b, "Msun", frame=True, exp=2, a=0.25), Op(b, "kpc", frame=True, exp=1, comp="D"),
                  Op(b, "g", frame=False, exp=-1), Op(b, kind="plain"), Op(b, "", frame=True, exp=0), Op(b, "Msun", kind="unyt")]
        return o
    o = [Op(b, "Mpc", frame=True), Op(b, "Mpc", frame=False), Op(b, "Mpc", frame=False, vt=False)]
    if not small or first:
        o += [Op(b * (1 if not first else 1), "kpc", frame=True), Op(b, "Mpc", frame=None)]
        if first:
            o += [Op(b, "Mpc", frame=False, exp=1, comp="D"), Op(b, "Msun/Mpc**3", frame=True, exp=-3), Op(b, "", frame=True, exp=0)]
    if not first:
        o += [Op(b, "Mpc", frame=True, exp=2), Op(b, "Mpc", frame=True, a=0.25)]
        if not small:
            o += [Op(b, kind="plain"), Op(b, "Mpc", kind="unyt"), Op(b, "kpc", frame=False)]
    if first and not small:
        o += [Op(b, kind="plain")]
    return o


def flat(r):
    if isinstance(r, (tuple, list)):
        out = []
        for x in r:
            out += flat(x)
        return out
    return [r]


def call(f, args):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            try:
                r, err = f(*args), None
            except Exception as e:  # noqa: BLE001
                r, err = None, e
    return r, err, any(issubclass(x.category, RuntimeWarning) and "cosmo_factor" in str(x.message) for x in w)


_memo = {}


def oracle(fn, ops, G):
    k = (fn.id, fn.slots, tuple((o.values_in(G).tobytes(), o.kind == "plain", o.unit) for o in ops))
    if k not in _memo:
        r, e, _ = call(fn.ofn, [o.inframe(G) for o in ops])
        if e is not None and not fn.inplace:
            # plain unyt refuses (or has a bug): bare numbers where all units are the same
            _memo[k] = (None, e)
        else:
            _memo[k] = (r, e)
    return _memo[k]


def snap(x):
    return (np.asarray(x).tobytes(), str(getattr(x, "units", "")), getattr(x, "comoving", None), getattr(x, "valid_transform", None),
            repr(getattr(x, "cosmo_factor", None)))


def judge(ctx, fn, ops):
    case = dict(function=fn.id, operands=[repr(o) for o in ops])
    key = f"{fn.id}:{'*'.join(o.tag + ('~' if o.kind == 'cosmo' and (o.a != 0.5) else '') for o in ops)}"
    args = [o.make() for o in ops]
    before = [snap(x) for x in args]
    r, err, mixed = call(fn.f, args)
    ctx.step()
    ctx.state(fn.id, tuple((o.tag, o.unit, o.exp, o.a) for o in ops), err is None)
    after = [snap(x) for x in args]
    if before != after:
        ctx.fail(f"operand-changed:{key}", f"{case}: {[repr(x) for x in args]}", case)
    cos = [o for o in ops if o.kind == "cosmo"]
    known = [o for o in cos if o.frame is not None]
    frames = {o.frame for o in known}
    if len(frames) == 1:
        cand = list(frames)
    elif not frames:
        cand = [None]
    else:
        cand = [g for g in (True, False) if all(o.can(g) for o in ops)]
    target = (fn.inplace or fn.name in TARGET) and ops[0].kind == "cosmo"
    if target:
        cand = [g for g in cand if g is ops[0].frame]
    exps = {o.exp for o in cos}
    same_a = len({o.a for o in cos}) <= 1
    plain = [o for o in ops if o.kind != "cosmo"]
    if err is not None:
        ctx.count("refused")
        ok_units = cand and oracle(fn, ops, cand[0])[1] is None
        meaningful = same_a and len(known) == len(cos) and not plain and len(cand) and (fn.kind in ("homog", "each", "each2", "factor", "bare") or len(exps) <= 1)
        if fn.kind in PAIR:
            meaningful = same_a and len(known) == len(cos) and not plain and len(cand) and len({ops[i].exp for i in PAIR[fn.kind]}) == 1
        if fn.kind != "maybe" and meaningful and ok_units and not isinstance(err, NotImplementedError) and \
                not (fn.menu == "dimless"):
            ctx.fail(f"refused:{key}", f"{case}: {type(err).__name__}: {err}", case)
        return
    ctx.count("accepted")
    each = fn.kind in ("each", "each2", "hist2b", "hist2r")
    if not cand and not each:
        ctx.fail(f"accepted-inconvertible:{key}", f"{case}: gave {r!r}", case)
        return
    if fn.kind in PAIR:
        pair = [ops[i] for i in PAIR[fn.kind]]
        same_f = len({(o.exp, o.a) for o in pair if o.kind == "cosmo"}) <= 1
        pp = [o for o in pair if o.kind != "cosmo"]
        need_warn = not same_f or (pp and any(o.kind == "cosmo" for o in pair))
    elif fn.kind in ("preserve", "compare"):
        same_f = len(exps) <= 1 and same_a
        need_warn = not same_f or (plain and cos and any(np.any(o.vals) for o in plain) and
                                   not quiet(fn))
    else:
        same_f, need_warn = (same_a if not each else True), (not same_a and not each)
    if cos and need_warn and not mixed:
        if fn.kind == "compare" and fn.name in ("array_equal", "array_equiv", "isin", "allclose", "isclose") and r is not None and not np.any(r) and fn.name.startswith("array"):
            return
        ctx.fail(f"{'accepted-different-factors' if not same_f else 'silent-mix-with-plain'}:{key}", f"{case}: gave {r!r}", case)
        return
    if not cos:
        return
    res = flat(r)
    es = {}
    gs = (True, False) if frames else (None,)
    for g in gs:
        if each:
            e, eerr = oracle_near(fn, ops, g)
        elif not all(o.can(g) for o in ops):
            continue
        else:
            e, eerr = oracle(fn, ops, g)
        if eerr is None:
            es[g] = flat(e)
    if not es:
        ctx.count("plain-unyt-refuses:" + fn.name)
        return
    for i, x in enumerate(res):
        if any(len(e) != len(res) for e in es.values()):
            ctx.fail(f"structure:{key}", f"{case}: gave {r!r}", case)
            return
        if not isinstance(x, cosmo_array):
            if any(isinstance(e[i], (np.ndarray, np.floating)) and not hasattr(e[i], "units") and e[i].dtype.kind == "f" for e in es.values()) and \
                    fn.name in NUMPY_BARE:
                # numpy strips the class: the numbers are those of the operand as it was given
                own = flat(call(fn.ofn, [o.inframe(o.frame if o.kind == "cosmo" else None) for o in ops])[0])[i]
                ctx.check(same_or_equal(x, own), f"bare-value:{key}", lambda: f"{case}: item {i} gave {x!r}, expected {own!r}", case)
                continue
            good = any(same_or_equal(x, e[i]) for e in es.values()) if cos else True
            if fn.kind in ("homog", "bare", "each", "each2"):
                # bare results of homogeneous functions must be the same whatever the frame
                good = all(same_or_equal(x, e[i]) for e in es.values())
            ctx.check(good, f"bare-value:{key}", lambda: f"{case}: item {i} gave {x!r}, expected {[e[i] for e in es.values()]}", case)
            e0 = next(iter(es.values()))[i]
            if each and len(cos) < len(ops):
                continue
            if good and hasattr(e0, "units") and fn.kind != "bare":
                if not e0.units.is_dimensionless or fn.kind not in ("compare",):
                    ctx.fail(f"label-lost:{key}", f"{case}: item {i} gave {x!r}", case)
            continue
        F, e_res, a_res = label(x)
        if e_res == "malformed":
            ctx.fail(f"malformed-factor:{key}", f"{case}: {x.cosmo_factor!r}", case)
            continue
        if F is None and frames and not (each and len(known) < len(ops)):
            ctx.fail(f"frame-lost:{key}", f"{case}: item {i} gave {x!r}", case)
            continue
        ctx.check(x.compression is None or isinstance(x.compression, str), f"compression:{key}", lambda: f"{case}: {x.compression!r}", case)
        ctx.check(isinstance(x, cosmo_quantity) == (x.shape == ()), f"scalar-type:{key}", lambda: f"{case}: {x!r} {type(x)}", case)
        vts = [o.vt if o.frame is not None else False for o in cos]
        if not each and fn.kind != "factor":
            ctx.check(bool(x.valid_transform) == (vts[0] if target else all(vts)), f"valid-transform:{key}", lambda: f"{case}: {x.valid_transform}", case)
        ok_any = False
        for g, e in es.items():
            gg = F if g is None or F is None else g
            if (fn.kind == "local" or mixed or (plain and quiet(fn)) or (each and not all(o.can(gg) for o in cos))) and gg is not F:
                continue
            if gg is F:
                f = 1.0
            elif (e_res is None or a_res is None) and plain and (fn.kind in ("each", "each2", "factor") or fn.name in SEPARATE):
                continue  # label-less operand treated on its own
            elif e_res is None or a_res is None:
                ctx.fail(f"factor-lost:{key}", f"{case}: item {i} gave {x!r}", case)
                ok_any = True
                break
            else:
                f = float(a_res) ** e_res if gg is False else float(a_res) ** -e_res
            ok_any = True
            if not same_or_equal(x, e[i], f):
                if gg is not F and "density" in fn.id and "weights" in fn.id:
                    # the numbers in the frame of the label are judged as usual; the other frame shows the label itself
                    ctx.fail(f"weighted-density-label:{fn.id}", f"{case}: item {i} gave {x!r}; in frame {gg} expected {e[i]!r}", case)
                    continue
                ctx.fail(f"value:{key}", f"{case}: item {i} gave {x!r}; in frame {gg} expected {e[i]!r}", case)
                break
        if not ok_any:
            ctx.count("undecided:" + fn.id)
    ctx.trace()


def oracle_near(fn, ops, G):
    """every operand in frame G where that is possible, else as it is (functions that treat operands separately)"""
    r, e, _ = call(fn.ofn, [o.inframe(G if o.can(G) else (o.frame if o.kind == "cosmo" else None)) for o in ops])
    return r, e


def same_or_equal(x, e, f=1.0):
    if isinstance(x, (str, bool, int, tuple, type(None))) or not hasattr(x, "dtype"):
        return bool(np.all(x == e)) if not isinstance(x, (float, complex)) else bool(np.isclose(x, e))
    return same_quantity(x, e, f)


def work(ctx, item):
    fns = {f.id + "/" + f.slots: f for f in T()}
    for fid in item:
        fn = fns[fid]
        with ctx.guard(fid):
            small = False
            opts = [options(s, i == 0, small, fn.menu) for i, s in enumerate(fn.slots)]
            if fn.menu == "known":
                opts[0] = [o for o in opts[0] if o.kind == "cosmo"]
            for ops in itertools.product(*opts):
                if not any(o.kind == "cosmo" for o in (ops[:2] if fn.name == "select" else ops)):
                    continue  # (numpy does not dispatch select on its default)
                judge(ctx, fn, list(ops))


def run(ctx):
    fns = T()
    ids = [f.id + "/" + f.slots for f in fns]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    order = sorted(fns, key=lambda f: -len(f.slots))
    items = [[f.id + "/" + f.slots for f in order[i::64]] for i in range(64)]
    ctx.pmap(work, [i for i in items if i])
    import swiftsimio._array_functions as mine
    from unyt._array_functions import _HANDLED_FUNCTIONS as UH

    have = {f.name.split(".")[-1] for f in fns}
    for f in set(getattr(mine, "_HANDLED_FUNCTIONS", ())) | set(UH):
        if f.__name__ not in have:
            ctx.count("not-covered:" + f.__name__)
    ctx.sample(dict(functions=[f.id for f in fns]))
