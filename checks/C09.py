"""C09: metadata survives every composition of structural operations, with the values numpy gives."""

import copy
import pickle
import warnings

import numpy as np
import unyt

from swiftsimio.objects import cosmo_array, cosmo_quantity
from mc.cosmo import label

META = dict(
    level="model_checking",
    explanation="All compositions of up to three structural operations (indexing, views, copies, reshapes, pickling, iteration ...) from a fixed "
    "alphabet are applied to arrays of every kind and shape, in lock step with the same operations on a bare numpy array; values, dtype, shape, "
    "aliasing with the source, class, unit, state, factor, convertibility and compression note are compared after each step.",
    assumptions=["numpy's own results on bare arrays are trusted"],
)


def alphabet():
    L = []

    def add(name, f, g=None, alias=True):
        L.append((name, f, g or f, alias))

    add("x[0]", lambda x: x[0])
    add("x[-1]", lambda x: x[-1])
    add("x[1:]", lambda x: x[1:])
    add("x[::2]", lambda x: x[::2])
    add("x[::-1]", lambda x: x[::-1])
    add("x[0:0]", lambda x: x[0:0])
    add("x[...]", lambda x: x[...])
    add("x[()]", lambda x: x[()])
    add("x[...,0]", lambda x: x[..., 0])
    add("x[None]", lambda x: x[None])
    add("x[:,None]", lambda x: x[:, None])
    add("x[:,0]", lambda x: x[:, 0])
    add("x[0,1]", lambda x: x[0, 1])
    add("x[[0,1]]", lambda x: x[[0, 1]])
    add("x[np int]", lambda x: x[np.int32(1)])
    add("x[mask]", lambda x: x[np.arange(len(x)) % 2 == 0])
    add("x[all mask]", lambda x: x[np.ones(x.shape, bool)])
    add("x[array index]", lambda x: x[np.array([[0, 0], [0, 0]])])
    add("reshape(-1)", lambda x: x.reshape(-1))
    add("reshape(n,1)", lambda x: x.reshape(x.size, 1))
    add("reshape((1,n))", lambda x: x.reshape((1, x.size)))
    add("reshape F", lambda x: x.reshape((x.size,), order="F"))
    add("reshape()", lambda x: x.reshape(()))
    add("ravel", lambda x: x.ravel())
    add("flatten", lambda x: x.flatten())
    add("flatten F", lambda x: x.flatten("F"))
    add("T", lambda x: x.T)
    add("transpose", lambda x: x.transpose())
    add("transpose axes", lambda x: x.transpose(tuple(range(x.ndim))[::-1]))
    add("swapaxes", lambda x: x.swapaxes(0, -1))
    add("squeeze", lambda x: x.squeeze())
    add("squeeze axis", lambda x: x.squeeze(axis=0))
    add("take", lambda x: x.take([0]))
    add("take one", lambda x: x.take(0))
    add("take axis", lambda x: x.take([0, 0], axis=0))
    add("repeat", lambda x: x.repeat(2))
    add("repeat axis", lambda x: x.repeat(2, axis=0))
    add("compress", lambda x: x.compress([True], axis=0))
    add("diagonal", lambda x: x.diagonal())
    add("copy", lambda x: x.copy())
    add("copy F", lambda x: x.copy(order="F"))
    add("copy.copy", lambda x: copy.copy(x))
    add("copy.deepcopy", lambda x: copy.deepcopy(x))
    for p in range(2, 6):  # SymPy, which holds the units, cannot be pickled with protocols 0 and 1
        add(f"pickle {p}", lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p)))
    add("view", lambda x: x.view())
    add("view class", lambda x: x.view(type(x)), lambda x: x.view())
    add("astype f4", lambda x: x.astype("f4"))
    add("astype f8 no copy", lambda x: x.astype("f8", copy=False))
    add("byteswap twice", lambda x: x.byteswap().byteswap())
    add("real", lambda x: x.real)
    add("conj", lambda x: x.conj(), alias=False)
    add("first of iteration", lambda x: next(iter(x)))
    add("last of list", lambda x: list(x)[-1])
    add("unpacked", lambda x: (lambda a, *r: a)(*x))
    add("reversed", lambda x: next(reversed(x)))
    add("enumerate", lambda x: [e for _, e in enumerate(x)][0])
    add("asanyarray", lambda x: np.asanyarray(x))
    add("array subok", lambda x: np.array(x, subok=True))
    add("from list of elements", lambda x: type_list(x), lambda x: np.array([e for e in x]), alias=False)
    add("deepcopy in dict", lambda x: copy.deepcopy({"a": [x]})["a"][0])
    add("pickle in list", lambda x: pickle.loads(pickle.dumps([x, x]))[1])
    add("+x", lambda x: +x, alias=False)
    add("getattr mT", lambda x: x.mT)
    add("sorted in place", lambda x: (lambda z: (z.sort(), z)[1])(x.copy()))
    return L


def type_list(x):
    return cosmo_array([e for e in x])


PLAIN = [  # operations giving bare numbers of the same values
    ("item", lambda x: x.reshape(-1)[:1].item() if x.size else None, None), ("tolist", lambda x: x.tolist(), None), ("d", lambda x: x.d, lambda x: x),
    ("v", lambda x: x.v, lambda x: x), ("value", lambda x: x.value, lambda x: x), ("ndview", lambda x: x.ndview, lambda x: x),
    ("asarray", lambda x: np.asarray(x), None), ("view ndarray", lambda x: x.view(np.ndarray), None),
]


class Kind:
    def __init__(self, name, arr, frame=True, vt=True, exp=1, null=False, comp="D"):
        self.name, self.arr, self.frame, self.vt, self.exp, self.null, self.comp = name, arr, frame, vt if frame is not None else False, exp, null, comp

    def make(self):
        kw = {} if self.null else dict(scale_factor=0.5, scale_exponent=self.exp)
        a = self.arr.copy(order="K")
        cls = cosmo_quantity if a.ndim == 0 else cosmo_array
        return cls(a, unyt.Unit("Mpc"), comoving=self.frame, valid_transform=self.vt, compression=self.comp, **kw)

    def labels(self):
        return ("Mpc", self.frame) + ((None, None) if self.null else (float(self.exp), 0.5)) + (self.vt, self.comp)

    @property
    def id(self):
        return f"{self.name}{'co' if self.frame else 'no' if self.frame is None else 'ph'}{'' if self.vt else '!'}{'0' if self.null else ''}"


def starts():
    S = {"1d": np.array([4.0, 3.0, 2.0, 1.0]), "2d": np.arange(6.0).reshape(2, 3), "3d": np.arange(8.0).reshape(2, 2, 2), "0d": np.array(5.0),
         "one": np.array([7.0]), "empty": np.zeros(0), "column": np.arange(3.0)[:, None], "fortran": np.asfortranarray(np.arange(6.0).reshape(2, 3)),
         "f4": np.arange(3, dtype="f4"), "i8": np.arange(3), "big": np.arange(3, dtype=">f8"), "u1": np.arange(4, dtype="u1").reshape(2, 2)}
    L = [Kind(n, a) for n, a in S.items()]
    L += [Kind(n, S[n], fr, vt, e) for n in ("1d", "2d", "0d") for fr, vt, e in ((False, True, -3), (False, False, 0.5), (None, False, 2))]
    L += [Kind(n, S[n], null=True, comp=None) for n in ("1d", "0d")]
    return L


def labels(x):
    fr, e, a = label(x)
    return (str(x.units), fr, None if e is None else round(e, 9), a, x.valid_transform, x.compression)


def same(x, n):
    x, n = np.asarray(x), np.asarray(n)
    return x.shape == n.shape and x.dtype == n.dtype and np.array_equal(x, n)


def step(ctx, kind, op, x, n, trail):
    """apply op to both; returns the pair or None"""
    name, f, g, alias = op
    case = dict(start=kind.id, operations=trail + [name])
    key = f"{name}:{'q' if np.ndim(n) == 0 else ''}"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nr = g(n)
    except Exception:  # noqa: BLE001
        nr = None
    before = (np.asarray(x).tobytes(), labels(x))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = f(x)
    except Exception as e:  # noqa: BLE001
        ctx.step()
        if nr is not None and not (name == "from list of elements" and (np.size(n) == 0 or kind.null)):
            ctx.fail(f"refused:{key}", f"{case}: {type(e).__name__}: {e}", case)
        return None
    ctx.step()
    ctx.check(before == (np.asarray(x).tobytes(), labels(x)), f"source-changed:{key}", lambda: f"{case}: {x!r}", case)
    if nr is None:
        ctx.count("only-numpy-refuses:" + name)
        return None
    nr = np.asarray(nr)
    if name == "from list of elements" and nr.size == 0:
        return None
    ok = ctx.check(isinstance(r, cosmo_array), f"class-lost:{key}", lambda: f"{case}: {type(r)} {r!r}", case)
    if not ok:
        return None
    ctx.check(isinstance(r, cosmo_quantity) == (np.shape(r) == ()), f"class:{key}", lambda: f"{case}: {type(r).__name__} of shape {np.shape(r)}", case)
    ok &= ctx.check(same(r, nr), f"value:{key}", lambda: f"{case}: gave {r!r} {np.asarray(r).dtype}, numpy {nr!r} {nr.dtype}", case)
    ok &= ctx.check(labels(r) == kind.labels(), f"labels:{key}", lambda: f"{case}: {labels(r)}, expected {kind.labels()}", case)
    if alias and np.ndim(n) and nr.ndim and nr.size and np.asarray(x).strides == n.strides and np.asarray(r).strides == nr.strides:
        ctx.check(np.shares_memory(np.asarray(r), np.asarray(x)) == np.shares_memory(nr, n), f"aliasing:{key}",
                  lambda: f"{case}: shares memory with its source: {np.shares_memory(np.asarray(r), np.asarray(x))}, numpy: {np.shares_memory(nr, n)}", case)
    return (r, nr) if ok else None


def explore(ctx, kind, depth, first):
    ops = alphabet()

    def rec(x, n, trail, d):
        ctx.state(kind.id, n.shape, n.dtype.str, n.strides, n.tobytes(), tuple(trail[-1:]))
        if d == 0:
            ctx.trace()
            return
        for op in ops:
            got = step(ctx, kind, op, x, n, trail)
            if got is not None:
                rec(got[0], got[1], trail + [op[0]], d - 1)

    x, n = kind.make(), kind.arr.copy(order="K")
    got = step(ctx, kind, ops[first], x, n, [])
    if got is not None:
        rec(got[0], got[1], [ops[first][0]], depth - 1)
    if first == 0:
        for name, f, g in PLAIN:
            ctx.step()
            with ctx.guard(f"{kind.id} {name}"):
                x = kind.make()
                r = f(x)
                w = (g or f)(kind.arr)
                ctx.check(not isinstance(r, unyt.unyt_array) and np.array_equal(r, w), f"bare:{name}", lambda: f"{kind.id}: {name} gave {r!r}, expected {w!r}")
        for name in ("ua", "unit_array"):
            x = kind.make()
            with ctx.guard(f"{kind.id} {name}"):
                r = getattr(x, name)
                ctx.check(np.all(np.asarray(r) == 1) and np.shape(r) == np.shape(x) and labels(r) == kind.labels(), f"unit-array:{name}", lambda: f"{kind.id}: {r!r}")
        # changing the labels or the numbers of a copy leaves the source alone, and the other way round
        for name, f, g, alias in ops:
            if name.startswith(("copy", "pickle", "flatten", "deepcopy")):
                x = kind.make()
                b = (np.asarray(x).tobytes(), labels(x))
                try:
                    y = f(x)
                except Exception:  # noqa: BLE001
                    continue
                by = (np.asarray(y).tobytes(), labels(y))
                ctx.step(2)
                try:
                    y.convert_to_units("kpc")
                    if kind.frame is not None and not kind.null:
                        y.convert_to_physical()
                except Exception as e:  # noqa: BLE001
                    if np.asarray(y).dtype.kind == "f" and y.dtype.isnative:
                        ctx.unexpected(e, f"{kind.id} {name} then convert")
                y.comoving, y.compression = None, "other"
                ctx.check((np.asarray(x).tobytes(), labels(x)) == b, f"copy-linked:{name}", lambda: f"{kind.id}: converting the result changed the source to {x!r}")
                x = kind.make()
                y = f(x)
                x.comoving, x.compression, x.units = None, "other", unyt.Unit("g")
                if x.size:
                    x[...] = x.units * 0
                ctx.check((np.asarray(y).tobytes(), labels(y)) == by, f"copy-linked:{name}", lambda: f"{kind.id}: changing the source changed the result to {y!r}")


def work(ctx, item):
    kind, depth, first = item
    with ctx.guard(kind.id):
        explore(ctx, kind, depth, first)


def run(ctx):
    n = len(alphabet())
    items = []
    for k in starts():
        deep = ctx.thorough or k.id in ("2dco", "0dco", "1dph")
        for i in range(n):
            items.append((k, 3 if deep else 2, i))
    ctx.pmap(work, items)
    ctx.sample(dict(operations=[o[0] for o in alphabet()], starts=[k.id for k in starts()]))
