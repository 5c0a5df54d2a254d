"""Runs numba functions with prange loops as plain Python, one iteration at a time in a chosen order, and
records which elements of shared arrays every iteration reads and writes.

Two iterations conflict when one writes an element of an array that outlives the iteration and another reads or
writes it. A loop without conflicts has equivalent interleavings only (accesses of different iterations commute),
so running whole iterations in one order covers every schedule; reductions (``name op= value`` in the body of the
loop, which numba gives every thread its own copy of) commute up to rounding."""

import builtins
import itertools
import sys
import types

import numba
import numpy as np
from numba.core.registry import CPUDispatcher


class Monitor:
    def __init__(self, order=None):
        self.order = order  # permutation of the iterations, None for the natural one
        self.cur = None
        self.loop = None  # code of the function that holds the loop
        self.owner = {}
        self.keep = []
        self.reads, self.writes = {}, {}
        self.iterations = 0
        self.loops = 0

    def own(self, base):
        if id(base) not in self.owner:
            self.owner[id(base)] = self.cur
            self.keep.append(base)
        return self.owner[id(base)]

    def log(self, table, arr):
        if self.cur is None:
            return
        base = arr
        while isinstance(base.base, np.ndarray):
            base = base.base
        if self.own(base) == self.cur and self.cur is not None:
            return
        p = np.array(arr.__array_interface__["data"][0])
        for n, s in zip(arr.shape, arr.strides):
            p = np.add.outer(p, np.arange(n) * s)
        table.setdefault(self.cur, set()).update(np.ravel(p).tolist())

    def conflicts(self):
        its = sorted(set(self.reads) | set(self.writes))
        out = []
        for i, j in itertools.combinations(its, 2):
            wi, wj = self.writes.get(i, set()), self.writes.get(j, set())
            bad = (wi & wj) | (wi & self.reads.get(j, set())) | (wj & self.reads.get(i, set()))
            if bad:
                out.append((i, j, len(bad)))
        return out

    def prange(self, *args):
        its = list(range(*(int(a) for a in args)))
        if self.cur is not None:  # nested loops run in one thread
            yield from its
            return
        self.loops += 1
        self.loop = sys._getframe(1).f_code
        order = self.order(its) if self.order else its
        try:
            for n, i in enumerate(order):
                self.cur = (self.loops, i)
                self.iterations += 1
                yield i
        finally:
            self.cur = None
            self.loop = None


MON = None


def plain(a):
    return a.view(np.ndarray) if isinstance(a, Tracked) else a


def deep(a, f):
    if isinstance(a, (tuple, list)):
        return type(a)(deep(v, f) for v in a)
    return f(a)


class Tracked(np.ndarray):
    def __array_finalize__(self, obj):
        self.made = MON.cur if MON else None
        if MON is not None:
            base = self
            while isinstance(base.base, np.ndarray):
                base = base.base
            MON.own(base)

    def __getitem__(self, k):
        k = deep(k, plain)
        out = super().__getitem__(k)
        if not isinstance(out, Tracked):
            MON.log(MON.reads, part(self, k))
        return out

    def __setitem__(self, k, v):
        k = deep(k, plain)
        if isinstance(v, Tracked):
            MON.log(MON.reads, plain(v))
            v = plain(v)
        MON.log(MON.writes, part(self, k))
        super().__setitem__(k, v)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for a in inputs:
            if isinstance(a, Tracked):
                MON.log(MON.reads, a)
        args = [plain(a) for a in inputs]
        if out is not None:
            for o in out:
                if isinstance(o, Tracked):
                    MON.log(MON.writes, o)
            kw["out"] = tuple(plain(o) for o in out)
        r = getattr(ufunc, method)(*args, **kw)
        if out is not None:
            return out[0]
        return track(r)


def part(arr, k):
    """the elements an index names, as a view if it can be one"""
    a = arr.view(np.ndarray)
    t = k if isinstance(k, tuple) else (k,)
    if any(isinstance(i, (list, np.ndarray)) and np.ndim(i) for i in t):
        return a  # whole array, to be safe
    t = tuple(slice(int(i), int(i) + 1 if int(i) != -1 else None) if isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) else i for i in t)
    return a[t]


def _inplace(name):
    op = getattr(np.ndarray, name)

    def f(self, other):
        if MON.cur is not None and self.made != MON.cur and sys._getframe(1).f_code is MON.loop:
            # a reduction: not an access to shared memory
            if isinstance(other, Tracked):
                MON.log(MON.reads, other)
            op(self.view(np.ndarray), plain(other))
            return self
        return op(self, other)

    return f


for _n in ("__iadd__", "__isub__", "__imul__"):
    setattr(Tracked, _n, _inplace(_n))


def track(r):
    if type(r) is np.ndarray:
        return r.view(Tracked)
    if isinstance(r, (tuple, list)):
        return type(r)(track(v) for v in r) if type(r) in (tuple, list) else r
    return r


class NumPy:
    """numpy whose results are tracked"""

    def __init__(self, mod=np):
        self._mod = mod

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if isinstance(v, type) or not callable(v):
            return NumPy(v) if isinstance(v, types.ModuleType) else v

        def f(*a, **k):
            seen = []
            strip = lambda x: (seen.append(x), plain(x))[1]
            a = deep(list(a), strip)
            k = {n: deep(x, strip) for n, x in k.items()}
            for x in seen:
                if isinstance(x, Tracked):
                    MON.log(MON.reads, x)
            if name == "copyto" and isinstance(seen[0], Tracked):
                MON.log(MON.writes, seen[0])
            return track(v(*a, **k))

        return f


class NumbaModule:
    def __init__(self, mon):
        self.prange = mon.prange

    def __getattr__(self, name):
        return getattr(numba, name)


class Leaf:
    """a compiled helper run as it is; what it changes in its arguments counts as written"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        vals = [plain(v) for v in (*a, *k.values())]
        before = [v.copy() if isinstance(v, np.ndarray) else None for v in vals]
        out = self.fn(*vals[: len(a)], **dict(zip(k, vals[len(a) :])))
        for v, b in zip(vals, before):
            if b is None or not b.size:
                continue
            changed = np.argwhere(v.view(np.ndarray) != b)
            if not len(changed):
                MON.log(MON.reads, v)
            for c in changed:
                MON.log(MON.writes, part(v, tuple(c)))
        return track(np.asarray(out)) if isinstance(out, np.ndarray) else out


def pure(fn, mon, threads, memo=None, leaf=False):
    """a plain-Python twin of a numba function"""
    memo = {} if memo is None else memo
    py = fn.py_func if isinstance(fn, CPUDispatcher) else fn
    parallel = bool(fn.targetoptions.get("parallel")) if isinstance(fn, CPUDispatcher) else False
    if id(fn) in memo:
        return memo[id(fn)]
    g = {}
    new = types.FunctionType(py.__code__, g, py.__name__, py.__defaults__, py.__closure__)
    new.__kwdefaults__ = py.__kwdefaults__
    memo[id(fn)] = new
    for name, v in py.__globals__.items():
        if v is np:
            v = NumPy()
        elif v is numba:
            v = NumbaModule(mon)
        elif v is numba.prange:
            v = mon.prange if parallel else range
        elif name == "NUM_THREADS":
            v = threads
        elif isinstance(v, CPUDispatcher):
            v = Leaf(v) if leaf else pure(v, mon, threads, memo)
        elif isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("swiftsimio.") and v is not py:
            v = Lazy(v, mon, threads, memo, leaf)
        g[name] = v
    g["__builtins__"] = builtins
    return new


class Lazy:
    """a plain function, rebuilt when it is first called"""

    def __init__(self, *a):
        self.a = a

    def __call__(self, *a, **k):
        return pure(*self.a)(*a, **k)


def explore(fn, kwargs, threads, order=None, leaf=False):
    """run once; returns (result, monitor)"""
    global MON
    MON = mon = Monitor(order)
    try:
        f = pure(fn, mon, threads, leaf=leaf)
        kw = {k: v.copy().view(Tracked) if isinstance(v, np.ndarray) else v for k, v in kwargs.items()}
        out = f(**kw)
        same = all(np.array_equal(plain(kw[k]), v) for k, v in kwargs.items() if isinstance(v, np.ndarray))
        return np.array(plain(out)), mon, same
    finally:
        MON = None
