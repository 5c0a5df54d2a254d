"""C24: generated smoothing lengths follow the neighbour definition, whatever the order, origin, number, unit and frame."""

import itertools
import types

import numpy as np
import unyt

from swiftsimio.objects import cosmo_array
from swiftsimio.visualisation.smoothing_length import backends_get_hsml, generate_smoothing_lengths
from mc.vis import ca

META = dict(
    level="model_checking",
    explanation="Every subset (up to a size) of a lattice of positions, as lists in every order, moved by every lattice shift of the periodic box, for several box "
    "shapes, numbers of dimensions, neighbour numbers and speed-up factors; every unit and frame of the coordinates and the box; particle numbers on both sides of "
    "each multiple of the search's chunk size; compared with distances found by brute force over all periodic images.",
    assumptions=["coordinates lie inside the box (others are refused by the tree search)", "a particle with fewer neighbours than searched for has an infinite smoothing length"],
)
GAMMA = 1.825742


def oracle(pos, box, k):
    """distance from each particle to its k-th nearest (itself counted), by brute force over nearest images"""
    pos, box = np.asarray(pos, float), np.asarray(box, float)
    d = np.abs(pos[:, None, :] - pos[None, :, :])
    d = np.minimum(d, box - d)
    r = np.sort(np.sqrt((d**2).sum(-1)), axis=1)
    return r[:, k - 1] if k <= len(pos) else np.full(len(pos), np.inf)


def same(h, want):
    h = np.asarray(h)
    want = np.asarray(want)
    return h.shape == want.shape and bool(np.all((h == want) | (np.abs(h - want) <= 1e-6 * np.abs(want))))


def one(ctx, pos, box, nb, sp, dim, case, frames=("Mpc", True, "Mpc", True), a=0.5, dtype=float, gamma=GAMMA, exp=1):
    """one call on the real code; pos and box are comoving Mpc"""
    ctx.step()
    cu, cf, bu, bf = frames
    x = ca(np.array(pos, dtype=dtype).reshape(-1, len(box)), "Mpc", exp, a, True)
    if not cf:
        x = x.to_physical()
    x = x.to(cu)
    if dtype is not float:
        x = type(x)(np.asarray(x).astype(dtype), x.units, comoving=x.comoving, cosmo_factor=x.cosmo_factor)
    b = ca(np.array(box, float), "Mpc", 1, a, True)
    b = (b if bf else b.to_physical()).to(bu)
    kx, kb = np.array(x, copy=True), np.array(b, copy=True)
    k = nb // sp
    with ctx.guard(case):
        h = generate_smoothing_lengths(x, b, kernel_gamma=gamma, neighbours=nb, speedup_fac=sp, dimension=dim)
        ctx.check(np.array_equal(np.asarray(x), kx) and np.array_equal(np.asarray(b), kb) and x.units == unyt.Unit(cu) and b.units == unyt.Unit(bu)
                  and x.comoving is cf and b.comoving is bf, "argument-changed", lambda: f"{case}: {x!r} {b!r}", case)
        want = oracle(pos, box, k) * sp ** (1 / dim) / gamma if len(pos) else np.zeros(0)
        ok = ctx.check(type(h) is cosmo_array and h.shape == (len(pos),), "type", lambda: f"{case}: {type(h)} {getattr(h, 'shape', None)}", case)
        if ok:
            ctx.check(h.units == x.units and h.comoving is x.comoving and h.cosmo_factor == x.cosmo_factor, "label",
                      lambda: f"{case}: {h.units} comoving={h.comoving} {h.cosmo_factor}; coordinates {x.units} {x.comoving} {x.cosmo_factor}", case)
            got = np.asarray(h.to_comoving_value("Mpc"), dtype=float)
            ctx.check(same(got, want), "value", lambda: f"{case}: {got.tolist()} rather than {want.tolist()}", case)
            return got


def lattice(ctx, item):
    """all subsets of a lattice, in every order, at every periodic shift"""
    ncell, box, nmax = item
    dim = len(box)
    step = np.array(box, float) / np.array(ncell)
    sites = list(itertools.product(*[range(n) for n in ncell]))
    for n in range(0, nmax + 1):
        for sub in itertools.combinations(range(len(sites)), n):
            ctx.trace()
            ctx.state("lattice", item, sub)
            idx = np.array([sites[i] for i in sub]).reshape(-1, dim)
            pos = (idx + 0.25) * step
            # (an uneven displacement so that distances are not all degenerate)
            pos = pos + np.array([[0.11 * (i + 1) % 0.5 * s for s in step] for i in sub]).reshape(-1, dim)
            for nb, sp in ((1, 1), (2, 1), (3, 1), (4, 2), (5, 2), (8, 4)) if n else ((2, 1), (32, 2)):
                base = one(ctx, pos, box, nb, sp, dim, dict(pos=pos.tolist(), box=box, neighbours=nb, speedup=sp))
                if base is None or n < 2 or nb not in (3, 4):
                    continue
                for perm in itertools.permutations(range(n)) if n <= 4 else (tuple(range(n))[::-1],):
                    perm = list(perm)
                    got = one(ctx, pos[perm], box, nb, sp, dim, dict(pos=pos[perm].tolist(), box=box, neighbours=nb, order=perm))
                    if got is not None:
                        ctx.check(np.array_equal(got, base[perm]), "order", lambda: f"{pos.tolist()} {perm}: {got} rather than {base[perm]}")
                for shift in itertools.product(*[(0, 1, m - 1) for m in ncell]):
                    q = (pos + np.array(shift) * step) % np.array(box)
                    got = one(ctx, q, box, nb, sp, dim, dict(pos=q.tolist(), box=box, neighbours=nb, shift=shift))
                    if got is not None:
                        ctx.check(same(got, base), "origin", lambda: f"{pos.tolist()} moved by {shift}: {got} rather than {base}")


POS = [[0.05, 0.3, 9.7], [0.45, 2.2, 0.1], [7.9, 0.2, 3.3], [9.9, 11.6, 5.0], [4.0, 6.0, 2.5], [0.0, 0.0, 0.0]]
BOX = (10.0, 12.0, 14.0)


def labels(ctx, a):
    """every unit and frame of coordinates and box"""
    for cu, bu in itertools.product(("Mpc", "kpc", "cm", "m"), repeat=2):
        for cf, bf in itertools.product((True, False), repeat=2):
            for nb, sp in ((1, 1), (2, 1), (6, 2), (20, 2), (12, 2)):
                case = dict(coordinates=(cu, cf), box=(bu, bf), a=a, neighbours=nb, speedup=sp)
                ctx.trace()
                ctx.state("label", repr(case))
                one(ctx, POS, BOX, nb, sp, 3, case, frames=(cu, cf, bu, bf), a=a)
    for dim, sp, gamma in itertools.product((1, 2, 3), (1, 2, 3, 4), (1.0, GAMMA, np.float32(2.5))):
        case = dict(dimension=dim, speedup=sp, gamma=float(gamma), a=a)
        ctx.trace()
        ctx.state("factor", repr(case))
        one(ctx, POS, BOX, 4 * sp, sp, dim, case, a=a, gamma=gamma)
    for nb in range(1, 14):
        one(ctx, POS, BOX, nb, 1, 3, dict(neighbours=nb, a=a), a=a)
    one(ctx, POS, BOX, 4, 2, 3, dict(dtype="float32", a=a), a=a, dtype=np.float32)
    one(ctx, [POS[0]] * 3 + [POS[1]], BOX, 3, 1, 3, dict(coincident=True, a=a), a=a)
    # views of larger arrays
    x = ca(np.array(POS)[::-1], "Mpc", 1, a)
    b = ca(np.array(BOX), "Mpc", 1, a)
    want = oracle(POS, BOX, 2) / GAMMA
    for label, v, w in (("reversed", x[::-1], want), ("mask", x[np.ones(6, bool)][::-1], want), ("fortran", cosmo_array(np.asfortranarray(np.asarray(x[::-1])), x.units, comoving=True, cosmo_factor=x.cosmo_factor), want)):
        with ctx.guard(label):
            h = generate_smoothing_lengths(v, b, kernel_gamma=GAMMA, neighbours=2, speedup_fac=1)
            ctx.check(same(np.asarray(h.to_comoving_value("Mpc"), float), w), "layout", lambda: f"{label}: {h} rather than {w}")


def chunks(ctx, n):
    """as many particles as the search's chunk, and one less and more: a line of particles whose spacings all differ"""
    ctx.trace()
    ctx.state("chunk", n)
    rng = np.arange(n, dtype=float)
    gaps = 1.0 + (rng * 7919 % 1009) / 1009
    x = np.concatenate([[0.0], np.cumsum(gaps)])
    L = x[-1]
    x = x[:-1]
    order = (np.arange(n) * 48271 % n) if np.gcd(48271, n) == 1 else np.arange(n)[::-1]
    for nb, k in ((1, 1), (2, 2), (3, 3)):
        left1, right1 = np.roll(gaps, 1), gaps
        near = np.minimum(left1, right1)
        third = np.minimum(np.maximum(left1, right1), np.where(left1 < right1, left1 + np.roll(gaps, 2), right1 + np.roll(gaps, -1)))
        want = dict([(1, np.zeros(n)), (2, near), (3, third)])[k] / GAMMA
        pos = np.zeros((n, 3))
        pos[:, 0] = x
        pos[:, 1:] = L / 3
        ctx.step()
        with ctx.guard(dict(n=n)):
            h = generate_smoothing_lengths(ca(pos[order], a=1.0), ca(np.full(3, L), a=1.0), kernel_gamma=GAMMA, neighbours=nb, speedup_fac=1)
            got = np.asarray(h, float)
            bad = np.flatnonzero(~((got == want[order]) | (np.abs(got - want[order]) < 1e-6 * want[order] + 1e-9)))
            ctx.check(got.shape == (n,) and len(bad) == 0, "chunk", lambda: f"{n} particles, neighbour {k}: {len(bad)} wrong, first at {bad[:3]}: {got[bad[:3]]} rather than {want[order][bad[:3]]}", dict(n=n))


def backends(ctx, a):
    """smoothing lengths taken from what a data set holds"""
    vol = np.array([8.0, 27.0, 0.125])
    for cf in (True, False):
        V = ca(vol, "Mpc**3", 3, a, True)
        M = ca(vol * 5, "1e10*g" if False else "Msun", 0, a, True)
        D = ca(np.full(3, 5.0), "Msun/Mpc**3", -3, a, True)
        H = ca(np.array([2.0, 3.0, 0.5]), "Mpc", 1, a, True)
        if not cf:
            V, D, H = V.to_physical(), D.to_physical(), H.to_physical()
            M = M.to_physical()
        for has in itertools.product((0, 1), repeat=5):
            d = types.SimpleNamespace(group_name="gas")
            for on, name, v in zip(has, ("volumes", "masses", "densities", "smoothing_lengths", "smoothing_length"), (V, M, D, H * 2, H * 4)):
                if on:
                    setattr(d, name, v)
            for b in ("sph", "nearest_neighbours"):
                ctx.trace()
                ctx.state("backend", a, cf, has, b)
                ctx.step()
                want = None
                if has[4]:
                    want = 4.0
                if has[3]:
                    want = 2.0
                if b == "nearest_neighbours" and (has[0] or (has[1] and has[2])):
                    want = 1.0
                case = dict(backend=b, has=has, comoving=cf, a=a)
                try:
                    h = backends_get_hsml[b](d)
                except AttributeError:
                    ctx.check(want is None, "backend-refused", lambda: f"{case}", case)
                    continue
                if ctx.check(want is not None, "backend-accepted", lambda: f"{case}: {h!r}", case):
                    ok = type(h) is cosmo_array and h.comoving is cf and h.cosmo_factor == H.cosmo_factor and h.units.dimensions == H.units.dimensions
                    ctx.check(ok and same(np.asarray(h.to_comoving_value("Mpc"), float), want * np.array([2.0, 3.0, 0.5])), "backend",
                              lambda: f"{case}: {h!r}", case)


def _do(ctx, item):
    globals()[item[0]](ctx, item[1])


def run(ctx):
    T = ctx.thorough
    items = [("lattice", x) for x in (((3, 2, 1), (3.0, 2.0, 1.0), 5 if T else 4), ((2, 2, 2), (10.0, 10.0, 10.0), 5 if T else 3), ((2, 3), (4.0, 9.0), 6 if T else 4), ((5,), (5.0,), 5),
                                      ((1, 1, 6), (1.0, 1.0, 30.0), 5 if T else 3))]
    items += [("labels", a) for a in (1.0, 0.5, 0.03125)] + [("backends", a) for a in (1.0, 0.5)]
    C = 65536
    items += [("chunks", n) for n in ((C - 1, C, C + 1, 2 * C) if not T else (C - 1, C, C + 1, 2 * C - 1, 2 * C, 2 * C + 1, 3 * C, 3 * C + 1))]
    ctx.pmap(_do, items)
