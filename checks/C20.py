"""C20: deposits conserve what is deposited and power spectra count every Fourier mode once."""

import itertools

import numpy as np

from swiftsimio.visualisation.power_spectrum import deposit, deposition_to_power_spectrum, folded_depositions_to_power_spectrum, render_to_deposit
from mc.races import explore
from mc.vis import ca, dataset, fill

META = dict(
    level="model_checking",
    explanation="Deposits of one particle at every position of a sub-cell lattice in and around the box, at every cell edge and up to three rounding steps "
    "either side of it, for every resolution, folding and several box shapes, compiled and as plain Python (where an index outside the mesh cannot go unseen), against the "
    "cell that holds the folded position; deposits through the public function in every frame and unit. Spectra of meshes with each single Fourier mode and each "
    "pair excited, and of deposited particles, against a direct count over all modes, for default, linear, logarithmic and single-mode bins, foldings and cross spectra; "
    "combined spectra of every set of foldings against the rule of most modes.",
    assumptions=["cubic boxes for power spectra (others are a known finding)"],
)


def run_deposit(P, m, res, fold, box, f=deposit):
    P = np.array(P, dtype=float).reshape(-1, 3)
    x, y, z = (np.ascontiguousarray(P[:, i]) for i in range(3))
    return f(x=x, y=y, z=z, m=np.array(m, dtype=float), res=res, fold=float(fold), box_x=float(box[0]), box_y=float(box[1]), box_z=float(box[2]))


def axis_positions(res, fold, L, thorough):
    """lattice within and around the box, and every cell edge with its neighbouring doubles"""
    n = res * fold
    lat = (np.arange(-n, 2 * n) + 0.37) * L / n
    edges = []
    for k in range(-1, n + 2):
        e = k * L / n
        edges.append(e)
        up = dn = e
        for _ in range(3):
            up, dn = np.nextafter(up, np.inf), np.nextafter(dn, -np.inf)
            edges += [up, dn]
    return list(lat), edges + [-0.0, 1e-320, -1e-320, -1e-17, np.nextafter(L, 0), L, 2 * L]


def cells(p, res, fold, L):
    """cells that hold the folded position, two if it is within rounding of an edge"""
    from fractions import Fraction as Fr

    w = Fr(L) / fold / res
    i = Fr(p) / w
    out = set()
    for e in (Fr(0), Fr(1, 10**12), Fr(-1, 10**12)):
        out.add(int((i + e) // 1) % res)
    return out


def single(ctx, item):
    res, fold, box = item
    for ax in range(3):
        lat, edges = axis_positions(res, fold, box[ax], ctx.thorough)
        for p in lat + edges:
            P = [0.4 * b / res / fold for b in box]
            P[ax] = p
            ctx.step()
            case = dict(resolution=res, fold=fold, box=box, axis=ax, position=float(p))
            ctx.state(res, fold, box, ax, repr(float(p)))
            want = cells(p, res, fold, box[ax])
            for kind in ("compiled", "python"):
                if kind == "compiled":
                    im = run_deposit([P], [3.0], res, fold, box)
                else:
                    try:
                        im = run_deposit([P], [3.0], res, fold, box, lambda **k: explore(deposit, k, 1)[0])
                    except IndexError as e:
                        ctx.fail("outside-mesh", f"{case}: {e}", case)
                        continue
                hit = np.argwhere(im)
                ok = len(hit) == 1 and all(int(hit[0][i]) == (0 if i != ax else int(hit[0][i])) for i in range(3)) and int(hit[0][ax]) in want
                ctx.check(ok and im.shape == (res,) * 3, "cell", lambda: f"{case} ({kind}): written at {hit.tolist()}, the position is in {sorted(want)}", case)
                ctx.check(abs(im.sum() / (res * fold) ** 3 - 3) < 1e-5, "conserved", lambda: f"{case} ({kind}): deposits {im.sum() / (res * fold)**3} of 3", case)
        ctx.trace()


def products(ctx, item):
    """all particles of a lattice, together and in reverse; negative weights"""
    res, fold, box = item
    f = (np.arange(res * fold) + 0.41) / (res * fold)
    P = np.array(list(itertools.product(*[f * b for b in box])))
    if len(P) > 3000:
        P = P[:: len(P) // 3000 + 1]
    m = 1 + np.arange(len(P)) % 7 - 2.5 * (np.arange(len(P)) % 5 == 0)
    want = np.zeros((res,) * 3)
    for p, w in zip(P, m):
        i = [min(cells(c, res, fold, b)) for c, b in zip(p, box)]
        want[tuple(i)] += w
    for shift in itertools.product((0, 1, -2), repeat=3):
        ctx.step()
        ctx.trace()
        ctx.state("lattice", res, fold, box, shift)
        Q = P + np.array(shift) * np.array(box)
        im = run_deposit(Q[::-1] if sum(shift) else Q, m[::-1] if sum(shift) else m, res, fold, box) / (res * fold) ** 3
        ctx.check(np.abs(im - want).max() <= 1e-5 * np.abs(m).sum(), "lattice", lambda: f"res {res}, fold {fold}, box {box}, shifted {shift}: {im.tolist()}, expected {want.tolist()}")
    ctx.check(not run_deposit([], [], res, fold, box).any(), "empty", lambda: "a deposit of nothing is not empty")


def public(ctx, item):
    box, a = item
    i = np.arange(17)
    pos = np.stack([(0.613 + 3.1337 * i), (9.271 + 2.1719 * i), (4.537 + 4.117 * i)], axis=1) % np.array(box)
    m = 1.0 + i
    for frame, units, res, folding in itertools.product((True, False), ("Mpc", "kpc"), (1, 3, 4), (0, 1, 3)):
        d = fill(dataset(ctx, box, a, n=17), pos, np.ones(17), m, a, frame, (units, "Mpc", "g"))
        for field, q, unit, exp in (("masses", m, "g", 0), ("energies", m * 2, "erg", 2), ("counts", m * 0 + 1, "dimensionless", 0)):
            for qframe in (True, False):
                for vt in (True, False):
                    if not vt and qframe:
                        continue
                    case = dict(box=box, a=a, comoving=frame, unit=units, resolution=res, folding=folding, field=field, field_comoving=qframe, convertible=vt)
                    qa = ca(q if qframe else q * a**exp, unit, exp, a=a, comoving=qframe, valid_transform=vt)
                    setattr(d.gas, field, qa)
                    ctx.step()
                    ctx.state(*map(str, case.values()))
                    try:
                        im = render_to_deposit(d.gas, res, project=field, folding=folding)
                    except AttributeError as e:
                        # fields that cannot be in the frame of the coordinates, and coordinates in another unit than the box, are refused
                        ctx.check(units == "kpc" or (qframe != frame and a**exp != 1), "refused", lambda: f"{case}: {e}", case)
                        continue
                    except Exception as e:
                        if not ctx.unexpected(e, case):
                            raise
                        continue
                    ctx.trace()
                    ctx.check(qframe == frame or a**exp == 1, "not-refused", lambda: f"{case}: accepted", case)
                    ctx.check(im.comoving == frame and im.shape == (res,) * 3, "frame", lambda: f"{case}: {im!r}", case)
                    want = np.zeros((res,) * 3)
                    for p, w in zip(pos, q):
                        want[tuple(min(cells(c, res, 2**folding, b)) for c, b in zip(p, box))] += w
                    want *= (res * 2**folding) ** 3 / np.prod(box)
                    # comoving value; a field on a comoving mesh is in its comoving form
                    if vt or exp == 0:
                        got = im.to_value(f"{unit}/Mpc**3", comoving=True)
                        ctx.check(np.allclose(got, want, rtol=1e-5, atol=1e-6 * want.max()), "value", lambda: f"{case}: {got.tolist()} expected {want.tolist()}", case)
                        phys = im.to_value(f"{unit}/Mpc**3", comoving=False)
                        ctx.check(np.allclose(phys, want * a ** (exp - 3), rtol=1e-5, atol=1e-6 * want.max() * a ** (exp - 3)), "exponent", lambda: f"{case}: {im.cosmo_factor}: physical {phys.tolist()}", case)


# -- power spectra ---------------------------------------------------------------
def modes(N):
    f = [k if k < (N + 1) // 2 else k - N for k in range(N)]
    return np.array(list(itertools.product(f, repeat=3)))


def reference(dep, N, L, fold, edges, cross=None):
    """bin by bin: counts, mean wavenumber, mean power, by direct sums over all modes"""
    def delta(a):
        d = a / a.mean() - 1
        x = np.arange(N)
        E = np.exp(-2j * np.pi * np.outer(x, x) / N)
        return np.einsum("xyz,xa,yb,zc->abc", d, E, E, E).reshape(-1) / N**3

    da = delta(dep)
    db = da if cross is None else delta(cross)
    P = (da * db.conj()).real * L**3
    K = np.sqrt((modes(N) ** 2).sum(axis=1)) * 2 * np.pi / L * fold
    n, k, p = [], [], []
    for i, (lo, hi) in enumerate(zip(edges[:-1], edges[1:])):
        s = (K >= lo) & ((K < hi) | ((i == len(edges) - 2) & (K == hi)))
        n.append(int(s.sum()))
        k.append(K[s].mean() if s.any() else 0.0)
        p.append(P[s].mean() if s.any() else 0.0)
    return np.array(n), np.array(k), np.array(p)


def compare(ctx, got, want, case, L, exact_counts=True):
    k, p, c = got
    n, kk, pp = want
    ctx.check(np.array_equal(c, n), "mode-count", lambda: f"{case}: modes per bin {c.tolist()}, expected {n.tolist()}", case)
    ctx.check(np.allclose(k.to_value("1/Mpc", comoving=True), kk, rtol=1e-6, atol=1e-9), "wavenumber", lambda: f"{case}: {k!r}, expected {kk.tolist()}", case)
    scale = max(np.abs(pp).max(), 1e-6 * L**3)
    ctx.check(np.allclose(p.to_value("Mpc**3", comoving=True), pp, rtol=2e-5, atol=2e-6 * scale), "power", lambda: f"{case}: {p!r}, expected {pp.tolist()}", case)
    a = 0.5
    ctx.check(np.allclose(k.to_value("1/Mpc", comoving=False), kk / a, rtol=1e-6, atol=1e-9), "wavenumber-frame", lambda: f"{case}: {k.cosmo_factor}", case)
    ctx.check(np.allclose(p.to_value("Mpc**3", comoving=False), pp * a**3, rtol=2e-5, atol=2e-6 * scale), "power-frame", lambda: f"{case}: {p.cosmo_factor}", case)


def bins(N, L, fold):
    dk = 2 * np.pi / L * fold
    yield "default", None, np.arange(0.5, N // 2 + 1, 1.0) * dk
    yield "all", ca([-0.5 * dk, 0.4 * dk, 1.2 * dk, 2.1 * dk, 100 * dk], "1/Mpc", -1), None
    yield "log", ca(np.geomspace(0.31 * dk, 2.3 * N * dk, 9), "1/Mpc", -1), None
    yield "kpc", ca(np.linspace(0.13 * dk, 1.71 * N * dk, 6) / 1000, "1/kpc", -1), None
    yield "physical", ca(np.linspace(0.13 * dk, 1.71 * N * dk, 6) * 2, "1/Mpc", -1, comoving=False), None
    # one bin for every wavenumber there is
    u = np.unique(np.round(np.sqrt((modes(N) ** 2).sum(axis=1)), 9))
    yield "single", ca(np.concatenate([u - 1e-4, [u[-1] + 1e-4]]) * dk, "1/Mpc", -1), None


def single_modes(ctx, item):
    N, fold, frame = item
    L = 10.0
    x = np.arange(N)
    X, Y, Z = np.meshgrid(x, x, x, indexing="ij")
    box = ca([L] * 3) if frame else ca(np.array([L] * 3) * 0.5, comoving=False)
    dep0 = None
    ks = [tuple(k) for k in modes(N)]
    for num, (kx, ky, kz) in enumerate(ks):
        for phase in (0.0, 0.7):
            d = 5.0 * (1 + 0.5 * np.cos(2 * np.pi * (kx * X + ky * Y + kz * Z) / N + phase))
            if (kx, ky, kz) == (0, 0, 0):
                d = np.full((N,) * 3, 5.0)
            dep = ca(d, "g/Mpc**3", -3)
            other = 3.0 * (1 + 0.4 * np.cos(2 * np.pi * (kx * X + ky * Y + kz * Z) / N) + 0.2 * np.cos(2 * np.pi * ky * X / N))
            for label, b, edges in bins(N, L, 2**fold):
                if label in ("kpc", "physical", "log") and num % 5:
                    continue
                if edges is None:
                    edges = np.sort(b.to_value("1/Mpc", comoving=True))
                case = dict(cells=N, folding=fold, mode=(int(kx), int(ky), int(kz)), phase=phase, bins=label, box_comoving=frame)
                ctx.step()
                ctx.trace()
                ctx.state(*map(str, case.values()))
                with ctx.guard(case):
                    keep = dep.copy()
                    got = deposition_to_power_spectrum(dep, box, fold, wavenumber_bins=b)
                    compare(ctx, got, reference(d, N, L, 2**fold, edges), case, L)
                    ctx.check(np.array_equal(keep, dep), "deposit-changed", lambda: f"{case}", case)
                    if label in ("all", "single") and d.std() > 0:
                        oc = ca(other, "erg/Mpc**3", -1)
                        cr = deposition_to_power_spectrum(dep, box, fold, cross_deposition=oc, wavenumber_bins=b)
                        compare(ctx, cr, reference(d, N, L, 2**fold, edges, other), dict(case, cross=True), L)
                        rc = deposition_to_power_spectrum(oc, box, fold, cross_deposition=dep, wavenumber_bins=b)
                        ctx.check(np.allclose(rc[1], cr[1], rtol=1e-5, atol=1e-6 * L**3), "cross-symmetric", lambda: f"{case}: {rc[1]!r}, swapped {cr[1]!r}", case)
                        sn = deposition_to_power_spectrum(dep, box, fold, wavenumber_bins=b, shot_noise_norm=40.0, workers=2)
                        ctx.check(np.allclose((got[1] - sn[1]).to_value("Mpc**3", comoving=True), L**3 / 40, rtol=1e-6), "shot-noise", lambda: f"{case}: {got[1] - sn[1]!r}", case)
                    if label == "all":
                        ctx.check(int(got[2].sum()) == N**3, "modes-lost", lambda: f"{case}: {got[2].sum()} of {N**3} modes counted", case)


def refusals(ctx, item):
    box = ca([10.0] * 3)
    for shape in ((4, 4), (4, 4, 5), (3, 4, 4), (64,), (4, 5, 4)):
        ctx.step()
        try:
            deposition_to_power_spectrum(ca(np.ones(shape), "g/Mpc**3", -3), box)
            ctx.fail("shape-not-refused", f"a mesh of shape {shape} was accepted")
        except ValueError:
            pass
    try:
        deposition_to_power_spectrum(ca(np.ones((4,) * 3), "g/Mpc**3", -3), box, cross_deposition=ca(np.ones((5,) * 3), "g/Mpc**3", -3))
        ctx.fail("cross-shape-not-refused", "meshes of different shapes were correlated")
    except AssertionError:
        pass
    dep = {k: ca(np.random.default_rng(1).random((4,) * 3), "g/Mpc**3", -3) for k in (0, 1)}
    kr = (ca(0.1, "1/Mpc", -1), ca(10.0, "1/Mpc", -1))
    for kw, err in ((dict(cross_depositions={0: dep[0]}), ValueError), (dict(transition="average"), ValueError), (dict(wavenumber_range=None), NotImplementedError)):
        ctx.step()
        try:
            folded_depositions_to_power_spectrum(dep, box, 4, **{**dict(wavenumber_range=kr), **kw})
            ctx.fail("combination-not-refused", f"{kw} was accepted")
        except err:
            pass
    # a box whose sides differ
    N, L = 4, (8.0, 16.0, 8.0)
    x = np.arange(N)
    d = np.broadcast_to((5.0 * (1 + 0.5 * np.cos(2 * np.pi * x / N)))[None, :, None], (N,) * 3).copy()  # one wave along the long side
    dk = 2 * np.pi / 8
    try:
        k, p, c = deposition_to_power_spectrum(ca(d, "g/Mpc**3", -3), ca(list(L)), wavenumber_bins=ca(np.array([0.4, 0.6, 1.1]) * dk, "1/Mpc", -1))
        ctx.check(p.to_value("Mpc**3", comoving=True)[0] > 1, "spectrum-noncubic", lambda: f"a wave along the long side of a box of {L} shows at {p!r} for wavenumbers {k!r} rather than in the first bin")
    except (ValueError, AttributeError):
        pass


def pipeline(ctx, item):
    """particles to spectrum: the power is that of the particles, moved to their cells"""
    box, a = (10.0,) * 3, 0.5
    n, frame, N = item
    i = np.arange(n)
    pos = np.stack([(0.613 + 3.1337 * i) % 10, (9.271 + 2.1719 * i) % 10, (4.537 + 4.117 * i) % 10], axis=1)
    m = 1.0 + i
    d = fill(dataset(ctx, box, a, n=n), pos, np.ones(n), m, a, frame)
    deps = {f: render_to_deposit(d.gas, N, folding=f) for f in (0, 1, 2, 4)}
    L = 10.0
    K = modes(N)
    kn = np.sqrt((K**2).sum(axis=1))
    for f in deps:
        ctx.step()
        ctx.trace()
        ctx.state("pipeline", n, frame, N, f)
        cell = np.floor(pos / (L / 2**f / N)) % N
        dl = (m[None] * np.exp(-2j * np.pi * (K @ cell.T) / N)).sum(axis=1) / m.sum()
        dl[kn == 0] = 0
        edges = np.linspace(0.13, 1.9 * N, 7) * 2 * np.pi / L * 2**f
        K_ = kn * 2 * np.pi / L * 2**f
        want = np.array([(np.abs(dl[(K_ >= lo) & (K_ < hi)]) ** 2).mean() * L**3 if ((K_ >= lo) & (K_ < hi)).any() else 0 for lo, hi in zip(edges, edges[1:])])
        with ctx.guard(dict(n=n, folding=f)):
            k, p, c = deposition_to_power_spectrum(deps[f], d.metadata.boxsize, f, wavenumber_bins=ca(edges, "1/Mpc", -1))
            ctx.check(np.allclose(p.to_value("Mpc**3", comoving=True), want, rtol=1e-4, atol=1e-4 * want.max()), "pipeline", lambda: f"{n} particles, folding {f}, comoving {frame}: {p!r}, expected {want.tolist()}")
    for nf in range(1, 5):
        for S in itertools.combinations(deps, nf):
            for log, nb, minimal, frac, cross, noise in itertools.product((True, False), (5, 9), (0, 7), (None, 0.7), (False, True), (None, 25.0)):
                if not ctx.thorough and (noise and (cross or not log)):
                    continue
                case = dict(particles=n, comoving=frame, cells=N, foldings=S, log=log, bins=nb, minimal=minimal, fraction=frac, cross=cross, noise=noise)
                ctx.step()
                ctx.trace()
                ctx.state("combine", *map(str, case.values()))
                kr = (ca(0.4, "1/Mpc", -1), ca(40.0, "1/Mpc", -1)) if nb == 5 else ca([0.0004, 0.04], "1/kpc", -1)
                D = {f: deps[f] for f in S}
                X = {f: ca(np.roll(np.asarray(deps[f]), 1, axis=0) + 1.0, "g/Mpc**3", -3) for f in S} if cross else None
                with ctx.guard(case):
                    edges, kc, p, fold = folded_depositions_to_power_spectrum(D, d.metadata.boxsize, nb, cross_depositions=X, wavenumber_range=kr, log_wavenumber_bins=log,
                                                                              minimal_sample_modes=minimal, cutoff_above_wavenumber_fraction=frac, shot_noise_norm=noise)
                    e = np.geomspace(0.4, 40, nb + 1) if log else np.linspace(0.4, 40, nb + 1)
                    ctx.check(np.allclose(edges.to_value("1/Mpc", comoving=True), e, rtol=1e-6), "edges", lambda: f"{case}: {edges!r}", case)
                    spectra = {f: [np.asarray(v.to_value(u, comoving=True)) if u else v for v, u in zip(deposition_to_power_spectrum(D[f], d.metadata.boxsize, f, cross_deposition=X[f] if cross else None, wavenumber_bins=edges, shot_noise_norm=noise), ("1/Mpc", "Mpc**3", None))] for f in S}
                    best = np.zeros(nb)
                    wp, wk, wf = np.zeros(nb), 0.5 * (e[1:] + e[:-1]), np.ones(nb)
                    for f in sorted(S):
                        k_, p_, c_ = spectra[f]
                        use = c_ > (minimal if f != min(S) else 0)
                        if f != max(S):
                            cut = 2.0**f * N / L
                            if frac is not None:
                                cut = min(frac * k_[use].max(), frac * cut) if use.any() else -1
                            use &= k_ < cut
                        use &= c_ > best
                        wp[use], wk[use], wf[use], best[use] = p_[use], k_[use], 2.0**f, c_[use]
                    ctx.check(np.array_equal(fold, wf), "folding-used", lambda: f"{case}: {fold.tolist()}, expected {wf.tolist()}", case)
                    ctx.check(np.allclose(p.to_value("Mpc**3", comoving=True), wp, rtol=1e-5, atol=1e-6 * L**3), "combined-power", lambda: f"{case}: {p!r}, expected {wp.tolist()}", case)
                    ctx.check(np.allclose(p.to_value("Mpc**3", comoving=False), wp * a**3, rtol=1e-5, atol=1e-6 * L**3), "combined-frame", lambda: f"{case}: {p.cosmo_factor}", case)
                    ctx.check(np.allclose(kc.to_value("1/Mpc", comoving=True), wk, rtol=1e-5), "combined-wavenumber", lambda: f"{case}: {kc!r}, expected {wk.tolist()}", case)
                    ctx.check(np.allclose(kc.to_value("1/Mpc", comoving=False), wk / a, rtol=1e-5), "combined-wavenumber-frame", lambda: f"{case}: {kc.cosmo_factor}", case)


def dispatch(ctx, item):
    dict(single=single, products=products, public=public, modes=single_modes, refusals=refusals, pipeline=pipeline)[item[0]](ctx, item[1])


def run(ctx):
    run_deposit([[0.5, 0.5, 0.5]], [1.0], 3, 1, (1, 1, 1))
    items = [("refusals", None)]
    items += [("pipeline", (n, fr, N)) for n in (1, 2, 13) for fr in (True, False) for N in ((4, 5) if not ctx.thorough else (3, 4, 5, 6, 8))]
    for N in (3, 4, 5) if not ctx.thorough else (2, 3, 4, 5, 6, 7):
        for fold in (0, 1, 3):
            for fr in (True, False):
                if fr or N == 4:
                    items.append(("modes", (N, fold, fr)))
    boxes = ((1.0, 1.0, 1.0), (10.0, 10.0, 10.0), (0.1, 0.3, 0.7), (142.24751067, 3.0, 1e-3))
    for b in boxes:
        for res in (1, 2, 3, 4, 5, 7) if not ctx.thorough else range(1, 14):
            for fold in (1, 2, 8) if not ctx.thorough else (1, 2, 4, 8, 16):
                if res * fold <= (24 if not ctx.thorough else 64):
                    items.append(("single", (res, fold, b)))
                    items.append(("products", (res, fold, b)))
    items += [("public", (b, a)) for b in ((10.0, 10.0, 10.0), (8.0, 12.0, 10.0)) for a in (0.5, 1.0)]
    ctx.pmap(dispatch, items)
    ctx.sample(dict(boxes=boxes))
