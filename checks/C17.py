"""C17: parallel rendering equals serial rendering under every schedule."""

import contextlib
import io
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np

META = dict(
    level="model_checking",
    explanation="The loop bodies of the parallel routines are run as plain Python with every access to shared arrays recorded: for 1 to 8 workers, every "
    "order of the workers' shares (all permutations up to four or five workers) and every small particle count, no two shares touch the same element "
    "(so all interleavings are equivalent to the ones run) and the result is the serial one. The compiled routines are then run in processes "
    "with 1 to 8 threads, every smaller number of active threads and every particle count up to two shares and a remainder, against the serial ones, and "
    "through the public functions.",
    assumptions=["numba gives each thread its own copy of a reduction variable", "the GPU backend is not run: no such hardware"],
)


def routines():
    from swiftsimio.visualisation.power_spectrum import deposit, deposit_parallel
    from swiftsimio.visualisation.projection_backends import backends, backends_parallel
    from swiftsimio.visualisation.slice_backends import backends as s, backends_parallel as sp
    from swiftsimio.visualisation.volume_render_backends import backends as v, backends_parallel as vp

    out = {f"projection.{n}": (backends[n], backends_parallel[n]) for n in backends if n != "gpu"}
    out |= {f"slice.{n}": (s[n], sp[n]) for n in s}
    out |= {f"volume.{n}": (v[n], vp[n]) for n in v}
    out["deposit"] = (deposit, deposit_parallel)
    return out


def cases(name, n):
    """inputs for n particles whose images overlap, every particle with its own weight"""
    i = np.arange(n)
    x, y, z = (0.11 + 0.313 * i) % 1, (0.93 + 0.217 * i) % 1, (0.45 + 0.41 * i) % 1
    m = 1.0 + 3.0 * i + 0.25 * i * i
    h = (0.05 + 0.083 * (i * 2 % 5)) / 2 + (0.38 if "reference" in name else 0)  # that backend skips small kernels
    p = dict(x=x, y=y, m=m, h=h)
    q = dict(p, z=z)
    if name.startswith("projection"):
        return [dict(p, res=r, box_x=bx, box_y=by) for r, bx, by in ((3, 0.0, 0.0), (2, 1.0, 1.25))]
    if name.startswith("slice"):
        return [dict(q, z_slice=zs, xres=xr, yres=yr, box_x=b[0], box_y=b[1], box_z=b[2])
                for zs, xr, yr, b in ((0.45, 3, 2, (0.0, 0.0, 0.0)), (0.97, 1, 3, (1.0, 1.5, 1.0)))]
    if name.startswith("volume"):
        return [dict(q, res=r, box_x=b[0], box_y=b[1], box_z=b[2]) for r, b in ((3, (0.0, 0.0, 0.0)), (2, (1.0, 1.5, 1.25)))]
    d = {k: v for k, v in q.items() if k != "h"}
    return [dict(d, res=r, fold=f, box_x=b[0], box_y=b[1], box_z=b[2]) for r, f, b in ((3, 1.0, (1.0, 1.0, 1.0)), (2, 2.0, (1.0, 1.5, 1.25)))]


def close(a, b):
    if np.shape(a) != np.shape(b):
        return False
    if not np.size(b):
        return True
    return bool(np.isfinite(a).all() and np.abs(np.asarray(a, float) - b).max() <= 2e-6 * max(np.abs(b).max(), 1e-30) * (1 + np.sqrt(np.size(b))))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def schedules(ctx, item):
    """every order of every number of shares, with all accesses recorded"""
    name, k = item
    from mc.races import explore
    from numba.core.registry import CPUDispatcher

    serial, parallel = routines()[name]
    if not isinstance(parallel, CPUDispatcher) or not parallel.targetoptions.get("parallel"):
        return  # not a routine with loop iterations of its own
    full = k <= (5 if ctx.thorough else 4)
    for n in range(0, 2 * k + 2 if k <= 4 else k + 3):
        for c, kw in enumerate(cases(name, n)):
            slow = "subsampled" in name  # helpers run compiled but for the smallest cases
            with quiet():
                direct = serial(**kw)
                want = explore(serial, kw, k)[0] if not slow or n <= 2 and k == 1 else direct
            ctx.check(close(want, np.asarray(direct)), f"model:{name}", lambda: f"{name}, {n} particles: the routine run as Python gives {want.tolist()}, compiled {direct.tolist()}")
            orders = itertools.permutations(range(k)) if full else [tuple(range(k)), tuple(range(k))[::-1], tuple(range(1, k, 2)) + tuple(range(0, k, 2))]
            for o in orders:
                ctx.step()
                case = dict(routine=name, workers=k, particles=n, order=o, inputs=c)
                perm = lambda its: [its[i] for i in o] if len(its) == k else list(its) if o == tuple(sorted(o)) else list(its)[::-1]
                with ctx.guard(case), quiet():
                    got, mon, same = explore(parallel, kw, k, perm, leaf=slow and not (n <= 3 and k == 2))
                    ctx.state(name, k, n, o, c)
                    ctx.trace()
                    bad = mon.conflicts()
                    ctx.check(not bad, f"race:{name}", lambda: f"{case}: shares {bad[0][0][1]} and {bad[0][1][1]} touch {bad[0][2]} common elements, at least one of them writing", case)
                    ctx.check(close(got, want), f"schedule:{name}", lambda: f"{case}: {got.tolist()}, serial {want.tolist()}", case)
                    ctx.check(same, f"inputs-changed:{name}", lambda: f"{case}: the arguments were altered", case)
                    ctx.count("shares", mon.iterations)


def worker(threads, names, thorough):
    """in a process of its own: compiled parallel routines against the serial ones"""
    import numba

    res = dict(fail=[], states=[], steps=0)
    for name in names:
        serial, parallel = routines()[name]
        for n in range(0, 2 * threads + 3):
            for c, kw in enumerate(cases(name, n)):
                if name == "slice.nearest_neighbours" and n == 0:
                    continue
                with quiet():
                    want = serial(**{k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
                for active in range(1, threads + 1):
                    numba.set_num_threads(active)
                    for rep in range(20 if thorough else 3):
                        a = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
                        got = parallel(**a)
                        res["steps"] += 1
                        if not close(got, want) or got.dtype != want.dtype:
                            res["fail"].append((f"compiled:{name}", f"{name}, {threads} threads, {active} active, {n} particles, input {c}: {got.tolist()} ({got.dtype}), serial {want.tolist()} ({want.dtype})"))
                        if name != "slice.nearest_neighbours" and not all(np.array_equal(a[k], kw[k]) for k in kw):
                            res["fail"].append((f"inputs-changed:{name}", f"{name}, {threads} threads, {n} particles: the arguments were altered"))
                    res["states"].append((name, threads, active, n, c))
    return res


def public_worker(names, scratch):
    """the public functions with and without parallel"""
    from swiftsimio.visualisation.power_spectrum import render_to_deposit
    from swiftsimio.visualisation.projection import project_gas
    from swiftsimio.visualisation.slice import slice_gas
    from swiftsimio.visualisation.volume_render import render_gas
    from mc.core import Ctx
    from mc.vis import ca, dataset, fill

    res = dict(fail=[], states=[], steps=0)
    for n in (1, 2, 5, 11):
        d = dataset(Ctx("C17", "quick", 1, scratch), n=n)
        i = np.arange(n)
        pos = np.stack([(1.1 + 3.13 * i) % 10, (9.3 + 2.17 * i) % 10, (4.5 + 4.1 * i) % 10], axis=1)
        h = 0.5 + 0.4 * (i * 2 % 5)
        fill(d, pos, h, 1.0 + 3 * i)
        mask = i % 3 != 2
        flat = ca([2.5, 7.5, 5.0, 7.5])
        cube = ca([2.5, 7.5, 5.0, 10.0, -2.5, 2.5])
        from swiftsimio.visualisation.rotation import rotation_matrix_from_vector

        R = rotation_matrix_from_vector(np.array([1.0, 2.0, 3.0]), "z")
        rot = dict(rotation_matrix=R, rotation_center=ca([5.0, 4, 3]), periodic=False)
        calls = []
        for name in names:
            kind, _, b = name.partition(".")
            if kind == "projection":
                for kw in (dict(), dict(region=flat), dict(mask=mask), dict(periodic=False), rot, dict(project=None)):
                    calls.append((name, kw, lambda kw=kw, b=b, **p: project_gas(d, 4, backend=b, **kw, **p)))
            elif kind == "slice":
                for kw in (dict(z_slice=ca(4.0)), dict(region=flat), dict(mask=mask), dict(periodic=False), rot):
                    calls.append((name, kw, lambda kw=kw, b=b, **p: slice_gas(d, 4, backend=b, **kw, **p)))
            elif kind == "volume":
                for kw in (dict(), dict(region=cube), dict(mask=mask), dict(periodic=False), rot):
                    calls.append((name, kw, lambda kw=kw, **p: render_gas(d, 4, **kw, **p)))
            else:
                for kw in (dict(), dict(folding=1), dict(folding=2)):
                    calls.append((name, kw, lambda kw=kw, **p: render_to_deposit(d.gas, 4, **kw, **p)))
        for name, kw, f in calls:
            with quiet():
                s, p = f(), f(parallel=True)
            res["steps"] += 1
            res["states"].append((name, n, sorted(kw)))
            ok = close(np.asarray(p), np.asarray(s)) and type(s) is type(p)
            ok = ok and getattr(s, "units", None) == getattr(p, "units", None) and getattr(s, "comoving", None) == getattr(p, "comoving", None)
            ok = ok and str(getattr(s, "cosmo_factor", None)) == str(getattr(p, "cosmo_factor", None))
            if not ok:
                res["fail"].append((f"public:{name}", f"{name}, {n} particles, {sorted(kw)}: {p!r}, serial {s!r}"))
    return res


def compiled(ctx, item):
    kind, threads, names = item
    env = dict(os.environ, NUMBA_NUM_THREADS=str(threads))
    code = "import sys, json, warnings; warnings.simplefilter('ignore'); import checks.C17 as c; a = json.loads(sys.argv[1]); r = getattr(c, a[0])(*a[1]); print('RESULT' + json.dumps(r))"
    args = [threads, names, ctx.thorough] if kind == "worker" else [names, ctx.scratch]
    r = subprocess.run([sys.executable, "-c", code, json.dumps([kind, args])], env=env, capture_output=True, text=True, timeout=800)
    out = [l for l in r.stdout.splitlines() if "RESULT" in l]
    if r.returncode or not out:
        err = r.stderr.strip().splitlines()
        if r.returncode < 0:
            ctx.fail("process-crashed", f"{names} with {threads} threads: ended by signal {-r.returncode}")
        elif any("/swiftsimio/" in l for l in err):
            ctx.fail(f"exception:{names[0]}", f"{threads} threads: " + "\n".join(err[-8:]))
        else:
            raise RuntimeError(r.stderr[-3000:])
        return
    res = json.loads(out[-1].split("RESULT", 1)[1])
    ctx.step(res["steps"])
    ctx.trace(len(res["states"]))
    for s in res["states"]:
        ctx.state(kind, *map(str, s))
    for key, msg in res["fail"]:
        ctx.fail(key, msg)


def dispatch(ctx, item):
    dict(schedules=schedules, compiled=compiled)[item[0]](ctx, item[1])


def run(ctx):
    names = list(routines())
    items = [("compiled", ("public_worker", 3, g)) for g in (names[0:2], names[2:4], names[4:6], names[6:8], names[8:])]
    groups = [names[:3], names[3:6], names[6:]]
    for k in (1, 2, 3, 8) if not ctx.thorough else range(1, 9):
        items += [("compiled", ("worker", k, g)) for g in groups]
    items += [("schedules", (n, k)) for k in range(8, 0, -1) for n in names]
    ctx.pmap(dispatch, items)
    ctx.sample(dict(routines=names))
