"""Check context shared by all checks: counters, violations, known findings, evidence.

A check module ``checks/<id>.py`` provides ``run(ctx)`` and, optionally, ``replay(case, ctx)``.
It exhaustively enumerates a bounded space and reports to the context:

``ctx.state(key)``       a distinct canonical state / configuration was reached
``ctx.step(n)``          n transitions (calls into the real code) were executed
``ctx.trace(n)``         n complete traces were run on the implementation and compared with the model
``ctx.sample(obj)``      keep an example case for the evidence file
``ctx.fail(key, msg, case)``  the property is broken; ``key`` names the defect (specific call site /
                          input class) and is what the known-findings file matches exactly
"""

import contextlib
import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(np.asarray(x).tolist())
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.bytes_) else repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status", "known") == "known":
                    out[d["key"]] = d.get("what", "")
    return out


class Ctx:
    MAX_PRINT = int(os.environ.get("MC_PRINT", "5"))

    def __init__(self, pid, tier, seed, scratch, quiet=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.auto = []  # some states, for checks which keep no samples of their own
        self.failures = {}  # key -> (count, msg, case)
        self.counters = {}
        self.quiet = quiet
        self.t0 = time.time()
        self.notes = []
        self.out = []  # values handed back by workers

    # -- recording -------------------------------------------------------------
    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        if new and len(self.states) in (1, 50, 2000):
            self.auto.append(jsonable({"state": key}))
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 8:
            self.samples.append(jsonable(obj))

    def fail(self, key, msg, case=None):
        n, m, c = self.failures.get(key, (0, None, None))
        if n == 0:
            m, c = str(msg)[:2000], jsonable(case)
        self.failures[key] = (n + 1, m, c)

    def check(self, cond, key, msg, case=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, case)
        return bool(cond)

    def unexpected(self, e, case=None):
        """An exception where the explored code gave none before is a violation, not a check error.

        It comes out of the code under test, or the oracle could not read the result for what it should be
        (nothing of the kind happens on a tree where the property holds: exploration is deterministic).
        """
        if isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE)):
            return False
        frames = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
        hit = [f for f in frames if os.path.realpath(f.filename).startswith(repo)]
        self.fail(
            f"exception:{type(e).__name__}:{hit[-1].name}" if hit else f"unreadable-result:{type(e).__name__}:{frames[-1].name if frames else ''}",
            "".join(traceback.format_exception(e))[-1800:],
            case,
        )
        return True

    @contextlib.contextmanager
    def guard(self, case=None):
        try:
            yield
        except Exception as e:
            if not self.unexpected(e, case):
                raise

    # -- parallel exploration --------------------------------------------------
    def merge(self, sub):
        self.states |= sub["states"]
        self.transitions += sub["transitions"]
        self.traces += sub["traces"]
        self.out += sub["out"]
        for s in sub["samples"]:
            if len(self.samples) < 8:
                self.samples.append(s)
        self.auto = (self.auto + sub["auto"])[:8]
        for k, v in sub["counters"].items():
            self.count(k, v)
        for k, (n, m, c) in sub["failures"].items():
            n0, m0, c0 = self.failures.get(k, (0, None, None))
            self.failures[k] = (n0 + n, m0 or m, c0 if n0 else c)

    def pmap(self, fn, items, procs=None):
        """Run fn(subctx, item) for every item in forked workers; merge all counters."""
        items = list(items)
        procs = procs or int(os.environ.get("MC_PROCS", "8"))
        if procs <= 1 or len(items) <= 1:
            for it in items:
                with self.guard(it):
                    fn(self, it)
            return
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool

        w = _Worker(fn, self.pid, self.tier, self.seed, self.scratch)
        with ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as pool:
            todo = {pool.submit(w, it): it for it in items}
            try:
                for f in as_completed(todo):
                    sub = f.result()
                    if "error" in sub:
                        pool.shutdown(wait=False, cancel_futures=True)
                        raise RuntimeError("worker failed:\n" + sub["error"])
                    self.merge(sub)
            except BrokenProcessPool:
                # memory corruption in compiled code ends the process
                self.fail("process-crashed", f"a process exploring one of {len(items)} parts was ended by a signal", None)

    def finish(self, meta):
        known = load_known(self.pid)
        replay_dir = os.path.join(VERIF, "evidence", "replay")
        new = []
        for key, (n, msg, case) in self.failures.items():
            if key in known:
                print(f"KNOWN-FINDING: property={self.pid} {key}: {known[key]}")
            else:
                new.append((key, n, msg, case))
        for i, (key, n, msg, case) in enumerate(new):
            os.makedirs(replay_dir, exist_ok=True)
            tag = hashlib.blake2b(key.encode(), digest_size=5).hexdigest()
            path = os.path.join(replay_dir, f"{self.pid}-{tag}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": self.pid,
                        "key": key,
                        "message": msg,
                        "occurrences": n,
                        "case": case,
                    },
                    f,
                    indent=1,
                )
            if i < self.MAX_PRINT:
                print(f"  [{key}] x{n}: {msg}")
                print(f"VIOLATION property={self.pid} replay={path}")
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": meta.get("level", "model_checking"),
            "coverage": {
                "states": len(self.states),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or self.auto or ["none"],
                "exhaustive": bool(meta.get("exhaustive", True)),
                "explanation": meta.get("explanation", "").strip(),
                **{f"n_{k}": v for k, v in sorted(self.counters.items())},
            },
            "assumptions": meta.get("assumptions", []) + self.notes,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        print(
            f"{self.pid} {self.tier}: states={len(self.states)} transitions={self.transitions}"
            f" traces={self.traces} {dict(sorted(self.counters.items()))} failures={len(new)}"
            f" known={len(self.failures) - len(new)} wall={ev['wall_s']}s"
        )
        return 1 if new else 0


class _Worker:
    def __init__(self, fn, pid, tier, seed, scratch):
        self.fn, self.args = fn, (pid, tier, seed, scratch)

    def __call__(self, item):
        c = Ctx(*self.args)
        try:
            self.fn(c, item)
        except Exception as e:
            if not c.unexpected(e, item):
                return {"error": f"item={item!r}\n" + traceback.format_exc()}
        return {
            "states": c.states,
            "transitions": c.transitions,
            "traces": c.traces,
            "out": c.out,
            "samples": c.samples,
            "auto": c.auto,
            "counters": c.counters,
            "failures": c.failures,
        }


@contextlib.contextmanager
def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="swv_", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def assert_repo():
    import swiftsimio

    repo = os.environ.get("VERIF_REPO", "/repo")
    f = os.path.realpath(swiftsimio.__file__)
    assert f.startswith(os.path.realpath(repo) + os.sep), f


def main(argv):
    pid, tier = argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import warnings

    warnings.simplefilter("ignore")
    assert_repo()
    from mc import speed

    speed.install()
    with scratch_dir() as d:
        mod = importlib.import_module(f"checks.{pid}")
        ctx = Ctx(pid, tier, seed, d)
        with ctx.guard():
            mod.run(ctx)
        if (ctx.traces == 0 or len(ctx.states) < 2) and not ctx.failures:
            print(f"{pid}: vacuous exploration", file=sys.stderr)
            return 3
        return ctx.finish(getattr(mod, "META", {}))
