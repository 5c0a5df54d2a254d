"""C28: packages that are not there change nothing but what they are needed for."""

import itertools
import os
import pickle
import subprocess
import sys

import h5py
import numpy as np

from mc.snap import GYRISH, F, Snap

META = dict(
    level="model_checking",
    exhaustive=True,
    explanation="Every combination of absent packages (numba, scipy, astropy, matplotlib, tqdm, hdfstream, PIL) x every kind of operation (loading, masking, subsets, writing, statistics, arithmetic, "
    "metadata, the command line tool, each image backend serial and parallel, spectra, smoothing lengths, rotations, colour maps), each combination in an interpreter of its own, compared with the "
    "interpreter where all are there and with the table of what needs what.",
    assumptions=["absence is that of the import: the packages' own dependencies on each other are theirs"],
)
PACKAGES = ["numba", "scipy", "astropy", "matplotlib", "tqdm", "hdfstream", "PIL"]
NEEDS = {
    "deposit": {"scipy"}, "spectrum": {"scipy"}, "lengths": {"scipy"}, "cut nearest": {"scipy"}, "astropy": {"astropy"}, "visualised": {"matplotlib", "PIL"}, "options": {"matplotlib", "PIL"},
    "colours": {"matplotlib", "PIL"}, "project gpu": {"a graphics card"},
}
IMAGES = [f"project {b}" for b in ("histogram", "fast", "renormalised", "subsampled", "subsampled_extreme", "reference", "gpu")] + ["project fast parallel", "cut", "cut parallel", "cut nearest", "render", "render parallel",
          "deposit", "spectrum", "visualised", "options", "colours", "rotation", "lengths"]
PLAIN = ["load", "mask_cells", "mask_rows", "subset", "write", "generated_lengths", "statistics", "arrays", "astropy", "cosmology", "metadata", "tool", "checks"]


def build(folder):
    def more(h, s):
        g = h.create_group("Cosmology")
        for k, v in {"H0 [internal units]": 67.74 * 1e5 / 3.0856775814913674e24 * GYRISH, "Omega_m": 0.31, "Omega_lambda": 0.69, "Omega_b": 0.045, "Omega_r": 9e-5, "Omega_k": 0.0, "w_0": -1.0, "w_a": 0.0, "h": 0.6774,
                     "Redshift": 1.0, "Scale-factor": 0.5, "Cosmological run": 1, "T_CMB_0 [K]": 2.7255, "N_eff": 3.044, "N_ur": 1.0196, "M_nu_eV": [0.05, 0.12], "deg_nu": [1.0, 1.0]}.items():
            g.attrs[k] = np.atleast_1d(v)
        c = h.create_group("Code")
        for k in ("Code", "Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library"):
            c.attrs[k] = np.bytes_(b"SWIFT")

    def fields(p, n, s):
        return {"Velocities": F(np.arange(3.0 * n).reshape(n, 3), L=1, t=-1), "SmoothingLengths": F(0.2 + np.arange(n) % 3 * 0.3, L=1, a=1), "Densities": F(np.arange(n) + 1.0, M=1, L=-3, a=-3),
                "Fractions": F(np.arange(2.0 * n).reshape(n, 2), columns=["Hydrogen", "Helium"])}

    Snap(folder + "/snap.hdf5", box=(4.0, 4.0, 4.0), ncell=(2, 2, 1), counts=dict(PartType0=[3, 2, 4, 1], PartType1=[1, 0, 2, 2]), fields=fields, extra=more)
    with open(folder + "/statistics.txt", "w") as f:
        f.write("# (0)  Simulation step\n# (1)  Time since Big Bang.\n#      Unit = 3.08568e+19 s\n# (2)  Total mass.\n#      Unit = 1.98848e+43 g\n#\n")
        f.write("#    (0)    (1)    (2)\n#    Step    Time    Total mass\n")
        for i in range(3):
            f.write(f"  {i}  {i * 0.5}  {i + 2.5}\n")


def probe(folder, absent, ops, timeout=800):
    out = os.path.join(folder, "out-" + ("-".join(absent) or "none") + f"-{len(ops)}.pkl")
    script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "absent.py")
    r = subprocess.run([sys.executable, script, folder, ",".join(absent), out, *ops], capture_output=True, text=True, timeout=timeout, cwd=folder, env={**os.environ, "NUMBA_NUM_THREADS": "2"})
    if not os.path.exists(out):
        return r.stdout[-500:] + r.stderr[-1500:], r.returncode
    with open(out, "rb") as h:
        got = pickle.load(h)
    os.remove(out)
    return got, r.returncode


def same(x, y):
    if type(x) is not type(y) and not (np.isscalar(x) and np.isscalar(y)):
        return False
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, (np.ndarray, np.generic, float)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind == "f":
            big = np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 0
            return np.allclose(x, y, rtol=1e-5, atol=2e-6 * big, equal_nan=True)
        return np.array_equal(x, y)
    return x == y


def combination(ctx, item):
    absent, ops, want = item
    folder = os.path.join(ctx.scratch, f"c{os.getpid()}")
    if not os.path.exists(folder):
        os.makedirs(folder)
        build(folder)
    case = dict(absent=list(absent))
    ctx.state(tuple(absent), len(ops))
    got, code = probe(folder, absent, ops)
    if not ctx.check(not isinstance(got, str), "import", lambda: f"without {absent}: the package cannot be used (exit status {code}): {got}", case):
        return
    printed, there, results = got
    if there:
        raise RuntimeError(f"{there} were found although made absent")
    ctx.check(("numba" in printed) == ("numba" in absent), "notice", lambda: f"without {absent}: importing prints {printed!r}", case)
    gone = set(absent) | {"a graphics card"}
    for k, r in results.items():
        ctx.step()
        ctx.trace()
        lacking = NEEDS.get(k, set()) & gone
        if lacking:
            ctx.check(r[0] == "error", f"not-refused:{k}", lambda: f"without {absent}: {k} gives {r} although it needs {lacking}", case)
            if k in ("lengths", "cut nearest"):
                ctx.check(r[0] != "error" or "ImportError" in r[1], f"refusal:{k}", lambda: f"without {absent}: {k} fails with {r}", case)
            continue
        if not ctx.check(r[0] == "value", f"fails:{k}", lambda: f"without {absent}: {k} fails: {r}", case):
            continue
        w = want[k]
        if k == "cosmology" and "astropy" in gone:
            ctx.check(r[1][1] == "raw" and same(r[1][0], w[1][0]), "raw-cosmology", lambda: f"without {absent}: {r}", case)
            continue
        ctx.check(same(r[1], w[1]), f"differs:{k}", lambda: f"without {absent}: {k} gives {r[1]} rather than {w[1]}", case)


def run(ctx):
    folder = os.path.join(ctx.scratch, "all")
    os.makedirs(folder)
    build(folder)
    got, code = probe(folder, (), PLAIN + IMAGES)
    if isinstance(got, str):
        ctx.fail("import", f"the package cannot be used (exit status {code}): {got}")
        return
    want = got[2]
    for k in PLAIN + IMAGES:
        if k not in want:
            raise RuntimeError(f"no operation {k}")
        ctx.check((want[k][0] == "error") == (k == "project gpu"), f"fails:{k}", lambda: f"with everything there: {k}: {want[k]}", dict(absent=[]))
    items = []
    for n in range(len(PACKAGES) + 1):
        for c in itertools.combinations(PACKAGES, n):
            # without the compiler everything is quick to run; with it, image routines are compiled in every interpreter
            whole = "numba" in c or ctx.thorough or n <= 1
            if whole:
                items += [(c, PLAIN + IMAGES, want)]
            else:
                items.append((c, PLAIN + ["rotation", "lengths", "cut nearest", "visualised", "options", "colours", "project histogram", "project gpu", "deposit"], want))
    ctx.pmap(combination, items)
    ctx.sample(dict(packages=PACKAGES, operations=PLAIN + IMAGES, needs={k: sorted(v) for k, v in NEEDS.items()}))
