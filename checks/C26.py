"""C26: the command line tool reports what each file says, and names what is no SWIFT file."""

import contextlib
import io
import itertools
import os
import re
import subprocess
import sys

import h5py
import numpy as np
import unyt

import swiftsimio as sw
from swiftsimio import swiftsnap as tool
from mc.snap import GYRISH, F, write_field, write_header, write_units

META = dict(
    level="model_checking",
    exhaustive=True,
    explanation="Every subset of the optional groups x storage forms of their entries x header values, and every ordered list of up to three files from a pool (of several kinds, cosmological or "
    "not, masked subsets, files of other codes, damaged, missing) x every combination and position of the options, through the real entry point with its output captured, compared with the "
    "entries written.",
    assumptions=["the header states redshift, scale factor and time, as SWIFT's always does"],
)
NAMES = ["Gas", "Dark Matter", "Boundary", "Sinks", "Stars", "Black Holes", "Neutrinos", "Sidm"]
GROUPS = ["Cosmology", "GravityScheme", "HydroScheme", "Policy", "SubgridScheme"]


def call(*args):
    old, out, code = sys.argv, io.StringIO(), 0
    sys.argv = ["swiftsnap", *args]
    try:
        with contextlib.redirect_stdout(out):
            tool.swiftsnap()
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv = old
    return code, out.getvalue()


def put(s, form):
    return np.bytes_(s.encode()) if form == "b" else s


def build(path, spec):
    """spec: dict(a, n, groups, form, run, out, date, policies, schemes, code)"""
    form = spec["form"]
    with h5py.File(path, "w") as h:
        extra = {"RunName": put(spec["run"], form), "SnapshotDate": put(spec["date"], form), "SelectOutput": put(spec["select"], form)}
        write_header(h, box=(1.0, 2.0, 3.0), numpart=spec["n"], a=spec["a"], out=spec["out"].encode(), time=spec["time"], extra=extra)
        write_units(h, t=spec["tunit"])
        c = h.create_group("Code")
        c.attrs["Code"] = np.bytes_(spec.get("code", "SWIFT").encode())
        for k in ("Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library"):
            c.attrs[k] = np.bytes_(f"{k} {spec['tag']}".encode())
        if "Cosmology" in spec["groups"]:
            g = h.create_group("Cosmology")
            at = {"Cosmological run": 1 if spec["a"] != 1 else 0, "H0 [internal units]": 70.0 + spec["tag"], "Omega_b": 0.05, "Omega_lambda": 0.7, "Omega_m": 0.3, "Omega_r": 0.0, "Omega_k": 0.0, "w": -1.0, "w_0": -1.0, "w_a": 0.0}
            for k, v in at.items():
                g.attrs[k] = np.array([v])
        if "Policy" in spec["groups"]:
            g = h.create_group("Policy")
            for k, v in spec["policies"].items():
                g.attrs[k] = np.array([v], "i4") if form == "b" else v
        for k in ("GravityScheme", "HydroScheme"):
            if k in spec["groups"]:
                g = h.create_group(k)
                if spec["schemes"]:
                    g.attrs["Scheme"] = put(f"{k} of {spec['tag']} ä", form)
        if "SubgridScheme" in spec["groups"]:
            g = h.create_group("SubgridScheme")
            for k, v in spec["subgrid"].items():
                g.attrs[k] = put(v, form)
            g.create_group("NamedColumns")
        for i, n in enumerate(spec["n"]):
            if n:
                write_field(h.create_group(f"PartType{i}"), "Masses", F(np.arange(float(min(n, 9))), M=1))


def four(x):
    """four significant figures, as printf would"""
    return "%.4g" % x


def flat(s):
    return "".join(s.split())


def expected(path, spec):
    """what the report on a file must contain, in this order"""
    g = spec["groups"]
    act = [k for k, v in sorted(spec["policies"].items()) if v] if "Policy" in g else []
    out = [spec["run"], f"Written at: {spec['shown']}"]
    counts = [f"{n}: {four(spec['n'][i] if i < len(spec['n']) else 0)}" for i, n in enumerate(NAMES)]
    out += [f"Output type: {spec['out']}, Output selection: {spec['select']}"]
    t = spec["tag"]
    state = [f"Compiler Name {t} (Compiler Version {t})", f"MPI library {t}", f"SWIFT (Git Branch {t})", f"Git Revision {t}", f"Git Date {t}"]
    z = 1.0 / spec["a"] - 1.0
    state += [f"Simulation state: z={four(z)}, a={four(spec['a'])}, t="]
    state += ["Cosmology: None" if "Cosmology" not in g or spec["a"] == 1 else f"Cosmology: {sw.load(path).metadata.cosmology}"]
    for k, label in (("GravityScheme", "Gravity scheme"), ("HydroScheme", "Hydrodynamics scheme")):
        state += [f"{label}: " + (f"{k} of {t} ä" if k in g and spec["schemes"] else "None")]
    sub = {k.replace("Model", "model"): v for k, v in spec["subgrid"].items()} if "SubgridScheme" in g else {}
    return out, act, counts, state, sub


def report(ctx, text, path, spec, case):
    """one file's report"""
    order, act, counts, state, sub = expected(path, spec)
    pos = 0
    t = flat(text)
    for s in order + state:
        k = t.find(flat(s), pos)
        if not ctx.check(k >= 0, f"report:{s.split(':')[0].split(' of ')[0].rstrip('0123456789. ')[:24] if s != spec['run'] else 'run name'}", lambda: f"{case}: {s!r} not in {text!r}", case):
            return
        pos = k + len(flat(s))
    m = re.search(r"t=(\S+) (\S+)$", text, re.M)
    if ctx.check(m is not None, "report:time", lambda: f"{case}: {text!r}", case):
        got, want = float(unyt.unyt_quantity(float(m.group(1)), m.group(2)).to_value("s")), spec["time"] * spec["tunit"]
        ctx.check(abs(got / want - 1) < 1e-3, "report:time", lambda: f"{case}: {m.group(0)!r} is {got} s rather than {want} s", case)
    line = [x for x in text.split("\n\n") if "Active policies" in x]
    ctx.check(len(line) == 1, "report:policies", lambda: f"{case}: {text!r}", case)
    got = flat(line[0].split("Active policies:")[1]) if line else ""
    ctx.check(sorted(got.split(",")) == sorted(flat(p) for p in act) or (not act and got == ""), "report:policies", lambda: f"{case}: {got!r} rather than {act}", case)
    line = [x for x in text.split("\n\n") if "Number of particles" in x]
    got = flat(line[0].split("Number of particles:")[1]) if line else ""
    ctx.check(got.split(",") == [flat(c) for c in counts], "report:counts", lambda: f"{case}: {got!r} rather than {counts}", case)
    tail = text[text.index("Hydrodynamics scheme:"):].splitlines()[1:] if "Hydrodynamics scheme:" in text else []
    want = sorted(f"{k}: {v}" for k, v in sub.items())
    ctx.check(sorted(x for x in tail if x.strip())[: len(want) + 1] == want, "report:subgrid", lambda: f"{case}: {tail} rather than {want}", case)


DATES = [("12:34:56 2020-01-02 UTC", "2020-01-02 12:34:56"), ("yesterday", "yesterday")]


def spec_of(i, groups=GROUPS, form="b", schemes=True):
    a = (0.5, 1.0, 0.1, 1 / 3, 0.987654321)[i % 5]
    n = [(3, 0, 0, 0, 2, 0, 0, 0), (3, 12345678, 0, 0, 0, 1, 1234, 0), (0, 99999, 0, 4, 0, 0, 0, 123456), (9, 0, 10000)][i % 4]
    date, shown = DATES[i % 2]
    return dict(a=a, n=n, groups=tuple(groups), form=form, run=f"run {i} é", out=("FullVolume", "VolumeSubset", "FullVolume")[i % 3], date=date, shown=shown, select=("Default", "Snipshot")[i % 2],
                time=(0.0123456, 13.77777, 1e-5, 4.0)[i % 4], tag=i, schemes=schemes, tunit=(GYRISH, 1.0, 3.15576e13)[i % 3],
                policies={"cosmological integration": i % 2, "hydro": 1, "keep": 0, "self gravity": (i // 2) % 2, "steal": 1, "black-hole stuff with a long name to wrap": (i // 3) % 2, "zoom": i % 3 == 0},
                subgrid={"Chemistry Model": f"chem {i}", "Cooling Model": "None", "Tracers": f"tracer {i} ü", "Entropy floor": "EAGLE"} if i % 5 else {})


def single(ctx, item):
    for i, groups, form, schemes in item:
        path = os.path.join(ctx.scratch, f"one{os.getpid()}.hdf5")
        spec = spec_of(i, groups, form, schemes)
        case = dict(kind="single", groups=groups, form=form, schemes=schemes, i=i)
        ctx.state("single", i, groups, form, schemes)
        ctx.trace()
        build(path, spec)
        with ctx.guard(case):
            code, out = call(path)
            ctx.step()
            if ctx.check(code == 0, "exit-status", lambda: f"{case}: {code} {out!r}", case):
                report(ctx, out, path, spec, case)
            for flag, want in (("-r", 1 / spec["a"] - 1), ("--redshift", 1 / spec["a"] - 1), ("-a", spec["a"]), ("--scale-factor", spec["a"])):
                code, out = call(flag, path)
                ctx.step()
                ctx.check((code, out) == (0, four(want) + "\n"), f"option:{flag}", lambda: f"{case}: {flag} gave {code} {out!r}", case)
        os.remove(path)


POOL = ["A", "B", "C", "D", "other", "damaged", "text", "missing", "no code", "empty"]
GOOD = "ABCD"


def pool(d):
    out = {}
    for k, i in zip(GOOD, (0, 1, 7, 3)):
        spec = spec_of(i, GROUPS if k != "D" else GROUPS[:2])
        p = os.path.join(d, f"{k}.hdf5")
        build(p, spec)
        out[k] = (p, spec)
    p = os.path.join(d, "other.hdf5")
    build(p, dict(spec_of(2), code="OTHER"))
    out["other"] = (p, None)
    p = os.path.join(d, "damaged.hdf5")
    with open(out["A"][0], "rb") as f, open(p, "wb") as g:
        g.write(f.read()[:700])
    out["damaged"] = (p, None)
    p = os.path.join(d, "text.txt")
    with open(p, "w") as g:
        g.write("# not HDF5\n")
    out["text"] = (p, None)
    out["missing"] = (os.path.join(d, "missing.hdf5"), None)
    p = os.path.join(d, "nocode.hdf5")
    with h5py.File(p, "w") as h:
        h.create_group("Header")
    out["no code"] = (p, None)
    p = os.path.join(d, "empty.hdf5")
    open(p, "w").close()
    out["empty"] = (p, None)
    return out


def lists(ctx, item):
    d = os.path.join(ctx.scratch, f"pool{os.getpid()}")
    if not os.path.isdir(d):
        os.mkdir(d)
    files = pool(d)
    for names in item:
        paths = [files[k][0] for k in names]
        bad = [k for k in names if k not in GOOD]
        for flags in ([], ["-r"], ["-a"]):
            for where in range(len(paths) + 1) if flags else (0,):
                args = paths[:where] + flags + paths[where:]
                if 0 < where < len(paths):
                    continue  # (options between files end the list)
                case = dict(kind="list", files=names, args=[os.path.basename(a) for a in args])
                ctx.state("list", names, flags, where)
                ctx.trace()
                ctx.step()
                with ctx.guard(case):
                    code, out = call(*args)
                    if bad:
                        ctx.check(code == 1 and out == f"{files[bad[0]][0]} is not a SWIFT snapshot.\n", "refusal", lambda: f"{case}: {code} {out!r}", case)
                        continue
                    ctx.check(code == 0, "exit-status", lambda: f"{case}: {code} {out!r}", case)
                    specs = [files[k][1] for k in names]
                    if flags == ["-r"]:
                        ctx.check(out.split() == [four(1 / s["a"] - 1) for s in specs], "list:-r", lambda: f"{case}: {out!r}", case)
                    elif flags == ["-a"]:
                        ctx.check(out.split() == [four(s["a"]) for s in specs], "list:-a", lambda: f"{case}: {out!r}", case)
                    else:
                        # a report starts at its run name, the line before "Written at"
                        lines = out.splitlines(keepends=True)
                        starts = [i - 1 for i, x in enumerate(lines) if x.startswith("Written at:")]
                        if ctx.check(len(starts) == len(names), "list:reports", lambda: f"{case}: {len(starts)} reports", case):
                            for s, e, spec, p in zip(starts, starts[1:] + [len(lines)], specs, paths):
                                report(ctx, "".join(lines[s:e]), p, spec, case)


def process(ctx, item):
    """the same through a process of its own"""
    d = os.path.join(ctx.scratch, f"proc{os.getpid()}")
    if not os.path.isdir(d):
        os.mkdir(d)
    files = pool(d)
    for args in item:
        case = dict(kind="process", args=args)
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from swiftsimio.swiftsnap import swiftsnap; swiftsnap()", *[files[a][0] if a in files else a for a in args]], capture_output=True, text=True)
        code, out = call(*[files[a][0] if a in files else a for a in args])
        ctx.step(2)
        ctx.state("process", tuple(args))
        ctx.trace()
        ctx.check((r.returncode, r.stdout) == (code, out), "process", lambda: f"{case}: {r.returncode} {r.stdout[-300:]!r} {r.stderr[-300:]!r} rather than {code} {out[-300:]!r}", case)


def dispatch(ctx, job):
    globals()[job[0]](ctx, job[1])


def run(ctx):
    cases = []
    for k in range(len(GROUPS) + 1):
        for g in itertools.combinations(GROUPS, k):
            for form, schemes in itertools.product("bs", (True, False)):
                for i in range(20 if ctx.thorough else 4):
                    cases.append((len(cases) % 20 if not ctx.thorough else i, g, form, schemes))
    top = 3 if ctx.thorough else 2
    seqs = [s for k in range(1, top + 1) for s in itertools.product(POOL, repeat=k)] + [("A", "B", "C"), ("C", "A", "A"), ("D", "C", "B", "A"), ("A", "A", "A")]
    jobs = [("single", cases[i::16]) for i in range(16)] + [("lists", seqs[i::16]) for i in range(16)]
    jobs += [("process", [["A", "B"], ["-r", "A", "C"]]), ("process", [["missing", "A"], ["-a", "D"]])]
    ctx.pmap(dispatch, jobs)
