"""C12: the snapshot writer refuses what it cannot represent, under every history of assignments, deletions, generation and writing."""

import itertools
import os

import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio import Writer
from swiftsimio.objects import cosmo_array
from mc.vis import ca

META = dict(
    level="model_checking",
    explanation="Breadth-first exploration of every history of valid and invalid assignments, deletions, smoothing-length generation and writes over two particle types, "
    "from empty, partly filled and complete writers, in lock step with a reference model of what each field holds; each distinct model state is expanded once, by replaying a "
    "shortest history on a fresh writer, and every write is compared with the model's verdict: a complete file with exactly the model's contents and unique identifiers, or an error and no readable snapshot.",
    assumptions=["states with equal field contents in the model have equal futures (the contents are compared with the writer's after every step)"],
)
A = 0.5
BOX = dict(cube=[8.0, 8.0, 8.0], brick=[8.0, 4.0, 8.0])
FIELDS = dict(gas=["coordinates", "velocities", "masses", "internal_energy", "smoothing_lengths"], dark_matter=["coordinates", "velocities", "masses"])
PT = dict(gas="PartType0", dark_matter="PartType1")
HANDLE = dict(coordinates="Coordinates", velocities="Velocities", masses="Masses", smoothing_lengths="SmoothingLengths", internal_energy="InternalEnergy", particle_ids="ParticleIDs")
UNIT = dict(coordinates=("Mpc", 1), velocities=("Mpc/Gyr", 0), masses=("1e10*Msun", 0), internal_energy=("Mpc**2/Gyr**2", -2), smoothing_lengths=("Mpc", 1))
IDS = dict(low=[1, 2, 3], high=[7, 9, 8], overlap=[3, 4, 5], two=[11, 12])
BAD_IDS = dict(zero=[0, 1, 2], negative=[1, -2, 3], repeated=[4, 5, 4])


def val(t, f, n, alt=0, dim=3):
    k = 1 + (t == "gas") + 10 * alt
    i = np.arange(n, dtype=float)
    return k + i[:, None] + np.arange(dim) / 4 if f in ("coordinates", "velocities") else k + i / 2


def good(t, f, n, alt=0, frame=True, a=A, unit=None, dim=3):
    u, e = UNIT[f]
    v = val(t, f, n, alt, dim)
    return ca(v if frame else v * a**e, u if unit is None else unit, e, a, frame)


def make(op):
    """the value an assignment operation gives"""
    _, t, f, kind = op
    if f == "particle_ids":
        if kind in IDS or kind in BAD_IDS:
            return cosmo_array(np.array({**IDS, **BAD_IDS}[kind]), "dimensionless", comoving=True, scale_factor=A, scale_exponent=0)
        if kind == "plain":
            return np.array([21, 22, 23])
        if kind == "scale":
            return cosmo_array(np.array([31, 32, 33]), "dimensionless", comoving=True, scale_factor=1.0, scale_exponent=0)
        if kind == "unit":
            return ca(np.array([1.0, 2.0, 3.0]), "kg", 0, A)
    if kind in ("3", "2"):
        return good(t, f, int(kind))
    if kind == "other":
        return good(t, f, 3, 1)
    if kind == "physical":
        return good(t, f, 3, 2, False)
    if kind == "shape":
        return good(t, f, 3, dim=2)
    if kind == "dims":
        return ca(val(t, f, 3), "K", UNIT[f][1], A)
    if kind == "scale":
        return good(t, f, 3, a=1.0)
    if kind == "array":
        return val(t, f, 3)
    if kind == "list":
        return val(t, f, 3).tolist()
    if kind == "none":
        return None
    if kind == "unyt":
        import unyt

        return unyt.unyt_array(val(t, f, 3), UNIT[f][0])
    if kind == "locked":
        return ca(val(t, f, 3), UNIT[f][0], UNIT[f][1] or 1, A, False, valid_transform=False)
    raise ValueError(op)


ACCEPT = {"3": (3, 0), "2": (2, 0), "other": (3, 1), "physical": (3, 2)}


class Model:
    """what each field holds: None, ('v', n, alt), ('shape', 3), ('h', n) or ids as a tuple"""

    def __init__(self, box):
        self.box = box
        self.s = {t: {f: None for f in fs + ["particle_ids"]} for t, fs in FIELDS.items()}

    def key(self):
        return self.box, repr(sorted((t, f, v) for t in self.s for f, v in self.s[t].items()))

    def expect(self, t, f):
        v = self.s[t][f]
        if v is None:
            return None
        if f == "particle_ids":
            return np.array(v, float)
        if v[0] == "shape":
            return val(t, f, 3, 0, 2)
        if v[0] == "h":
            return np.full(v[1], 2 * 8.0 / v[1] ** (1 / 3))
        return val(t, f, v[1], v[2])

    def length(self, v):
        return len(v) if v and not isinstance(v[0], str) else v[1]

    def apply(self, op):
        """True when the operation must succeed, False when it must be refused; the state is updated accordingly"""
        k = op[0]
        if k == "set":
            _, t, f, kind = op
            if f == "particle_ids":
                if kind in IDS:
                    self.s[t][f] = tuple(IDS[kind])
                    return True
                if kind == "plain":
                    self.s[t][f] = (21, 22, 23)
                    return True
                return False
            if kind in ACCEPT:
                self.s[t][f] = ("v", *ACCEPT[kind])
                return True
            if kind == "shape":
                self.s[t][f] = ("shape", 3)
                return True
            return False
        if k == "del":
            self.s[op[1]][op[2]] = None
            return True
        if k == "gen":
            t = op[1]
            if t != "gas" or self.s[t]["coordinates"] is None or self.box != "cube":
                return False
            self.s[t]["smoothing_lengths"] = ("h", self.length(self.s[t]["coordinates"]))
            return True
        if k == "write":
            return self.verdict() is not None

    def verdict(self):
        """None when the contents cannot be written, else the types to write and whether identifiers are to be made"""
        out, gen = {}, False
        for t, fs in FIELDS.items():
            s = self.s[t]
            if all(v is None for v in s.values()):
                continue
            if any(s[f] is None for f in fs):
                return None
            n = {self.length(v) for v in s.values() if v is not None}
            if len(n) > 1 or (s["coordinates"][0] == "shape") != (s["velocities"][0] == "shape"):
                return None
            out[t] = n.pop()
            gen = gen or s["particle_ids"] is None
        if not out:
            return None
        if not gen:
            ids = [i for t in out for i in self.s[t]["particle_ids"]]
            if len(set(ids)) < len(ids):
                return None
        return out, gen


STARTS = {
    "empty": [],
    "gas": [("set", "gas", f, "3") for f in FIELDS["gas"]],
    "both": [("set", t, f, "3") for t in FIELDS for f in FIELDS[t]],
    "all": [("set", t, f, "3") for t in FIELDS for f in FIELDS[t]] + [("set", "gas", "particle_ids", "low"), ("set", "dark_matter", "particle_ids", "high")],
    "nearly": [("set", t, f, "3") for t in FIELDS for f in FIELDS[t] if (t, f) not in (("gas", "smoothing_lengths"), ("dark_matter", "masses"))],
}


def alphabet(T):
    ops = [("write",), ("gen", "gas"), ("gen", "dark_matter")]
    for t in FIELDS:
        fs = FIELDS[t] if T else ["coordinates", "masses"]
        for f in fs:
            ops += [("set", t, f, k) for k in (("3", "2", "other", "physical", "dims", "scale", "array", "list", "none", "unyt", "locked") if T or f == "masses" else ("3", "2", "dims", "scale", "unyt", "locked"))]
            if f == "coordinates":
                ops.append(("set", t, f, "shape"))
            ops.append(("del", t, f))
        if not T:
            ops += [("del", t, "velocities"), ("set", t, "velocities", "3")]
            if t == "gas":
                ops += [("del", t, "smoothing_lengths"), ("set", t, "smoothing_lengths", "physical"), ("set", t, "internal_energy", "physical")]
        ops += [("set", t, "particle_ids", k) for k in (*IDS, *BAD_IDS, "plain", "scale", "unit")] + [("del", t, "particle_ids")]
    return ops


def same(x, want, t, f):
    if want is None:
        return x is None
    if x is None or type(x) is not cosmo_array or x.comoving is not True:
        return False
    v = np.asarray(x, float) if f == "particle_ids" else np.asarray(x.to_comoving_value(UNIT[f][0]), float)
    return v.shape == want.shape and bool(np.all(np.abs(v - want) <= 1e-12 * np.abs(want)))


def step(ctx, w, m, op, path, hist):
    """one operation on the writer and the model; False when they part"""
    ctx.step()
    case = dict(box=m.box, history=[list(o) for o in hist], operation=list(op))
    value = keep = None
    if op[0] == "set":
        value = make(op)
        keep = (repr(value), getattr(value, "units", None), getattr(value, "comoving", None))
    if op[0] == "write" and os.path.exists(path):
        os.unlink(path)
    must = m.apply(op)
    try:
        if op[0] == "set":
            setattr(getattr(w, op[1]), op[2], value)
        elif op[0] == "del":
            delattr(getattr(w, op[1]), op[2])
        elif op[0] == "gen":
            getattr(w, op[1]).generate_smoothing_lengths()
        else:
            w.write(path)
        err = None
    except Exception as e:
        err = e
    ok = ctx.check((err is None) is must, "refused" if must else "accepted", lambda: f"{case}: " + (f"refused with {type(err).__name__}: {err}" if must else "accepted"), case)
    if op[0] == "set":
        ctx.check((repr(value), getattr(value, "units", None), getattr(value, "comoving", None)) == keep, "caller-changed", lambda: f"{case}: {value!r} rather than {keep[0]}", case)
    if op[0] == "write":
        if err is None and must:
            wrote(ctx, w, m, path, case)
        elif err is not None:
            usable = False
            if os.path.exists(path):
                try:
                    d = sw.load(path)
                    usable = True
                except Exception:
                    pass
            ctx.check(not usable, "half-written", lambda: f"{case}: {type(err).__name__}: {err} leaves a file that loads", case)
    if not ok:
        return False
    for t in m.s:
        for f in m.s[t]:
            x = getattr(getattr(w, t), f)
            ok = ctx.check(same(x, m.expect(t, f), t, f), "state", lambda: f"{case}: afterwards {t}.{f} is {x!r} rather than {m.expect(t, f)}", case) and ok
    return ok


def wrote(ctx, w, m, path, case):
    out, gen = m.verdict()
    seen = []
    with h5py.File(path, "r") as h:
        ctx.check({k for k in h if k.startswith("PartType")} == {PT[t] for t in out}, "written-types", lambda: f"{case}: {sorted(h)}", case)
        n = [out.get("gas", 0), out.get("dark_matter", 0)]
        ctx.check(list(h["Header"].attrs["NumPart_ThisFile"])[:2] == n and list(h["Header"].attrs["NumPart_Total"])[:2] == n, "written-counts", lambda: f"{case}: {dict(h['Header'].attrs)}", case)
        for t in out:
            g = h[PT[t]]
            ctx.check(set(g) == {HANDLE[f] for f in FIELDS[t]} | {"ParticleIDs"}, "written-fields", lambda: f"{case}: {sorted(g)}", case)
            for f in FIELDS[t]:
                v = g[HANDLE[f]][...]
                want = m.expect(t, f)
                ctx.check(v.shape == want.shape and np.allclose(v, want / (1 if f in ("coordinates", "smoothing_lengths", "masses") else SCALE[f]), rtol=1e-12, atol=0), "written-value",
                          lambda: f"{case}: {t}.{f} {v.tolist()} rather than {want.tolist()}", case)
            ids = g["ParticleIDs"][...].tolist()
            ctx.check(len(ids) == out[t] and (gen or ids == list(m.s[t]["particle_ids"])), "written-ids", lambda: f"{case}: {t} {ids}", case)
            seen += ids
            if gen:
                m.s[t]["particle_ids"] = tuple(int(i) for i in ids)
    ctx.check(len(set(seen)) == len(seen) and min(seen) >= 1, "ids-not-unique", lambda: f"{case}: {seen}", case)
    d = sw.load(path)
    for t in out:
        for f in FIELDS[t]:
            x = getattr(getattr(d, t), f)
            want = m.expect(t, f)
            ctx.check(x.comoving is True and x.shape == want.shape and np.allclose(x.to_comoving_value(UNIT[f][0]), want, rtol=2e-4, atol=0), "read-back", lambda: f"{case}: {t}.{f} {x!r}", case)


def _scale():
    from swiftsimio.metadata.writer.unit_systems import cosmo_units
    import unyt

    t = unyt.Unit(cosmo_units["time"])
    v = float((unyt.Mpc / t).to("Mpc/Gyr").value if hasattr(unyt.Mpc / t, "value") else (1.0 * unyt.Mpc / t).to("Mpc/Gyr").value)
    return dict(velocities=v, internal_energy=v * v)


SCALE = _scale()


def build(box, hist, path):
    w = Writer(boxsize=ca(BOX[box], "Mpc", 1, A), scale_factor=A)
    m = Model(box)
    for op in hist:
        must = m.apply(op)
        try:
            if op[0] == "set":
                setattr(getattr(w, op[1]), op[2], make(op))
            elif op[0] == "del":
                delattr(getattr(w, op[1]), op[2])
            elif op[0] == "gen":
                getattr(w, op[1]).generate_smoothing_lengths()
            else:
                w.write(path)
        except Exception:
            if must:
                raise
        if op[0] == "write" and must and m.verdict()[1]:
            for t in m.verdict()[0]:
                m.s[t]["particle_ids"] = tuple(int(i) for i in np.asarray(getattr(w, t).particle_ids))
    return w, m


def expand(ctx, batch):
    """every operation from each of these histories' states"""
    path = os.path.join(ctx.scratch, f"h{os.getpid()}.hdf5")
    ops = alphabet(ctx.thorough)
    for box, hist in batch:
        w, m = build(box, hist, path)
        before = m.key()
        for op in ops:
            ok = False
            with ctx.guard(dict(box=box, history=[list(o) for o in hist], operation=list(op))):
                ok = step(ctx, w, m, op, path, hist)
            if ok:
                ctx.out.append((m.key(), box, [*hist, op]))
                ctx.trace()
            if not ok or m.key() != before:
                w, m = build(box, hist, path)


def run(ctx):
    depth = 4 if ctx.thorough else 3
    frontier, seen = [], set()
    for box in BOX:
        for name, hist in STARTS.items():
            _, m = build(box, hist, os.path.join(ctx.scratch, "s.hdf5"))
            if m.key() not in seen:
                seen.add(m.key())
                frontier.append((box, hist))
    for level in range(depth):
        if ctx.failures:
            break
        ctx.out = []
        ctx.pmap(expand, [frontier[i::64] for i in range(64) if frontier[i::64]])
        new = []
        for key, box, hist in ctx.out:
            if key not in seen:
                seen.add(key)
                new.append((box, hist))
        ctx.out = []
        for k in seen:
            ctx.state(k)
        frontier = sorted(new, key=repr)
        ctx.count(f"states_at_depth_{level + 1}", len(frontier))


