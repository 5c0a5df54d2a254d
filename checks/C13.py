"""C13: lazily loaded fields read as the last value given or else the file's content, whatever the access history."""

import hashlib
import itertools
import os
import shutil

import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio.objects import cosmo_array, cosmo_quantity
from mc.snap import F, Snap, write_field
from mc.soap import build_soap

META = dict(
    level="model_checking",
    explanation="Every history (up to the depth bound) of reading, overwriting, modifying in place, setting to nothing and deleting over fields, named columns and group attributes of two "
    "data sets loaded from one file (without masks, with one shared mask, with different masks, from one handle, from paths), replayed on fresh loads in lock step with a "
    "reference model of a cache; after each history every field of both data sets, of a further load and the file itself are compared with the model, and read again with the file moved away.",
    assumptions=["a field set to None counts as unread"],
)
COLS = ["Hydrogen", "Helium", "Carbon"]


class World:
    """the files, built once"""

    def __init__(self, d):
        self.dir = d
        s = Snap(os.path.join(d, "snap.hdf5"), box=(4.0, 2.0, 2.0), ncell=(2, 1, 1), counts={"PartType0": [3, 2], "PartType4": [1, 2]}, a=0.5,
                 fields=lambda p, n, s: {"ElementMassFractions": F(np.arange(3 * n).reshape(n, 3) / 8 + (p == "PartType4"), columns=COLS), "Densities": F(np.arange(n) + 3.0, M=1, L=-3, a=-3, dtype="f4"),
                                         "Velocities": F(np.arange(3 * n).reshape(n, 3) * 1.5, L=1, t=-1)})
        self.snap = s.path
        self.content = {}
        with h5py.File(s.path, "r") as h:
            for p, t in (("PartType0", "gas"), ("PartType4", "stars")):
                for hn, f in (("Masses", "masses"), ("Coordinates", "coordinates"), ("Densities", "densities"), ("Velocities", "velocities"), ("ParticleIDs", "particle_ids")):
                    self.content[t, f] = h[p][hn][...]
                for i, c in enumerate(COLS):
                    self.content[t, "element_mass_fractions", c.lower()] = h[p]["ElementMassFractions"][:, i]
        self.rows = {"gas": (0, 3), "stars": (0, 1)}  # of the first cell
        self.los = os.path.join(d, "los.hdf5")
        los(self.los)
        with h5py.File(self.los, "r") as h:
            for g in ("LOS_0000", "LOS_0001"):
                for hn, f in (("Masses", "masses"), ("Densities", "densities")):
                    self.content[g.lower(), f] = h[g][hn][...]
                for k in ("Xpos", "Ypos"):
                    self.content[g.lower(), k.lower()] = np.array(h[g].attrs[k][0])
        so = build_soap(os.path.join(d, "soap.hdf5"))
        self.soap = so.path
        self.content["spherical_overdensity_200_crit", "total_mass"] = so.fields["SO/200_crit/TotalMass"].data
        self.content["input_halos", "halo_centre"] = so.fields["InputHalos/HaloCentre"].data


def los(path):
    s = Snap(path, box=(4.0, 2.0, 2.0), ncell=(1, 1, 1), counts={"PartType0": [2]}, a=0.5, out=b"LineOfSight")
    with h5py.File(path, "r+") as h:
        for i in range(2):
            g = h.create_group(f"LOS_000{i}")
            for k, v in (("NumParts", 3), ("Xaxis", 0), ("Xpos", 0.25 + i), ("Ypos", 0.5 + i)):
                g.attrs[k] = np.array([v])
            write_field(g, "Masses", F(np.arange(3) + 1.0 + 10 * i, M=1))
            write_field(g, "Densities", F(np.arange(3) + 2.0 + 10 * i, M=1, L=-3, a=-3))


# per configuration: file, how each data set is made, and the slots (data set, path of names)
CONFIGS = {
    "paths": ("snap", ("path", "path"), [(0, "gas", "masses"), (0, "gas", "element_mass_fractions", "hydrogen"), (0, "gas", "element_mass_fractions", "carbon"), (1, "gas", "masses"), (1, "gas", "element_mass_fractions", "hydrogen")]),
    "types": ("snap", ("path", "masked"), [(0, "gas", "coordinates"), (0, "stars", "coordinates"), (0, "stars", "element_mass_fractions", "hydrogen"), (0, "gas", "element_mass_fractions", "hydrogen"), (1, "gas", "coordinates")]),
    "mask": ("snap", ("shared", "shared"), [(0, "gas", "coordinates"), (0, "gas", "element_mass_fractions", "helium"), (1, "gas", "coordinates"), (1, "gas", "element_mass_fractions", "helium")]),
    "handles": ("snap", ("handle", "handle"), [(0, "gas", "densities"), (0, "gas", "velocities"), (1, "gas", "densities"), (1, "gas", "element_mass_fractions", "carbon")]),
    "sightlines": ("los", ("path", "path"), [(0, "los_0000", "masses"), (0, "los_0000", "xpos"), (0, "los_0001", "xpos"), (1, "los_0000", "xpos"), (0, "los_0000", "ypos")]),
    "catalogue": ("soap", ("path", "handle"), [(0, "spherical_overdensity_200_crit", "total_mass"), (0, "input_halos", "halo_centre"), (1, "spherical_overdensity_200_crit", "total_mass")]),
}
OPS = ("read", "write", "inplace", "delete", "none")


def holder(ds, slot):
    o = ds[slot[0]]
    for n in slot[1:-1]:
        o = getattr(o, n)
    return o, slot[-1]


def content(w, cfg, slot):
    v = w.content[slot[1:]]
    if CONFIGS[cfg][1][slot[0]] in ("masked", "shared"):
        lo, hi = w.rows[slot[1]]
        v = v[lo:hi]
    return v


def load(w, cfg, h=None):
    kind, how, _ = CONFIGS[cfg]
    path = getattr(w, kind)
    ds, shared = [], None
    for k in how:
        if k == "path":
            ds.append(sw.load(path))
        elif k == "handle":
            ds.append(sw.load(h))
        else:
            if shared is None or k == "masked":
                m = sw.mask(path)
                m.constrain_spatial([[0.1 * m.metadata.boxsize[0], 0.4 * m.metadata.boxsize[0]], None, None])
                shared = shared or (m if k == "shared" else None)
            ds.append(sw.load(path, mask=m if k == "masked" else shared))
    return ds


def given(slot, k):
    """a value to overwrite with: told apart by the step it is given at"""
    v = (np.array([100.0 + k, 200.0 + slot[0], 300.0, 400.0]), np.empty(0), np.array(0.0), np.zeros((1, 2)), np.array([0.0]))[(k + slot[0] + len(str(slot[-1]))) % 5]
    return (cosmo_array if v.ndim else cosmo_quantity)(v, "K", comoving=False, scale_factor=0.5, scale_exponent=2)


def matches(x, want):
    if isinstance(want, cosmo_array):
        return isinstance(x, cosmo_array) and x.units == want.units and x.comoving is want.comoving and x.cosmo_factor == want.cosmo_factor and x.shape == want.shape and np.array_equal(np.asarray(x), np.asarray(want))
    return isinstance(x, cosmo_array) and x.shape == want.shape and np.array_equal(np.asarray(x), want)


def play(ctx, w, cfg, hist, h):
    """one history on fresh loads; returns the model's state"""
    kind, how, slots = CONFIGS[cfg]
    case = dict(config=cfg, history=[(op, "/".join(map(str, s))) for op, s in hist])
    ds = load(w, cfg, h)
    model = {}
    state = {}
    for k, (op, slot) in enumerate(hist):
        o, n = holder(ds, slot)
        ctx.step()
        if op == "read":
            x = getattr(o, n)
            want = model.setdefault(slot, np.array(content(w, cfg, slot)))
            if not ctx.check(matches(x, want), "read", lambda: f"{case}: step {k} reads {x!r} rather than {want!r}", case):
                return None
            state.setdefault(slot, "read")
        elif op == "write":
            v = given(slot, k)
            setattr(o, n, v)
            model[slot] = v.copy()
            state[slot] = f"given{k}"
        elif op == "inplace":
            x = getattr(o, n)
            want = model.setdefault(slot, np.array(content(w, cfg, slot)))
            if not ctx.check(matches(x, want), "read", lambda: f"{case}: step {k} reads {x!r} rather than {want!r}", case):
                return None
            np.asarray(x)[...] *= 2  # (the memory itself)
            model[slot] = want * 2 if isinstance(want, cosmo_array) else (want * 2).astype(want.dtype)
            state[slot] = state.get(slot, "read") + "*"
        else:
            if op == "delete":
                delattr(o, n)
            else:
                setattr(o, n, None)
            model.pop(slot, None)
            state.pop(slot, None)
    # everything is as the model has it
    for slot in slots:
        o, n = holder(ds, slot)
        want = model.get(slot, None)
        if want is None:
            want = model[slot] = np.array(content(w, cfg, slot))
        x = getattr(o, n)
        ctx.check(matches(x, want), "final", lambda: f"{case}: afterwards {slot} reads {x!r} rather than {want!r}", case)
        i, rest = slot[0], slot[1:]
        g = getattr(ds[i], rest[0])  # by another route
        for part in rest[1:]:
            g = getattr(g, part)
        ctx.check(matches(g, want), "handle", lambda: f"{case}: afterwards {slot} reads {g!r} rather than {want!r}", case)
    return ds, model, repr(sorted(state.items()))


def moved(ctx, w, cfg, ds, model, case):
    """what has been read stays available when the file is gone"""
    with ctx.guard(case):
        for slot, want in model.items():
            o, n = holder(ds, slot)
            if getattr(o, "_handle", None):
                continue
            x = getattr(o, n)
            ctx.check(matches(x, want), "again", lambda: f"{case}: {slot} reads again as {x!r} rather than {want!r}", case)


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def explore(ctx, item):
    cfg, first, depth, nslots, ops, d = item
    mine = os.path.join(d, f"{cfg}-{depth}-{abs(hash(first))}")
    os.makedirs(mine)
    w = World(mine)
    path = getattr(w, CONFIGS[cfg][0])
    before = digest(path)
    alphabet = [(op, s) for s in CONFIGS[cfg][2][:nslots] for op in ops]
    with h5py.File(path, "r") as h:
        for n in range(depth):
            for rest in itertools.product(alphabet, repeat=n):
                hist = (first, *rest)
                with ctx.guard(dict(config=cfg, history=repr(hist))):
                    r = play(ctx, w, cfg, hist, h)
                    ctx.trace()
                    if r is None:
                        continue
                    ds, model, state = r
                    if ctx.state(cfg, state):
                        case = dict(config=cfg, history=repr(hist))
                        # nothing another load would see; and no more reading once read
                        further = load(w, cfg, h)
                        for slot in CONFIGS[cfg][2]:
                            o, nme = holder(further, slot)
                            x = getattr(o, nme)
                            ctx.check(matches(x, np.array(content(w, cfg, slot))), "other-load", lambda: f"{case}: a further load reads {slot} as {x!r}", case)
                        os.rename(path, path + ".away")
                        try:
                            moved(ctx, w, cfg, ds, model, case)
                        finally:
                            os.rename(path + ".away", path)
    ctx.check(digest(path) == before, "file-changed", lambda: f"{cfg}: the file's bytes changed")
    shutil.rmtree(mine)


def whole(ctx, d):
    """named-column containers overwritten as a whole, listings, and absent names"""
    mine = os.path.join(d, "whole")
    os.makedirs(mine)
    w = World(mine)
    for masked in (False, True):
        for ops in itertools.chain.from_iterable(itertools.product(("column", "set", "del", "setcol"), repeat=n) for n in range(1, 5)):
            a, b = load(w, "mask" if masked else "paths")
            case = dict(masked=masked, operations=ops)
            rows = w.rows["gas"] if masked else (0, 5)
            file = w.content["gas", "element_mass_fractions", "helium"][slice(*rows)]
            whole_v, col = None, None
            ctx.trace()
            ctx.state("whole", masked, ops)
            with ctx.guard(case):
                for k, op in enumerate(ops):
                    ctx.step()
                    if op == "set":
                        whole_v = given((0,), k)
                        a.gas.element_mass_fractions = whole_v
                    elif op == "del" and whole_v is not None:
                        del a.gas.element_mass_fractions
                        whole_v = None
                    elif op == "setcol" and whole_v is None:
                        col = given((1,), k)
                        a.gas.element_mass_fractions.helium = col
                    elif op == "column" and whole_v is None:
                        x = a.gas.element_mass_fractions.helium
                        ctx.check(matches(x, file if col is None else col), "column", lambda: f"{case}: {x!r}", case)
                    elif whole_v is not None:
                        x = a.gas.element_mass_fractions
                        ctx.check(matches(x, whole_v), "container", lambda: f"{case}: {x!r}", case)
                x = b.gas.element_mass_fractions.helium
                ctx.check(matches(x, file), "other-load", lambda: f"{case}: the other data set reads {x!r}", case)
    listing(ctx, mine)
    shutil.rmtree(mine)


def snake(n):
    out = ""
    for i, c in enumerate(n):
        if c.isupper() and i and (n[i - 1].islower() or n[i - 1].isdigit()):
            out += "_"
        out += c.lower()
    return out


FIELDS = ["Masses", "ElementMassFractions", "ParticleIDs", "XrayLuminosities", "LastSNIIKineticFeedbackDensities", "SomeOddName2D", "Densities_Snap", "Coordinates"]


def listing(ctx, d):
    """names and contents listed are exactly the file's, for every subset of fields and types"""
    path = os.path.join(d, "list.hdf5")
    for types in itertools.chain.from_iterable(itertools.combinations(("PartType0", "PartType1", "PartType4", "PartType6"), r) for r in (1, 2, 4)):
        for k in range(2 ** 5):
            extra = [f for i, f in enumerate(FIELDS[1:2] + FIELDS[3:7]) if k >> i & 1]
            s = Snap(path, box=(1.0, 1.0, 1.0), ncell=(1, 1, 1), counts={p: [2 + i] for i, p in enumerate(types)}, a=1.0,
                     fields=lambda p, n, s: {f: (F(np.ones((n, 3)), columns=COLS) if f.startswith("El") else F(np.arange(n) + 0.5)) for f in (extra if p != types[-1] or len(types) == 1 else extra[:1])})
            names = {"PartType0": "gas", "PartType1": "dark_matter", "PartType4": "stars", "PartType6": "neutrinos"}
            case = dict(types=types, fields=extra)
            ctx.trace()
            ctx.step()
            ctx.state("listing", types, k)
            with ctx.guard(case):
                data = sw.load(path)
                md = data.metadata
                groups = [names[p] for p in types]
                ctx.check(list(md.present_groups) == list(types) and list(md.present_group_names) == groups and str(data) == repr(data)
                          and str(data).rsplit(": ", 1)[1] == ", ".join(groups), "groups", lambda: f"{case}: {data}", case)
                ctx.check(all(hasattr(data, t) == (t in groups) for t in ("gas", "dark_matter", "stars", "neutrinos", "black_holes", "sinks", "boundary", "sidm")), "group-attributes", lambda: f"{case}", case)
                for p in types:
                    g = getattr(data, names[p])
                    have = sorted(s.fields[p])
                    listed = g.group_metadata.field_names
                    ctx.check(sorted(listed) == sorted(snake(f) for f in have) and sorted(g.group_metadata.field_paths) == [f"{p}/{f}" for f in have]
                              and sorted(str(g).rsplit(": ", 1)[1].split(", ")) == sorted(listed), "fields", lambda: f"{case}: {p} {listed} rather than {have}", case)
                    ctx.check(getattr(md, f"{names[p]}_properties").field_names == listed, "field-names", lambda: f"{case}: {p}", case)
                    for f in FIELDS:
                        present = hasattr(g, snake(f))
                        ctx.check(present == (f in have), "has-field", lambda: f"{case}: {p}/{f} {present}", case)
                        if f in have:
                            x = getattr(g, snake(f))
                            if f == "ElementMassFractions":
                                ok = len(x) == 3 and list(x.named_columns) == [c.lower() for c in COLS] and all(np.array_equal(getattr(x, c.lower()), np.ones(s.n[p])) for c in COLS) and "hydrogen" in str(x)
                            else:
                                ok = np.array_equal(np.asarray(x), s.fields[p][f].data)
                            ctx.check(ok, "field-content", lambda: f"{case}: {p}/{f} {x!r}", case)


def _do(ctx, item):
    (whole if item[0] == "whole" else explore)(ctx, item[1])


def run(ctx):
    items = []
    for cfg, (_, _, slots) in CONFIGS.items():
        # every operation on every slot to a lesser depth; the distinct operations on the first slots to a greater one
        for nslots, ops, depth in ((len(slots), OPS, 3 if ctx.thorough else 2), (4 if cfg == "paths" or ctx.thorough else 3, OPS[:4], 4 if ctx.thorough and cfg == "paths" else 3)):
            items += [("explore", (cfg, (op, s), depth, nslots, ops, ctx.scratch)) for op, s in itertools.product(ops, slots[:nslots])]
    items.append(("whole", ctx.scratch))
    ctx.pmap(_do, items)
