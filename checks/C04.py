"""C04: every sequence of mask operations selects the set it describes (explicit-state BFS on the real
SWIFTMask against a set-valued reference model)."""

import collections
import copy
import os

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array, cosmo_quantity
from swiftsimio.masks import SWIFTMask
from mc.snap import F, NAMES, Snap
from mc.soap import build_soap

META = dict(
    level="model_checking",
    explanation="Breadth-first search over all operation sequences (to the stated depth) from the fresh mask: "
    "spatial, union, value constraints, row selections, representation changes, loads and refused "
    "operations. States are deduplicated on (model state, representation, spatial cells); in every state "
    "the rows really loaded through the mask are compared with the set model, and data sets loaded before "
    "an operation are read lazily after it.",
    assumptions=["value-constraint intervals are half-open (lower, upper] as documented",
                 "live masks are duplicated with copy.deepcopy of their attributes; all depth<=2 histories are "
                 "additionally replayed on fresh masks"],
)
A = 0.5


def q(x, unit=u.Mpc, exp=1, comoving=True):
    return cosmo_quantity(x, unit, comoving=comoving, scale_factor=A, scale_exponent=exp)


class World:
    """File + alphabet + reference semantics."""

    def __init__(self, kind, scratch):
        self.kind = kind
        self.path = os.path.join(scratch, f"C04_{kind}_{os.getpid()}.hdf5")
        if kind == "soap":
            s = self.s = build_soap(self.path, counts=(2, 1, 0, 1, 1, 0, 2, 1))
            self.types = ["soap"]
            self.n = {"soap": s.nrows}
            self.cellof = {"soap": s.cellof}
        else:
            vals = {"PartType0": [3, 1, 4, 1, 5, 9, 2, 6], "PartType1": [2, 7, 1, 8, 2, 8, 1, 8]}
            if kind == "plain":
                counts = dict(PartType0=[2, 1, 2, 1], PartType1=[1, 2, 0, 2])
                order = None
            else:
                counts = dict(PartType0=[0, 2, 0, 2], PartType1=[2, 1, 2, 1])
                order = [0, 2, 1, 3]
            drift = None
            if kind == "drift":
                # each type has drifted out of other cells, so its selected cells differ from the other's
                def drift(p, cells, home, s):
                    d = np.zeros_like(home)
                    cells = list(cells)
                    if p == "PartType0":
                        d[cells.index(1), 0] = -0.5 - home[cells.index(1), 0] + 1.0
                    else:
                        d[cells.index(0), 0] = -0.4 - home[cells.index(0), 0]
                        d[cells.index(1), 0] = 2.6 - home[cells.index(1), 0]
                    return d

            def fields(p, n, s):
                v = np.array(vals[p][:n], dtype="f8")
                return {"Value": F(v, L=1, a=1), "Phys": F(v * A, L=1, a=1, physical=1)}

            s = self.s = Snap(self.path, box=(4.0, 1.0, 1.0), ncell=(4, 1, 1), counts=counts,
                              rank_order=order, a=A, fields=fields, minmax=True, drift=drift)
            self.types = ["PartType0", "PartType1"]
            self.n = s.n
            self.cellof = s.cellof
            self.v = {p: np.asarray(s.fields[p]["Value"].data) for p in self.types}
        self.md = sw.load(self.path).metadata

    # -- alphabet: (label, apply(mask), model(state)->state or None when it must be refused) ------------
    def ops(self, thorough):
        ops = []
        L = self.s.box[0]

        def cells_in(lo, hi):
            """(type, cell) pairs whose extent, enlarged by drifted particles, touches the region"""
            c, h = self.s.centres[:, 0], self.s.size[0] / 2
            out = set()
            for p in self.types:
                lo_c, hi_c = c - h, c + h
                if self.kind != "soap":
                    lo_c = np.minimum(lo_c, self.s.minpos[p][:, 0])
                    hi_c = np.maximum(hi_c, self.s.maxpos[p][:, 0])
                out |= {(p, k) for k in range(len(c))
                        if any(hi_c[k] + s * L > lo and lo_c[k] + s * L < hi for s in (-1, 0, 1))}
            return frozenset(out)

        regs = {"A": (0.25, 0.75), "B": (2.25, 2.75), "W": (3.25, 4.5)}
        if thorough:
            regs["AB"] = (0.5, 1.5)
        for name, (lo, hi) in regs.items():
            # (`intersect` is the old name of `union`, and has precedence)
            for union, kwargs, mark in ((False, dict(union=False), ""), (True, dict(union=True), "+"), (False, dict(union=True, intersect=False), "old"), (True, dict(intersect=True), "+old")):
                if mark.endswith("old") and name != "B":
                    continue

                def app(m, lo=lo, hi=hi, kwargs=kwargs):
                    m.constrain_spatial([[q(lo), q(hi)], None, None], **kwargs)

                def mod(st, lo=lo, hi=hi, union=union):
                    c = cells_in(lo, hi)
                    if st.kind is None:
                        cells = c
                    elif st.kind == "spatial" and union:
                        cells = st.cells | c
                    else:
                        return None
                    return st.make("spatial", cells, {
                        p: frozenset(np.where(np.isin(self.cellof[p], [k for t, k in cells if t == p]))[0]) for p in self.types})
                ops.append((f"spatial{name}{mark}", app, mod))
        ops.append(("toRanges", lambda m: m.convert_masks_to_ranges(), lambda st: st))
        ops.append(("toBool", lambda m: m.convert_masks_to_bool(), lambda st: st))
        # refused for malformed arguments, whatever the state
        ops.append(("badShape", lambda m: m.constrain_spatial([[q(0.1), q(0.2)], None]), lambda st: None))
        ops.append(("outside", lambda m: m.constrain_spatial([[q(9.0), q(9.5)], None, None], union=True),
                    lambda st: None))
        if self.kind == "soap":
            def prop(label, lo, hi):
                def app(m):
                    m.constrain_property("spherical_overdensity_200_crit", "total_mass",
                                         q(lo, self.md.units.mass, 0), q(hi, self.md.units.mass, 0))

                def mod(st):
                    keep = {i for i in range(self.n["soap"]) if lo < i <= hi}
                    return st.make("property", st.cells, {"soap": st.sets["soap"] & keep})
                return (label, app, mod)
            ops += [prop("mass(0,4]", 0.0, 4.0), prop("mass(2,9]", 2.0, 9.0)]

            def prop2():
                def app(m):
                    m.constrain_property("bound_subhalo", "number_of_gas_particles",
                                         q(3.0, u.dimensionless, 0), q(9.0, u.dimensionless, 0))

                def mod(st):
                    keep = {i for i in range(self.n["soap"]) if 3 < 2 * i <= 9}
                    return st.make("property", st.cells, {"soap": st.sets["soap"] & keep})
                return ("ngas(3,9]", app, mod)
            ops.append(prop2())
            for label, idx in [("rows0", [0]), ("rows135", [1, 3, 5]), ("rows531", [5, 3, 1]), ("rows2345", [2, 3, 4, 5]),
                               ("rowsnp", np.array([0, 7, 6])), ("rows113", [1, 1, 3]), ("rows2722", [2, 7, 2, 2]),
                               ("rowsnone", [])]:
                def app(m, idx=idx):
                    m.constrain_indices(idx)

                def mod(st, idx=idx):
                    if st.kind is not None:
                        return None
                    return st.make("indices", st.cells, {"soap": frozenset(int(i) for i in idx)})
                ops.append((label, app, mod))

            def mod1(st):
                return None if st.kind is not None else st.make("index", st.cells, {"soap": frozenset([4])})
            ops.append(("row4", lambda m: m.constrain_index(4), mod1))
        else:
            def prop(p, field, lo, hi, comoving=True, unit=u.Mpc, scale=1.0):
                def app(m):
                    f = scale * (1.0 if comoving else A)
                    m.constrain_property(NAMES[p], field, q(lo * f, unit, 1, comoving), q(hi * f, unit, 1, comoving))

                def mod(st):
                    keep = {i for i, v in enumerate(self.v[p]) if lo < v <= hi}
                    sets = dict(st.sets)
                    sets[p] = sets[p] & keep
                    return st.make("property", st.cells, sets)
                return (f"{p}.{field}({lo},{hi}]{'' if comoving else 'phys'}{unit}", app, mod)
            ops += [
                prop("PartType0", "value", 1.0, 4.0),
                prop("PartType0", "phys", 0.5, 3.0, comoving=False),
                prop("PartType1", "value", 1.0, 2.0, comoving=False),
                prop("PartType1", "phys", 1.5, 9.0, unit=u.kpc, scale=1000.0),
            ]
            if thorough:
                ops.append(prop("PartType0", "value", 50.0, 60.0))
                ops.append(prop("PartType1", "value", 7.5, 8.0))
            ops.append(("rowsRefused", lambda m: m.constrain_indices([0, 1]), lambda st: None))
            ops.append(("rowRefused", lambda m: m.constrain_index(0), lambda st: None))
            ops.append(("badField", lambda m: m.constrain_property("gas", "nope", q(1.0), q(2.0)), lambda st: None))
            ops.append(("badUnits", lambda m: m.constrain_property("dark_matter", "value", q(0.5, u.s, 1), q(8.0, u.s, 1)),
                        lambda st: None))
        return ops

    def initial(self):
        return St(None, frozenset((p, k) for p in self.types for k in range(len(self.s.centres))), {p: frozenset(range(self.n[p])) for p in self.types})

    def rows_of_mask(self, m):
        out = {}
        for p in self.types:
            name = "bound_subhalo" if p == "soap" else NAMES[p]
            arr = getattr(m, name)
            if np.asarray(arr).dtype != bool:
                r = []
                for a, b in np.asarray(arr, dtype=int).reshape(-1, 2):
                    r += list(range(a, b))
                size = getattr(m, f"{name}_size")
                out[p] = (r, int(size))
            else:
                out[p] = (list(np.where(arr)[0]), None)
        return out

    def rows_loaded(self, d):
        if self.kind == "soap":
            a = np.asarray(d.input_halos.halo_catalogue_index)
            b = np.asarray(d.spherical_overdensity_200_crit.total_mass).astype(int)
            return {"soap": list(a.astype(int)) if np.array_equal(a, b) else [-99]}
        out = {}
        for p in self.types:
            ids = np.asarray(getattr(d, NAMES[p]).particle_ids).astype("i8")
            v = np.asarray(getattr(d, NAMES[p]).value)
            rows = list(ids - self.s.ids[p][0])
            ok = all(0 <= r < self.n[p] for r in rows) and np.array_equal(v, self.v[p][rows])
            out[p] = rows if ok else [-99]
        return out


class St:
    def __init__(self, kind, cells, sets):
        self.kind, self.cells, self.sets = kind, cells, {p: frozenset(int(i) for i in v) for p, v in sets.items()}

    def make(self, kind, cells, sets):
        return St(kind, cells, sets)

    def key(self):
        return (self.kind, tuple(sorted(self.cells)) if self.kind in (None, "spatial") else None,
                tuple((p, tuple(sorted(v))) for p, v in sorted(self.sets.items())))


def dup(m):
    y = SWIFTMask.__new__(SWIFTMask)
    memo = {id(m.metadata): m.metadata, id(m.units): m.units}
    for v in m.__dict__.values():
        if isinstance(v, h5py.HLObject):
            memo[id(v)] = v
    y.__dict__.update(copy.deepcopy(m.__dict__, memo))
    return y


def verify(ctx, w, m, st, hist, key):
    case = dict(world=w.kind, history=hist)
    for p, (rows, size) in w.rows_of_mask(m).items():
        ctx.check(sorted(rows) == sorted(st.sets[p]) and len(set(rows)) == len(rows), f"{key}:mask-rows",
                  lambda: f"{case} {p}: mask selects {rows}, expected {sorted(st.sets[p])}", case)
        if size is not None:
            ctx.check(size == len(st.sets[p]), f"{key}:mask-size", lambda: f"{case} {p}: size {size}", case)


def loaded_ok(ctx, w, d, st, hist, key):
    case = dict(world=w.kind, history=hist)
    for p, rows in w.rows_loaded(d).items():
        ctx.check(rows == sorted(st.sets[p]), key,
                  lambda: f"{case} {p}: loaded rows {rows}, expected {sorted(st.sets[p])}", case)


def step(ctx, w, m, st, op, hist):
    """Apply op to m (mutates); returns new model state."""
    label, app, mod = op
    new = mod(st)
    h = hist + [label]
    try:
        app(m)
        ok = True
    except Exception:
        ok = False
    ctx.step()
    if new is None:
        ctx.check(not ok, "accepted-illegal", lambda: f"{w.kind} {h} accepted", dict(world=w.kind, history=h))
        if ok:
            return None
        ctx.count("refused")
        return st
    if not ok:
        ctx.fail("refused-legal", f"{w.kind} {h} refused", dict(world=w.kind, history=h))
        return None
    return new


_WORLDS = {}


def world(ctx, kind):
    if (kind, os.getpid()) not in _WORLDS:
        _WORLDS[(kind, os.getpid())] = World(kind, ctx.scratch)
    return _WORLDS[(kind, os.getpid())]


def skey(st, m):
    return (st.key(), getattr(m, "range_mask", None), getattr(m, "constrained", None))


def expand(ctx, item):
    """Replay one history on a fresh mask, then take every transition out of the state it reaches."""
    kind, hist_idx, last = item
    w = world(ctx, kind)
    ops = w.ops(ctx.thorough)
    m, st, hist = SWIFTMask(w.path, w.md), w.initial(), []
    for i in hist_idx:
        if i == "load":
            sw.load(w.path, mask=m)
            hist = hist + ["load"]
            continue
        st = step(ctx, w, m, st, ops[i], hist)
        if st is None:
            return
        hist = hist + [ops[i][0]]
    verify(ctx, w, m, st, hist, "op")
    ctx.trace()
    loaded_ok(ctx, w, sw.load(w.path, mask=dup(m)), st, hist, "loaded-rows")
    if last:
        return
    for i, op in enumerate(ops):
        for preload in (False, True):
            m1 = dup(m)
            h = hist + (["load"] if preload else [])
            if preload:
                d_before = sw.load(w.path, mask=m1)
            st1 = step(ctx, w, m1, st, op, h)
            if st1 is None:
                continue
            verify(ctx, w, m1, st1, h + [op[0]], "op")
            if preload:
                loaded_ok(ctx, w, d_before, st, h + [op[0], "read"], "earlier-load-changed")
                ctx.trace()
            ctx.out.append((kind, skey(st1, m1), tuple(hist_idx) + (("load",) if preload else ()) + (i,)))


def replay_fresh(ctx, item):
    """All depth-2 histories on a fresh mask (no duplicated live objects)."""
    kind, first = item
    w = World(kind, ctx.scratch)
    ops = w.ops(False)
    for op2 in ops:
        m, st, hist = SWIFTMask(w.path, w.md), w.initial(), []
        for op in (ops[first], op2):
            st = step(ctx, w, m, st, op, hist)
            if st is None:
                break
            hist = hist + [op[0]]
        if st is None:
            continue
        verify(ctx, w, m, st, hist, "fresh")
        loaded_ok(ctx, w, sw.load(w.path, mask=m), st, hist, "fresh:loaded-rows")
        ctx.trace()
    os.unlink(w.path)


def dispatch(ctx, item):
    with ctx.guard(item):
        (expand if item[0] == "bfs" else replay_fresh)(ctx, item[1:])


def run(ctx):
    depth = 5 if ctx.thorough else 4
    seen = {}
    frontier = []
    for kind in ("plain", "mpi", "drift", "soap"):
        frontier.append((kind, ()))
    for level in range(depth + 1):
        ctx.out = []
        last = level == depth
        ctx.pmap(dispatch, [("bfs", k, h, last) for k, h in frontier])
        frontier = []
        for kind, key, hist in sorted(ctx.out, key=repr):
            ctx.state(kind, key)
            if (kind, key) not in seen:
                seen[(kind, key)] = hist
                frontier.append((kind, hist))
        ctx.count(f"new_states_level{level + 1}", len(frontier))
    for kind in ("plain", "mpi", "drift", "soap"):
        w = World(kind, ctx.scratch)
        names = [o[0] for o in w.ops(ctx.thorough)]
        hs = [h for (k, _), h in seen.items() if k == kind]
        ctx.sample(dict(world=kind, deepest=[names[i] if i != "load" else i for i in max(hs, key=len)]))
    items = []
    for kind in ("plain", "soap") + (("mpi", "drift") if ctx.thorough else ()):
        items += [("fresh", kind, i) for i in range(len(World(kind, ctx.scratch).ops(False)))]
    ctx.pmap(dispatch, items)
