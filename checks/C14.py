"""C14: handles opened by the library are closed whatever fails, the caller's stay open, and files load normally afterwards."""

import gc
import itertools
import os
import shutil

import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio.objects import cosmo_array
from mc.snap import F, write_field, write_header, write_units
from mc.vis import ca
from checks.C13 import World

META = dict(
    level="model_checking",
    explanation="Fault injection at every call of the HDF5 library's file, group, attribute and data-set interface made by each operation (loads, masks, constraints, reads of fields, columns and "
    "group attributes, metadata and units objects, validation, subset and snapshot writing, reloading), with three kinds of failure, for path and open-handle inputs and inside "
    "other open blocks; open HDF5 files and file descriptors are counted while the failure is still in flight, and the operation is repeated on the same objects and afresh.",
    assumptions=["faults are injected in the interface of h5py (and of opening text files); closing itself does not fail"],
)


class Fault(OSError):
    pass


class Missing(KeyError):
    pass


class Stop(KeyboardInterrupt):
    pass


KINDS = (Fault, Missing, Stop)
HOOKS = [(h5py.File, "__init__"), (h5py.Group, "__getitem__"), (h5py.Group, "get"), (h5py.Group, "keys"), (h5py.Group, "__contains__"), (h5py.Group, "__iter__"), (h5py.Group, "create_group"),
         (h5py.Group, "create_dataset"), (h5py.Group, "__setitem__"), (h5py.Group, "copy"), (h5py.Group, "visititems"), (h5py.AttributeManager, "__getitem__"), (h5py.AttributeManager, "__setitem__"),
         (h5py.AttributeManager, "create"), (h5py.AttributeManager, "__iter__"), (h5py.AttributeManager, "keys"), (h5py.AttributeManager, "items"), (h5py.AttributeManager, "get"),
         (h5py.Dataset, "__getitem__"), (h5py.Dataset, "__setitem__"), (h5py.Dataset, "read_direct"), (h5py.Dataset, "write_direct")]


class Injector:
    """counts calls into h5py and makes one of them fail"""

    def __init__(self):
        self.n, self.at, self.kind = 0, -1, None
        self.saved = []

    def __enter__(self):
        for cls, name in HOOKS:
            orig = getattr(cls, name)
            self.saved.append((cls, name, cls.__dict__.get(name)))

            def f(obj, *a, _orig=orig, _name=name, **k):
                self.n += 1
                if self.n == self.at:
                    raise self.kind(f"injected in {_name}")
                return _orig(obj, *a, **k)

            setattr(cls, name, f)
        return self

    def __exit__(self, *exc):
        for cls, name, old in reversed(self.saved):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.saved = []
        return False


def opened():
    """open HDF5 files and file descriptors of this process"""
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE), len(os.listdir("/proc/self/fd"))


def arr(x):
    return np.asarray(x).tolist(), str(getattr(x, "units", "")), str(getattr(x, "comoving", ""))


def region(m):
    b = m.metadata.boxsize
    return [[0.1 * b[0], 0.4 * b[0]], None, None]


class Files(World):
    def __init__(self, d):
        super().__init__(d)
        self.fof = os.path.join(d, "fof.hdf5")
        with h5py.File(self.fof, "w") as h:
            write_header(h, box=(4.0, 2.0, 2.0), numpart=[0] * 8, a=0.5, out=b"FOF", extra={"NumGroup_ThisFile": np.array([3])})
            write_units(h)
            h.create_group("Groups")
            write_field(h["Groups"], "Masses", F(np.arange(3) + 1.0, M=1))
            write_field(h["Groups"], "Centres", F(np.arange(9).reshape(3, 3) / 4, L=1, a=1))
        for p in (self.snap, self.fof, self.los):
            with h5py.File(p, "r+") as h:
                h.require_group("Code").attrs["Code"] = np.bytes_(b"SWIFT")
                c = h.require_group("Cosmology").attrs
                c["Cosmological run"] = np.array([0])
        self.out = os.path.join(d, "out.hdf5")
        self.text = os.path.join(d, "stats.txt")
        with open(self.text, "w") as f:
            f.write("# (0) Step.\n#     Unit = dimensionless\n# (1) Time.\n#     Unit = 2.0 s\n#  Step    Time\n  1  0.5\n  2  1.5\n")


# operations: (file, setup(world, source) -> state, act(world, source, state) -> digest)
def nothing(w, s):
    return None


def mk_mask(w, s):
    return sw.mask(s)


def mk_data(w, s):
    return sw.load(s)


def d_load(w, s, _):
    d = sw.load(s)
    return sorted(d.metadata.present_group_names), arr(d.metadata.boxsize)


def d_read(w, s, d):
    return arr(d.gas.masses), arr(d.stars.coordinates), arr(d.gas.element_mass_fractions.carbon), arr(d.gas.element_mass_fractions.hydrogen)


def d_loadread(w, s, _):
    return d_read(w, s, sw.load(s))


def d_mask(w, s, _):
    m = sw.mask(s)
    return arr(m.metadata.boxsize), m.gas.tolist()


def d_spatial(w, s, m):
    m.constrain_spatial(region(m))
    return m.gas.tolist(), m.stars.tolist()


def d_value(w, s, m):
    m.constrain_mask("gas", "masses", ca(0.9e10, "Msun", 0, 0.5), ca(2.1e10, "Msun", 0, 0.5))
    return m.gas.tolist()


def d_masked(w, s, _):
    m = sw.mask(s)
    m.constrain_spatial(region(m))
    d = sw.load(s, mask=m)
    return arr(d.gas.coordinates), arr(d.stars.element_mass_fractions.helium), arr(d.gas.particle_ids)


def d_subset(w, s, _):
    m = sw.mask(s)
    m.constrain_spatial(region(m))
    sw.subset_writer.write_subset(w.out, m)
    with h5py.File(w.out, "r") as h:
        return h["PartType0/Coordinates"][...].tolist(), sorted(h)


def mk_sub(w, s):
    m = sw.mask(s)
    m.constrain_spatial(region(m))
    return m


def d_subset2(w, s, m):
    sw.subset_writer.write_subset(w.out, m)
    with h5py.File(w.out, "r") as h:
        return h["PartType0/Coordinates"][...].tolist(), sorted(h)


def d_los(w, s, _):
    d = sw.load(s)
    return arr(d.los_0000.xpos), arr(d.los_0001.masses), arr(d.los_0001.ypos)


def d_losattr(w, s, d):
    return arr(d.los_0000.xpos), arr(d.los_0001.ypos)


def d_fof(w, s, _):
    d = sw.load(s)
    return arr(d.fof_groups.masses), arr(d.fof_groups.centres)


def d_soap(w, s, _):
    m = sw.mask(s)
    m.constrain_spatial(region(m))
    m.constrain_mask("spherical_overdensity_200_crit", "total_mass", ca(0.0, "Msun", 0, 0.5), ca(3.5e10, "Msun", 0, 0.5))
    d = sw.load(s, mask=m)
    return arr(d.input_halos.halo_centre), arr(d.spherical_overdensity_200_crit.total_mass)


def d_soaprows(w, s, _):
    m = sw.mask(s)
    m.constrain_indices([1, 3])
    d = sw.load(s, mask=m)
    return arr(d.input_halos.halo_centre)


def d_soapsubset(w, s, _):
    m = sw.mask(s)
    m.constrain_indices([1, 3, 4])
    sw.subset_writer.write_subset(w.out, m)
    with h5py.File(w.out, "r") as h:
        return h["InputHalos/HaloCentre"][...].tolist()


def path_of(s):
    return s if isinstance(s, str) else s.filename


def handle_of(s):
    return None if isinstance(s, str) else s


def d_units(w, s, _):
    u = sw.SWIFTUnits(path_of(s), handle=handle_of(s))
    return str(u.mass), str(u.length)


def d_metadata(cls):
    def act(w, s, _):
        m = getattr(sw, cls)(path_of(s), handle=handle_of(s))
        return sorted(m.present_group_names), arr(m.boxsize)

    return act


def d_group(w, s, d):
    g = sw.SWIFTGroupMetadata(path_of(s), group="PartType0", group_name="gas", metadata=d.metadata, scale_factor=0.5, handle=handle_of(s))
    return g.field_names


def d_dataset(w, s, _):
    d = sw.SWIFTDataset(path_of(s), handle=handle_of(s))
    return arr(d.gas.masses)


def d_maskobj(w, s, d):
    m = sw.SWIFTMask(path_of(s), d.metadata, handle=handle_of(s))
    return m.gas.tolist()


def d_validate(w, s, _):
    return sw.validate_file(s)


def d_again(w, s, d):
    d.get_units()
    d.get_metadata()
    d.create_datasets()
    return arr(d.gas.masses)


def d_discriminate(w, s, _):
    u = sw.SWIFTUnits(path_of(s), handle=handle_of(s))
    # (the metadata object of the right kind, as the loader chooses it)
    choose = getattr(sw, "_metadata_discriminator", sw.SWIFTSnapshotMetadata)
    return sorted(choose(path_of(s), u, handle=handle_of(s)).present_group_names)


def d_write(w, s, _):
    x = sw.Writer(boxsize=ca([4.0, 4.0, 4.0]), scale_factor=0.5)
    x.dark_matter.coordinates = ca(np.arange(6.0).reshape(2, 3))
    x.dark_matter.velocities = ca(np.arange(6.0).reshape(2, 3), "km/s", 0)
    x.dark_matter.masses = ca(np.ones(2), "Msun", 0)
    x.write(w.out)
    return arr(sw.load(w.out).dark_matter.coordinates)


def d_stats(w, s, _):
    f = sw.load_statistics(w.text)
    return arr(f.time), arr(f.step)


def d_nested(w, s, _):
    with h5py.File(path_of(s), "r") as a, h5py.File(path_of(s), "r") as b:
        one, two, three = sw.load(a), sw.load(b), sw.load(path_of(s))
        m = sw.mask(b)
        r = arr(one.gas.masses), arr(two.gas.masses), arr(three.gas.masses), m.gas.tolist()
        assert a and b
    return (*r, arr(one.gas.densities), arr(two.gas.densities))


OPS = {
    "load": ("snap", nothing, d_load), "load and read": ("snap", nothing, d_loadread), "read": ("snap", mk_data, d_read), "mask": ("snap", nothing, d_mask), "spatial": ("snap", mk_mask, d_spatial),
    "value": ("snap", mk_mask, d_value), "masked load": ("snap", nothing, d_masked), "subset": ("snap", nothing, d_subset), "write subset": ("snap", mk_sub, d_subset2), "sightlines": ("los", nothing, d_los),
    "sightline attributes": ("los", mk_data, d_losattr), "groups": ("fof", nothing, d_fof), "catalogue": ("soap", nothing, d_soap), "catalogue rows": ("soap", nothing, d_soaprows),
    "catalogue subset": ("soap", nothing, d_soapsubset), "units": ("snap", nothing, d_units), "snapshot metadata": ("snap", nothing, d_metadata("SWIFTSnapshotMetadata")),
    "sightline metadata": ("los", nothing, d_metadata("SWIFTLineOfSightMetadata")), "group catalogue metadata": ("fof", nothing, d_metadata("SWIFTFOFMetadata")),
    "catalogue metadata": ("soap", nothing, d_metadata("SWIFTSOAPMetadata")), "group metadata": ("snap", mk_data, d_group), "data set": ("snap", nothing, d_dataset), "mask object": ("snap", mk_data, d_maskobj),
    "validate": ("snap", nothing, d_validate), "again": ("snap", mk_data, d_again), "discriminate": ("snap", nothing, d_discriminate), "write": ("snap", nothing, d_write), "statistics": ("snap", nothing, d_stats),
    "nested": ("snap", nothing, d_nested),
}


def explore(ctx, item):
    name, how, kind, part, parts = item
    file, setup, act = OPS[name]
    base = os.path.join(ctx.scratch, f"{abs(hash(item))}-{os.getpid()}")
    os.makedirs(base)
    w = Files(base)
    path = getattr(w, file)
    h = h5py.File(path, "r") if how == "handle" else None
    src = h if h is not None else path
    probe = {"snap": "PartType0/Masses", "los": "LOS_0000/Masses", "fof": "Groups/Masses", "soap": "InputHalos/HaloCentre"}[file]
    truth = h[probe][...] if h is not None else None
    gc.collect()
    start = opened()

    def clean(case, state):
        """open files are as before, the caller's handle works"""
        now = opened()
        ctx.check(now[0] == start[0], "left-open", lambda: f"{case}: {now[0] - start[0]} HDF5 file(s) left open", case)
        ctx.check(now[0] != start[0] or now[1] == start[1], "descriptor-left-open", lambda: f"{case}: {now[1] - start[1]} file descriptor(s) left open", case)
        if h is not None:
            ok = bool(h)
            ctx.check(ok, "caller-handle-closed", lambda: f"{case}: the caller's handle is closed", case)
            if ok:
                ctx.check(np.array_equal(h[probe][...], truth), "caller-handle-unusable", lambda: f"{case}", case)

    case = dict(operation=name, source=how)
    inj = Injector()
    with ctx.guard(case):
        want = act(w, src, setup(w, src))
        clean(case, None)
    state = setup(w, src)
    with inj:
        with ctx.guard(case):
            act(w, src, state)
    n = inj.n
    del state
    for k in range(1 + part, n + 1, parts):
        if h is not None and not h:
            break
        case = dict(operation=name, source=how, fault=kind.__name__, call=k, calls=n)
        ctx.trace()
        ctx.step()
        ctx.state(name, how, kind.__name__, k)
        state = setup(w, src)
        inj.n, inj.at, inj.kind = 0, k, kind
        raised = False
        with inj:
            try:
                act(w, src, state)
            except BaseException as e:
                raised = True
                inj.at = -1
                # (the failure is still in flight: nothing has been collected by dropping it)
                clean(case, state)
                if not isinstance(e, (kind, OSError, KeyError, AttributeError, RuntimeError, ValueError, TypeError, IndexError)) or isinstance(e, (SystemExit, MemoryError)):
                    raise
        inj.at = -1
        clean(case, state)
        with ctx.guard(case):
            # the same objects work, and so does starting afresh
            if raised and (ctx.tier == "thorough" or name not in HEAVY or k % 5 == 0):
                if not name.startswith(("value", "spatial")):
                    got = act(w, src, state)
                    ctx.check(got == want, "retry", lambda: f"{case}: the same objects then give {got} rather than {want}", case)
                if ctx.tier == "quick" and k % 5:
                    continue
                got = act(w, src, setup(w, src))
                ctx.check(got == want, "afterwards", lambda: f"{case}: starting afresh gives {got} rather than {want}", case)
                clean({**case, "then": "repeated"}, state)
        del state
    if h is not None and h:
        h.close()
    gc.collect()
    with ctx.guard(case):
        # no read lock is left: the file can be opened for writing
        try:
            h5py.File(path, "r+").close()
        except OSError as e:
            ctx.fail("not-writable", f"{case}: {e}", case)
    shutil.rmtree(base)


HEAVY = {"subset": 6, "write subset": 6, "catalogue subset": 3, "masked load": 2, "nested": 3}


def run(ctx):
    items = []
    for name, how, kind in itertools.product(OPS, ("path", "handle"), KINDS):
        if name in ("write", "statistics") and how == "handle":
            continue
        if ctx.tier == "quick" and kind is not Fault and (name in HEAVY or how == "handle"):
            continue
        parts = HEAVY.get(name, 1)
        items += [(name, how, kind, p, parts) for p in range(parts)]
    items.sort(key=lambda i: -HEAVY.get(i[0], 1))
    ctx.pmap(explore, items)
