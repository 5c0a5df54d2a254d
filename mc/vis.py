"""Data sets for rendering: one tiny snapshot per box and scale factor, whose arrays are replaced at will."""

import os

import numpy as np
import unyt

import swiftsimio as sw
from swiftsimio.objects import cosmo_array, cosmo_quantity
from mc.snap import F, Snap

_cache = {}


def dataset(ctx, box=(10.0, 10.0, 10.0), a=0.5, n=4):
    """a freshly loaded data set with n gas particles"""
    key = (tuple(box), a, n)
    path = os.path.join(ctx.scratch, f"vis{abs(hash(key))}_{os.getpid()}.hdf5")
    if not os.path.exists(path):
        Snap(path, box=box, ncell=(1, 1, 1), counts={"PartType0": [n]}, a=a,
             fields=lambda p, m, s: {"SmoothingLengths": F(np.ones(m), L=1, a=1, desc="h"), "Densities": F(np.ones(m), M=1, L=-3, a=-3, desc="rho"),
                                     "Velocities": F(np.ones((m, 3)), L=1, t=-1, desc="v")})
    return sw.load(path)


def ca(v, unit="Mpc", exp=1, a=0.5, comoving=True, **kw):
    cls = cosmo_quantity if np.ndim(v) == 0 else cosmo_array
    return cls(v, unyt.Unit(unit), comoving=comoving, scale_factor=a, scale_exponent=exp, **kw)


def fill(d, pos, h, m, a=0.5, frame=True, units=("Mpc", "Mpc", "g")):
    """give the gas of a data set these particles; pos, h in comoving Mpc"""
    f = 1.0 if frame else a
    g = d.gas
    g.coordinates = ca(np.array(pos, dtype=float) * f, a=a, comoving=frame).to(units[0])
    g.smoothing_lengths = ca(np.array(h, dtype=float) * f, a=a, comoving=frame).to(units[1])
    g.masses = ca(np.array(m, dtype=float), units[2], 0, a=a, comoving=frame)
    g.particle_ids = ca(np.arange(len(m)) + 1.0, "dimensionless", 0, a=a, comoving=frame)
    return d
