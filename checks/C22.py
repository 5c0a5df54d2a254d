"""C22: statistics files are parsed column by column: values, order, units and names."""

import itertools
import math
import os
from pathlib import Path

import numpy as np
import unyt

import swiftsimio as sw

META = dict(
    level="model_checking",
    explanation="Every statistics file derivable from a grammar of the format (sequences of columns over a pool of column kinds x row selections x layouts of the header, "
    "the name line, the rows and the end of the file), generated, parsed by the real reader and compared column by column with the texts it was generated from.",
    assumptions=["column names are separated by two or more blanks and contain single blanks only, as in files SWIFT writes"],
)

# column kinds: (name, description, unit line or None, texts of three rows, integer column?)
POOL = [
    ("Step", "Simulation step", "dimensionless", ("0", "7", "12"), True),
    ("Time", "Time since Big Bang (cosmological run), Time since start (non-cosmological run)", "3.085678e+19 s", ("1.000000e-03", "2.5", "0"), False),
    ("a", "Scale factor", None, ("1", "0.5", "2.500000e-01"), False),
    ("z", "Redshift", "dimensionless", ("inf", "3", "nan"), False),
    ("Total mass", "Total mass in the simulation", "1.988410e+43 g", ("1.234567890123456e+02", "0.000000e+00", "9.9e-300"), False),
    ("Msun mass", "Total mass in the simulation", "1.000000e+10 Msun", ("5.0", "6.25", "-7.125"), False),
    ("Ang. mom. X", "X-component of the angular momentum (physical)", "2.000000e+00 g * cm**2 / s", ("-1.5e+30", "+1.5e+30", "-inf"), False),
    ("N updates", "Number of updates", None, ("9007199254740993", "-4611686018427387905", "+3"), True),
    ("Int Energy", "Internal energy of gas, stars & others", "1.500000e+00 erg", ("1.5E+05", "2E3", "3.E-2"), False),
    ("SFR (total)", "Total SFR", "6.444e+23 Msun/yr", ("-0.0", "nan", "0"), False),
    ("Temp", "Temperature; density = unknown", "1 K", ("1", "2.", ".5"), False),
    # other ways to write the number of a unit
    ("Cap", "Capital exponent", "2.5E+10 s", ("1", "2.", ".5"), False),
    ("Low", "Exponent without sign", "1e3 g", ("3.5", "-2.", "0"), False),
    ("Point", "Bare points", "5. km", ("1", "1", "4.5"), False),
    ("Frac", "Bare fraction", ".25 Mpc", ("8.5", "1", "-4.5"), False),
    ("Signed", "With a sign", "+4.0e-03 Gyr", ("8.5", "1", "-4.5"), False),
    ("Unitless", "A number without unit", "3.0", ("8.5", "1", "-4.5"), False),
    ("Unitless nr", "A number without unit", "7.5 dimensionless", ("8.5", "1", "-4.5"), False),
]
ROWS = [(), (0,), (1,), (2,), (0, 1), (1, 2, 0), (2, 0, 1, 1), (2, 2), (0, 0, 0)]


def names_of(cols):
    """column names, made unique"""
    out = []
    for k, c in enumerate(cols):
        out.append(POOL[c][0] + (f" {k}" if c in cols[:k] else ""))
    return out


def snake(name):
    return name.replace(".", "").replace(" ", "_").lower()


# layouts: (introduction, numbers line, name prefix, name separator, end of name line, row separator, row prefix, end of file)
LAYOUTS = [
    ("", "", "#  ", "  ", "\n", " ", " ", "\n"),
    ("# Global statistics\n##############\n# All quantities are physical!\n#\n", "#            (0)            (1)            (2)\n", "#     ", "       ", "\n", "   ", "  ", "\n"),
    ("#\n", "#\n", "# ", "   ", "  \n", "\t", "", ""),
    ("# Statistics: time, mass\n", "#   (0)   (1)\n", "#", "  ", " \n", "  ", "   ", " \n"),
    ("", "", "#\t\t", "\t\t", "\n", "     ", "\t", "\n\n"),
    ("##\n", "#\n", "#  ", "  ", "\r\n", " ", "", "\r\n"),
]


def text_of(cols, rows, layout):
    intro, numbers, pre, sep, nend, rsep, rpre, end = LAYOUTS[layout]
    nl = "\r\n" if nend == "\r\n" else "\n"
    s = intro
    for k, c in enumerate(cols):
        name, desc, unit, _, _ = POOL[c]
        s += f"# ({k}) {' ' if layout % 2 and k < 10 else ''}{desc}.{nl}"
        if unit is not None:
            s += f"#{' ' * (0 if layout == 2 else 6)}Unit = {unit}{' ' if layout == 3 else ''}{nl}"
    s += numbers + pre + sep.join(names_of(cols)) + nend
    s += nl.join(rpre + rsep.join(POOL[c][3][(r + k) % 3] for k, c in enumerate(cols)) for r in rows) + (end if rows else "")
    return s


def unit_of(line):
    if line is None or line == "dimensionless":
        return 1.0, unyt.dimensionless
    v, _, u = line.partition(" ")
    return float(v), unyt.Unit(u or "dimensionless")


def same(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b) or (math.isnan(a) and math.isnan(b))


def compare(ctx, f, cols, rows, case):
    names = names_of(cols)
    ctx.check(f.header_snake_case_names == [snake(n) for n in names], "names", lambda: f"{case}: {f.header_snake_case_names} rather than {[snake(n) for n in names]}", case)
    for n in names:
        ctx.check(snake(n) in str(f) and snake(n) in repr(f), "listing", lambda: f"{case}: {f}", case)
    for k, (c, n) in enumerate(zip(cols, names)):
        name, desc, unit, texts, integer = POOL[c]
        cc = dict(case, column=k)
        x = getattr(f, snake(n), None)
        if not ctx.check(isinstance(x, unyt.unyt_array), "missing", lambda: f"{cc}: {snake(n)} is {x!r}", cc):
            continue
        if not ctx.check(x.shape == (len(rows),), "rows", lambda: f"{cc}: shape {x.shape} for {len(rows)} rows", cc):
            continue
        want = [texts[(r + k) % 3] for r in rows]
        got = np.asarray(x).tolist()
        # a column with a value that is not a whole number is one of decimals; whole numbers are kept exactly
        if integer:
            ok = got == [int(t) for t in want]
        else:
            ok = all(same(float(g), float(t)) for g, t in zip(got, want))
        ctx.check(ok, "values", lambda: f"{cc}: {got} rather than {want}", cc)
        v, u = unit_of(unit)
        ctx.check(x.units.dimensions == u.dimensions and abs(float(x.units.base_value) / (v * float(u.base_value)) - 1) < 1e-12 and x.units.base_offset == u.base_offset, "units",
                  lambda: f"{cc}: {x.units} rather than {unit}", cc)
        if [POOL[o][1] for o in cols].count(desc) == 1:
            h = f.header_units.get(desc)
            q = unyt.unyt_quantity(1.0, h) if isinstance(h, unyt.Unit) else h
            hv = None if q is None or q.units.dimensions != u.dimensions else float(q.value) * float(q.units.base_value) / float(u.base_value)
            ctx.check(hv is not None and abs(hv / v - 1) < 1e-12, "header-units", lambda: f"{cc}: {h!r} rather than {unit}", cc)
        ctx.check(x.name == desc, "description", lambda: f"{cc}: {x.name!r} rather than {desc!r}", cc)
        ctx.check(f.header_names[k] == desc, "header-name", lambda: f"{cc}: {f.header_names}", cc)


def explore(ctx, item):
    cols_list, rows_list, layouts = item
    path = os.path.join(ctx.scratch, f"stats-{os.getpid()}.txt")
    prev = None
    for cols in cols_list:
        for rows in rows_list:
            for layout in layouts:
                case = dict(columns=cols, rows=rows, layout=layout)
                ctx.state(cols, rows, layout)
                ctx.trace()
                ctx.step()
                with open(path, "w", newline="") as h:
                    h.write(text_of(cols, rows, layout))
                with ctx.guard(case):
                    f = sw.load_statistics(path if layout % 2 else Path(path))
                    compare(ctx, f, cols, rows, case)
                    ctx.check(str(f.filename) == path, "filename", lambda: f"{case}: {f.filename}", case)
                    # an earlier file's object is unaffected
                    if prev is not None and len(prev[1]) != 2:
                        compare(ctx, *prev, dict(case, earlier=True))
                    prev = f, cols, rows
    os.remove(path)


def run(ctx):
    n = len(POOL)
    items = []
    for k in (1, 2):
        c = list(itertools.product(range(n), repeat=k))
        items += [(c[i::8], ROWS, range(len(LAYOUTS))) for i in range(8)]
    c = list(itertools.product(range(n), repeat=3))
    items += [(c[i::16], ROWS if ctx.thorough else ROWS[:2] + ROWS[4:6], range(len(LAYOUTS)) if ctx.thorough else (1, 3)) for i in range(16)]
    if ctx.thorough:
        c = list(itertools.product(range(n), repeat=4))
        items += [(c[i::64], [(0,), (2, 1)], (0, 1, 3)) for i in range(64)]
    # many columns (two-digit numbers)
    wide = [tuple((s + i * d) % n for i in range(m)) for m in (5, 10, 11, 12, 24, 101) for s in range(n) for d in range(1, n)]
    items += [(wide[i::16], [(), (1,), (0, 2)], range(len(LAYOUTS)) if ctx.thorough else (0, 3)) for i in range(16)]
    ctx.pmap(explore, items)
