"""Structured VTK data sets are read as the points and cells of the grid."""
import ast
import itertools
import os

from msa import grid
from msa.grid import Arr, Axis, Broken, Ev, Flat, Func, Obj, Opaque, P, Raised, S, Table, Unclear
from msa.loader import SRC

ASSUMPTIONS = ["numpy's arange, empty, full, column_stack, linspace, mgrid and reshape behave as documented", "grids have at least one cell"]
TYPES = {1: (3, 2), 2: (9, 4), 3: (12, 8)}  # VTK type and number of nodes of the cells of a grid


def modules():
    out = {}
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as h:
                    t = ast.parse(h.read())
                t._rel = os.path.relpath(p, os.path.dirname(SRC))
                out[t._rel] = t
    return out


def entries(mods):
    """Functions of one argument that tell the kinds of structured data sets apart."""
    for rel, t in sorted(mods.items()):
        if "/vtk/" not in rel:
            continue
        for f in t.body:
            if isinstance(f, ast.FunctionDef) and len(f.args.args) == 1 and not f.args.vararg:
                cs = {c.value for n in ast.walk(f) if isinstance(n, ast.Compare) for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                if {"STRUCTURED_POINTS", "RECTILINEAR_GRID", "STRUCTURED_GRID"} <= cs:
                    yield rel, t, f


def dataset(E, kind, spacing):
    d = {"type": kind, "DIMENSIONS": list(E.dim)}
    if kind == "STRUCTURED_POINTS":
        d["ORIGIN"] = [S(f"o{a}") for a in range(3)]
        d[spacing] = [S(f"s{a}") for a in range(3)]
    elif kind == "RECTILINEAR_GRID":
        for a, x in enumerate("XYZ"):
            d[f"{x}_COORDINATES"] = Axis(E.dim[a], x)
    return d


def nodes(E):
    st, off = {}, P.of(1)
    p = P()
    for a in E.active:
        st[a] = off
        p = p + off * S(f"i{a}")
        off = off * E.dim[a]
    s = [st[a] for a in E.active]
    if len(s) == 1:
        d = [P(), s[0]]
    else:
        d = [P(), s[0], s[0] + s[1], s[1]]
        if len(s) == 3:
            d = d + [x + s[2] for x in d]
    return [p + x for x in d]


def col(a):
    if a.val is None or any(s[0] == "?" for s in a.val.syms()):
        return "not set"
    return f"{a.val}"


def verdict(E, a, want, data=None):
    if a.data != data:
        return False
    d = E.differs(a.val, want)
    return None if d is None else not d


def wants_offsets(t):
    """Does the module hand the offsets of an object on, with its cells?"""
    return any(isinstance(a, ast.Attribute) and a.attr == "offsets" for c in ast.walk(t) if isinstance(c, ast.Call) for a in [*c.args, *(k.value for k in c.keywords)])


def check(E, kind, info, ends):
    """(what, ok, message)"""
    code, k = TYPES[len(E.active)]
    d = info.d
    if kind != "STRUCTURED_GRID":
        pts = d.get("points")
        if not isinstance(pts, Table):
            yield "points", None, "not followed"
        elif pts.space != "points":
            yield "points", False, f"{E.size(pts.space)} points, expected {E.npoints}"
        elif len(pts.cols) != 3:
            yield "points", False, f"points have {len(pts.cols)} coordinates"
        else:
            for a, c in enumerate(pts.cols):
                j = S(f"j{a}") if a in E.active else P()
                want = (j, "XYZ"[a]) if kind == "RECTILINEAR_GRID" else (S(f"o{a}") + S(f"s{a}") * j, None)
                ok = verdict(E, c, *want)
                yield "points", ok, f"coordinate {a} of point (j0, j1, j2), first index fastest, is " + (f"entry {col(c)} of {c.data}" if c.data else col(c)) + ("" if ok else f", expected {want[0]}" + (f" of {want[1]}" if want[1] else ""))
            if kind == "RECTILINEAR_GRID" and pts.dt and pts.dt.startswith("dtype of "):
                yield "points", False, f"all coordinates are forced into the {pts.dt}_COORDINATES"
    conn, types, offs = d.get("connectivity"), d.get("types"), d.get("offsets")
    if not isinstance(conn, Flat):
        yield "cells", None, "not followed"
    elif conn.table.space != "cells":
        yield "cells", False, f"{E.size(conn.table.space)} cells, expected {E.ncells}"
    else:
        cols = conn.table.cols
        want = nodes(E) if ends else [P.of(k)] + nodes(E)
        if len(cols) != len(want):
            yield "cells", False, f"{len(cols)} numbers per cell, expected {len(want)}"
        else:
            for n, (c, w) in enumerate(zip(cols, want)):
                ok = verdict(E, c, w)
                yield "cells", ok, f"number {n} of cell (i0, i1, i2), first index fastest, is {col(c)}" + ("" if ok else f", expected {w}")
    if isinstance(types, Arr):
        ok = verdict(E, types, P.of(code)) if types.space == "cells" else False
        yield "cells", ok, f"{E.size(types.space)} cell types {col(types)}" + ("" if ok else f", expected {code} {E.ncells} times")
    else:
        yield "cells", None, "cell types not followed"
    if ends and offs is None:
        yield "cells", False, "the reader needs offsets, none are set"
    elif ends:
        if isinstance(offs, Arr):
            w = (E.e + P.of(1)) * P.of(k)
            ok = verdict(E, offs, w) if offs.space == "cells" else False
            yield "cells", ok, f"cell (i0, i1, i2) ends at {col(offs)}" + ("" if ok else f", expected {w}")
        else:
            yield "cells", None, "offsets not followed"


def run(rep):
    rep.rule = ("The code that turns the dimensions of a structured data set into points and cells is evaluated with polynomials over the (symbolic) grid sizes and the indices of a grid "
                "cell or point; every coordinate, node number, cell type and offset must be the polynomial of the grid, for each kind of data set and each choice of axes with more than one point.")
    mods = modules()
    n = 0
    for rel, t, f in entries(mods):
        n += 1
        for kind, spacing in (("STRUCTURED_POINTS", "SPACING"), ("STRUCTURED_POINTS", "ASPECT_RATIO"), ("RECTILINEAR_GRID", ""), ("STRUCTURED_GRID", "")):
            for r in (1, 2, 3):
                for active in itertools.combinations(range(3), r):
                    E = Ev(mods, active)
                    info = Obj(dataset=dataset(E, kind, spacing), connectivity=None, types=None, offsets=None, points=Opaque("points"), point_data={}, cell_data_raw={}, field_data={})
                    key = f"{rel}:{f.name} {kind}{' with ' + spacing if spacing else ''}, points along axes {active}"
                    try:
                        E.call_function(Func(f, t), [info], {})
                    except Unclear as e:
                        rep.skip("grids", f"{key}: {e}")
                        continue
                    except Raised:
                        rep.bad("grids", "grid", f"{rel}:{f.name}", f"{key}: refused with an exception")
                        continue
                    except Broken as e:
                        rep.bad("grids", "grid", f"{rel}:{f.name}", f"{key}: cannot be read, {e}")
                        continue
                    for what, ok, msg in check(E, kind, info, wants_offsets(t)):
                        if ok is None:
                            rep.skip("grids", f"{key}: {what}: {msg}")
                        elif ok:
                            rep.ok("grids", f"{key}: {msg}")
                        else:
                            rep.bad("grids", "grid", f"{rel}:{f.name}:{what}", f"{key}: {what}: {msg}")
    if not n:
        rep.skip("grids", "no function tells the kinds of structured data sets apart")
