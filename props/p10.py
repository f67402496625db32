"""Point coordinates reach the file, and come back, column by column."""
import re

from msa import cursor

from .floats import *

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py"]
DRAWING = {"svg"}  # a drawing: scaled, two coordinates only
MAY_ONLY = {("vtu", "binary=False"), ("tecplot", "default"), ("stl", "binary=False")}
SPECS = {"3-D": dict(points_dim=3), "2-D": dict(points_dim=2), "3-D float32": dict(points_dim=3, float_dtype="float32"),
         "3-D data": dict(points_dim=3, point_data=["pd"], cell_data=["cd"]), "3-D vec": dict(points_dim=3, point_data=["v", "w"], data_shapes={"v": (3,), "w": (9,)}),
         "3-D entities": dict(points_dim=3, point_data=["gmsh:dim_tags"], cell_data=["gmsh:physical", "gmsh:geometrical"], data_shapes={"gmsh:dim_tags": (2,)}),
        
         "2-D data": dict(points_dim=2, point_data=["pd"], cell_data=["cd"])}


def wjob(name):
    return runs(name, list(LAYOUTS), SPECS, want=("points",))


def rjob(name):
    I = interp()
    R = registry(I)[0]
    out = {}
    for t in ("triangle", "tetra"):
        r = run_reader(I, R[name], t)
        for rr in (r, r.prev):
            for e in rr.ev("mesh") if rr is not None else ():
                p = e.data["vals"].get("points", UNK)
                k = (e.node._mod.rel + ":" + func_of(e.node))
                out.setdefault(k, set()).add(frozenset(ext.flat_recs(I, p, e.data["st"])))
    return out


def axes_job(name):
    """Columns that the separately stored coordinates are put into: [(site, columns)]."""
    I = interp()
    r = run_reader(I, registry(I)[0][name], "triangle")
    by = {}
    for e in r.ev("astore"):
        a, k, v = e.data["arr"], e.data["key"], e.data["value"]
        if (isinstance(a, Unk) and a.shape is not None and len(a.shape) == 2 and a.shape[1] == 3 and isinstance(k, Const) and isinstance(k.v, tuple) and len(k.v) == 2
                and k.v[0] == Sl(None, None, None) and type(k.v[1]) is int and isinstance(v, Unk) and {x.origin for x in v.recs} == {"file"}):
            by.setdefault(e.node._mod.rel + ":" + func_of(e.node), {}).setdefault(e.node.lineno, set()).add(k.v[1])
    return [(s, [sorted(c) for _, c in sorted(d.items())]) for s, d in by.items()]


def runs_of(cols, d):
    """cols is a repetition of 0..d-1, or a single column"""
    return len(cols) == 1 and 0 <= cols[0] < d or len(cols) % d == 0 and cols == tuple(range(d)) * (len(cols) // d)


def judge(recs, d):
    """(rule, what) of the first thing wrong with the coordinates at the sinks, or None, or 'undecided'."""
    ex = {x: w for x, w in recs.items() if exact(x)}
    for x, w in ex.items():
        if x.off != 0 or x.scaled is True:
            return "points-changed", f"coordinates are shifted or scaled before they are written ({w})"
        if not runs_of(x.cols, d):
            return "points-columns", f"coordinate columns {x.cols} are written, expected 0..{d - 1} in order ({w})"
        if x.rows in ("rev", "perm"):
            return "points-rows", f"points are written in {'reverse' if x.rows == 'rev' else 'another'} order ({w})"
    if not ex:
        if all(x.scaled is True for x in recs):
            return "points-changed", f"only computed values derived from the coordinates are written ({next(iter(recs.values()))})"
        if all(x.rows == "perm" for x in recs):
            return "points-rows", f"points are written in another order, without duplicates ({next(iter(recs.values()))})"
        return "undecided"
    if all(x.rows == "part" for x in recs):
        return "points-rows", f"only part of the points is written ({next(iter(recs.values()))})"
    if not any(x.cols is None for x in recs):
        miss = set(range(d)) - {c for x in ex for c in x.cols}
        if miss:
            return "points-columns", f"coordinate columns {sorted(miss)} never reach the output ({next(iter(ex.values()))})"
    return None


def contiguous(c):
    if len(c) == 1 and isinstance(c[0], tuple):
        return c[0][1] is None and c[0][0] >= 0
    if not c or not all(isinstance(x, int) for x in c):
        return None
    n = len(set(c))
    return c == tuple(range(c[0], c[0] + n)) * (len(c) // n)


FIRST = {"abaqus": 1, "avsucd": 1, "mdpa": 1, "obj": 1, "permas": 1, "tetgen": 1, "nastran": 3, "vtu": 0, "xdmf": 0, "xdmf:series": 0, "h5m": 0, "dolfin-xml": 0,
         "exodus": 0, "hmf": 0, "med": 0, "medit": 0, "netgen": 0, "neuroglancer": 0, "off": 0, "su2": 0, "ugrid": 0, "ansys": 0, "ply": 0}


def wrong_part(name, c):
    """the file columns c are not all of x, y, z: the numbers before them are the point's label or keyword"""
    if len(c) == 1 and isinstance(c[0], tuple):
        first, n = c[0][0], None
    else:
        first, n = c[0], len(set(c))
    if n == 2:
        return "only two of the three coordinates"
    if n is not None and n > 3:
        return f"{n} columns instead of three coordinates"
    if n != 1 and name in FIRST and first not in (0, FIRST[name]):
        return f"not starting at the first coordinate (column {FIRST[name]})"
    return None


def run(rep):
    rep.rule = ("Provenance of coordinates by abstract interpretation: at every output sink of every writer x variant x layout the coordinate columns are 0..d-1 in order, unshifted and "
                "unscaled, all columns and all rows are covered, and a sink is reached on every completing path; in every Mesh a reader constructs, the coordinates are consecutive file "
                "columns in ascending order, beginning with the first coordinate, never a fixed number other than three, unshifted and unscaled.")
    R, W, _ = registry(interp())
    for name, res in pmap(wjob, list(W)):
        if isinstance(res, Failed):
            rep.skip("written", f"{name}: {res.why}")
            continue
        # a warning that is also issued when the points are written excuses nothing
        usual = {w for _, ln, _, oc, _, must, ws in res if oc == "done" and "points" in must and len(LAYOUTS[ln]) == 1 for w in ws}
        for lab, ln, sl, oc, fl, must, warned in res:
            what = f"{name}[{lab}] {ln} {sl}"
            if oc != "done" or name in DRAWING:
                rep.skip("written", f"{what}: {oc}")
                continue
            d = SPECS[sl]["points_dim"]
            recs = fl.get("points", {})
            if not warned - usual and (not recs or "points" not in must and (name, lab) not in MAY_ONLY and not (name == "gmsh" and "entities" in sl)):
                rep.bad("written", "points-lost", f"{name}[{lab}]", f"{what}: the points " + ("never reach the output" if not recs else "are skipped on a completing path"))
                continue
            v = judge(recs, d) if recs else None
            if "padded" in fl:
                v = "points-columns", f"a zero column is inserted before coordinate columns ({fl['padded']})"
            if v == "undecided":
                rep.skip("written", f"{what}: columns not tracked")
            elif v:
                rep.bad("written", v[0], f"{name}[{lab}]", f"{what}: {v[1]}")
            else:
                rep.ok("written", f"{what}: {len(recs)} flow(s) of columns 0..{d - 1}")
    for site, cols in axes_job("exodus") if "exodus" in R else ():
        if len(cols) >= 3 and all(len(c) == 1 for c in cols) and {c[0] for c in cols} != {0, 1, 2}:
            rep.bad("read", "points-read", f"exodus:{site}", f"exodus: the separately stored coordinates are put into columns {[c[0] for c in cols]} of the points in {site}")
        elif len(cols) >= 3:
            rep.ok("read", f"exodus {site}: columns {cols}")
    for name, res in pmap(rjob, list(R)):
        if isinstance(res, Failed):
            rep.skip("read", f"{name}: {res.why}")
            continue
        for site, sets in res.items():
            for rs in sets:
                ex = [x for x in rs if x.cols is not None and x.off is not None and contiguous(x.cols) is not None]
                bad = [x for x in ex if not contiguous(x.cols) or x.off != 0 or x.scaled is True]
                rev = [x for x in ex if x.rows == "rev"]
                if bad or rev:
                    x = (bad or rev)[0]
                    rep.bad("read", "points-read", f"{name}:{site}", f"{name}: points handed to the mesh in {site} are file columns {x.cols}" + (", shifted or scaled" if x.off != 0 or x.scaled else "") + (", in reverse order" if rev else ""))
                elif any(wrong_part(name, x.cols) for x in ex):
                    x = next(x for x in ex if wrong_part(name, x.cols))
                    rep.bad("read", "points-read", f"{name}:{site}", f"{name}: points handed to the mesh in {site} are file columns {x.cols}: {wrong_part(name, x.cols)}")
                elif ex:
                    rep.ok("read", f"{name} {site}: file columns {ex[0].cols}")
                elif rs and all(x.scaled is True for x in rs):
                    rep.bad("read", "points-read", f"{name}:{site}", f"{name}: points handed to the mesh in {site} are computed from the file's numbers")
                else:
                    rep.skip("read", f"{name} {site}: columns not tracked")
    for m, fn in interp().prog.functions():
        for ok, line, msg in cursor.joined(fn):
            if re.search(r"(?i)point|pts|coord|node|vert", msg):
                if ok:
                    rep.ok("pieces", f"{m.rel}:{fn.name}: {msg}")
                else:
                    rep.bad("pieces", "points-pieces", f"{m.rel}:{fn.name}", f"{m.rel}:{line} ({fn.name}): {msg}")
    rep.floor("written", 500)
    rep.floor("read", 15)
