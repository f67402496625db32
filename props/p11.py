"""Data arrays are stored completely, under their own name, in their own order."""
from msa import cursor

import re

from . import sections
from .floats import *
from .meshlib import B
from .trace import name_written

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py", "points and every cell block of the mesh are non-empty",
               "two arrays are told apart by the order in which their names and their values are written"]
# formats that store arbitrary named data: (point data, cell data, vectors, layouts)
S, V, M = ("tri", "tet"), ("tri", "tri+quad", "vol", "quad+tri+quad"), ("tri",)
STORES = {
    "gmsh22": ("pc", True, V), "gmsh": ("pc", True, S), "mdpa": ("pc", True, V), "vtk42": ("pc", True, V), "vtk51": ("pc", True, V), "vtk": ("pc", True, V), "vtu": ("pc", True, V),
    "xdmf": ("pc", True, V), "xdmf:series": ("pc", True, V), "avsucd": ("pc", True, V), "hmf": ("pc", True, V[:3]), "med": ("pc", True, V[:3]), "exodus": ("p", False, V), "tecplot": ("pc", True, ("tri", "tri+quad", "quad+tri+quad")),
    "ply": ("p", False, ("tri", "tri+quad")), "tetgen": ("p", False, ("tet",)), "h5m": ("p", True, S), "dolfin-xml": ("c", False, S),
}
MAY_ONLY = {("vtu", "binary=False"), ("tecplot", "default")}
MATERIAL = {"avsucd"}  # the first integer array becomes the format's unnamed material column


def specs(kinds, vec, mat=False):
    p = ["pm", "pb", "pint", "pa"] if "p" in kinds else []
    c = ["cm", "cb", "cz" if mat else "cint", "ca"] if "c" in kinds else []
    out = {"scalars": dict(point_data=p, cell_data=c), "2-D scalars": dict(point_data=p, cell_data=c, points_dim=2), "one": dict(point_data=p[:1], cell_data=c[:1])}
    if vec:
        out["vectors"] = dict(point_data=p, cell_data=c, data_shapes={"pb": (3,), "pa": (3,), "cb": (3,), "cint": (3,)})
        out["tensors"] = dict(point_data=p[:2], cell_data=c[:2], data_shapes={"pb": (9,), "cb": (9,)})
    out["float32"] = dict(point_data=p, cell_data=c, float_dtype="float32", int_dtype="int32")
    return out


def origins_in_order(v):
    """Array origins of a value in their written order, or None when it holds several in unknown order."""
    if not isinstance(v, Unk):
        return None
    comp = ext.composite(v)
    if comp is not None:
        out = []
        for c in comp:
            o = {x.origin for x in c}
            if not o:
                continue
            if len({base(x) if "_data[" in x else x for x in o}) != 1:
                return None
            out.append(o.pop())
        return out
    o = {x.origin for x in v.recs}
    return list(o) if len(o) == 1 else None


def order(r):
    """(names, arrays) in order of their first sink; None where the order inside one output call is unknown."""
    names, arrays = [], []
    nk = ak = True
    for e in r.ev("sink"):
        ns = {x.origin[5:] for x in e.data["recs"] if x.origin.startswith("name:")} - set(names)
        if len(ns) > 1:
            nk = False
        names += sorted(ns)
        ds = {base(x.origin) for x in e.data["recs"] if x.origin.startswith(("point_data[", "cell_data["))} - set(arrays)
        if len(ds) > 1:
            seq = None
            for v in e.data["vals"]:
                q = origins_in_order(v)
                if q is not None:
                    seq = list(dict.fromkeys(base(o) for o in q if o.startswith(("point_data[", "cell_data[")) and base(o) not in arrays))
            if seq is not None and set(seq) == ds:
                arrays += seq
                continue
            ak = False
        arrays += sorted(ds)
    return names if nk else None, arrays if ak else None


def base(o):
    return o.split("[")[1].rstrip("]")


def cat_blocks(v):
    """Block numbers of a concatenation of per-block arrays, in order; None if it is not one."""
    parts = v[1] if isinstance(v, tuple) else v.extra[1] if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("cat",) else None
    if parts is None:
        return None
    out = []
    for p in parts:
        o = {x.origin for x in p.recs if x.origin.startswith("cell_data[")}
        if len(o) != 1:
            return None
        out.append(int(o.pop().rsplit("[", 1)[1][:-1]))
    return out


def job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    kinds, vec, lays = STORES[name]
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for ln in lays:
            for sl, sp in specs(kinds, vec, name in MATERIAL).items():
                r = run_writer(I, wr, MeshSpec(LAYOUTS[ln], **sp), kw, filename=fn)
                what = f"{name}[{lab}] {ln} {sl}"
                if r.err or r.st is None:
                    out.append(("skip", what, r.err or "raises", None))
                    continue
                fl = flows(r, ("point_data[", "cell_data[", "name:"))
                must = {f[1] for f in r.st.facts if f[0] == "sink"}
                may = (name, lab) in MAY_ONLY
                want = [f"point_data[{x}]" for x in sp["point_data"]] + [f"cell_data[{x}][{b}]" for x in sp["cell_data"] for b in range(len(LAYOUTS[ln]))]
                for o in want:
                    recs = fl.get(o, {})
                    n = base(o)
                    if not recs or o not in must and not may:
                        out.append(("bad", what, "data-lost", f"{o} " + ("never reaches the output" if not recs else "is skipped on a completing path")))
                        continue
                    if f"name:{n}" not in fl and name != "tetgen":
                        out.append(("bad", what, "name-lost", f"the name of {o} never reaches the output"))
                        continue
                    w = next(iter(recs.values()))
                    k = (sp.get("data_shapes") or {}).get(n, (1,))[0]
                    why = values(recs, k)
                    if why == "undecided":
                        out.append(("skip", what, o, None))
                    elif why:
                        out.append(("bad", what, "data-changed", f"{o}: {why} ({w})"))
                    else:
                        out.append(("ok", what, o, None))
                names, arrays = order(r)
                if names is not None and arrays is not None and len(arrays) > 1:
                    seq = [n for n in names if n in arrays]
                    if len(seq) == len(arrays) and seq != arrays:
                        out.append(("bad", what, "name-mismatch", f"names are written in the order {seq}, the arrays in the order {arrays}"))
                    else:
                        out.append(("ok", what, "order of names and arrays", None))
                for e in list(r.ev("sink")) + list(r.ev("cat")):
                    for v in e.data["vals"] if "vals" in e.data else [e.data["parts"]]:
                        b = cat_blocks(v)
                        if b is not None and len(b) > 1:
                            if b != sorted(b):
                                out.append(("bad", what, "block-order", f"the cell data of blocks {b} is joined in that order in {e.node._mod.rel}:{func_of(e.node)}"))
                            else:
                                out.append(("ok", what, "block order", None))
    return out


def single(recs):
    """Every flow of an array without components is one fixed entry of it."""
    return bool(recs) and all(x.cols is not None and len(x.cols) == 1 and isinstance(x.cols[0], int) for x in recs)


def values(recs, k):
    """What is wrong with the flows of one array with k components; None if nothing, 'undecided' if it cannot be told."""
    ok = False
    for x in recs:
        if x.scaled is True or x.off not in (0, None):
            if all(y.scaled is True or y.off not in (0, None) for y in recs):
                return "values are shifted or scaled before they are written"
            continue
        if x.rows in ("rev", "perm"):
            return f"entries are written in {'reverse' if x.rows == 'rev' else 'another'} order"
        if k > 1 and exact(x):
            c = x.cols
            if not (len(c) == 1 or len(c) % k == 0 and c == tuple(range(k)) * (len(c) // k)):
                return f"components {c} are written, expected 0..{k - 1} in order"
            ok = True
        elif x.cols is not None:
            ok = True
    if all(x.rows == "part" for x in recs):
        return "only part of the entries is written"
    if k == 1 and single(recs):
        return "a single entry is written in place of all"
    if k > 1 and all(exact(x) for x in recs):
        miss = set(range(k)) - {c for x in recs for c in x.cols}
        if miss:
            return f"components {sorted(miss)} never reach the output"
    return None if ok else "undecided"


BLOCKS = [[("triangle", 2), ("quad", 1), ("triangle", 3)], [("tetra", 4)], [("line", 1), ("line", 2), ("quad", 2), ("vertex", 1)]]


def split_job(k):
    """per-block <-> flat conversions with concrete block sizes"""
    I = interp()
    blocks = BLOCKS[k]
    out = []
    f = I.module_env("meshio._common").get("cell_data_from_raw")
    g = I.module_env("meshio._common").get("raw_from_cell_data")
    total = sum(n for _, n in blocks)
    for form in ("block", "pair"):
        if f is None:
            break
        b = B(I)
        cells = b.cells(blocks, "block") if form == "block" else b.list([b.arr(f"cells[{i}].data", (n, 3), "int64") for i, (_, n) in enumerate(blocks)])
        raw = b.dict([("u", b.arr("u", (total,))), ("v", b.arr("v", (total, 3)))])
        r = b.run(f, [cells, raw])
        if r.st is None:
            out.append(("skip", form, "does not complete"))
            continue
        for nm in ("u", "v"):
            got = None
            for a in alts(r.val):
                o = I.get_obj(r.st, a.addr) if isinstance(a, Ref) else None
                v = dict((kk.v, vv) for kk, vv in o.entries).get(nm) if isinstance(o, HDict) else None
                lo = I.get_obj(r.st, v.addr) if isinstance(v, Ref) else None
                if isinstance(lo, HList) and lo.items is not None:
                    got = []
                    for x in lo.items:
                        rows = {(y.origin, y.rows) for y in ext.flat_recs(I, x, r.st)}
                        got.append(rows.pop() if len(rows) == 1 else None)
            want, p = [], 0
            for _, n in blocks:
                want.append((nm, ("iv", p, p + n) if n != total else None))
                p += n
            if got is None or any(x is None for x in got) or any(x[1] is not None and not isinstance(x[1], tuple) for x in got):
                out.append(("skip", form, f"{nm}: {got}"))
            elif got != want:
                out.append(("bad", form, f"cell_data_from_raw hands out rows {got} of the flat array for blocks of sizes {[n for _, n in blocks]}, expected {want}"))
            else:
                out.append(("ok", form, f"{nm}: {got}"))
    if g is not None:
        b = B(I)
        cd = b.dict([(nm, b.list([b.arr(f"cell_data[{nm}][{i}]", (n,)) for i, (_, n) in enumerate(blocks)])) for nm in ("u", "v")])
        r = b.run(g, [cd])
        if r.st is not None:
            for a in alts(r.val):
                o = I.get_obj(r.st, a.addr) if isinstance(a, Ref) else None
                if isinstance(o, HDict):
                    for kk, vv in o.entries:
                        q = cat_blocks(vv)
                        own = {base(x.origin) for x in ext.flat_recs(I, vv, r.st)}
                        if q is None:
                            out.append(("skip", "raw", "not a concatenation"))
                        elif q != list(range(len(blocks))) or own != {kk.v}:
                            out.append(("bad", "raw", f"raw_from_cell_data joins blocks {q} of {sorted(own)} as {kk.v!r}"))
                        else:
                            out.append(("ok", "raw", f"{q}"))
    return out


# layouts in which many formats skip some of the blocks
MIX = {"line, triangle, tetra": ["line", "triangle", "tetra"], "tetra, triangle, line": ["tetra", "triangle", "line"], "triangle, tetra, triangle": ["triangle", "tetra", "triangle"],
       "tetra, triangle, tetra": ["tetra", "triangle", "tetra"], "vertex, quad, hexahedron, quad": ["vertex", "quad", "hexahedron", "quad"],
       "tetra, line, wedge, tetra": ["tetra", "line", "wedge", "tetra"]}
BOUNDARY = {"su2", "ugrid"}  # only boundary elements carry a label


# integer cell data that a format stores as its own label of each cell
TAGS = {"gmsh22": ["gmsh:physical", "gmsh:geometrical"], "gmsh": ["gmsh:physical", "gmsh:geometrical"], "mdpa": ["gmsh:physical", "gmsh:geometrical"], "medit": ["medit:ref"], "nastran": ["nastran:ref"],
        "netgen": ["netgen:index"], "su2": ["su2:tag"], "ugrid": ["ugrid:ref"], "tetgen": ["tetgen:ref"], "med": ["cell_tags"], "avsucd": ["avsucd:material"]}


# arrays with names that a format reserves for what it stores: (point arrays, cell arrays, layouts)
RESERVED = {"h5m": (["GLOBAL_ID"], [], [["triangle"], ["line", "tetra"]]), "obj": (["obj:vn", "obj:vt"], [], [["triangle", "quad"], ["triangle"]]), "stl": ([], ["facet_normals"], [["triangle"], ["quad", "triangle", "line", "triangle"]])}


def reserved_job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    pd, cd, layouts = RESERVED[name]
    out = []
    for lab, kw, fn in variants(name, W[name]):
        for types in layouts:
            for comp in (2, 3) if pd else (3,):
                r = run_writer(I, wr, MeshSpec([(t, None) for t in types], points_dim=3, point_data=pd, cell_data=cd, data_shapes={n: (comp,) for n in pd + cd}), dict(kw, file_format=Const(name)), filename=fn)
                what = f"{name}[{lab}] {'+'.join(types)} with {comp} components"
                if r.err or r.st is None:
                    out.append(("skip", what, ""))
                    continue
                fl = flows(r, ("point_data[", "cell_data[", "cells["))
                must = {f[1] for f in r.st.facts if f[0] == "sink"}
                for n in [f"point_data[{x}]" for x in pd] + [f"cell_data[{x}][{i}]" for x in cd for i in range(len(types))]:
                    i = re.search(r"\]\[(\d+)\]$", n)
                    recs = fl.get(n, {})
                    if i and f"cells[{i.group(1)}].data" not in fl:
                        out.append(("bad", what, f"{n} is stored, but not the cells of this block") if recs else ("ok", what, n))
                    elif not recs or n not in must:
                        out.append(("bad", what, f"{n} " + ("never reaches the output" if not recs else "is skipped on a completing path")))
                    elif all(exact(x) and not set(range(comp)) <= set(x.cols) for x in recs) and not set(range(comp)) <= {c for x in recs for c in x.cols}:
                        out.append(("bad", what, f"only components {sorted({c for x in recs for c in x.cols})} of {n} are stored"))
                    elif any(exact(x) and (len(x.cols) > 1 and list(x.cols) != sorted(x.cols) or x.scaled is True or x.off not in (0, None)) for x in recs):
                        out.append(("bad", what, f"{n} is reordered, shifted or scaled"))
                    else:
                        out.append(("ok", what, n))
    return out


def pair_job(name):
    """Which blocks of cells and which blocks of cell data are stored."""
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for ln, types in MIX.items():
            for cd in [["cd"], ["cint"], ["cd", "cint"]] + ([TAGS[name], TAGS[name] + ["cd"]] if name in TAGS else []):
                pd = dict(point_data=["gmsh:dim_tags"], data_shapes={"gmsh:dim_tags": (2,)}) if name == "gmsh" and len(cd) > 1 and cd[0] in TAGS[name] else {}
                r = run_writer(I, wr, MeshSpec([(t, None) for t in types], cell_data=cd, points_dim=3, **pd), kw, filename=fn)
                what = f"{name}[{lab}] {ln} with {'+'.join(cd)}"
                if r.err or r.st is None:
                    continue
                fl = flows(r, ("cells[", "cell_data["))
                C = {i for i in range(len(types)) if f"cells[{i}].data" in fl}
                for n in cd:
                    D = {i for i in range(len(types)) if f"cell_data[{n}][{i}]" in fl}
                    if not D:
                        continue
                    w = next(iter(next(v for k, v in fl.items() if k.startswith(f"cell_data[{n}]")).values()))
                    if D - C:
                        out.append(("bad", what, f"{n} of block(s) {sorted(D - C)} is stored, but not the cells of these blocks ({w})"))
                    elif not (name == "gmsh" and n in TAGS["gmsh"]) and any(single(fl[f"cell_data[{n}][{i}]"]) for i in D):
                        i = next(i for i in sorted(D) if single(fl[f"cell_data[{n}][{i}]"]))
                        out.append(("bad", what, f"a single entry of {n} is stored for all cells of block {i} ({w})"))
                    elif C - D and name not in BOUNDARY:
                        out.append(("bad", what, f"{n} is stored for block(s) {sorted(D)}, but not for block(s) {sorted(C - D)} whose cells are stored ({w})"))
                    else:
                        out.append(("ok", what, n))
                for e in r.ev("select"):
                    i, d = re.findall(r"\d+", e.data["of"])[0], {x.rsplit("[", 1)[1][:-1] for x in e.data["by"]}
                    if len(d) == 1:
                        out.append(("ok" if d == {i} else "bad", what, f"cells of block {i} are selected by the cell data of block {d.pop()} ({e.node._mod.rel}:{func_of(e.node)})"))
                for e in r.ev("sink"):
                    c = {x.origin for x in e.data["recs"] if x.origin.startswith("cells[") and x.origin.endswith("].data")}
                    d = {x.origin.rsplit("[", 1)[1][:-1] for x in e.data["recs"] if x.origin.startswith("cell_data[")}
                    if len(c) == 1 and len(d) == 1:
                        i = c.pop()[6:-6]
                        if d != {i}:
                            out.append(("bad", what, f"cells of block {i} are stored with cell data of block {d.pop()} ({e.node._mod.rel}:{func_of(e.node)})"))
                        else:
                            out.append(("ok", what, "cells and data of one block together"))
    return out


# names with everything that is legal in all the formats: upper case, digits, dots, dashes, underscores, many letters
NAMES = ["gmsh_zone-Tag", "Region-7.Temp_Kelvin_0123", "Wall-Shear.Stress_Pascal_9"]


def name_job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    kinds, vec, lays = STORES[name]
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for ln in lays:
            p = ["P" + n for n in NAMES] if "p" in kinds else []
            c = ["C" + n for n in NAMES] if "c" in kinds else []
            for sh in ((), (3,)) if vec and name != "tecplot" else ((),):
                r = run_writer(I, wr, MeshSpec(LAYOUTS[ln], point_data=p, cell_data=c, points_dim=3, data_shapes={n: sh for n in p + c}), kw, filename=fn)
                if r.err or r.st is None:
                    continue
                for n in p + c:
                    w = name_written(I, r, n, name != "dolfin-xml")
                    out.append(("skip" if w is None else "ok" if w else "bad", f"{name}[{lab}] {ln}", n))
    return out


def run(rep):
    rep.rule = ("For every format that stores named data, each point-data array and each block of each cell-data array reaches an output sink on every completing path, together with its name (spelled as given), with its components in "
                "order, unscaled and with all entries; the sequence of names written agrees with the sequence of arrays written, and per-block arrays are joined in block order. The conversions between per-block and "
                "flat cell data assign each block exactly its own rows.")
    R, W, _ = registry(interp())
    for name, res in pmap(job, [n for n in STORES if n in W]):
        if isinstance(res, Failed):
            rep.skip("written", f"{name}: {res.why}")
            continue
        for v, what, a, msg in res:
            if v == "ok":
                rep.ok("written", f"{what}: {a}")
            elif v == "skip":
                rep.skip("written", f"{what}: {a}")
            else:
                rep.bad("written", a, what.split("]")[0] + "]", f"{what}: {msg}")
    got = sections.ugrid(interp(), "x.ugrid") if "ugrid" in R else None
    if got is None or got[1] is None or got[2] is None:
        rep.skip("paired", "ugrid: labels read")
    elif [b[1] for b in got[1]] != got[2]:
        rep.bad("paired", "wrong-block", f"ugrid:{got[3]}", f"blocks of {[b[1] for b in got[1]]} cells are read with label arrays of {got[2]} entries ({got[3]})")
    else:
        rep.ok("paired", f"ugrid: label arrays of {got[2]} entries for blocks of as many cells")
    for name, res in pmap(reserved_job, [n for n in RESERVED if n in W]):
        if isinstance(res, Failed):
            rep.skip("reserved", f"{name}: {res.why}")
            continue
        for v, what, msg in res:
            if v == "bad":
                rep.bad("reserved", "reserved-array", name, f"{what}: {msg}")
            else:
                (rep.ok if v == "ok" else rep.skip)("reserved", f"{what} {msg}")
    for name, res in pmap(pair_job, list(W)):
        if isinstance(res, Failed):
            rep.skip("paired", f"{name}: {res.why}")
            continue
        for v, what, msg in res:
            if v == "ok":
                rep.ok("paired", f"{what} {msg}")
            else:
                rep.bad("paired", "wrong-block", name, f"{what}: {msg}")
    rep.floor("paired", 200)
    for name, res in pmap(name_job, [n for n in STORES if n in W]):
        if isinstance(res, Failed):
            rep.skip("names", f"{name}: {res.why}")
            continue
        for v, what, n in res:
            if v == "ok":
                rep.ok("names", f"{what}: {n!r} written as given")
            elif v == "skip":
                rep.skip("names", f"{what}: {n!r}")
            else:
                rep.bad("names", "name-changed", what.split("]")[0] + "]", f"{what}: the name {n!r} is not in the file as given")
    rep.floor("names", 150)
    for k, res in pmap(split_job, list(range(len(BLOCKS)))):
        if isinstance(res, Failed):
            rep.skip("split", res.why)
            continue
        for v, what, msg in res:
            if v == "ok":
                rep.ok("split", f"{what} {msg}")
            elif v == "skip":
                rep.skip("split", f"{what} {msg}")
            else:
                rep.bad("split", "block-rows", f"{what}:{k}", msg)
    for m, fn in interp().prog.functions():
        for ok, line, msg in [*cursor.loops(fn), *cursor.joined(fn)]:
            if ok:
                rep.ok("pieces", f"{m.rel}:{fn.name}: {msg}")
            elif ok is None:
                rep.skip("pieces", f"{m.rel}:{fn.name}: {msg}")
            else:
                rep.bad("pieces", "piece-position", f"{m.rel}:{fn.name}", f"{m.rel}:{line} ({fn.name}): {msg}")
    rep.floor("written", 1500)
