"""Named point and cell sets are stored completely, with file numbering, under their own name."""
from .floats import *
from .p02 import BASE
from .trace import name_written

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py", "every block has the number of cells given; the sets may have any members",
               "two sets are told apart by the order in which their names and their members are written"]

# (point sets, cell sets); cell numbers count from 1 through all blocks of the group
STORES = {"abaqus": "pc", "exodus": "p", "flac3d": "c"}
CONVERTS = ["vtk", "vtk51", "vtu"]  # sets become one integer array whose name is made of theirs
# where every path through the writer is seen to store the members of a non-empty set
ALWAYS = {("abaqus", "p", "default"), ("exodus", "p", "default"), ("flac3d", "c", "binary=True")}
SIZES = (1, 2, 8, 9, 16, 20, 21, 23)  # numbers of members, around the line lengths of the text formats
FACES = {"triangle", "quad", "triangle6", "quad8"}
LAYS = {
    "tri,quad,tri": [("triangle", 4), ("quad", 2), ("triangle", 3)], "quad,tri": [("quad", 5), ("triangle", 1)], "line,tri": [("line", 3), ("triangle", 7)],
    "tet,hex,tet": [("tetra", 4), ("hexahedron", 2), ("tetra", 3)], "hex,wedge,tet": [("hexahedron", 5), ("wedge", 1), ("tetra", 2)], "tet": [("tetra", 6)], "tri": [("triangle", 6)],
    "tet,tri,hex,quad": [("tetra", 4), ("triangle", 2), ("hexahedron", 3), ("quad", 5)], "tri,tet,tri,tet": [("triangle", 2), ("tetra", 3), ("triangle", 4), ("tetra", 1)],
}
PB, PA, PZ, CB, CA, CZ = "Wall-2.north_0123456", "Inlet_7", "points", "Rock-1.layer_0123456", "Clay_Sand_3", "cells"
SETS = {"two": ([PB, PA], [CB, CA]), "one": ([PA], [CA]), "points": ([PB, PA, PZ], []), "cells": ([], [CB, CA, CZ])}


def group(name, t):
    return t in FACES if name == "flac3d" else None


def sequence(r, kind):
    """(names, sets) in order of their first output; None where one output call holds several of them"""
    names, sets = [], []
    for e in r.ev("sink"):
        for lst, got in ((names, {x.origin[5:] for x in e.data["recs"] if x.origin.startswith("name:")}),
                         (sets, {x.origin.split("[")[1][:-1] for x in e.data["recs"] if x.origin.startswith(kind + "[")})):
            new = got - set(lst)
            if len(new) > 1:
                return None
            lst += new
    return names, sets


def job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for ln, lay in LAYS.items():
            for (sl, (ps, cs)), nm in [(x, None) for x in SETS.items()] + [(("two", SETS["two"]), n) for n in SIZES]:
                kinds = STORES.get(name, "pc")
                key = f"{name}[{lab}] {ln} {sl}" + (f" with {nm} members" if nm else "")
                r = run_writer(I, wr, MeshSpec([(t, None) for t, _ in lay], points_dim=3, ncells=[n for _, n in lay], point_sets=ps, cell_sets=cs, nmembers=nm), kw, filename=fn)
                if r.err:
                    out.append((key, "skip", r.err, ""))
                    continue
                if r.st is None:
                    continue
                fl = flows(r, ("cell_sets", "point_sets", "name:", "cells["))
                names = (ps if "p" in kinds else []) + (cs if "c" in kinds else [])
                if name in CONVERTS:
                    names = sorted(names)
                for n in names:
                    v = fl.get(f"name:{n}")
                    w = name_written(I, r, n, name not in CONVERTS) if v is not None else False
                    if w is None:
                        out.append((key, "skip", f"name of {n!r}", ""))
                    else:
                        out.append((key, "ok" if w else "bad", f"name of set {n!r} written as given" if w else f"the name of set {n!r} is not in the file as given", "set-name"))
                if name in CONVERTS:
                    continue
                want = {f"point_sets[{p}]": BASE[name] for p in ps if "p" in kinds}
                off = {}
                for k, (t, n) in enumerate(lay):
                    g = group(name, t)
                    if f"cells[{k}].data" in fl:
                        for c in cs if "c" in kinds else ():
                            want[f"cell_sets[{c}][{k}]"] = 1 + off.get(g, 0)
                        off[g] = off.get(g, 0) + n
                must = {f[1] for f in r.st.facts if f[0] == "sink"}
                for o, w in want.items():
                    v = fl.get(o)
                    if v is not None and o not in must and ((name, o[0], lab) in ALWAYS or nm and name in ("abaqus", "flac3d")):
                        out.append((key, "bad", f"the members {o} are left out on a completing path", "set-members"))
                    if v is None:
                        out.append((key, "bad", f"the members {o} never reach the file", "set-members"))
                        continue
                    part = None
                    if nm and all(exact(x) and (x.rows is None or isinstance(x.rows, tuple) and x.rows[:1] == ("iv",)) for x in v):
                        pos = {p for x in v for p in (range(x.rows[1], x.rows[1] + len(set(x.cols))) if x.rows else x.cols)}
                        part = pos if pos != set(range(len(pos))) or len(pos) < nm else False
                    for x, where in v.items():
                        if x.off is None:
                            out.append((key, "skip", f"{o}: shift not determined in {where}", ""))
                        elif x.scaled:
                            out.append((key, "bad", f"the members {o} are changed by arithmetic in {where}", "set-members"))
                        elif part or part is None and x.rows not in (None, ()):
                            out.append((key, "bad", f"only a part of the members {o} is written in {where}" + (f", {len(part)} of at least {nm}" if part else ""), "set-members"))
                        elif x.off != w:
                            out.append((key, "bad", f"the members {o} are written with {x.off:+d}, their numbers in the file start at {w} ({where})", "set-number"))
                        else:
                            out.append((key, "ok", f"{o}: {x.off:+d} in {where}", ""))
                # a set's members follow its own name
                for kind, given in (("point_sets", ps if "p" in kinds else []), ("cell_sets", cs if "c" in kinds else [])):
                    q = sequence(r, kind) if len(given) > 1 else None
                    if q is not None:
                        nm = [n for n in q[0] if n in given]
                        if sorted(nm) == sorted(q[1]) and nm != q[1]:
                            out.append((key, "bad", f"names are written in the order {nm}, members in the order {q[1]}", "set-order"))
                        elif sorted(nm) == sorted(q[1]):
                            out.append((key, "ok", f"{kind}: names and members in the order {nm}", ""))
    return out


def run(rep):
    rep.rule = ("Every writer that stores sets is followed with meshes whose blocks have concrete sizes and whose sets have arbitrary members: the name and the members of each set must reach the output, complete, in one order, "
                "and shifted by exactly the number of the first cell of their block in the file (for point sets: the first point number). Writers that turn sets into data must keep every set name.")
    W = registry(interp())[1]
    for name, res in pmap(job, [n for n in list(STORES) + CONVERTS if n in W]):
        if isinstance(res, Failed):
            rep.skip("sets", f"{name}: {res.why}")
            continue
        for key, v, msg, rule in res:
            if v == "ok":
                rep.ok("sets", f"{key}: {msg}")
            elif v == "skip":
                rep.skip("sets", f"{key}: {msg}")
            else:
                rep.bad("sets", rule, name, f"{key}: {msg}")
    rep.floor("sets", 300)
