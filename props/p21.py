"""Points and cells carry consecutive numbers, and every record about them uses the same numbers."""
from msa import dims

from .p15 import MIX, NUM, same, total
from .trace import *

ASSUMPTIONS = ["numpy calls behave as modelled in msa/ext.py and msa/extcalls.py", "points and every cell block of the mesh are non-empty"]
# format: (number of the first point, number of the first cell, text before the number in rows of points, of cells, of data)
FORMATS = {
    "abaqus": (1, 1, r"", r"", None),
    "avsucd": (1, 1, r"", r"", r""),
    "flac3d": (1, 1, r"G\s+", r"[ZF]\s+\w+\s+", None),
    "gmsh22": (1, 1, r"", r"", r""),
    "gmsh": (1, 1, r"", r"", r""),
    "gmsh40": (1, 1, r"", r"", r""),
    "mdpa": (1, 1, r"\s*", r"\s*", r"\s*"),
    "nastran": (1, 1, r"GRID[*,\s]\s*", r"C\w+[*,\s]\s*", None),
    "permas": (1, 1, r"", r"", None),
    "tetgen": (0, 0, r"", r"", None),
    "h5m": (1, None, None, None, None),
    "dolfin-xml": (0, 0, r"\s*<vertex index=\"", r"\s*<\w+ index=\"", r"\s*<entity index=\""),
}
LAYS = ["tri", "tet", "tri+quad", "vol", "quad+tri+quad", "tri+tet"]
SPECS = {"plain": dict(), "data": dict(point_data=["pd"], cell_data=["cd"]), "vectors": dict(point_data=["pv"], cell_data=["cv"], data_shapes={"pv": (3,), "cv": (3,)})}
ENT = dict(point_data=["gmsh:dim_tags", "pd"], cell_data=["gmsh:geometrical", "gmsh:physical", "cd"], data_shapes={"gmsh:dim_tags": (2,)})
TAGS = dict(point_data=["pd"], cell_data=["gmsh:geometrical", "gmsh:physical", "cd"])


def label(t):
    """(first number, is it a running number) a text fragment denotes."""
    if t.startswith("\1run:"):
        d = t[5:-1]
        return (int(d) if re.fullmatch(r"-?\d+", d) else d), True
    if t.startswith("\1"):
        d = t[1:-1]
        return (int(d) if re.fullmatch(r"-?\d+", d) else d), False
    return (int(t), False) if re.fullmatch(r"-?\d+", t) else (None, None)


def of_item(it, pre):
    """[(first number, running?)] of the numbers an item gives to its records; None where unknown."""
    if it.kind == "text":
        if it.text is None:
            return None
        m = re.match(pre + NUM, it.text)
        return None if m is None else label(m.group(1))
    for k, v in it.fields or ():
        if ext.run_of(v) is not None:
            return ext.run_of(v), True
    if it.kind == "pack" and isinstance(it.val, (list, tuple)):
        for v in it.val[:2]:
            if isinstance(v, Unk) and ext.run_of(v) is not None:
                return ext.run_of(v), True
    rs = {(x.origin, x.off) for x in it.recs or () if x.origin.startswith("run:") and not x.scaled}
    if len(rs) == 1:
        (o, off), = rs
        d = o[4:]
        first = int(d) if re.fullmatch(r"-?\d+", d) else d
        return (None if off is None else dims.add(first, off)), True
    return None


def wjob(name):
    I = interp()
    W = registry(I)[1]
    out = []
    p0, c0, ppre, cpre, dpre = FORMATS[name]
    real = "gmsh" if name == "gmsh40" else name
    wr = I.modattr("meshio._helpers", "write") if name != "gmsh40" else I.modattr("meshio.gmsh.main", "write")
    for lab, kw, fn in variants(real, W[real]):
        kw = dict(kw, fmt_version=Const("4.0")) if name == "gmsh40" else dict(kw, file_format=Const(name))
        for ln in LAYS + list(MIX):
            types = MIX[ln] if ln in MIX else [t for t, _ in LAYOUTS[ln]]
            for sl, sp in list(SPECS.items()) + ([("entities", ENT if name == "gmsh" else TAGS)] if real.startswith("gmsh") else []):
                r = run_writer(I, wr, MeshSpec([(t, None) for t in types], points_dim=3, **sp), kw, filename=fn)
                key = f"{name}[{lab}] {ln} {sl}"
                if r.err:
                    if ln not in MIX:
                        out.append((key, None, r.err, "", "cells"))
                    continue
                if r.st is None:
                    continue
                for ok, what, msg, where in h5m(r, types) if name == "h5m" else judge(name, trace(I, r), types, p0, c0, ppre, cpre, dpre):
                    out.append((key, ok, msg, where, what))
    return out


def h5m(r, types):
    """First numbers stored beside the arrays of points and cells."""
    prev, last = [], None
    for e in r.events:
        if e.kind != "sink":
            continue
        o = {x.origin for x in e.data["recs"]}
        blocks = [k for k in range(len(types)) if f"cells[{k}].data" in o]
        if "points" in o:
            last = "points"
        elif len(blocks) == 1:
            last = blocks[0]
        vals = e.data["vals"]
        if len(vals) >= 2 and isinstance(vals[0], Const) and vals[0].v == "GLOBAL_ID" and ext.run_of(vals[1]) is not None:
            yield same(ext.run_of(vals[1]), 1), "points", f"the global numbers of the points start at {ext.run_of(vals[1])}", e.node._mod.rel + ":" + func_of(e.node)
        if last is not None and len(vals) >= 2 and isinstance(vals[0], Const) and vals[0].v == "start_id":
            want = 1 if last == "points" else dims.add(dims.add("np", 1), total(f"nc{j}" for j in prev))
            got = ext.dim_of_value(vals[1])
            who = "points" if last == "points" else f"cells of block {last} ({types[last]})"
            yield None if got is None else same(got, want), "points" if last == "points" else "cells", f"the {who} are numbered from {got}, the numbers before end at {dims.add(want, 1, -1)}", e.node._mod.rel + ":" + func_of(e.node)
            if last != "points":
                prev.append(last)
            last = None


def lines(tr):
    """The trace with texts that do not end a line joined to what follows on the same line."""
    cur = None
    for it in tr:
        if it.kind != "text":
            if it.kind in ("raw", "pack", "savetxt"):
                if cur is not None:
                    yield cur
                    cur = None
                yield it
            continue
        if cur is not None:
            t = None if cur.text is None or it.text is None else cur.text + it.text
            it = It("text", it.node, text=t, recs=frozenset(cur.recs or ()) | frozenset(it.recs or ()), val=it.val)
            cur = None
        if it.text is not None and it.text and not it.text.endswith("\n"):
            cur = it
        else:
            yield it
    if cur is not None:
        yield cur


def judge(name, tr, types, p0, c0, ppre, cpre, dpre):
    order, rows = [], []
    for it in lines(tr):
        o = {x.origin for x in it.recs or ()}
        if it.kind not in ("text", "raw", "pack", "savetxt"):
            continue
        blocks = [k for k in range(len(types)) if f"cells[{k}].data" in o]
        if "points" in o:
            rows.append(("points", it, None))
        elif len(blocks) == 1:
            rows.append(("cells", it, blocks[0]))
        elif any(x.startswith(("point_data[pd]", "point_data[pv]")) for x in o) and dpre is not None:
            rows.append(("point data", it, None))
        elif any(x.startswith(("cell_data[cd]", "cell_data[cv]")) for x in o) and dpre is not None:
            rows.append(("cell data", it, sorted({int(x.rsplit("[", 1)[1][:-1]) for x in o if x.startswith(("cell_data[cd]", "cell_data[cv]")) and x.endswith("]") and x.rsplit("[", 1)[1][:-1].isdigit()})))
        elif isinstance(it.val, Unk) and isinstance(it.val.extra, tuple) and it.val.extra[:1] == ("pos",) and name == "gmsh":
            d = it.val.extra[1]
            yield d == p0, "points", f"the points are numbered from {d}, the format numbers them from {p0}", it.where
    labelled = {(w, k if w == "cells" else None) for w, it, k in rows if of_item(it, ppre if w == "points" else cpre if w == "cells" else dpre) is not None}
    for w, k in sorted({(w, k if w == "cells" else None) for w, it, k in rows if w in ("points", "cells")} - labelled, key=str):
        if w != "points" or name != "gmsh":
            yield None, w, f"number of the {w}" + (f" of block {k}" if k is not None else ""), ""
    # the blocks in the order in which they are stored
    for what, it, k in rows:
        if what == "cells" and k not in order and of_item(it, cpre) is not None:
            order.append(k)
    dim = lambda k: 3 if types[k].startswith(("tet", "hex", "wedge", "pyr")) else 2
    for what, it, k in rows:
        pre = {"points": ppre, "cells": cpre}.get(what, dpre)
        if it.kind == "text" and isinstance(it.val, Unk) and isinstance(it.val.extra, tuple) and it.val.extra[:1] == ("pack",):
            continue
        got = of_item(it, pre)
        if got is None:
            continue
        first, runs = got
        if what == "points":
            want, who = p0, "points"
        elif what == "point data":
            want, who = p0, "data of the points"
        elif what == "cells":
            prev = order[:order.index(k)]
            if name == "flac3d":
                prev = [j for j in prev if dim(j) == dim(k)]
            want, who = dims.add(c0, total(f"nc{j}" for j in prev)), f"cells of block {k} ({types[k]})"
        else:
            if not k or k != order[order.index(k[0]):][:len(k)] if k and k[0] in order else True:
                continue
            want, who = dims.add(c0, total(f"nc{j}" for j in order[:order.index(k[0])])), "data of the cells"
        if first is None:
            yield None, what, f"number of the {who}", it.where
            continue
        if not runs:
            yield False, what, f"all {who} carry the number {first}", it.where
            continue
        ok = same(first, want)
        yield ok, what, f"the {who} are numbered from {first}, the numbers before end at {dims.add(want, 1, -1)}", it.where


def run(rep):
    rep.rule = ("Every writer of a format with explicit numbers is followed with symbolic sizes; the first number given to the points, to the cells of each block and to the records of the data "
                "must be the base of the format plus the number of cells stored before, and must advance by one from record to record.")
    W = registry(interp())[1]
    for name, res in pmap(wjob, [n for n in FORMATS if n in W or n == "gmsh40"]):
        if isinstance(res, Failed):
            rep.skip("numbers", f"{name}: {res.why}")
            continue
        for key, ok, msg, where, what in res:
            if ok is None:
                rep.skip("numbers", f"{key}: {msg}")
            elif ok:
                rep.ok("numbers", f"{key}: {msg}")
            else:
                rep.bad("numbers", what.replace(" ", "-"), f"{name}:{where}", f"{key}: {msg} ({where})")
    rep.floor("numbers", 150)
