"""Cell types survive a write/read cycle: the designation written for a type is read back as that type."""
import json
import os
import re

from . import sections
from .conn import *

ASSUMPTIONS = ["a reader decides the cell type by looking the file's designation up in the table(s) it indexes with values from the file"]
TYPES = BASIC + EXTRA


# documented conversions: the format has no element of that shape and stores a degenerate one
CONVERTS = {("tecplot", "wedge"): "hexahedron", ("tecplot", "pyramid"): "hexahedron"}
MIXED = {("tecplot", "triangle"): "quad", ("tecplot", "tetra"): "hexahedron"}  # one zone holds one shape


def desig(I, r):
    des, toks = {}, {}
    for e in r.ev("sink"):
        for x in e.data["recs"]:
            if x.origin.startswith("desig:"):
                des.setdefault(x.origin[6:], func_of(e.node))
        for v in e.data["vals"]:
            for a in alts(v):
                s = a.v if isinstance(a, Const) else None
                if isinstance(s, bytes):
                    s = s.decode("latin-1")
                if isinstance(s, str):
                    for w in [s.strip()] + re.findall(r"[A-Za-z_][\w-]*", s):
                        toks.setdefault(repr(w), func_of(e.node))
                elif isinstance(s, int) and not isinstance(s, bool):
                    toks.setdefault(repr(s), func_of(e.node))
    return des, toks


def wjob(name):
    I = interp()
    W = registry(I)[1]
    out = []
    for lab, kw, fn in variants(name, W[name]):
        for t in TYPES:
            for lay in (["t"], ["t", "triangle" if t != "triangle" else "quad"], ["triangle" if t != "triangle" else "tetra", "t"]):
                blocks = [t if x == "t" else x for x in lay]
                r = run_writer(I, W[name], MeshSpec([(b, None) for b in blocks]), kw, filename=fn)
                seen = {x.origin for e in r.ev("sink") for x in e.data["recs"]}
                des, toks = desig(I, r)
                dark = sum(1 for e in r.ev("sink") for v in e.data["vals"] for a in alts(v) if not isinstance(a, Const) and not e.data["recs"])
                out.append({"fmt": name, "variant": lab, "type": t, "dark": dark, "blocks": tuple(blocks), "desig": des, "toks": toks, "err": r.err,
                            "part": r.st is not None and [b for k, b in enumerate(blocks) if f"cells[{k}].data" in seen],
                            "ok": r.st is not None and all(f"cells[{k}].data" in seen for k in range(len(blocks))),
                            "warned": bool(r.st and ("warn",) in r.st.facts)})
    return out


def consts_in(I, v, st):
    if isinstance(v, Const):
        return set(v.v) if isinstance(v.v, tuple) else {v.v}
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList) and o.items is not None and o.typ in ("tuple", "list"):
            return {i.v for i in o.items if isinstance(i, Const)}
    return set()


def rjob(name):
    """Every constant table the reader indexes with file content: [(where, {key repr: {value reprs}})]"""
    I = interp()
    R = registry(I)[0]
    r = run_reader(I, R[name], None)
    tabs = {}
    st = r.st or State()
    for e in r.ev("lookup_unk"):
        ad = e.data["addr"]
        o = I.get_obj(st, ad) if ad in st.heap or ad in I.base else None
        if not isinstance(o, HDict):
            continue
        ent = {}
        for k, v in o.entries:
            if isinstance(k, Const):
                c = {repr(x) for x in consts_in(I, v, st) if isinstance(x, (int, str))}
                if c:
                    ent[repr(k.v)] = c
        if ent:
            tabs.setdefault(ad, (e.node._mod.rel + ":" + func_of(e.node) + " `" + ast.unparse(e.node)[:60] + "`", ent))
    return list(tabs.values())


def reach(tabs, names):
    """designation -> cell types, through at most two tables; and the places"""
    inv, where = {}, {}
    step = {}
    for w, ent in tabs:
        for k, vs in ent.items():
            step.setdefault(k, set()).update(vs)
            ts = vs & names
            if ts:
                inv.setdefault(k, set()).update(ts)
                where.setdefault(k, w)
    one = {k: set(v) for k, v in inv.items()}
    for k, vs in step.items():
        if k in names:
            continue
        for v in vs - names:
            if v != k and v in one and v[:1] in "\"'":
                inv.setdefault(k, set()).update(one[v])
    return inv, where


H5M = {"line": 1, "triangle": 2, "tetra": 5}  # numbers of MOAB's element types


def run(rep):
    rep.rule = ("Writer side: for each format x variant x cell type (alone and mixed with another type) the designations that reach the output because the type was looked up in a "
                "table (dataflow tag), plus literal words written for that type only. Reader side: the constant tables the reader indexes with file content. "
                "A written designation must be mapped back to the same type; every designation in the vetted table spec/designations.json must still map to its type.")
    I = interp()
    R, W, _ = registry(I)
    names = {repr(t) for t in set(all_types(I)) | set(TYPES)}
    tabs = {}
    for n, res in pmap(rjob, list(R)):
        if isinstance(res, Failed):
            rep.skip("tables", f"{n}: {res.why}")
        else:
            tabs[n] = res
    invs = {n: reach(v, names) for n, v in tabs.items()}
    # vetted designations
    spec = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "designations.json")))
    for n, ent in spec.items():
        inv, where = invs.get(n, ({}, {}))
        present = [k for k in ent if k in inv]
        if n not in R or len(present) < 0.7 * len(ent):
            rep.skip("spec", f"{n}: designation table not recognised ({len(present)} of {len(ent)} designations)")
            continue
        for k, ts in ent.items():
            got = inv.get(k)
            if got is None:
                rep.bad("spec", "designation-unreadable", f"{n}:{k}", f"{n} designation {k} ({'/'.join(ts)}) is no longer in the reader's table(s)")
            elif not set(ts) & {x[1:-1] for x in got}:
                rep.bad("spec", "designation-type", f"{n}:{k}", f"{where.get(k)}: {n} designation {k} means {'/'.join(ts)} but is read as {sorted(got)}")
            else:
                rep.ok("spec", f"{n}: {k} -> {'/'.join(ts)}")
    # node counts by designation
    for n, tl in tabs.items():
        inv, where = invs[n]
        for w, ent in tl:
            keys = [k for k in ent if k in inv and len(inv[k]) == 1 and nodes_of(next(iter(inv[k]))[1:-1])]
            good = [k for k in keys if repr(nodes_of(next(iter(inv[k]))[1:-1])) in ent[k]]
            intonly = all(len(ent[k]) == 1 and next(iter(ent[k])).lstrip("-").isdigit() for k in keys)
            if len(good) < 4 or len(good) < 0.75 * len(keys) or not intonly:
                continue
            for k in keys:
                if k in good:
                    rep.ok("node-counts", f"{n}: {w}[{k}]")
                else:
                    rep.bad("node-counts", "node-count", f"{n}:{k}", f"{w} gives {sorted(ent[k])} nodes for designation {k}, which is a {sorted(inv[k])}")
    for fn in ("x.ugrid", "x.b8.ugrid", "x.lr4.ugrid"):
        got = sections.ugrid(interp(), fn) if "ugrid" in R else None
        if got is None or got[1] is None and got[0] is None:
            rep.skip("sections", f"ugrid {fn}")
            continue
        counts, blocks, _, site = got
        if counts is not None and counts != sections.READS:
            rep.bad("sections", "section-order", f"ugrid:{site}", f"{fn} with {sections.HEADER} points, triangles, quadrilaterals, tetrahedra, pyramids, wedges and hexahedra: numbers are read in portions of {counts}, the file holds portions of {sections.READS} ({site})")
        elif blocks is not None and sorted(blocks) != sorted(sections.ORDER):
            rep.bad("sections", "section-order", f"ugrid:{site}", f"{fn} with {sections.HEADER} points, triangles, quadrilaterals, tetrahedra, pyramids, wedges and hexahedra: the cell blocks are {blocks} ({site})")
        else:
            rep.ok("sections", f"ugrid {fn}: sections in the order of the header")
    for t, code in H5M.items() if "h5m" in W else ():
        r = run_writer(interp(), registry(interp())[1]["h5m"], MeshSpec([(t, None)]), {}, filename="x.h5m")
        for e in r.ev("sink"):
            v = e.data["vals"]
            if len(v) >= 2 and isinstance(v[0], Const) and v[0].v == "element_type" and isinstance(v[1], Const):
                if v[1].v == code:
                    rep.ok("designations", f"h5m: element type of {t} is {code}")
                else:
                    rep.bad("designations", "designation-type", f"h5m:{t}", f"h5m stores element type {v[1].v} for {t}, the file's own enumeration has {code} ({e.node._mod.rel}:{func_of(e.node)})")
    for n, res in pmap(wjob, list(W)):
        if isinstance(res, Failed):
            rep.skip("designations", f"{n}: {res.why}")
            continue
        rn = reader_name(n, R)
        if rn is None:
            continue
        inv, where = invs.get(rn, ({}, {}))
        for v in sorted({x["variant"] for x in res}):
            rows = [x for x in res if x["variant"] == v and x["ok"]]
            single = [x for x in rows if len(x["blocks"]) == 1]
            common = set.intersection(*[set(x["toks"]) for x in single]) if len(single) > 1 else set()

            def hits(x, ty, count):
                D = set(x["desig"]) | (set(x["toks"]) - common)
                if count:
                    D |= {repr(nodes_of(ty))}
                want = {repr(ty), repr(CONVERTS.get((rn, ty), ty))}
                if len(x["blocks"]) > 1 and (rn, ty) in MIXED:
                    want.add(repr(MIXED[rn, ty]))
                return D, [d for d in D if inv.get(d, set()) & want]

            count = not any(hits(x, x["type"], False)[1] for x in single)
            dark = max([x["dark"] for x in single], default=0)  # texts of unknown content
            ngood = sum(bool(hits(x, x["type"], count)[1]) for x in single)
            tabled = ngood and ngood >= 0.5 * len([x for x in single if not x["warned"]])
            lone = {x["type"] for x in single if hits(x, x["type"], count)[1]}
            for x in rows + [x for x in res if x["variant"] == v and not x["ok"] and x["part"]]:
                for ty in x["blocks"] if x["ok"] else x["part"]:
                    D, good = hits(x, ty, count)
                    lab = f"{n}[{v}] {'+'.join(x['blocks'])}: {ty}"
                    if good:
                        rep.ok("designations", f"{lab} written as {sorted(good)[0]}")
                    elif not tabled or x["dark"] > dark or (x["warned"] and not (ty in lone and not x["ok"])):
                        rep.skip("designations", f"{lab}: type not identified by a table")
                    else:
                        rep.bad("designations", "type-roundtrip", f"{n}[{v}]:{ty}",
                                f"{lab} is designated in the file by one of {sorted(d for d in D if d in inv) or sorted(x['desig'])}, which the reader of {rn} "
                                f"maps to {sorted({y for d in D for y in inv.get(d, ())}) or 'no cell type'}")
    rep.floor("designations", 300)
    rep.floor("spec", 150)
