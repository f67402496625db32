"""The dictionary views of a Mesh contain every block's cells, data and set members, in block order."""
from .meshlib import *

ASSUMPTIONS = ["numpy's concatenation functions keep the order and content of their inputs"]

LAYOUTS = [
    [("triangle", 4)],
    [("triangle", 4), ("quad", 2)],
    [("triangle", 4), ("quad", 2), ("triangle", 3)],
    [("quad", 2), ("triangle", 4), ("triangle", 3), ("quad", 5), ("triangle", 1)],
    [("line", 3), ("line", 2), ("line", 6)],
    [("triangle", 4), ("triangle6", 2), ("triangle", 3), ("triangle6", 5), ("triangle10", 2)],
    [("quad8", 2), ("quad", 1), ("quad9", 4), ("quad", 3), ("quad8", 6)],
    [("tetra10", 2), ("wedge", 3), ("tetra", 5), ("pyramid", 4), ("wedge", 1), ("tetra", 2), ("wedge", 6)],
    [("hexahedron27", 2), ("line3", 7), ("hexahedron27", 1), ("vertex", 3)],
]


def parts(I, v, st):
    """Ordered list of record sets a view value is made of, or None when the order is unknown."""
    if isinstance(v, Unk):
        if isinstance(v.extra, tuple) and v.extra and v.extra[0] == "cat":
            out = []
            for p in v.extra[1]:
                q = parts(I, p, st)
                if q is None:
                    return None
                out += q
            return out
        if len({r.origin for r in v.recs}) <= 1:
            return [v.recs] if v.recs else []
        return None
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList) and o.items is not None and len(o.items) == 1:
            return parts(I, o.items[0], st)
    return None


def entries(I, v, st):
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HDict) and not o.has_unknown():
            return {k.v: x for k, x in o.entries if isinstance(k, Const)}
    return None


def rowcols(cols, n):
    return cols == ID or cols == tuple(range(n)) or (len(cols or ()) == 1 and cols[0] in ((0, n), (0, None)))


def check(rep, group, key, lab, I, v, st, want):
    """want: [(origin, offset or None)] in order"""
    if v is None:
        rep.bad(group, "view-missing", key, f"{lab}: nothing is returned for this type, expected {[w[0] for w in want]}")
        return
    got = {x.origin for x in ext.flat_recs(I, v, st)}
    names = [w[0] for w in want]
    miss = [w for w in names if w not in got]
    extra = sorted(got - set(names))
    if miss or [x for x in extra if x.startswith(("cells[", "cell_data[", "cell_sets["))]:
        rep.bad(group, "view-content", key, f"{lab}: made from {sorted(got)}, expected {names}")
        return
    ps = parts(I, v, st)
    if ps is None:
        rep.skip(group, f"{lab}: order not determined")
        return
    if [sorted({r.origin for r in p}) for p in ps] != [[n] for n in names]:
        rep.bad(group, "view-order", key, f"{lab}: assembled in the order {[sorted({r.origin for r in p}) for p in ps]}, expected {names}")
        return
    for p, (n, off) in zip(ps, want):
        for r in p:
            if r.cols is None or r.off is None:
                rep.skip(group, f"{lab}: columns or shift of {n} not determined")
                return
            if not (r.cols == ID or r.cols == tuple(range(len(r.cols))) or isinstance(r.cols[0], tuple)) or r.scaled:
                rep.bad(group, "view-content", key, f"{lab}: {n} is rearranged or rescaled")
                return
            if r.off != (off or 0):
                rep.bad(group, "view-offset", key, f"{lab}: {n} is shifted by {r.off}, expected {off or 0}")
                return
    rep.ok(group, f"{lab}: {names}" + (f" shifted by {[w[1] for w in want]}" if want and want[0][1] is not None else ""))


def run(rep):
    rep.rule = ("cells_dict, get_cells_type, cell_data_dict, get_cell_data and cell_sets_dict interpreted on meshes with concrete block sizes; each value must be the ordered concatenation of exactly the arrays of "
                "the blocks of that type, set members shifted by the number of cells of that type in the preceding blocks (including blocks without members).")
    I = interp()
    for lay in LAYOUTS:
        types = list(dict.fromkeys(t for t, _ in lay))
        name = "+".join(f"{t}x{n}" for t, n in lay)
        of = {t: [k for k, (u, _) in enumerate(lay) if u == t] for t in types}
        ALL = dict(cell_data=["a", "b:int"])

        def fresh(**kw):
            b = B(I)
            return b, b.mesh(9, lay, **{**ALL, **kw})

        def outcome(group, what, r):
            if r.err:
                rep.skip(group, f"{what} on {name}: {r.err}")
            elif r.st is None:
                rep.bad(group, "view-raises", what, f"{what} on {name} always raises {sorted({x[1] for x in r.fr.raises})}")
            else:
                for e in r.events:
                    if e.kind == "openif" and any(x.origin.startswith(("cells[", "cell_data[", "cell_sets[")) for x in ext.flat_recs(I, e.data["v"], r.st)):
                        rep.bad(group, "view-content", what, f"{what} on {name}: what it contains depends on the values of {sorted({x.origin for x in ext.flat_recs(I, e.data['v'], r.st)})} ({e.node._mod.rel}:{func_of(e.node)})")
                        return False
                return True

        b, m = fresh()
        r = b.run(b.method(m, "cells_dict"), [])
        if outcome("cells", "cells_dict", r):
            d = entries(I, r.val, r.st)
            if d is None:
                rep.skip("cells", f"cells_dict on {name}: keys not determined")
            else:
                if set(d) != set(types):
                    rep.bad("cells", "view-keys", "cells_dict", f"cells_dict on {name} has keys {sorted(map(str, d))}")
                for t in types:
                    check(rep, "cells", "cells_dict", f"cells_dict[{t}] on {name}", I, d.get(t), r.st, [(f"cells[{k}].data", None) for k in of[t]])
        for t in types + ["pyramid13"]:
            b, m = fresh()
            r = b.run(b.method(m, "get_cells_type"), [Const(t)])
            if outcome("cells", "get_cells_type", r):
                check(rep, "cells", "get_cells_type", f"get_cells_type({t}) on {name}", I, r.val, r.st, [(f"cells[{k}].data", None) for k in of.get(t, [])])
        b, m = fresh()
        r = b.run(b.method(m, "cell_data_dict"), [])
        if outcome("cell-data", "cell_data_dict", r):
            d = entries(I, r.val, r.st)
            for key in ALL["cell_data"]:
                e = entries(I, (d or {}).get(key), r.st)
                if d is None or (key in d and e is None):
                    rep.skip("cell-data", f"cell_data_dict[{key}] on {name}: keys not determined")
                    continue
                for t in types:
                    check(rep, "cell-data", "cell_data_dict", f"cell_data_dict[{key}][{t}] on {name}", I, (e or {}).get(t), r.st, [(f"cell_data[{key}][{k}]", None) for k in of[t]])
        for key in ALL["cell_data"]:
            for t in types:
                b, m = fresh()
                r = b.run(b.method(m, "get_cell_data"), [Const(key), Const(t)])
                if outcome("cell-data", "get_cell_data", r):
                    check(rep, "cell-data", "get_cell_data", f"get_cell_data({key}, {t}) on {name}", I, r.val, r.st, [(f"cell_data[{key}][{k}]", None) for k in of[t]])
        # sets: every block may have members, no entry (None), or an empty array
        n = len(lay)
        pats = [[1] * n] + [[None if i == k else 1 for i in range(n)] for k in range(n) if n > 1] + [[0 if i == k else 1 for i in range(n)] for k in range(n) if n > 1]
        pats += [[1 if i == n - 1 else None for i in range(n)], [1 if i == n - 1 else 0 for i in range(n)]]
        for pat in pats:
            b, m = fresh(cell_sets={"s": pat, "t": [1] * n})
            r = b.run(b.method(m, "cell_sets_dict"), [])
            if not outcome("cell-sets", "cell_sets_dict", r):
                continue
            d = entries(I, r.val, r.st)
            for key, pt in (("s", pat), ("t", [1] * n)):
                e = entries(I, (d or {}).get(key), r.st)
                if d is None or (key in d and e is None):
                    rep.skip("cell-sets", f"cell_sets_dict[{key}] {pt} on {name}: keys not determined")
                    continue
                for t in types:
                    want, run_off = [], 0
                    for k in of[t]:
                        if pt[k] is not None:
                            want.append((f"cell_sets[{key}][{k}]", run_off))
                        run_off += lay[k][1]
                    lab = f"cell_sets_dict[{key}][{t}] with members {pt} on {name}"
                    v = (e or {}).get(t)
                    if not any(pt[k] for k in of[t]):
                        got = ext.flat_recs(I, v, r.st) if v is not None else ()
                        if any(x.origin.startswith("cell_sets") and x.origin not in [w[0] for w in want] for x in got):
                            rep.bad("cell-sets", "view-content", "cell_sets_dict", f"{lab}: contains foreign members")
                        else:
                            rep.ok("cell-sets", f"{lab}: no members")
                        continue
                    # empty arrays may or may not take part
                    have = {x.origin for x in ext.flat_recs(I, v, r.st)} if v is not None else set()
                    want = [w for w in want if pt[int(w[0].split("[")[-1][:-1])] or w[0] in have]
                    check(rep, "cell-sets", "cell_sets_dict", lab, I, v, r.st, want)
    rep.floor("cells", 15)
    rep.floor("cell-data", 20)
    rep.floor("cell-sets", 60)
