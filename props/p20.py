"""Conversions between sets and integer data keep every member in its own block and lose nothing else."""
from .meshlib import *
from .p14 import entries

ASSUMPTIONS = ["numpy's fancy-index assignment and np.where/np.unique behave as documented"]

LAYS = [[("triangle", 4)], [("triangle", 4), ("quad", 2), ("triangle", 3)], [("line", 3), ("hexahedron", 5), ("line", 7), ("tetra", 6)]]


def attr(I, m, st, name):
    return entries(I, I.get_obj(st, m.addr).get(name), st)


def listitems(I, v, st):
    o = I.get_obj(st, v.addr) if isinstance(v, Ref) else None
    return o.items if isinstance(o, HList) else None


def origins(I, v, st):
    return {x.origin for x in ext.flat_recs(I, v, st) if x.origin.startswith(("cell_", "point_"))}


CD = ["a", "b:int", "b:int2:int", "m-n:int", "m:int"]
PD = ["x", "y:int", "y:int2:int", "v-w:int", "v:int"]


def to_sets(rep, I, lay, nm, f, key, ntags):
    n = len(lay)
    kind = f.split("_")[0]
    b = B(I)
    src_o = [f"cell_data[{key}][{q}]" for q in range(n)] if kind == "cell" else [f"point_data[{key}]"]
    m = b.mesh(9, lay, cell_data=CD, cell_sets={"s": [1] * n}, point_sets={"p": 2}, point_data=PD)
    I.distinct = {frozenset(src_o): ntags}
    r = b.run(b.method(m, f), [Const(key, frozenset([Rec(f"name:{key}")]))])
    I.distinct = {}
    lab = f"{f}({key!r}), {ntags} different value(s), on {nm}"
    if r.err or r.st is None:
        rep.skip("data-to-sets", f"{lab}: {r.err or 'raises'}")
        return
    src = attr(I, m, r.st, kind + "_data")
    o = I.get_obj(r.st, I.get_obj(r.st, m.addr).get(kind + "_sets").addr)
    other = {"cell": ("point_data", set(PD), "point_sets", {"p"}), "point": ("cell_data", set(CD), "cell_sets", {"s"})}[kind]
    full = set({"cell": CD, "point": PD}[kind])
    if src is None or set(src) != full - {key} or any(set(attr(I, m, r.st, other[q]) or {}) != other[q + 1] for q in (0, 2)):
        rep.bad("data-to-sets", "conversion-loses", f, f"{lab}: {kind} data afterwards {src and sorted(src)}, expected {sorted(full - {key})}; {other[0]} and {other[2]} must not change")
        return
    old = "s" if kind == "cell" else "p"
    if old not in {k.v for k, _ in o.entries if isinstance(k, Const)}:
        rep.bad("data-to-sets", "conversion-loses", f, f"{lab}: existing {kind} sets are lost")
        return
    new = [(k, v) for k, v in o.entries if not (isinstance(k, Const) and k.v == old)] + ([(o.rest_k, o.rest_v)] if o.rest_k is not None else [])
    if not new:
        rep.bad("data-to-sets", "conversion-loses", f, f"{lab}: no set is created")
        return
    parts = list(dict.fromkeys(key.split("-")))
    split = len(parts) == ntags
    bad, unclear = None, False
    have = set()  # (block, tag)
    for k, v in new:
        names = set()
        for a in alts(k):
            text = a.v if isinstance(a, Const) else None
            if isinstance(text, str):
                names.add(text)
                if not (split and text in parts) and key not in text:
                    bad = f"a new set is called {text!r}"
            elif not any(x.origin == f"name:{key}" for x in ext.flat_recs(I, a, r.st)):
                if isinstance(a, Unk) and a.kind != "str":
                    unclear = True
                else:
                    bad = "the name of a new set does not depend on the data array, so sets of different arrays replace each other"
        want = parts.index(next(iter(names))) if split and len(names) == 1 and next(iter(names)) in parts else None
        for va in alts(v):
            its = [va] if kind == "point" else listitems(I, va, r.st)
            if its is None:
                unclear = True
                continue
            if kind == "cell" and len(its) != n:
                bad = f"{len(its)} arrays for {n} blocks"
                continue
            for q, x in enumerate(its):
                mine = src_o[q]
                og = origins(I, x, r.st)
                if og - {mine, f"{kind}_sets[{old}]" + (f"[{q}]" if kind == "cell" else "")}:
                    bad = f"the members in block {q} are taken from {sorted(og)}"
                ws = [w for w in ext.flat_recs(I, x, r.st) if w.origin.startswith("where|")]
                if not ws:
                    unclear = True
                for w in ws:
                    _, op, xs, ys = w.origin.split("|")
                    if op != "Eq":
                        bad = f"members of block {q} are the positions where the data is {op} the value of the set, not equal to it"
                    elif ys.startswith("const:") and xs == mine:
                        bad = f"the members in block {q} are the positions where the data is {ys[6:]}, whatever values it holds"
                    elif not xs:
                        unclear = True
                    elif xs != mine:
                        bad = f"the members in block {q} are taken from {xs}"
                    elif w.off is None or w.scaled:
                        unclear = True
                    elif w.off:
                        bad = f"members of block {q} are shifted by {w.off}"
                    elif ys.startswith("tag:") and "," not in ys:
                        t = int(ys[4:])
                        if want is not None and want != t:
                            bad = f"set {parts[want]!r} holds the cells with value number {t}"
                        have.add((q, t))
                    elif ys and set(ys.split(",")) < set(src_o):
                        bad = f"only the values found in {ys} become sets"
                    else:
                        unclear = True
    if not bad and not unclear and len(have) < len(src_o) * ntags:
        bad = f"{len(src_o) * ntags - len(have)} of {len(src_o) * ntags} (block, value) pairs end up in no set"
    if bad:
        rep.bad("data-to-sets", "conversion-members", f, f"{lab}: {bad}")
    elif unclear:
        rep.skip("data-to-sets", f"{lab}: not determined")
    else:
        rep.ok("data-to-sets", lab)


SMALL = ("int8", "uint8", "int16", "uint16", "bool", "float16")


def fill_clash(e, sets):
    """The value given to cells and points outside every set is the number of a set."""
    x = e.data["arr"].extra
    c = x[1] if isinstance(x, tuple) and x[:1] == ("fill",) else 0 if isinstance(x, tuple) and x[:1] == ("zeros",) else None
    return c is not None and c in range(len(sets))


def run(rep):
    rep.rule = ("cell_sets_to_data, point_sets_to_data, cell_data_to_sets and point_data_to_sets interpreted on meshes with concrete block sizes: members of set i of block k are stored as value i in the new array of block k and nowhere else; "
                "each set made from data takes the positions of block k from the data of block k; the converted entry is removed, all other data and sets are kept, names of new sets depend on the converted array.")
    I = interp()
    for lay in LAYS:
        n = len(lay)
        rows = [r for _, r in lay]
        nm = "+".join(f"{t}x{r}" for t, r in lay)
        for sets in ({"s": [1] * n}, {"s": [1] * n, "t": [2] * n, "u": [1] * n}, {"s": [None] * (n - 1) + [1], "t": [1] * n}):
            b = B(I)
            m = b.mesh(9, lay, cell_data=["a", "b:int"], cell_sets=sets, point_sets={"p": 2}, point_data=["x"])
            r = b.run(b.method(m, "cell_sets_to_data"), [])
            lab = f"cell_sets_to_data with {sets} on {nm}"
            if r.err or r.st is None:
                rep.skip("sets-to-data", f"{lab}: {r.err or 'raises'}")
                continue
            cd, cs, ps, pd = (attr(I, m, r.st, x) for x in ("cell_data", "cell_sets", "point_sets", "point_data"))
            if None in (cd, cs, ps, pd):
                rep.skip("sets-to-data", f"{lab}: result not determined")
                continue
            want = {"a", "b:int", "-".join(sets)}
            if set(cd) != want or cs or set(ps) != {"p"} or set(pd) != {"x"}:
                rep.bad("sets-to-data", "conversion-loses", "cell_sets_to_data", f"{lab}: cell data {sorted(cd)}, cell sets {sorted(cs)}, point sets {sorted(ps)}, point data {sorted(pd)}")
                continue
            its = listitems(I, cd["-".join(sets)], r.st)
            if its is not None and len(its) != n:
                rep.bad("sets-to-data", "conversion-blocks", "cell_sets_to_data", f"{lab}: {len(its)} arrays for {n} blocks")
                continue
            if its is not None and any(isinstance(x, Unk) and x.shape and isinstance(x.shape[0], int) and x.shape[0] != rows[k] for k, x in enumerate(its)):
                rep.bad("sets-to-data", "conversion-size", "cell_sets_to_data", f"{lab}: arrays of {[x.shape[0] for x in its]} rows for blocks of {rows} cells")
                continue
            seen, bad, unclear = set(), None, False
            for e in r.ev("astore"):
                for x in e.data["recs"]:
                    if not x.origin.startswith("cell_sets["):
                        continue
                    s, k = x.origin[len("cell_sets["):-1].split("][")
                    v, a = e.data["value"], e.data["arr"]
                    size = a.shape[0] if a.shape else None
                    i = list(sets).index(s)
                    if not isinstance(v, Const) or not isinstance(size, int):
                        unclear = True
                    elif a.dtype is not None and a.dtype.name in SMALL:
                        bad = f"the numbers of the sets are stored as {a.dtype.name}, which cannot hold the numbers of many sets"
                    elif fill_clash(e, sets):
                        bad = "cells outside every set get the number of a set"
                    elif v.v != i or size != rows[int(k)] or x.off:
                        bad = f"members of set {s!r} (number {i}) of block {k} are stored as {v.v} in an array of {size} rows" + (f", shifted by {x.off}" if x.off else "")
                    else:
                        seen.add((s, int(k)))
            miss = {(s, k) for s, p in sets.items() for k in range(n) if p[k]} - seen
            if bad:
                rep.bad("sets-to-data", "conversion-value", "cell_sets_to_data", f"{lab}: {bad}")
            elif unclear or (miss and not seen):
                rep.skip("sets-to-data", f"{lab}: stores not determined")
            elif miss:
                rep.bad("sets-to-data", "conversion-loses", "cell_sets_to_data", f"{lab}: members of {sorted(miss)} are never stored")
            else:
                rep.ok("sets-to-data", lab)
        # named conversion, nothing to convert
        b = B(I)
        m = b.mesh(9, lay, cell_data=["a"], cell_sets={"s": [1] * n})
        r = b.run(b.method(m, "cell_sets_to_data"), [Const("name")])
        cd = attr(I, m, r.st, "cell_data") if r.st else None
        if cd is None:
            rep.skip("sets-to-data", f"named on {nm}")
        elif set(cd) != {"a", "name"}:
            rep.bad("sets-to-data", "conversion-name", "cell_sets_to_data", f"cell_sets_to_data('name') on {nm}: cell data {sorted(cd)}")
        else:
            rep.ok("sets-to-data", f"cell_sets_to_data('name') on {nm}")
        b = B(I)
        m = b.mesh(9, lay, cell_data=["a"], point_data=["x"])
        for f in ("cell_sets_to_data", "point_sets_to_data"):
            r = b.run(b.method(m, f), [])
            cd, pd = (attr(I, m, r.st, x) if r.st else None for x in ("cell_data", "point_data"))
            if cd is None or pd is None or set(cd) != {"a"} or set(pd) != {"x"}:
                rep.bad("sets-to-data", "conversion-empty", f, f"{f} without sets changes the data: {cd and sorted(cd)}, {pd and sorted(pd)}")
            else:
                rep.ok("sets-to-data", f"{f} without sets on {nm}")
        # point sets
        for sets in ({"p": 2}, {"p": 2, "q": 3, "r": 1}):
            b = B(I)
            m = b.mesh(9, lay, point_data=["x"], point_sets=sets, cell_data=["a"], cell_sets={"s": [1] * n})
            r = b.run(b.method(m, "point_sets_to_data"), [])
            lab = f"point_sets_to_data with {sets} on {nm}"
            if r.err or r.st is None:
                rep.skip("sets-to-data", f"{lab}: {r.err or 'raises'}")
                continue
            cd, cs, ps, pd = (attr(I, m, r.st, x) for x in ("cell_data", "cell_sets", "point_sets", "point_data"))
            if None in (cd, cs, ps, pd):
                rep.skip("sets-to-data", f"{lab}: result not determined")
                continue
            if set(pd) != {"x", "-".join(sets)} or ps or set(cs) != {"s"} or set(cd) != {"a"}:
                rep.bad("sets-to-data", "conversion-loses", "point_sets_to_data", f"{lab}: point data {sorted(pd)}, point sets {sorted(ps)}, cell data {sorted(cd)}, cell sets {sorted(cs)}")
                continue
            seen, bad, unclear = set(), None, False
            for e in r.ev("astore"):
                for x in e.data["recs"]:
                    if not x.origin.startswith("point_sets["):
                        continue
                    s = x.origin[len("point_sets["):-1]
                    v, a = e.data["value"], e.data["arr"]
                    size = a.shape[0] if a.shape else None
                    if not isinstance(v, Const) or not isinstance(size, int):
                        unclear = True
                    elif a.dtype is not None and a.dtype.name in SMALL:
                        bad = f"the numbers of the sets are stored as {a.dtype.name}, which cannot hold the numbers of many sets"
                    elif fill_clash(e, sets):
                        bad = "points outside every set get the number of a set"
                    elif v.v != list(sets).index(s) or size != 9 or x.off:
                        bad = f"members of set {s!r} are stored as {v.v} in an array of {size} rows" + (f", shifted by {x.off}" if x.off else "")
                    else:
                        seen.add(s)
            if bad:
                rep.bad("sets-to-data", "conversion-value", "point_sets_to_data", f"{lab}: {bad}")
            elif unclear or not seen:
                rep.skip("sets-to-data", f"{lab}: stores not determined")
            elif set(sets) - seen:
                rep.bad("sets-to-data", "conversion-loses", "point_sets_to_data", f"{lab}: members of {sorted(set(sets) - seen)} are never stored")
            else:
                rep.ok("sets-to-data", lab)
        # data to sets
        for f, key in (("cell_data_to_sets", "b:int"), ("cell_data_to_sets", "m-n:int"), ("point_data_to_sets", "y:int"), ("point_data_to_sets", "v-w:int")):
            for ntags in (1, 2, 3):
                to_sets(rep, I, lay, nm, f, key, ntags)
        for f, key, mixed in (("cell_data_to_sets", "a", None), ("point_data_to_sets", "x", None), ("cell_data_to_sets", "i:int", 0), ("cell_data_to_sets", "i:int", n - 1)):
            if mixed is not None and n == 1:
                continue
            b = B(I)
            m = b.mesh(9, lay, cell_data=["a", "i:int"], point_data=["x"])
            if mixed is not None:  # one block of floating-point data among integer ones
                ref = attr(I, m, b.st, "cell_data")[key]
                ol = I.get_obj(b.st, ref.addr)
                b.st.heap[ref.addr] = replace(ol, items=tuple(replace(x, dtype=DT("float64")) if q == mixed else x for q, x in enumerate(ol.items)))
            r = b.run(b.method(m, f), [Const(key)])
            what = "floating-point data" + ("" if mixed is None else f" in block {mixed} only")
            if r.err or r.st is not None and not r.fr.raises:
                rep.bad("data-to-sets", "float-data-converted", f, f"{f} on {what} does not raise")
            else:
                rep.ok("data-to-sets", f"{f} on {what}: " + ("raises" if r.st is None else "may raise"))
    rep.floor("sets-to-data", 10)
