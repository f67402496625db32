"""A Mesh cannot be constructed with data arrays that do not fit its points or cells."""
from .meshlib import *

ASSUMPTIONS = ["array lengths are what numpy reports; the inputs have concrete sizes 0..7, the check itself does not depend on the magnitude"]


def cases():
    """(label, blocks, point data {name: rows}, cell data {name: [rows per block]}, fits)"""
    two = [("triangle", 4), ("line", 6)]
    three = [("triangle", 4), ("quad", 2), ("triangle", 3)]
    mixed = [("line", 6), ("vertex", 1), ("tetra10", 3), ("hexahedron", 2)]
    for blocks in ([("triangle", 4)], two, three, mixed, [("polygon", 3), ("triangle", 2)]):
        sizes = [r for _, r in blocks]
        good = {"c": sizes}
        yield "fitting data", blocks, {"p": 5, "q": 5}, {"c": sizes, "d": sizes}, True
        yield "no data", blocks, {}, {}, True
        for n in (0, 1, 4, 6, 10):
            yield f"point data of {n} rows for 5 points", blocks, {"p": n}, good, False
            yield f"second point data of {n} rows", blocks, {"p": 5, "q": n}, good, False
            yield f"first of two point data of {n} rows", blocks, {"p": n, "q": 5}, {}, False
        yield "cell data for one block too few", blocks, {}, {"c": sizes[:-1]}, False
        yield "cell data for one block too many", blocks, {}, {"c": sizes + [2]}, False
        yield "second cell data for one block too many", blocks, {"p": 5}, {"c": sizes, "d": sizes + [2]}, False
        yield "second cell data with no blocks", blocks, {"p": 5}, {"c": sizes, "d": []}, False
        for k in range(len(blocks)):
            for d in (-1, 1, 3):
                bad = list(sizes)
                bad[k] += d
                yield f"cell data with {bad[k]} rows for the {sizes[k]} cells of block {k}", blocks, {}, {"c": bad}, False
                yield f"second cell data with {bad[k]} rows for the {sizes[k]} cells of block {k}", blocks, {"p": 5}, {"c": sizes, "d": bad}, False
                yield f"first cell data with {bad[k]} rows for the {sizes[k]} cells of block {k}", blocks, {"p": 5}, {"c": bad, "d": sizes}, False
            bad = list(sizes)
            bad[k] = 0
            if sizes[k]:
                yield f"empty cell data for block {k}", blocks, {}, {"c": bad}, False
        if len(blocks) > 1 and sizes[0] != sizes[-1]:
            bad = [sizes[-1]] + sizes[1:-1] + [sizes[0]]
            yield "cell data with the right total in the wrong blocks", blocks, {}, {"c": bad}, False


def job(j):
    entry, form, aslist = j
    I = interp()
    out = []
    for lab, blocks, pd, cd, fits in cases():
        if form == "dict" and len({t for t, _ in blocks}) != len(blocks):
            continue
        b = B(I)
        pts = b.arr("points", (5, 3))

        def data(name, n):
            if aslist:
                return b.list([Const(float(i)) for i in range(n)])
            return b.arr(name, (n,))

        kw = {}
        if pd:
            kw["point_data"] = b.dict([(k, data(f"point_data[{k}]", n)) for k, n in pd.items()])
        if cd:
            kw["cell_data"] = b.dict([(k, b.list([data(f"cell_data[{k}][{i}]", n) for i, n in enumerate(ns)])) for k, ns in cd.items()])
        cells = b.cells(blocks, form)
        if entry == "Mesh":
            r = b.run(I.modattr("meshio._mesh", "Mesh"), [pts, cells], kw)
        else:
            kw["file_format"] = Const("vtu")
            sunk = []
            W = registry(I)[1]
            I.nodehooks[id(W["vtu"].node)] = lambda I, f, a, k, st, n, fr: NONE
            try:
                r = b.run(I.modattr("meshio._helpers", "write_points_cells"), [Const("x.vtu"), pts, cells], kw)
            finally:
                I.nodehooks.clear()
        out.append((lab, blocks, fits, r.err, r.st is not None, sorted({x[1] for x in r.fr.raises}) if r.fr else []))
    return out


def run(rep):
    rep.rule = ("Mesh(...) (directly and through write_points_cells) interpreted with inputs of concrete sizes: if any point data array does not have one row per point, or a cell data entry does not have exactly one array per block with "
                "one row per cell, every path must raise; with fitting data some path must complete. Cells as tuples, CellBlocks and dictionaries; data as arrays and lists.")
    jobs = [(e, f, a) for e in ("Mesh", "write_points_cells") for f in ("tuple", "block", "dict") for a in (False, True)]
    for j, res in pmap(job, jobs):
        if isinstance(res, Failed):
            rep.skip("constructions", f"{j}: {res.why}")
            continue
        for lab, blocks, fits, err, done, exc in res:
            what = f"{j[0]}(cells as {j[1]}, data as {'lists' if j[2] else 'arrays'}) {blocks}: {lab}"
            if err:
                rep.skip("constructions", f"{what}: {err}")
            elif fits and not done:
                rep.bad("constructions", "valid-data-rejected", f"{j[0]}:{lab}", f"{what}: rejected ({exc})")
            elif fits or not done:
                rep.ok("constructions", f"{what}: {'accepted' if done else 'rejected with ' + '/'.join(exc)}")
            else:
                rep.bad("constructions", "inconsistent-data-accepted", f"{j[0]}:{lab}", f"{what}: a path through the constructor completes (meshio/_mesh.py Mesh.__init__)")
    rep.floor("constructions", 300)
