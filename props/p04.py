"""Node count and topological dimension of every cell type agree with its name, wherever meshio uses them."""
from .meshlib import *
from .p13 import TYPES

ASSUMPTIONS = ["the cell type names of the documented naming scheme (shape name plus node count)"]
LAGRANGE = ["VTK_LAGRANGE_" + x for x in ("CURVE", "TRIANGLE", "QUADRILATERAL", "TETRAHEDRON", "HEXAHEDRON", "WEDGE", "PYRAMID")]


def run(rep):
    rep.rule = ("For each documented cell type: the dimension attribute of a CellBlock of that type (constructed directly and inside Mesh(...)) and the width of the empty array get_cells_type returns for it, evaluated by interpretation, "
                "must equal the dimension of the shape and the node count in the name. Every dictionary of the package that maps cell type names to node counts or dimensions is checked entry by entry as well.")
    I = interp()
    ccls, mcls = I.modattr("meshio._mesh", "CellBlock"), I.modattr("meshio._mesh", "Mesh")
    for t in TYPES + LAGRANGE + ["polygon", "polyhedron", "polyhedron8"]:
        n = nodes_of(t)
        for how, rows in (("CellBlock", 4), ("CellBlock", 0), ("CellBlock", "n"), ("Mesh", 4), ("Mesh", 0), ("Mesh", "n")):
            b = B(I)
            d = b.arr("cells[0].data", (rows, n or 7), "int64")
            if how == "CellBlock":
                r = b.run(ccls, [Const(t), d])
                blk = r.val
            else:
                r = b.run(mcls, [b.arr("points", (9, 3)), b.list([b.list([Const(t), d], "tuple")])])
                blk = None
                if r.st is not None:
                    its = getattr(I.get_obj(r.st, I.get_obj(r.st, r.val.addr).get("cells").addr), "items", None)
                    blk = its[0] if its else None
            if r.err or (r.st is not None and not isinstance(blk, Ref)):
                rep.skip("dimension", f"{how} {t}: {r.err or 'block not determined'}")
                continue
            if r.st is None:
                rep.bad("dimension", "type-unusable", t, f"constructing a {how} with {t} cells always raises {sorted({x[1] for x in r.fr.raises})}")
                continue
            dim = I.get_obj(r.st, blk.addr).get("dim")
            dims = {a.v if isinstance(a, Const) else None for a in alts(dim)}
            if dims - {None, dim_of(t)}:
                rep.bad("dimension", "dimension", t, f"the topological dimension of a {t} block with {rows} cells is {sorted(map(str, dims))}, expected {dim_of(t)} (meshio/_mesh.py CellBlock.__init__)")
            elif None in dims:
                rep.skip("dimension", f"{how} {t}: dimension not constant")
            else:
                rep.ok("dimension", f"{how} {t} ({rows} cells): {dim_of(t)}")
        if n is not None:
            b = B(I)
            m = b.mesh(9, [("line" if t != "line" else "quad", 3)])
            r = b.run(b.method(m, "get_cells_type"), [Const(t)])
            sh = ext.shape_of(I, r.val, r.st) if r.st is not None and hasattr(ext, "shape_of") else getattr(r.val, "shape", None)
            if r.st is None and not r.err:
                rep.bad("nodes", "type-unusable", t, f"get_cells_type({t!r}) raises on a mesh without such cells")
            elif not sh or not isinstance(sh[-1], int):
                rep.skip("nodes", f"get_cells_type({t}): width not determined")
            elif tuple(sh) != (0, n):
                rep.bad("nodes", "node-count", t, f"get_cells_type({t!r}) on a mesh without such cells has shape {sh}, expected (0, {n})")
            else:
                rep.ok("nodes", f"{t}: {n} nodes")
    # tables anywhere in the package
    names = set(TYPES)
    for mod in I.prog.modules:
        for var, v in I.module_env(mod).items():
            o = I.base.get(v.addr) if isinstance(v, Ref) else None
            if not isinstance(o, HDict) or o.has_unknown():
                continue
            ent = {k.v: x.v for k, x in o.entries if isinstance(k, Const) and isinstance(x, Const) and isinstance(k.v, str) and isinstance(x.v, int) and not isinstance(x.v, bool)}
            known = [k for k in ent if k in names]
            if len(known) < 4 or len(known) < 0.6 * len(o.entries):
                continue
            for what, f in (("node counts", nodes_of), ("dimensions", dim_of)):
                good = [k for k in known if ent[k] == f(k)]
                if len(good) < 0.75 * len(known):
                    continue
                for k in known:
                    if k in good:
                        rep.ok("tables", f"{mod}.{var}[{k}] = {ent[k]} ({what})")
                    else:
                        rep.bad("tables", "table-entry", f"{var}:{k}", f"{mod}.{var} gives {ent[k]} for {k}, a table of {what}; expected {f(k)}")
    # tables written inside functions
    import ast

    for mod, m in I.prog.modules.items():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            for dn in ast.walk(fn):
                if not isinstance(dn, ast.Dict):
                    continue
                ent = {k.value: x.value for k, x in zip(dn.keys, dn.values)
                       if isinstance(k, ast.Constant) and isinstance(x, ast.Constant) and isinstance(k.value, str) and type(x.value) is int}
                known = [k for k in ent if k in names]
                if len(known) < 4 or len(known) < 0.6 * len(dn.keys):
                    continue
                for what, f in (("node counts", nodes_of), ("dimensions", dim_of)):
                    good = [k for k in known if ent[k] == f(k)]
                    if len(good) < 0.75 * len(known):
                        continue
                    for k in known:
                        if k in good:
                            rep.ok("tables", f"{mod}:{dn.lineno} [{k}] = {ent[k]} ({what})")
                        else:
                            rep.bad("tables", "table-entry", f"{mod}:{k}", f"{mod} line {dn.lineno} gives {ent[k]} for {k} in a table of {what}; expected {f(k)}")
    rep.floor("dimension", 80)
