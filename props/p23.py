"""The file does not depend on how the mesh's arrays are laid out in memory."""
from .conn import *

ASSUMPTIONS = ["numpy's tofile, tobytes, flatten, ravel and reshape follow the logical order of the array unless told otherwise; h5py and netCDF4 store arrays by their logical order"]
COLUMNS = {"med"}  # values of one component after the other (full interlacing is "no" in MED files)
PARTS = ("points", "cells[", "point_data[", "cell_data[")
TYPES = ("triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line", "vertex", "triangle6", "tetra10", "hexahedron20", "polygon")
VECS = dict(point_data=["pd", "pv"], cell_data=["cd", "cv"], data_shapes={"pv": (3,), "cv": (3,)})


def careful(node):
    """The function makes its arrays contiguous itself."""
    while node is not None and not isinstance(node, (ast.FunctionDef, ast.Module)):
        node = getattr(node, "_parent", None)
    return node is None or any(isinstance(n, (ast.Name, ast.Attribute)) and "contiguous" in (n.id if isinstance(n, ast.Name) else n.attr) for n in ast.walk(node)) or any(
        isinstance(n, ast.Call) and any(k.arg == "order" for k in n.keywords) and getattr(n.func, "attr", "") in ("array", "asarray", "copy", "require", "astype", "empty", "zeros") for n in ast.walk(node))


def wjob(name):
    I = interp()
    W = registry(I)[1]
    out = {}
    for lab, kw, fn in variants(name, W[name]):
        for t in TYPES:
            for dim in (2, 3):
                r = run_writer(I, W[name], MeshSpec([(t, None), ("triangle", None)], points_dim=dim, **VECS), kw, filename=fn)
                for e in r.events:
                    if e.kind not in ("flat", "buffer", "sink"):
                        continue
                    site = f"{e.node._mod.rel}:{func_of(e.node)}"
                    if e.kind == "sink":
                        for v in e.data["vals"]:
                            for a in alts(v):
                                u = ext.t_orig(a)
                                if isinstance(a, Unk) and a.kind == "arr" and rows((u or a).shape):
                                    for o in parts((u or a).recs):
                                        out.setdefault((lab, o, "stored", "F" if u is not None else "C", site), e.node.lineno)
                        continue
                    for o in parts(e.data["recs"]):
                        if e.kind == "flat":
                            out.setdefault((lab, o, e.data["name"], e.data["order"] if rows(e.data["shape"]) or e.data["order"] in "AK" else "?", site), e.node.lineno)
                        elif not careful(e.node):
                            out.setdefault((lab, o, "buffer", "", site), e.node.lineno)
    return out


def rows(sh):
    """One row per point or cell, a fixed number of columns."""
    return sh is not None and len(sh) == 2 and sh[0] is not None and not isinstance(sh[0], int) and (isinstance(sh[1], int) or str(sh[1]).startswith("nn"))


def parts(recs):
    return sorted({r.origin.split("[")[0] for r in recs if r.origin.startswith(PARTS)})


def run(rep):
    rep.rule = ("Each place where a writer lays out a two-dimensional array derived from the mesh (flatten, ravel, reshape to one axis, tobytes, or an array handed whole to the output): the order must be the "
                "logical one, row by row (component by component in MED), never 'as in memory' (order A or K), and never through the memory of the caller's own array "
                "(its buffer written, encoded or reinterpreted), which depends on its layout.")
    I = interp()
    W = registry(I)[1]
    for n, res in pmap(wjob, list(W)):
        if isinstance(res, Failed):
            rep.skip("layout", f"{n}: {res.why}")
            continue
        for (lab, o, how, od, site), line in sorted(res.items(), key=str):
            what = f"{n}[{lab}] {o} ({site})"
            if how == "buffer":
                rep.bad("layout", "memory", f"{n}:{o}:{site}", f"{what}: the memory of the caller's array is used as it is, whether or not it is contiguous and row-major")
            elif od in ("A", "K"):
                rep.bad("layout", "memory", f"{n}:{o}:{site}", f"{what}: {how} with order {od!r} takes the values in the order they have in memory")
            elif od == "?" or how == "stored" and (n in COLUMNS or od == "F"):
                rep.skip("layout", f"{what}: {how} {od}")
            elif od == ("F" if n in COLUMNS else "C"):
                rep.ok("layout", f"{what}: {how} {'component by component' if od == 'F' else 'row by row'}")
            else:
                rep.bad("layout", "order", f"{n}:{o}:{site}", f"{what}: {how} takes the values {'column by column' if od == 'F' else 'row by row'}; {n} files hold them {'component by component' if n in COLUMNS else 'point by point and cell by cell'}")
