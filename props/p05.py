"""Writing leaves the caller's mesh unchanged."""
import re

from .conn import *

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml functions that are not modelled as in-place do not modify their arguments",
               "the caller's arrays are not aliased to module state"]

MESHES = {
    "surf3": dict(cells=[("triangle", None), ("quad", None)]),
    "surf2": dict(cells=[("triangle", None), ("quad", None)], points_dim=2),
    "line+tri": dict(cells=[("line", None), ("triangle", None)]),
    "tri": dict(cells=[("triangle", None)]),
    "vol": dict(cells=[("tetra", None), ("hexahedron", None), ("wedge", None), ("pyramid", None)]),
    "tet": dict(cells=[("tetra", None)]),
    "quadratic": dict(cells=[("tetra10", None), ("hexahedron20", None)]),
    "wedge15": dict(cells=[("wedge15", None)]),
    "mixed": dict(cells=[("vertex", None), ("line", None), ("triangle", None), ("tetra", None)]),
}
DATA = {
    "plain": {},
    "scalar": dict(point_data=["pd"], cell_data=["cd"], field_data=["fd"]),
    "vec2": dict(point_data=["pd"], cell_data=["cd"], data_shapes={"pd": (2,), "cd": (2,)}),
    "vec3": dict(point_data=["pd"], cell_data=["cd"], data_shapes={"pd": (3,), "cd": (3,)}),
    "refs": dict(cell_data=["gmsh:physical", "gmsh:geometrical", "medit:ref"], point_data=["gmsh:dim_tags", "medit:ref"], data_shapes={"gmsh:dim_tags": (2,)}),
    "tags": dict(cell_data=["cell_tags"], point_data=["point_tags"]),
    "ints": dict(cell_data=["cd_int"], point_data=["pd_int"]),
    "sets": dict(point_sets=["ps"], cell_sets=["cs"]),
    "int32": dict(int_dtype="int32", float_dtype="float32", point_data=["pd"], cell_data=["cd"]),
    "big": dict(int_dtype=">int64", float_dtype=">float64", point_data=["pd"], cell_data=["cd"], field_data=["fd"]),
}


def path_key(p):
    p = re.sub(r"\[[^\]]*\]", "[]", p)
    return p


def job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for ml, ms in MESHES.items():
            for dl, ds in DATA.items():
                s = {**ms, **ds}
                c = s.pop("cells")
                r = run_writer(I, wr, MeshSpec(c, **s), kw, filename=fn)
                muts = {}
                for e in r.ev("mutate"):
                    muts.setdefault((path_key(e.data["path"]) + (":array" if e.data.get("inside") else ""), e.data["how"]), (e.node._mod.rel, func_of(e.node), ast.unparse(e.node)[:100]))
                out.append((lab, ml, dl, muts, len(r.ev("sink")), r.err, r.st is not None))
    return out


def run(rep):
    rep.rule = ("Ownership/effect analysis: every container and array reachable from the caller's mesh carries an owner label; abstract interpretation of "
                "the public write entry point for every registered format x option variant x mesh shape x data layout reports any store (item, attribute, "
                "augmented, in-place call) whose target carries an owner label.")
    R, W, _ = registry(interp())
    for name, res in pmap(job, list(W)):
        if isinstance(res, Failed):
            rep.skip("writes", f"{name}: {res.why}")
            continue
        for lab, ml, dl, muts, nsink, err, ok in res:
            if err or not (nsink or muts):
                rep.skip("writes", f"{name}[{lab}] {ml}/{dl}: {err or 'no output reached'}")
            elif not muts:
                rep.ok("writes", f"{name}[{lab}] {ml}/{dl}: {nsink} sinks, no store into the caller's mesh")
            else:
                for (p, how), (f, fn, src) in muts.items():
                    rep.bad("writes", "mutates-input", f"{name}:{p}{':vec2' if 'data' in p and (2,) in DATA[dl].get('data_shapes', {}).values() else ''}", f"{f}:{fn} `{src}` stores into {p} ({how}) of the caller's mesh when writing {name}[{lab}] {ml}")
    rep.floor("writes", 1000)
