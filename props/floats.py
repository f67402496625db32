"""What every writer does to coordinates and data on their way to the output."""
from .conn import *

LAYOUTS = {"tri": [("triangle", None)], "tet": [("tetra", None)], "tri+quad": [("triangle", None), ("quad", None)],
           "vol": [("tetra", None), ("hexahedron", None)], "tri+tet": [("triangle", None), ("tetra", None)], "quad+tri+quad": [("quad", None), ("triangle", None), ("quad", None)]}


def flows(r, want):
    """{origin: {rec: 'file:function'}} of the sinks of one run."""
    out = {}
    for e in r.ev("sink"):
        for x in e.data["recs"]:
            if x.origin.startswith(want):
                out.setdefault(x.origin, {}).setdefault(x, e.node._mod.rel + ":" + func_of(e.node))
    return out


def runs(name, layouts, specs, extra_kw=None, want=("point", "cell_data", "field_data", "name:")):
    """-> [(variant, layout, label, outcome, flows, must, warned)]"""
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    out = []
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name), **(extra_kw or {}))
        for ln in layouts:
            for sl, sp in specs.items():
                r = run_writer(I, wr, MeshSpec(LAYOUTS[ln], **sp), kw, filename=fn)
                oc = "err" if r.err else "raises" if r.st is None else "done"
                must = frozenset(f[1] for f in r.st.facts if f[0] == "sink") if r.st is not None else frozenset()
                fl = flows(r, want)
                for e in r.ev("colstack"):
                    ps = e.data["parts"]
                    at = [i for i, p in enumerate(ps) if isinstance(p, frozenset) and "points" in p]
                    if at and any(p == "zeros" for p in ps[:at[-1]]):
                        fl["padded"] = e.node._mod.rel + ":" + func_of(e.node)
                out.append((lab, ln, sl, oc, fl, must, frozenset(f for f in r.st.facts if f[0] == "warnat") if r.st is not None else frozenset()))
    return out


def exact(x):
    return x.cols is not None and x.cols != ID and all(isinstance(c, int) for c in x.cols)
