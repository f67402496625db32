"""Readers of files without section names: the sections follow from the header and come in a fixed order."""
from .conn import *

HEADER = [101, 11, 13, 17, 19, 23, 29]
ORDER = [("triangle", 11, 3), ("quad", 13, 4), ("tetra", 17, 4), ("pyramid", 19, 5), ("wedge", 23, 6), ("hexahedron", 29, 8)]
# points, surface cells, their labels, volume cells
READS = [303, 33, 52, 11, 13, 68, 95, 138, 232]


def ugrid(I, fn):
    """-> (counts read one after another or None, blocks [(type, rows, columns)] or None, lengths of the label arrays or None, site)"""
    r = run_reader(I, registry(I)[0]["ugrid"], None, arg=Const(fn), script={7: HEADER})
    ms = r.ev("mesh")
    if r.err or len(ms) != 1:
        return None
    e = ms[0]
    st, site = e.data["st"], e.node._mod.rel + ":" + func_of(e.node)
    counts = [x.data["count"].v if isinstance(x.data["count"], Const) else None for x in r.ev("fromfile")]
    counts = None if None in counts else [c for c in counts if c not in (1, 7)]

    def items(v):
        o = I.get_obj(st, v.addr) if isinstance(v, Ref) else None
        return o.items if isinstance(o, HList) else None

    blocks = items(e.data["vals"].get("cells"))
    if blocks is not None:
        out = []
        for b in blocks:
            o = I.get_obj(st, b.addr) if isinstance(b, Ref) else None
            at = dict(o.attrs) if isinstance(o, HObj) else {}
            t, d = at.get("type"), at.get("data")
            if not isinstance(t, Const) or not isinstance(d, Unk) or d.shape is None or len(d.shape) != 2 or not all(isinstance(n, int) for n in d.shape):
                out = None
                break
            out.append((t.v, *d.shape))
        blocks = out
    lens = None
    cd = e.data["vals"].get("cell_data")
    o = I.get_obj(st, cd.addr) if isinstance(cd, Ref) else None
    if isinstance(o, HDict) and len(o.entries) == 1 and o.rest_v is None:
        arrs = items(o.entries[0][1])
        if arrs is not None and all(isinstance(x, Unk) and x.shape is not None and len(x.shape) == 1 and isinstance(x.shape[0], int) for x in arrs):
            lens = [x.shape[0] for x in arrs]
    return counts, blocks, lens, site
