"""Systematic abstract runs of every registered writer and reader."""
from __future__ import annotations

import ast
import os
from concurrent.futures import ProcessPoolExecutor

from . import ext
from .interp import Interp
from .loader import Program
from .model import *
from .values import *

# option values worth distinguishing, by public parameter name
OPTION_VALUES = {
    "binary": [True, False],
    "data_format": ["HDF", "XML", "Binary"],
    "compression": ["zlib", "lzma", None],
}
EXPLICIT = {
    "nastran": [{}, {"point_format": "free", "cell_format": "free"}, {"point_format": "fixed-small", "cell_format": "fixed-large"}],
    "xdmf": [{"data_format": "HDF"}, {"data_format": "XML"}, {"data_format": "Binary"}],
    "xdmf:series": [{"data_format": "HDF"}, {"data_format": "XML"}, {"data_format": "Binary"}],
    "vtu": [{"binary": False}, {"binary": True, "compression": None}, {"binary": True, "compression": "zlib"}, {"binary": True, "compression": "lzma"}],
    "gmsh": [{"binary": True}, {"binary": False}],
    "gmsh22": [{"binary": True}, {"binary": False}],
}
FILENAMES = {"medit": ["x.mesh", "x.meshb"], "ugrid": ["x.ugrid", "x.b8.ugrid", "x.lb8.ugrid", "x.r8.ugrid"], "flac3d": [None], "tetgen": ["x.node"]}


def params_of(fv):
    n = getattr(fv, "node", None)
    if n is None:
        return []
    a = n.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def variants(name, fv):
    """[(label, kwargs, filename or None)]"""
    out = []
    for kw in EXPLICIT.get(name) or ([{"binary": True}, {"binary": False}] if "binary" in params_of(fv) else [{}]):
        for fn in FILENAMES.get(name, [None]):
            lab = ",".join(f"{k}={v}" for k, v in kw.items()) + (f" {fn}" if fn else "")
            out.append((lab.strip() or "default", {k: Const(v) for k, v in kw.items()}, fn))
    return out


def all_types(I):
    """All cell types with a fixed node count that the package knows about."""
    tab = I.base[I.module_env("meshio._common")["num_nodes_per_cell"].addr] if "num_nodes_per_cell" in I.module_env("meshio._common") else None
    names = [k.v for k, v in tab.entries] if tab is not None else []
    return names


BASIC = ["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "hexahedron", "hexahedron20",
         "hexahedron27", "wedge", "wedge15", "pyramid", "pyramid13"]
EXTRA = ["line4", "triangle7", "triangle10", "tetra14", "tetra20", "hexahedron24", "wedge12", "wedge18", "pyramid14"]


_I = None


def interp():
    global _I
    if _I is None:
        _I = Interp(Program())
        registry(_I)
    return _I


class _Guard:
    """Run a job; an internal failure of the analysis makes that job undecided, never a finding."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, job):
        try:
            return self.fn(job)
        except Exception as e:  # noqa: BLE001
            if os.environ.get("MSA_DEBUG"):
                raise
            return Failed(job, f"{type(e).__name__}: {e}")


class Failed:
    def __init__(self, job, why):
        self.job, self.why = job, why


def pmap(fn, jobs, workers=8):
    """Order-preserving parallel map over picklable jobs; [(job, result or Failed)]."""
    g = _Guard(fn)
    interp()  # parse and interpret the module bodies once, before forking
    if len(jobs) <= 1:
        return [(j, g(j)) for j in jobs]
    with ProcessPoolExecutor(max_workers=workers) as ex:
        return list(zip(jobs, ex.map(g, jobs, chunksize=1)))


def file_of(fv):
    m = getattr(fv, "mod", None)
    return m.rel if m is not None else None


def reader_name(wname, readers):
    """The registered reader that reads what writer ``wname`` wrote."""
    if wname in readers:
        return wname
    base = wname.rstrip("0123456789")
    return base if base in readers else None


def cell_records(r, origin="cells[0].data"):
    """Column tuples of one block's connectivity as it reaches the output."""
    out = {}
    for e in r.ev("sink"):
        for x in e.data["recs"]:
            if x.origin == origin:
                out.setdefault((x.cols, x.off), e)
    return out


def norm(cols, n):
    """Relative node permutation of length n, or None when the columns do not decide one."""
    if cols is None:
        return None
    if cols == ID:
        return tuple(range(n))
    if len(cols) == 1 and isinstance(cols[0], tuple) and cols[0][1] is None:
        return tuple(range(n))
    if not all(isinstance(c, int) for c in cols) or len(cols) != n:
        return None
    lo = min(cols)
    return tuple(c - lo for c in cols)
