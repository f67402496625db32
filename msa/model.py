"""Abstract inputs: a labelled caller-owned mesh, the format registry, and writer/reader runs."""
from __future__ import annotations

import os
import re

from .interp import Budget, Dead, Interp
from .values import *

POINTDIM = 3


def nodes_of(t):
    """Number of nodes of a cell type, from its *name* (meshio's naming convention)."""
    base = {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8, "wedge": 6, "pyramid": 5}
    if t in base:
        return base[t]
    m = re.fullmatch(r"(line|triangle|quad|tetra|hexahedron|wedge|pyramid)(\d+)", t)
    return int(m.group(2)) if m else None


def dim_of(t):
    if t == "vertex":
        return 0
    for p, d in (("line", 1), ("triangle", 2), ("polygon", 2), ("quad", 2), ("tetra", 3), ("hexahedron", 3), ("wedge", 3), ("pyramid", 3), ("polyhedron", 3)):
        if t.startswith(p):
            return d
    return {"VTK_LAGRANGE_CURVE": 1, "VTK_LAGRANGE_TRIANGLE": 2, "VTK_LAGRANGE_QUADRILATERAL": 2}.get(t, 3 if t.startswith("VTK_LAGRANGE") else None)


def arr(origin, shape, kind="arr", own=None, dtype=None, cols=None):
    if cols is None and len(shape) == 2 and isinstance(shape[1], int):
        cols = cols_range(shape[1])
    return Unk(recs=frozenset([Rec(origin, cols if cols is not None else ID)]),
               own=frozenset([own or ("mesh." + origin)]), kind=kind, shape=shape, dtype=dtype)


class MeshSpec:
    def __init__(self, cells, points_dim=POINTDIM, point_data=(), cell_data=(), field_data=(), point_sets=(), cell_sets=(),
                 tags=(), info=None, float_dtype="float64", int_dtype="int64", npoints="np", data_shapes=None, ncells=None, nmembers=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def is_int_name(x):
    return any(s in str(x) for s in ("ref", "tag", ":", "material", "int"))


def mkdt(s):
    return DT(s[1:], s[0]) if s[0] in "<>" else DT(s)


def build_mesh(I, st, spec):
    """Allocate the caller's mesh in ``st``; every reachable container is caller-owned."""
    mcls = I.modattr("meshio._mesh", "Mesh")
    ccls = I.modattr("meshio._mesh", "CellBlock")
    n = [0]

    def new(obj):
        n[0] += 1
        a = I.intern(("input", n[0]))
        st.heap[a] = obj
        return Ref(a)

    fdt = mkdt(spec.float_dtype)
    idt = mkdt(spec.int_dtype)
    blocks = []
    for k, (t, nn) in enumerate(spec.cells):
        if nn is None:
            nn = nodes_of(t)
        data = arr(f"cells[{k}].data", (spec.ncells[k] if spec.ncells else f"nc{k}", nn if nn else f"nn{k}"), dtype=idt)
        attrs = (("type", Const(t, frozenset([Rec(f"cells[{k}].type")]))), ("data", data), ("dim", Const(dim_of(t))),
                 ("tags", new(HList(tuple(Const(x) for x in spec.tags), None, "list", f"mesh.cells[{k}].tags"))))
        blocks.append(new(HObj(ccls, attrs, f"mesh.cells[{k}]")))
    cells = new(HList(tuple(blocks), None, "list", "mesh.cells"))
    pts = arr("points", (spec.npoints, spec.points_dim), dtype=fdt)
    shapes = spec.data_shapes or {}

    def entries(names, mk):
        out = []
        for x in names:
            key = x if isinstance(x, V) else Const(x, frozenset([Rec(f"name:{x}")]))
            out.append((key, mk(x)))
        return tuple(out)

    def pdat(x):
        shp = shapes.get(x, ())
        return arr(f"point_data[{x}]", (spec.npoints,) + shp, dtype=idt if is_int_name(x) else fdt)

    def cdat(x):
        shp = shapes.get(x, ())
        dt = idt if is_int_name(x) else fdt
        return new(HList(tuple(arr(f"cell_data[{x}][{k}]", (spec.ncells[k] if spec.ncells else f"nc{k}",) + shp, dtype=dt) for k in range(len(blocks))), None, "list", f"mesh.cell_data[{x}]"))

    def pset(x):
        return arr(f"point_sets[{x}]", (spec.nmembers or f"ns_{x}",), dtype=idt)

    def cset(x):
        return new(HList(tuple(arr(f"cell_sets[{x}][{k}]", (spec.nmembers or f"ncs{k}_{x}",), dtype=idt) for k in range(len(blocks))), None, "list", f"mesh.cell_sets[{x}]"))

    def fdat(x):
        return arr(f"field_data[{x}]", (2,), dtype=idt)

    pd = new(HDict(entries(spec.point_data, pdat), own="mesh.point_data"))
    cd = new(HDict(entries(spec.cell_data, cdat), own="mesh.cell_data"))
    fd = new(HDict(entries(spec.field_data, fdat), own="mesh.field_data"))
    ps = new(HDict(entries(spec.point_sets, pset), own="mesh.point_sets"))
    cs = new(HDict(entries(spec.cell_sets, cset), own="mesh.cell_sets"))
    attrs = (("points", pts), ("cells", cells), ("point_data", pd), ("cell_data", cd), ("field_data", fd),
             ("point_sets", ps), ("cell_sets", cs), ("gmsh_periodic", NONE), ("info", NONE))
    return new(HObj(mcls, attrs, "mesh"))


def registry(I, clients=True):
    """(readers, writers, extensions) of the package, as interpreted from register_format calls."""
    for m in I.prog.modules:
        I.module_env(m)
    if clients:
        client(I, "series_read")
    env = I.module_env("meshio._helpers")

    def table(name):
        o = I.base[env[name].addr]
        return {k.v: v for k, v in o.entries}

    ext = {}
    for k, v in table("extension_to_filetypes").items():
        ext[k] = [x.v for x in I.base[v.addr].items]
    return table("reader_map"), table("_writer_map"), ext


def client(I, name):
    """A function of the client code in clients.py."""
    from .loader import Module

    if "meshio_client" not in I.prog.clients:
        I.prog.clients["meshio_client"] = Module("meshio_client", os.path.join(os.path.dirname(os.path.abspath(__file__)), "clients.py"), False)
    env = I.module_env("meshio_client")
    return env.get(name) if env else None


class Run:
    prev = None  # first pass of a focused reader run
    def __init__(self, st, val, fr, events, err=None):
        self.st, self.val, self.fr, self.events, self.err = st, val, fr, events, err

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


def warn_hook(I, fv, args, kwargs, st, node, fr):
    st.facts |= {("warn",), ("warnat", node._mod.rel, node.lineno)}
    st.may |= {("warn",)}
    from . import ext
    I.event("warn", node, fr, args=args)
    return NONE


def run_writer(I, fv, spec, kwargs=None, budget=400000, setup=None, filename=None, positive=True):
    I.reset()
    I.budget = budget
    st = State()
    m = build_mesh(I, st, spec)
    if setup:
        setup(I, st, m)
    fn = Const(filename) if filename else Unk(kind="path", recs=frozenset([Rec("filename")]))
    hooks = dict(I.hooks)
    I.hooks.setdefault("meshio._common.warn", warn_hook)
    I.dims_positive = positive
    try:
        r = I.run(fv, [fn, m], dict(kwargs or {}), st)
        return Run(*r, list(I.events.values()), *(["a construct that is not followed"] if I.degraded else []))
    except Budget:
        return Run(None, None, None, list(I.events.values()), "budget")
    finally:
        I.hooks = hooks
        I.dims_positive = False


MESH_PARAMS = ["points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "gmsh_periodic", "info"]


def mesh_hook(I, cls, args, kwargs, st, node, fr):
    vals = {}
    for n, a in zip(MESH_PARAMS, args):
        vals[n] = a
    vals.update({k: v for k, v in kwargs.items() if k != "**"})
    I.event("mesh", node, fr, vals=vals, st=st.copy())
    return I.alloc(st, HObj(cls, tuple((p, vals.get(p, NONE)) for p in MESH_PARAMS)), node, fr, "mesh")


def block_hook(I, cls, args, kwargs, st, node, fr):
    vals = {}
    for n, a in zip(["cell_type", "data", "tags"], args):
        vals[n] = a
    vals.update({k: v for k, v in kwargs.items() if k != "**"})
    I.event("block", node, fr, vals=vals)
    tags = vals.get("tags", NONE)
    return I.alloc(st, HObj(cls, (("type", vals.get("cell_type", UNK)), ("data", vals.get("data", UNK)), ("dim", Unk(kind="int")), ("tags", tags))),
                   node, fr, "block")


def run_reader(I, fv, focus=None, budget=600000, kwargs=None, arg=None, assume=None, script=()):
    I.reset()
    I.script, I.script_pos = script if isinstance(script, dict) else list(script), {}
    I.assume = dict(assume or {})
    I.budget = budget
    I.focus = focus
    hooks = dict(I.hooks)
    I.hooks.setdefault("meshio._common.warn", warn_hook)
    I.hooks.setdefault("meshio._mesh.Mesh", mesh_hook)
    I.hooks.setdefault("meshio._mesh.CellBlock", block_hook)
    fn = arg if arg is not None else Unk(kind="path", recs=frozenset([Rec("filename")]))
    I.once = getattr(fv, "node", None)
    try:
        I.presets = {}
        prev = None
        r = I.run(fv, [fn], dict(kwargs or {}), State())
        if focus is not None and I.found:
            prev = Run(*r, list(I.events.values()))
            found = {}
            for k, v in I.found.items():
                found.setdefault(I.symkey(k), set()).add(v)
            I.presets = {k: next(iter(v)) for k, v in found.items() if len(v) == 1}
            I.reset()
            I.budget = budget
            I.focus = focus
            r = I.run(fv, [fn], dict(kwargs or {}), State())
        res = Run(*r, list(I.events.values()))
        res.prev = prev
        return res
    except Budget:
        return Run(None, None, None, list(I.events.values()), "budget")
    finally:
        I.hooks = hooks
        I.presets = {}
        I.once = None
        I.focus = None
        I.assume = {}
        I.script = []


def blocks_of(I, ev):
    """(type value, data value) pairs reachable from the cells argument of a mesh event."""
    st = ev.data["st"]
    out = []

    def pair(v):
        for a in alts(v):
            if isinstance(a, Ref):
                o = I.get_obj(st, a.addr)
                if isinstance(o, HObj) and o.get("type") is not None:
                    out.append((o.get("type"), o.get("data")))
                elif isinstance(o, HList) and o.items is not None and len(o.items) == 2:
                    out.append((o.items[0], o.items[1]))
                else:
                    out.append((None, a))
            else:
                out.append((None, a))

    for c in alts(ev.data["vals"].get("cells", UNK)):
        if isinstance(c, Ref):
            o = I.get_obj(st, c.addr)
            if isinstance(o, HList):
                for x in (o.items if o.items is not None else [o.elem] if o.elem is not None else []):
                    pair(x)
            elif isinstance(o, HDict):
                for k, v in o.entries:
                    out.append((k, v))
                if o.rest_k is not None:
                    out.append((o.rest_k, o.rest_v))
    return out
