"""Concrete-size inputs for interpreting the Mesh class itself."""
from .conn import *


class B:
    """Builder of caller-side values in a fresh state."""

    def __init__(self, I, own=True):
        I.reset()
        I.budget = 300000
        self.I, self.st, self.n, self.own = I, State(), 0, own

    def new(self, obj):
        self.n += 1
        a = self.I.intern(("input", self.n))
        self.st.heap[a] = obj
        return Ref(a)

    def arr(self, name, shape, dtype="float64"):
        return arr(name, tuple(shape), dtype=DT(dtype), own="arg." + name)

    def list(self, items, typ="list", name=None):
        return self.new(HList(tuple(items), None, typ, name))

    def dict(self, ents, name=None):
        return self.new(HDict(tuple((Const(k, frozenset([Rec(f"name:{k}")])), v) for k, v in ents), own=name))

    def cells(self, blocks, form):
        """blocks: [(type, rows)]"""
        out = []
        for k, (t, rows) in enumerate(blocks):
            d = self.arr(f"cells[{k}].data", (rows, nodes_of(t) or 5), "int64")
            if form == "block":
                ccls = self.I.modattr("meshio._mesh", "CellBlock")
                out.append(self.new(HObj(ccls, (("type", Const(t)), ("data", d), ("dim", Const(dim_of(t))), ("tags", self.list([]))), None)))
            elif form == "dict":
                out.append((t, d))
            else:
                out.append(self.list([Const(t), d], "tuple"))
        return self.dict(out) if form == "dict" else self.list(out)

    def mesh(self, npoints, blocks, cell_data=(), cell_sets=(), point_sets=(), point_data=()):
        """A Mesh object with concrete sizes; cell_sets: {name: [size or None per block]}"""
        I = self.I
        mcls = I.modattr("meshio._mesh", "Mesh")
        cells = self.cells(blocks, "block")
        cd = self.dict([(k, self.list([self.arr(f"cell_data[{k}][{b}]", (rows,), "int64" if is_int_name(k) else "float64") for b, (_, rows) in enumerate(blocks)])) for k in cell_data], "mesh.cell_data")
        cs = self.dict([(k, self.list([NONE if s is None else self.arr(f"cell_sets[{k}][{b}]", (s,), "int64") for b, s in enumerate(sizes)])) for k, sizes in dict(cell_sets).items()], "mesh.cell_sets")
        ps = self.dict([(k, self.arr(f"point_sets[{k}]", (s,), "int64")) for k, s in dict(point_sets).items()], "mesh.point_sets")
        pd = self.dict([(k, self.arr(f"point_data[{k}]", (npoints,), "int64" if is_int_name(k) else "float64")) for k in point_data], "mesh.point_data")
        fd = self.dict([], "mesh.field_data")
        attrs = (("points", self.arr("points", (npoints, 3))), ("cells", cells), ("point_data", pd), ("cell_data", cd), ("field_data", fd),
                 ("point_sets", ps), ("cell_sets", cs), ("gmsh_periodic", NONE), ("info", NONE))
        return self.new(HObj(mcls, attrs, "mesh"))

    def run(self, f, args, kwargs=None):
        I = self.I
        hooks = dict(I.hooks)
        I.hooks.setdefault("meshio._common.warn", warn_hook)
        try:
            r = I.run(f, args, dict(kwargs or {}), self.st)
            return Run(*r, list(I.events.values()))
        except Budget:
            return Run(None, None, None, list(I.events.values()), "budget")
        finally:
            I.hooks = hooks

    def method(self, m, name):
        o = self.I.get_obj(self.st, m.addr)
        f = o.cls.lookup(name)
        return replace(f, selfv=m, cls=o.cls)
