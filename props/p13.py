"""write() checks every cell block's shape before any writer runs."""
from .conn import *

ASSUMPTIONS = ["cell blocks with a fixed-size type hold two-dimensional arrays"]


def called(I, f, args, kwargs, st, node, fr):
    st.facts |= {("writer",)}
    st.may |= {("writer",)}
    I.event("writer", node, fr, args=args, kwargs=kwargs)
    return NONE


def entry(I, which):
    if which == "write":
        return I.modattr("meshio._helpers", "write")
    if which == "write_points_cells":
        return I.modattr("meshio._helpers", "write_points_cells")
    return None


def call(I, which, blocks, fmt, fn, opts=()):
    """blocks: [(type, ncols)]; -> Run"""
    I.reset()
    I.budget = 200000
    st = State()
    spec = MeshSpec(list(blocks))
    m = build_mesh(I, st, spec)
    kw = {"file_format": Const(fmt)} if fmt is not None else {}
    kw.update((k, Unk()) for k in opts)
    args = [Const(fn) if fn else Unk(kind="file", extra="w")]
    hooks = dict(I.hooks)
    I.hooks.setdefault("meshio._common.warn", warn_hook)
    try:
        if which == "write":
            r = I.run(entry(I, which), args + [m], kw, st)
        elif which == "Mesh.write":
            o = I.get_obj(st, m.addr)
            f = replace(o.cls.lookup("write"), selfv=m, cls=o.cls)
            r = I.run(f, args, kw, st)
        else:
            o = I.get_obj(st, m.addr)
            r = I.run(entry(I, which), args + [o.get("points"), o.get("cells")], kw, st)
        return Run(*r, list(I.events.values()))
    except Budget:
        return Run(None, None, None, list(I.events.values()), "budget")
    finally:
        I.hooks = hooks


def job(j):
    which, types, fmts, opts = j
    I = interp()
    W = registry(I, clients=False)[1]
    for f in W.values():
        if getattr(f, "node", None) is not None:
            I.nodehooks[id(f.node)] = called
    out = []
    try:
        for t in types:
            n = nodes_of(t)
            cases = []
            for d in (-1, 1, n):
                if n + d <= 0:
                    continue
                cases.append([(t, n + d)])
                cases.append([("triangle", 3), (t, n + d)])
                cases.append([(t, n), ("quad", 4), (t, n + d)])
                cases.append([(t, n + d), (t, n)])
                cases.append([("polygon", 7), (t, n + d), ("line", 2)])
            cases.append([(t, n)])
            cases.append([("polygon", 7), (t, n), ("tetra", 4), (t, n)])
            for c in cases:
                for fmt, fn in fmts:
                    r = call(I, which, c, fmt, fn, [p for p in params_of(W[fmt])[2:]] if opts and fmt in W else ())
                    bad = any(nodes_of(x) is not None and nodes_of(x) != k for x, k in c)
                    may = any(e.kind == "writer" for e in r.events)
                    must = r.st is not None and ("writer",) in r.st.facts
                    exc = sorted({x[1] for x in r.fr.raises}) if r.fr is not None else []
                    touched = [e.data.get("name") for e in r.events if e.kind == "fschange" or e.kind == "open" and e.data.get("name") in ("open", "Path.open", "h5")]
                    out.append((c, fmt, fn, bad, r.err, may, must, r.st is not None, exc, touched))
    finally:
        I.nodehooks.clear()
    return out


# every fixed-size cell type of the public naming scheme
TYPES = [b + s for b, ss in {"vertex": [""], "line": ["", 3, 4, 5, 6, 7, 8, 9, 10, 11], "triangle": ["", 6, 10, 15, 21, 28, 36, 45, 55, 66],
                             "quad": ["", 8, 9, 16, 25, 36, 49, 64, 81, 100, 121], "tetra": ["", 10, 20, 35, 56, 84, 120, 165, 220, 286],
                             "hexahedron": ["", 20, 24, 27, 64, 125, 216, 343, 512, 729, 1000, 1331], "wedge": ["", 15, 18, 40, 75, 126, 196, 288, 405, 550],
                             "pyramid": ["", 13, 14]}.items() for s in map(str, ss)]


def run(rep):
    rep.rule = ("The three public write entry points are interpreted with cell blocks of concrete column counts, the format writers replaced by recorders. With a block whose column count "
                "differs from its type's, in any position, every path must raise and no recorder may be reachable; with well-shaped blocks the writer must be reached on every path.")
    I = interp()
    R, W, E = registry(I, clients=False)
    jobs = []
    for t in TYPES:
        jobs.append(("write", [t], [("vtk", "x.vtk"), (None, "x.vtu"), ("stl", None)], False))
        jobs.append(("Mesh.write", [t], [("xdmf", "x.dat")], False))
        jobs.append(("write_points_cells", [t], [(None, "x.msh")], False))
    for w in W:
        jobs.append(("write", ["triangle", "hexahedron20", "line3"], [(w, "x.dat")], False))
        jobs.append(("write", ["triangle", "wedge15"], [(w, "x.dat")], True))  # every option of the writer given, with any value
    jobs.append(("Mesh.write", ["triangle", "wedge15"], [("vtk", "x.dat")], True))
    jobs.append(("write_points_cells", ["triangle", "wedge15"], [("vtk", "x.dat")], True))
    for j, res in pmap(job, jobs):
        if isinstance(res, Failed):
            rep.skip("writes", f"{j[:2]}: {res.why}")
            continue
        for c, fmt, fn, bad, err, may, must, done, exc, touched in res:
            lab = f"{j[0]}({fn!r}, format={fmt}{', all options' if j[3] else ''}) with blocks {c}"
            if err:
                rep.skip("writes", f"{lab}: {err}")
            elif bad and (done or may):
                rep.bad("writes", "ill-shaped-block-written", f"{j[0]}:{fmt or fn}:{j[1][0]}", f"{lab}: the shape check does not stop the write (meshio/_helpers.py write)")
            elif bad and touched:
                rep.bad("writes", "file-touched-before-check", f"{j[0]}:{fmt or fn}:{j[1][0]}", f"{lab}: {touched[0]} on the output before the block is refused")
            elif bad:
                rep.ok("writes", f"{lab}: rejected with {'/'.join(exc)}")
            elif must:
                rep.ok("writes", f"{lab}: handed to the writer")
            elif not may:
                rep.bad("writes", "well-shaped-block-rejected", f"{j[0]}:{fmt or fn}:{j[1][0]}", f"{lab}: no path reaches the writer ({'/'.join(exc)})")
            else:
                rep.skip("writes", f"{lab}: may be rejected")
    rep.floor("writes", 2000)
