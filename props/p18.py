"""read()/write() hand the file to the format that was asked for or that its extension stands for."""
import json
import os

from .conn import *
from .p03 import desig

ASSUMPTIONS = ["the registered functions of a format are the ones defined in that format's package",
               "spec/formats.json: the documented format names, the extensions of each and the packages implementing them"]


def hookall(I, tabs, fails=()):
    """Replace every registered function by a recorder; the ones in ``fails`` raise ReadError."""
    for kind, tab in tabs:
        by = {}
        for name, f in tab.items():
            if getattr(f, "node", None) is not None:
                by.setdefault(id(f.node), []).append((name, f))
        for k, lst in by.items():
            def h(I, f, args, kwargs, st, node, fr, lst=lst, kind=kind):
                names = frozenset(n for n, _ in lst)
                st.facts |= {(kind, names)}
                st.may |= {(kind, names)}
                I.event("dispatch", node, fr, what=kind, names=names, args=args, kwargs=kwargs, k=(kind, names))
                if kind == "read" and names & set(fails):
                    I.raise_(st, fr, "ReadError", node)
                return Unk(kind="obj", recs=frozenset([Rec("mesh-from-reader")])) if kind == "read" else NONE
            I.nodehooks[k] = h


def one(I, f, args, kw, tabs, fails=(), exists=True, mesh=False):
    I.reset()
    I.budget = 200000
    I.path_exists = exists
    hookall(I, tabs, fails)
    st = State()
    if mesh:
        args = [args[0], build_mesh(I, st, MeshSpec([("triangle", None)]))] + args[1:]
    I.dims_positive = True
    try:
        r = I.run(f, args, kw, st)
        return Run(*r, list(I.events.values())), args
    except Budget:
        return Run(None, None, None, list(I.events.values()), "budget"), args
    finally:
        I.dims_positive = False
        I.nodehooks.clear()
        I.path_exists = None


PARTS = ["points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets"]


def handed(I, via, wpc, fn, kw, tabs):
    """Mesh.write or write_points_cells with a mesh that has every kind of content -> (Run, mesh or None, recs per part)."""
    I.reset()
    I.budget = 200000
    hookall(I, tabs)
    st = State()
    m = build_mesh(I, st, MeshSpec([("triangle", None), ("quad", None)], point_data=["pa", "pb"], cell_data=["ca"], field_data=["fa"], point_sets=["sa"], cell_sets=["ta"]))
    o = I.get_obj(st, m.addr)
    src = {p: {r.origin for r in ext.flat_recs(I, o.get(p), st)} | keys(I, o.get(p), st) for p in PARTS}
    I.dims_positive = True
    try:
        if via == "Mesh.write":
            r = I.run(replace(o.cls.lookup("write"), selfv=m, cls=o.cls), [fn], kw, st)
        else:
            r = I.run(wpc, [fn] + [o.get(p) for p in PARTS[:2]], dict(kw, **{p: o.get(p) for p in PARTS[2:]}), st)
        return Run(*r, list(I.events.values())), m if via == "Mesh.write" else None, src
    except Budget:
        return Run(None, None, None, list(I.events.values()), "budget"), None, src
    finally:
        I.dims_positive = False
        I.nodehooks.clear()


def keys(I, v, st):
    o = I.get_obj(st, v.addr) if isinstance(v, Ref) else None
    return {k.v for k, _ in o.entries if isinstance(k, Const)} if isinstance(o, HDict) else set()


def lost_parts(I, m, st, src):
    o = I.get_obj(st, m.addr) if isinstance(m, Ref) and st is not None else None
    if not isinstance(o, HObj):
        return []
    out = []
    for p, want in src.items():
        v = o.get(p)
        if v is None:
            continue
        have = {r.origin for r in ext.flat_recs(I, v, st)} | keys(I, v, st)
        if p == "cells":
            want = {w for w in want if w.endswith(".data")}
        if want - have and not (isinstance(v, Unk) and not have):
            out.append(p)
    return out


def calls(r, kind):
    return [e for e in r.events if e.kind == "dispatch" and e.data["what"] == kind]


def run(rep):
    rep.rule = ("read() and write() interpreted with the registered format functions replaced by recorders, for every registered extension (lower/upper case, dotted directory and file names) and every format name, with "
                "str and buffer targets; exactly the expected function must be reached on every path, with the caller's mesh and keyword arguments. Registration tables are compared with the documented formats.")
    I = interp()
    R, W, E = registry(I, clients=False)
    spec = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "formats.json")))
    # documented registrations
    for e, fs in spec["extensions"].items():
        if E.get(e) and set(fs) <= set(E[e]) and [x for x in E[e] if x in fs] != fs:
            rep.bad("registry", "extension-order", e, f"files ending in {e} are taken for {fs} in this order, but the registration table has {E[e]}")
        elif E.get(e) and set(fs) <= set(E[e]):
            rep.ok("registry", f"{e} -> {E[e]}")
        else:
            rep.bad("registry", "extension-lost", e, f"files ending in {e} are {'/'.join(fs)} files, but the registration table has {E.get(e)}")
    for kind, tab, sp in (("reader", R, spec["readers"]), ("writer", W, spec["writers"])):
        for n, pkg in sp.items():
            f = tab.get(n)
            m = getattr(getattr(f, "mod", None), "name", None)
            if f is None:
                rep.bad("registry", f"{kind}-lost", n, f"no {kind} is registered for format {n}")
            elif m is None or m.startswith("meshio._") :
                rep.skip("registry", f"{kind} {n}: implementation module not identified")
            elif m.startswith(pkg):
                rep.ok("registry", f"{kind} {n} is implemented in {m}")
            else:
                rep.bad("registry", f"{kind}-wrong", n, f"the {kind} registered for {n} is {m}.{getattr(f.node, 'name', 'lambda')}, expected one of {pkg}")
    # version names
    for n, word in spec["versions"].items():
        if n not in W:
            continue
        r = run_writer(I, W[n], MeshSpec([("triangle", None)]))
        toks = desig(I, r)[1]
        text = " ".join(toks)
        others = [w for k, w in spec["versions"].items() if w != word and k.rstrip("0123456789") == n.rstrip("0123456789")]
        if r.st is None:
            rep.skip("versions", f"{n}: does not complete")
        elif word in text:
            rep.ok("versions", f"{n} writes {word!r}")
        elif any(w in text for w in others):
            rep.bad("versions", "format-version", n, f"format {n} must write {word!r} but writes one of {[w for w in others if w in text]}")
        else:
            rep.skip("versions", f"{n}: header not identified")
    tabs = (("read", R), ("write", W))
    wr, rd = I.modattr("meshio._helpers", "write"), I.modattr("meshio._helpers", "read")

    def judge(group, rule, key, lab, r, kind, want, args=None, kwargs=None):
        """want: set of acceptable format names, or None for 'must be rejected'"""
        cs = calls(r, kind)
        if r.err:
            rep.skip(group, f"{lab}: {r.err}")
        elif want is None:
            if cs or r.st is not None:
                rep.bad(group, rule, key, f"{lab}: expected an exception, but " + (f"{sorted(cs[0].data['names'])} is called" if cs else "the call returns normally"))
            else:
                rep.ok(group, f"{lab}: rejected")
        else:
            wrong = [c for c in cs if not c.data["names"] & want]
            missing = r.st is None or not any((kind, c.data["names"]) in r.st.facts for c in cs if c.data["names"] & want)
            if wrong:
                rep.bad(group, rule, key, f"{lab}: reaches the {kind}r of {sorted(wrong[0].data['names'])}, expected {sorted(want)}".replace("readr", "reader").replace("writer", "writer"))
            elif missing and not cs:
                rep.bad(group, rule, key, f"{lab}: never reaches the {kind} function of {sorted(want)}")
            elif missing:
                rep.skip(group, f"{lab}: may not reach {sorted(want)}")
            elif kind == "write" and any(len(args) > 1 and c.data["args"][1:2] != args[1:2] or any(c.data["kwargs"].get(k) != v for k, v in (kwargs or {}).items()) for c in cs):
                rep.bad(group, rule, key, f"{lab}: the caller's mesh or options are not passed on to the writer")
            else:
                rep.ok(group, f"{lab}: {sorted(want)}")

    buf = lambda m: Unk(kind="file", extra=m)
    opt = {"float_fmt": Const(".3e"), "xyz": Const(7)}
    for ext_, fs in E.items():
        fs = [x for x in fs]
        for fn in ("x" + ext_, "a.b/some.name" + ext_, "X" + ext_.upper()):
            first = fs[0]
            # the longest registered extension is only tried after shorter ones; several may apply
            cand = []
            parts = ext_.split(".")[1:]
            for k in range(len(parts)):
                cand += E.get("." + ".".join(parts[len(parts) - 1 - k:]), [])
            r, a = one(I, wr, [Const(fn)], dict(opt), tabs, mesh=True)
            judge("write-ext", "write-dispatch", ext_, f"write({fn!r})", r, "write", {cand[0]} if cand[0] in W else None, a, opt)
            if not all(c in R for c in cand):
                r, a = one(I, rd, [Const(fn)], {}, tabs)
                judge("read-ext", "read-dispatch", ext_, f"read({fn!r})", r, "read", None)
                continue
            for k in range(len(cand) + 1):
                r, a = one(I, rd, [Const(fn)], {}, tabs, fails=cand[:k])
                lab = f"read({fn!r})" + (f" after {cand[:k]} fail" if k else "")
                if k == len(cand):
                    judge("read-ext", "read-dispatch", ext_, lab, r, "read", None) if r.st is not None else rep.ok("read-ext", f"{lab}: rejected")
                else:
                    got = calls(r, "read")
                    allowed = set(cand)  # an exception inside a reader that succeeds here is still considered possible
                    if r.err:
                        rep.skip("read-ext", f"{lab}: {r.err}")
                    elif r.st is None or any(not c.data["names"] & allowed for c in got) or not any(cand[k] in c.data["names"] for c in got):
                        rep.bad("read-ext", "read-dispatch", ext_, f"{lab}: tries {sorted({x for c in got for x in c.data['names']})}, expected {sorted(allowed)}")
                    elif k and not any(cand[0] in n for q, n in r.st.facts if q == "read"):
                        rep.bad("read-ext", "read-order", ext_, f"{lab}: {cand[0]} is not tried first")
                    elif r.st is None or r.val is None or not any(x.origin == "mesh-from-reader" for x in ext.flat_recs(I, r.val, r.st)):
                        rep.bad("read-ext", "read-result", ext_, f"{lab}: the mesh of the {cand[k]} reader is not returned")
                    else:
                        rep.ok("read-ext", f"{lab}: {cand[k]}")
    for n in W:
        for fn, args in (("x.unknown", [Const("x.unknown")]), ("x.vtu", [Const("x.vtu")]), ("<buffer>", [buf("w")])):
            want = {n}
            if fn == "<buffer>" and n == "tetgen":
                want = None
            r, a = one(I, wr, args, dict(opt, file_format=Const(n)), tabs, mesh=True)
            judge("write-format", "write-dispatch", n, f"write({fn}, file_format={n!r})", r, "write", want, a, opt)
    for n in R:
        for fn, args in (("x.unknown", [Const("x.unknown")]), ("x.vtu", [Const("x.vtu")]), ("<buffer>", [buf("r")])):
            want = {n}
            if fn == "<buffer>" and n == "tetgen":
                want = None
            r, a = one(I, rd, args, {"file_format": Const(n)}, tabs)
            judge("read-format", "read-dispatch", n, f"read({fn}, file_format={n!r})", r, "read", want)
            r, a = one(I, rd, args, {"file_format": Const(n)}, tabs, fails=[n])
            judge("read-format", "read-failure", n, f"read({fn}, file_format={n!r}) when that reader fails", Run(r.st, r.val, r.fr, [], r.err), "read", None)
    for lab, f, args, kw, kind, ex in (
            ("write('x.vtu', file_format='nosuch')", wr, [Const("x.vtu")], {"file_format": Const("nosuch")}, "write", True),
            ("write('x.nosuch')", wr, [Const("x.nosuch")], {}, "write", True),
            ("write('x.vtk.bak')", wr, [Const("x.vtk.bak")], {}, "write", True),
            ("write('x.vol.gz.old')", wr, [Const("x.vol.gz.old")], {}, "write", True),
            ("write('dir.vtk/x')", wr, [Const("dir.vtk/x")], {}, "write", True),
            ("read('x.vtk.bak')", rd, [Const("x.vtk.bak")], {}, "read", True),
            ("read('x.vtu.gz')", rd, [Const("x.vtu.gz")], {}, "read", True),
            ("read('dir.vtk/x')", rd, [Const("dir.vtk/x")], {}, "read", True),
            ("write('noextension')", wr, [Const("noextension")], {}, "write", True),
            ("write(<buffer>)", wr, [buf("w")], {}, "write", True),
            ("write(<buffer>, file_format='nosuch')", wr, [buf("w")], {"file_format": Const("nosuch")}, "write", True),
            ("read('x.vtu', file_format='nosuch')", rd, [Const("x.vtu")], {"file_format": Const("nosuch")}, "read", True),
            ("read('x.nosuch')", rd, [Const("x.nosuch")], {}, "read", True),
            ("read(<buffer>)", rd, [buf("r")], {}, "read", True),
            ("read(<buffer>, file_format='nosuch')", rd, [buf("r")], {"file_format": Const("nosuch")}, "read", True),
            ("read('missing.vtu')", rd, [Const("missing.vtu")], {}, "read", False),
            ("read('missing.vtu', file_format='vtu')", rd, [Const("missing.vtu")], {"file_format": Const("vtu")}, "read", False)):
        r, a = one(I, f, args, kw, tabs, exists=ex, mesh=kind == "write")
        judge("rejections", "not-rejected", lab, lab, r, kind, None)
    # only the last extension counts
    for fn, want in (("x.vtk.obj", "obj"), ("x.obj.vtk", "vtk"), ("x.msh.stl", "stl"), ("a.gz.vtu", "vtu")):
        if want not in W or want not in R:
            continue
        r, a = one(I, wr, [Const(fn)], dict(opt), tabs, mesh=True)
        judge("write-ext", "write-dispatch", fn, f"write({fn!r})", r, "write", {want}, a, opt)
        r, a = one(I, rd, [Const(fn)], {}, tabs)
        judge("read-ext", "read-dispatch", fn, f"read({fn!r})", r, "read", {want})
    # the other two ways to write
    wpc = I.modattr("meshio._helpers", "write_points_cells")
    for n, fn in [(n, "x.dat") for n in W] + [(None, "x" + e) for e in E]:
        for via in ("Mesh.write", "write_points_cells"):
            kw = dict(opt, **({"file_format": Const(n)} if n else {}))
            want = n or E[fn[1:]][0] if not (fn.endswith(".gz")) else None
            if want is None or want not in W:
                continue
            r, m, src = handed(I, via, wpc, Const(fn), kw, tabs)
            lab = f"{via}({fn!r}, file_format={n!r})"
            judge("write-via", "write-dispatch", f"{via}:{n or fn}", lab, r, "write", {want}, [None] + ([m] if m is not None else []), opt if m is not None else None)
            if via == "write_points_cells":
                for c in calls(r, "write"):
                    d = lost_parts(I, c.data["args"][1] if len(c.data["args"]) > 1 else None, r.st, src)
                    if d:
                        rep.bad("write-via", "content-lost", f"{via}:{n or fn}", f"{lab}: {d} given by the caller do not reach the writer")
                        break
                    if any(c.data["kwargs"].get(k) != v for k, v in opt.items()):
                        rep.bad("write-via", "options-lost", f"{via}:{n or fn}", f"{lab}: the caller's options are not passed on to the writer")
                        break
                else:
                    if r.st is not None:
                        rep.ok("write-via", f"{lab}: all parts of the mesh reach the writer")
    rep.floor("write-via", 100)
    rep.floor("registry", 80)
    rep.floor("write-ext", 90)
    rep.floor("read-ext", 150)
    rep.floor("write-format", 80)
    rep.floor("read-format", 100)
    rep.floor("rejections", 9)
