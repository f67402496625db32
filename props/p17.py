"""No operation leaves state behind that a later operation can see."""
import ast

from msa.shared import Shared

from .conn import interp

ASSUMPTIONS = ["functions of other libraries do not modify the containers they are given, except the known in-place functions of numpy and the standard library",
               "registering and deregistering a format is meant to change the registry"]
EXEMPT = ("register", "deregister", "unregister")


def exempt(S):
    """Functions that register or deregister formats, and those only they call."""
    callers, others = {}, set()
    for s in S.sum.values():
        called = set()
        for n in ast.walk(s.f.node):
            if isinstance(n, ast.Call):
                c = S.H.callee(s.f, n)
                if c is not None:
                    callers.setdefault(c.name, set()).add(s.f.name)
                    called.add(id(n.func))
        # a function that is handed around may be called from anywhere
        others |= {(s.f.mod.name, n.id) for n in ast.walk(s.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in called}
    for m in S.prog.modules.values():
        for st in m.tree.body:
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                others |= {(m.name, n.id) for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    ok = {s.f.name for s in S.sum.values() if s.f.name.split(":")[-1].split(".")[-1].lstrip("_").startswith(EXEMPT)}
    while True:
        new = {s.f.name for s in S.sum.values() if s.f.name not in ok and callers.get(s.f.name) and callers[s.f.name] <= ok and (s.f.mod.name, s.f.node.name) not in others}
        if not new:
            return ok
        ok |= new


def run(rep):
    rep.rule = ("Flow-sensitive alias and effect analysis of every function: no store, in-place operation or mutating call reaches an object that outlives the call (module-level object, default argument value, class-level container, cached result, "
                "process-wide setting), no such object becomes part of a mesh, and nothing that depends on file contents is cached. Memoising a pure function of the key and idempotent initialisation are accepted.")
    I = interp()
    S = Shared(I.prog, I)
    ev = S.run()
    bad, meant = {}, exempt(S)
    for (fn, what, root), (msg, text) in ev.items():
        if fn in meant:
            continue
        bad.setdefault(fn, []).append((what, root, msg, text))
    for s in S.sum.values():
        n = s.f.name
        if n in bad:
            for what, root, msg, text in bad[n]:
                rep.bad("functions", "shared-state", f"{n}:{root}", f"{n} {msg} {root}: `{text}`")
        else:
            rep.ok("functions", n)
        if any("cache" in ast.unparse(d) and "property" not in ast.unparse(d) for d in s.f.node.decorator_list):
            if S.does_io(s.f):
                rep.bad("caches", "cached-io", n, f"{n} caches a result that depends on files, the clock or random numbers")
            else:
                rep.ok("caches", n)
    rep.extra["store_sites"] = S.sites
    rep.floor("functions", 200)
