"""Reading a truncated file always ends."""
import ast

from msa import eof, redos
from .conn import *

ASSUMPTIONS = ["at the end of the input readline/read/readlines deliver empty results, next() raises StopIteration and np.fromfile an empty array (Python, NumPy)",
               "for loops over finite iterables end"]


def consts(env):
    out = {}
    for k, v in env.items():
        if isinstance(k, str) and isinstance(v, Const) and isinstance(v.v, (str, bytes, int, float, bool, type(None))):
            out[k] = eof.C(v.v)
        elif isinstance(k, str):
            out[k] = ("s", ("v", k))
    return out


def rjob(name):
    I = interp()
    R = registry(I)[0]
    r = run_reader(I, R[name])
    out, seen = [], set()
    for e in r.ev("while"):
        if not e.node._mod.name.startswith("meshio"):
            continue
        key = (id(e.node), tuple(sorted(consts(e.data["env"]).items(), key=repr)))
        if key in seen:
            continue
        seen.add(key)
        out.append((loc(e.node), e.node.lineno, eof.stalls(I, e.node, consts(e.data["env"]))))
    return out


def loc(n):
    return n._mod.rel + ":" + func_of(n)


def alljob(_):
    I = interp()
    out = []
    for m in I.prog.modules:
        t = I.prog.modules[m]
        for n in ast.walk(t.tree):
            if isinstance(n, ast.While):
                out.append((loc(n), n.lineno, eof.stalls(I, n, {})))
    return out


def patterns(_):
    """[(location, function, pattern, exponential?)] of the regular expressions whose text is a constant"""
    I = interp()
    out = []
    for m in I.prog.modules.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "re" and n.args):
                continue
            a = n.args[0]
            if isinstance(a, ast.Call):
                continue
            p = a.value if isinstance(a, ast.Constant) else None
            if isinstance(a, ast.Name):
                v = I.module_env(m.name).get(a.id)
                p = v.v if isinstance(v, Const) else None
            out.append((loc(n), n.lineno, p, redos.exponential(p) if isinstance(p, (str, bytes)) else None))
    return out


def run(rep):
    rep.rule = ("For every while loop of the package, in every calling context met when interpreting the registered readers and once with arbitrary variables: constant propagation and value numbering through "
                "the loop under the assumption that the input is exhausted (reads deliver empty results); after the first such iteration some path must be able to leave the loop. Regular expressions with constant text have no exponential ambiguity (product automaton).")
    R, W, _ = registry(interp())
    n = 0
    jobs = pmap(rjob, list(R))
    jobs += pmap(alljob, ["any variables"])
    for name, res in jobs:
        if isinstance(res, Failed):
            rep.skip("loops", f"{name}: {res.why}")
            continue
        for where, line, st in res:
            if st:
                rep.bad("loops", "endless-at-eof", f"{where}", f"{name}: the loop at {where} (line {line}) never ends on truncated input: {st[1]}")
            else:
                rep.ok("loops", f"{name}: {where} line {line}")
    for _, res in pmap(patterns, ["patterns"]):
        if isinstance(res, Failed):
            rep.skip("patterns", res.why)
            continue
        for where, line, p, ex in res:
            if ex:
                rep.bad("patterns", "exponential-pattern", where, f"the pattern {p[:60]!r}... at {where} (line {line}) matches some text in exponentially many ways: a failing match does not end")
            elif ex is None:
                rep.skip("patterns", f"{where} line {line}")
            else:
                rep.ok("patterns", f"{where} line {line}: {p[:60]!r}")
    rep.floor("loops", 40)
