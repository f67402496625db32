"""No cell block is silently dropped or truncated by a writer."""
from .conn import *

ASSUMPTIONS = ["points and every cell block of the mesh are non-empty", "the package's warn helper reaches the user"]

# writers whose output of a block is guarded by data-dependent conditions the analysis cannot resolve: only 'never reaches the output' is decided
MAY_ONLY = {"medit", "su2", "stl"}


def layouts(t, tier):
    yield [(t, None)]
    yield [("triangle", None), (t, None)]
    yield [("tetra", None), (t, None), ("tetra", None)]


def covered(cols, n):
    if cols is None or cols == ID:
        return None
    out = set()
    for c in cols:
        if isinstance(c, int):
            out.add(c)
        elif isinstance(c, tuple):
            if c[1] is None:
                return None
            out |= set(range(*c))
        else:
            return None
    return out


def job(name):
    I = interp()
    W = registry(I)[1]
    wr = I.modattr("meshio._helpers", "write")
    out = []
    usual = set()
    for lab, kw, fn in variants(name, W[name]):
        kw = dict(kw, file_format=Const(name))
        for t in BASIC + EXTRA:
            for c in layouts(t, None):
                for pd in (3, 2):
                    r = run_writer(I, wr, MeshSpec(c, points_dim=pd), kw, filename=fn)
                    if r.err:
                        out.append((lab, c, pd, None, r.err, "", None))
                        continue
                    if r.st is None:
                        out.append((lab, c, pd, None, "raises", "", None))
                        continue
                    warned = frozenset(f for f in r.st.facts if f[0] == "warnat")
                    first = len(out)
                    funcs = sorted({e.node._mod.rel + ":" + func_of(e.node) for e in r.ev("sink")})
                    for k, (bt, _) in enumerate(c):
                        org = f"cells[{k}].data"
                        rs = [x for e in r.ev("sink") for x in e.data["recs"] if x.origin == org]
                        must = ("sink", org) in r.st.facts
                        miss = None
                        if rs and all(x.rows in ("part", "rev", "perm") for x in rs):
                            miss = "part of the cells" if any(x.rows == "part" for x in rs) else "cells in another order"
                        elif rs:
                            cov = set()
                            for x in rs:
                                s = covered(x.cols, nodes_of(bt))
                                if s is None:
                                    cov = None
                                    break
                                cov |= s
                            if cov is not None and nodes_of(bt) is not None and cov < set(range(nodes_of(bt))):
                                miss = sorted(set(range(nodes_of(bt))) - cov)
                        out.append((lab, c, pd, k, "must" if must else "may" if rs else "never", funcs[0] if funcs else "", miss, warned))
                    if len(c) == 1 and all(x[4] == "must" and not x[6] for x in out[first:]):
                        usual |= warned
    # a warning that is also issued when everything is written says nothing about a missing block
    return [x[:4] + ("warned",) + x[5:7] if len(x) > 7 and x[7] - usual else x[:7] for x in out]


def run(rep):
    rep.rule = ("For every registered writer x option variant x cell type x block layout (single, after and between other blocks; 2-D and 3-D points), a "
                "must-analysis of the completing paths: each block's connectivity reaches an output sink, or the run raises, or the package's warn helper "
                "has been called. A completing path with neither is a silent drop; connectivity columns that reach no sink are a silent truncation.")
    R, W, _ = registry(interp())
    for name, res in pmap(job, list(W)):
        if isinstance(res, Failed):
            rep.skip("blocks", f"{name}: {res.why}")
            continue
        for lab, c, pd, k, verdict, fn, miss in res:
            lay = "+".join(x[0] for x in c)
            if k is None:
                if verdict == "raises":
                    rep.ok("blocks", f"{name}[{lab}] {lay} {pd}-D: refused with an exception")
                else:
                    rep.skip("blocks", f"{name}[{lab}] {lay}: {verdict}")
                continue
            t = c[k][0]
            if verdict == "never" or (verdict == "may" and name not in MAY_ONLY):
                rep.bad("blocks", "silent-drop", f"{name}:{t}", f"{name}[{lab}] writing blocks {lay} ({pd}-D points): block {k} ({t}) "
                        + ("never reaches the output" if verdict == "never" else "is skipped on a completing path") + f" and no warning is issued ({fn})")
            elif miss and verdict != "warned":
                rep.bad("blocks", "silent-truncation", f"{name}:{t}", f"{name}[{lab}] {lay}: " + (f"only {miss} of a {t} block reach the output ({fn})" if isinstance(miss, str) else f"nodes {miss} of {t} cells never reach the output ({fn})"))
            else:
                rep.ok("blocks", f"{name}[{lab}] {lay} {pd}-D block {k}: {verdict}")
    rep.floor("blocks", 4000)
