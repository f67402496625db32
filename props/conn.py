"""Shared facts about connectivity: what every writer puts on disk, what every reader takes from it."""
from msa.survey import *
from msa import ext

TYPES_QUICK = BASIC + EXTRA


def func_of(node, fr=None):
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return n.name
        n = getattr(n, "_parent", None)
    return "<module>"


def writer_job(job):
    """-> list of dict(fmt, variant, type, recs={(cols, off)}, files, err, exc, warned)"""
    name, types = job
    I = interp()
    W = registry(I)[1]
    out = []
    for lab, kw, fn in variants(name, W[name]):
        for t in types:
            r = run_writer(I, W[name], MeshSpec([(t, None)]), kw, filename=fn)
            recs, short, srt = {}, {}, {}
            files = set()
            for e in r.ev("sink"):
                for x in e.data["recs"]:
                    if x.origin == "cells[0].data":
                        recs.setdefault((x.cols, "self" if x.scaled == "self" else x.off), func_of(e.node))
                        files.add(e.node._mod.rel)
                        srt.setdefault(x.rows == "nsort", func_of(e.node))
                        if x.nar is not None:
                            short.setdefault(x.nar, func_of(e.node))
            out.append({"fmt": name, "variant": lab, "type": t, "recs": recs, "short": short, "sorted": srt.get(True) if False not in srt else None, "files": sorted(files), "err": r.err,
                        "completes": r.st is not None, "degraded": bool(I.degraded), "warned": bool(r.st and ("warn",) in r.st.facts)})
    return out


SHORT = {}
SORTED = set()


def mesh_sites(I, r, t):
    """{(file, function): [{(cols, off, origin)}]}, one set per way a block of type t is handed to Mesh(...)"""
    sites = {}
    for e in r.ev("mesh"):
        for ty, da in blocks_of(I, e):
            if ty is None or da is None:
                continue
            tys = {getattr(a, "v", "?") for a in alts(ty)}
            if len(tys) == 1 and t in tys:
                k = (e.node._mod.rel, func_of(e.node))
                rs = frozenset((x.cols, "self" if x.scaled == "self" else x.off, x.origin) for x in ext.flat_recs(I, da, e.data["st"]))
                ns = {x.nar for x in ext.flat_recs(I, da, e.data["st"]) if x.origin == "file"}
                if len(ns) == 1 and None not in ns:
                    SHORT.setdefault(k, ns.pop())
                fs = {x.rows == "nsort" for x in ext.flat_recs(I, da, e.data["st"]) if x.origin == "file"}
                if fs == {True}:
                    SORTED.add(k)
                if rs and rs not in sites.setdefault(k, []):
                    sites[k].append(rs)
    return sites


def reader_job(job):
    """-> list of dict(fmt, type, file, func, recs={(cols, off)}) one per mesh construction site"""
    name, t = job
    I = interp()
    R = registry(I)[0]
    SHORT.clear()
    SORTED.clear()
    r = run_reader(I, R[name], t)
    sites = mesh_sites(I, r, t)
    if r.prev is not None:
        for k, v in mesh_sites(I, r.prev, t).items():
            sites.setdefault(k, v)
    return [{"fmt": name, "type": t, "file": k[0], "func": k[1], "recs": rs, "short": SHORT.get(k), "sorted": k in SORTED, "err": r.err} for k, v in sites.items() for rs in v]


def collect(rep, types=TYPES_QUICK):
    I = interp()
    R, W, _ = registry(I)
    wjobs = [(n, types) for n in W]
    rjobs = [(n, t) for n in sorted(R, key=lambda x: x != "abaqus") for t in types]
    writers, readers = [], []
    for j, res in pmap(writer_job, wjobs):
        if isinstance(res, Failed):
            rep.skip("writers", f"{j[0]}: {res.why}")
        else:
            writers += res
    for j, res in pmap(reader_job, rjobs):
        if isinstance(res, Failed):
            rep.skip("readers", f"{j}: {res.why}")
        else:
            readers += res
    return R, W, writers, readers
