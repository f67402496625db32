"""Node order within a cell survives write-then-read."""
from .conn import *

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py",
               "a reader's columns are taken relative to the first connectivity column of the record"]


def run(rep):
    rep.rule = ("For every registered writer x option variant x cell type, abstract interpretation yields the column permutation of the caller's "
                "connectivity rows at each output sink; for every registered reader x cell type, the permutation between file columns and the "
                "cells handed to Mesh(...). Their composition must be the identity, and neither side may reorder the nodes of a cell by their values. A pair is decided only when both permutations are exact.")
    R, W, writers, readers = collect(rep)
    wtab = {}
    for w in writers:
        n = nodes_of(w["type"])
        if w["recs"] and n != 1:
            if w["sorted"]:
                rep.bad("sorted", "by-value", f"{w['fmt']}:{w['sorted']}", f"{w['fmt']}[{w['variant']}] {w['type']}: the nodes of each cell are written in the order of their numbers by {w['sorted']}")
            else:
                rep.ok("sorted", f"{w['fmt']}[{w['variant']}] {w['type']}")
        for (cols, off), fn in w["recs"].items():
            p = norm(cols, n)
            if p is None or sorted(p) != list(range(n)):
                continue
            wtab.setdefault((reader_name(w["fmt"], R), w["type"]), []).append((p, w, fn))
    for rd in readers:
        t = rd["type"]
        n = nodes_of(t)
        if n != 1:
            if rd["sorted"]:
                rep.bad("sorted", "by-value", f"{rd['fmt']}:{rd['func']}", f"{rd['fmt']} {t}: the nodes of each cell are put in the order of their numbers in {rd['file']}:{rd['func']}")
            else:
                rep.ok("sorted", f"{rd['fmt']} {t} {rd['file']}:{rd['func']}")
        A = {norm(c, n) for c, o, _ in rd["recs"]}
        A = {p for p in A if p is not None and sorted(p) == list(range(n))}
        ws = wtab.get((rd["fmt"], t), [])
        if not ws:
            continue
        same = [x for x in ws if rd["file"] in x[1]["files"]]
        if not A:
            rep.skip("roundtrip", f"{rd['fmt']} {t} reader columns not exact")
            continue
        idn = tuple(range(n))
        by = {}
        for p, w, fn in same or ws:
            by.setdefault((w["fmt"], w["variant"]), []).append((p, fn))
        for (wf, var), ps in by.items():
            # file position -> mesh node for each exact way the writer may lay a row out
            comp = {tuple(p[j] for j in r) for p, _ in ps for r in A}
            if idn in comp:
                rep.ok("roundtrip", f"{wf}[{var}] {t}: {rd['file']} composes to identity")
            else:
                p, fn = ps[0]
                r = sorted(A)[0]
                rep.bad("roundtrip", "node-order", f"{wf}[{var}]:{t}:{rd['func']}",
                        f"{t} written as columns {p} by {fn}, read back with columns {r} in {rd['file']}:{rd['func']}; "
                        f"composition {tuple(p[j] for j in r)} is not the identity")
    rep.floor("roundtrip", 150)

