"""Index base: file indices are the format's base, and reading subtracts exactly what writing added."""
from .conn import *

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py",
               "index base of each file format is taken from its published specification (table BASE)"]

# first node index in the file, by format specification
BASE = {"ansys": 1, "flac3d": 1, "gmsh": 1, "gmsh22": 1, "mdpa": 1, "ply": 0, "vtk": 0, "vtk42": 0, "vtk51": 0, "vtu": 0, "xdmf": 0, "cgns": 1,
        "h5m": 1, "abaqus": 1, "avsucd": 1, "dolfin-xml": 0, "exodus": 1, "hmf": 0, "med": 1, "medit": 1, "nastran": 1, "netgen": 1,
        "neuroglancer": 0, "obj": 1, "off": 0, "permas": 1, "su2": 0, "tecplot": 1, "tetgen": 0, "ugrid": 1}


# files of these formats number their nodes explicitly, in any order and with gaps
NUMBERED = {"abaqus", "avsucd", "flac3d", "gmsh", "nastran", "permas"}


def set_job(job):
    kind, name = job
    I = interp()
    R, W, _ = registry(I)
    out = []
    if kind == "w":
        spec = lambda: MeshSpec([("triangle", None), ("quad", None)], point_sets=["ps"], cell_sets=["cs"])
        for lab, kw, fn in variants(name, W[name]):
            r = run_writer(I, W[name], spec(), kw, filename=fn)
            for e in r.ev("sink"):
                for x in e.data["recs"]:
                    if x.origin.startswith(("point_sets[", "cell_sets[")):
                        out.append((name, lab, x.origin, x.off, func_of(e.node)))
    else:
        r = run_reader(I, R[name], "triangle")
        for e in r.ev("mesh"):
            for w in ("point_sets",):
                v = e.data["vals"].get(w)
                if v is not None:
                    for x in ext.flat_recs(I, v, e.data["st"]):
                        out.append((name, "mapped" if x.origin == "mapped" else "", w, x.off, func_of(e.node)))
    return out


def run(rep):
    rep.rule = ("Constant index shifts are tracked through every writer (offset added to the caller's connectivity/set indices at each output sink) and "
                "every reader (offset subtracted from file integers before Mesh(...)). The writer's offset must equal the format's base and the "
                "reader's offset its negative; offsets that go through an id lookup are left undecided on the reader side.")
    R, W, writers, readers = collect(rep)
    seen = set()
    for w in writers:
        base = BASE.get(w["fmt"])
        if base is None:
            continue
        for nar, fn in w["short"].items():
            rep.bad("writer", "index-range", f"{w['fmt']}[{w['variant']}]:{w['type']}:{fn}", f"connectivity of {w['type']} is converted to {nar} before it is written, which cannot hold every node index")
        for (cols, off), fn in w["recs"].items():
            if off == "self":
                rep.bad("writer", "index-base-write", f"{w['fmt']}[{w['variant']}]:{w['type']}:{fn}",
                        f"connectivity of {w['type']} reaches the output shifted by its own smallest or largest entry; {w['fmt']} files count nodes from {base}")
            elif off is None or cols is None:
                rep.skip("writer", f"{w['fmt']}[{w['variant']}] {w['type']}: offset not constant")
            elif off == base:
                rep.ok("writer", f"{w['fmt']}[{w['variant']}] {w['type']}: +{off} in {fn}")
            else:
                rep.bad("writer", "index-base-write", f"{w['fmt']}[{w['variant']}]:{w['type']}:{fn}",
                        f"connectivity of {w['type']} reaches the output shifted by {off:+d}; {w['fmt']} files count nodes from {base}")
    for rd in readers:
        base = BASE.get(rd["fmt"])
        if base is None:
            continue
        if rd["short"]:
            rep.bad("reader", "index-range", f"{rd['fmt']}:{rd['type']}:{rd['func']}", f"node indices of {rd['type']} are converted to {rd['short']}, which cannot hold every node index")
            continue
        offs = {o for c, o, org in rd["recs"] if org == "file"}
        known = {o for o in offs if o is not None and o != "self"}
        mapped = {o for c, o, org in rd["recs"] if org == "mapped"}
        if "self" in offs:
            rep.bad("reader", "index-base-read", f"{rd['fmt']}:{rd['type']}:{rd['func']}",
                    f"node indices of {rd['type']} reach the mesh shifted by the smallest or largest index present; {rd['fmt']} files count nodes from {base}")
        elif mapped - {0, None}:
            rep.bad("reader", "index-base-read", f"{rd['fmt']}:{rd['type']}:{rd['func']}",
                    f"node identifiers of {rd['type']} are turned into positions counted from {sorted(mapped - {0, None})} instead of 0")
        elif known and rd["fmt"] in NUMBERED:
            rep.bad("reader", "node-numbers", f"{rd['fmt']}:{rd['type']}:{rd['func']}",
                    f"node indices of {rd['type']} reach the mesh as the numbers in the file shifted by {sorted(known)}; {rd['fmt']} files number their nodes explicitly, so references must be looked up")
        elif mapped and None not in mapped and not known:
            rep.ok("reader", f"{rd['fmt']} {rd['type']}: identifiers looked up as positions from 0 in {rd['func']}")
        elif not known:
            rep.skip("reader", f"{rd['fmt']} {rd['type']}: via id lookup")
        elif known == {-base}:
            rep.ok("reader", f"{rd['fmt']} {rd['type']}: {-base:+d} in {rd['func']}")
        else:
            rep.bad("reader", "index-base-read", f"{rd['fmt']}:{rd['type']}:{rd['func']}",
                    f"node indices of {rd['type']} reach the mesh shifted by {sorted(known)}; {rd['fmt']} files count nodes from {base}")
    jobs = [("w", n) for n in W] + [("r", n) for n in R]
    for j, res in pmap(set_job, jobs):
        if isinstance(res, Failed):
            rep.skip("sets", f"{j}: {res.why}")
            continue
        for name, lab, what, off, fn in res:
            base = BASE.get(name)
            if off is None or base is None:
                rep.skip("sets", f"{name} {what}")
            elif j[0] == "r" and lab != "mapped" and name in NUMBERED:
                rep.bad("sets", "node-numbers", f"{name}:{what}:{fn}", f"{what} are the numbers in the file shifted by {off:+d}; {name} files number their nodes explicitly, so references must be looked up")
            elif off == (base if j[0] == "w" else 0 if lab == "mapped" else -base):
                rep.ok("sets", f"{name} {what}: {off:+d} in {fn}")
            else:
                rep.bad("sets", "index-base-sets", f"{name}:{what}:{fn}", f"{what} shifted by {off:+d}, format counts from {base}")
    rep.floor("writer", 200)
    rep.floor("reader", 80)
