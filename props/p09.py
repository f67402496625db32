"""Floating-point values survive the trip through the file."""
from .floats import *

ASSUMPTIONS = ["17 significant decimal digits identify every double, 9 every single (IEEE 754)", "str/repr/'{}' of a float is its shortest exact representation (Python, NumPy)",
               "numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py"]
# limits that are the file format's own: fixed-width fields, single precision by specification, drawings
EXEMPT = {"nastran": "fixed-width fields", "svg": "a drawing", "neuroglancer": "single precision by specification"}
SINGLE = {("stl", "binary=True")}
# arrays the format stores as integer labels, by name or by format rule
SPECS = {dt: dict(points_dim=3, point_data=["pd", "pv"], cell_data=["cd", "cv"], data_shapes={"pv": (3,), "cv": (3,)}, float_dtype=dt) for dt in ("float64", "float32")}
SPECS["float64 2-D"] = dict(points_dim=2)
SPECS["float64 plain"] = dict(points_dim=3)
SPECS["float32 plain"] = dict(points_dim=3, float_dtype="float32")
NEED = {"float64": 17, "float32": 9}
# integer-only cell data of these formats: floats are not offered to the file format as such
INT_DATA = {"dolfin-xml", "netgen", "medit", "su2", "ugrid", "nastran", "flac3d", "abaqus"}
LAYS = ["tri", "tet", "tri+quad", "vol"]


def wjob(name):
    I = interp()
    W = registry(I)[1]
    has = "float_fmt" in params_of(W[name])
    out = runs(name, LAYS, SPECS)
    fmt = runs(name, LAYS, {k: v for k, v in SPECS.items() if "plain" in k}, {"float_fmt": Const(".5e")}) if has else []
    return out, fmt


def rjob(name):
    """text parsed into a number type narrower than a double"""
    I = interp()
    R = registry(I)[0]
    out = {}
    n = 0
    for t in ("triangle", "tetra"):
        r = run_reader(I, R[name], t)
        for rr in (r, r.prev):
            if rr is None:
                continue
            for e in rr.ev("fromfile"):
                sep = e.data.get("sep")
                if sep is None or isinstance(sep, Const) and sep.v in ("", b""):
                    continue
                n += 1
                dts = [ext.to_dtype(a) for a in alts(e.data["dtype"]) if not (isinstance(a, Const) and a.v is None)] if e.data["dtype"] is not None else []
                if dts and all(d is not None and d.name in ("float32", "float16") for d in dts):
                    out[e.node._mod.rel + ":" + func_of(e.node)] = dts[0].name
            for e in rr.ev("mesh"):
                for w in ("points", "point_data", "cell_data"):
                    v = e.data["vals"].get(w)
                    if v is not None:
                        n += 1
                        rs = ext.flat_recs(I, v, e.data["st"])
                        nar = [x for x in rs if x.nar in ("float32", "float16")]
                        if nar and len(nar) == len(rs):
                            out[e.node._mod.rel + ":" + func_of(e.node) + ":" + w] = nar[0].nar
    return n, out


def lossy(x, need):
    if x.scaled is True:
        return None
    if x.nar is not None and not (x.nar == "float32" and need == 9):
        return f"converted to {x.nar}"
    p = x.prec
    if isinstance(p, int) and p < need:
        return f"written with {p} significant digits"
    if isinstance(p, tuple):
        return f"written with a fixed number ({p[1]}) of decimals"
    return None


def run(rep):
    rep.rule = ("Every flow of a float coordinate or data array into an output sink is followed through casts, array stores, structured fields and text formatting: its text form keeps at "
                "least 17 (double) or 9 (single) significant digits or the shortest exact form, its binary form is never narrower than the array's own type; an explicitly given float format is the "
                "one applied to the coordinates. Readers never parse text into, or cast file values to, a type narrower than a double unless the file says so.")
    R, W, _ = registry(interp())
    for name, res in pmap(wjob, list(W)):
        if isinstance(res, Failed):
            rep.skip("written", f"{name}: {res.why}")
            continue
        if name in EXEMPT:
            rep.skip("written", f"{name}: {EXEMPT[name]}")
            continue
        for lab, ln, sl, oc, fl, must, warned in res[0]:
            if oc != "done" or (name, lab) in SINGLE:
                rep.skip("written", f"{name}[{lab}] {ln} {sl}: {oc}")
                continue
            need = NEED[sl.split()[0]]
            for org, recs in fl.items():
                if not org.startswith(("points", "point_data[", "cell_data[")) or org.startswith("cell_data[") and name in INT_DATA:
                    continue
                good = {w for x, w in recs.items() if not lossy(x, need) and x.scaled is not True}
                bad = [(x, w, lossy(x, need)) for x, w in recs.items() if lossy(x, need) and (w not in good or x.nar)]
                if bad:
                    x, w, why = bad[0]
                    rep.bad("written", "lossy-floats", f"{name}[{lab}]:{org.split('[')[0]}", f"{name}[{lab}] {ln} {sl}: {org} is {why} in {w}")
                elif all(x.prec == "?" or x.scaled is True for x in recs):
                    rep.skip("written", f"{name}[{lab}] {org}: precision not tracked")
                else:
                    rep.ok("written", f"{name}[{lab}] {ln} {sl}: {org} {sorted({str(x.prec) for x in recs})}")
        for lab, ln, sl, oc, fl, must, warned in res[1]:
            recs = fl.get("points", {})
            text = [x for x in recs if x.prec is not None]
            if oc != "done" or not text:
                continue
            wrong = [x for x in text if x.prec not in (6, "?")]
            if wrong:
                rep.bad("float-format", "float-format-ignored", f"{name}[{lab}]", f"{name}[{lab}] {ln}: coordinates are written with precision {wrong[0].prec} although float_fmt='.5e' was given ({recs[wrong[0]]})")
            else:
                rep.ok("float-format", f"{name}[{lab}] {ln}")
    for name, res in pmap(rjob, list(R)):
        if isinstance(res, Failed):
            rep.skip("read", f"{name}: {res.why}")
            continue
        n, out = res
        for site, dt in out.items():
            rep.bad("read", "lossy-read", f"{name}:{site}", f"{name}: text or file values are forced into {dt} in {site}")
        for _ in range(n - len(out)):
            rep.ok("read", name)
    rep.floor("written", 500)
    rep.floor("float-format", 10)
    rep.floor("read", 60)
