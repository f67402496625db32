"""Binary numbers have the type and the byte order the file declares."""
from .trace import *

ASSUMPTIONS = ["the host is little-endian (native order = little-endian)"]

FDT = ["float64", "float32", ">float64"]
IDT = ["int64", "int32", "uint8", "int8", "int16", "uint16", "uint32", "uint64", ">int64"]

VTK = {"unsigned_char": "uint8", "char": "int8", "unsigned_short": "uint16", "short": "int16", "unsigned_int": "uint32", "int": "int32", "unsigned_long": "uint64",
       "long": "int64", "float": "float32", "double": "float64", "vtktypeint64": "int64", "vtktypeuint64": "uint64", "vtktypeint32": "int32", "vtktypeuint32": "uint32",
       "vtktypeint16": "int16", "vtktypeuint16": "uint16", "vtktypeint8": "int8", "vtktypeuint8": "uint8", "vtkidtype": "int64"}
VTU = {"Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "UInt8": "uint8", "UInt16": "uint16", "UInt32": "uint32", "UInt64": "uint64",
       "Float32": "float32", "Float64": "float64"}
XDMF = {("Int", "1"): "int8", ("Int", "2"): "int16", ("Int", "4"): "int32", ("Int", "8"): "int64", ("UInt", "1"): "uint8", ("UInt", "2"): "uint16", ("UInt", "4"): "uint32",
        ("UInt", "8"): "uint64", ("Float", "4"): "float32", ("Float", "8"): "float64", ("Char", "1"): "int8", ("UChar", "1"): "uint8"}
PLY = {"int8": "int8", "char": "int8", "uint8": "uint8", "uchar": "uint8", "int16": "int16", "short": "int16", "uint16": "uint16", "ushort": "uint16", "int32": "int32",
       "int": "int32", "uint32": "uint32", "uint": "uint32", "float32": "float32", "float": "float32", "float64": "float64", "double": "float64", "int64": "int64", "uint64": "uint64"}
UGRID = {"b8l": ("float64", "int64", ">"), "b8": ("float64", "int32", ">"), "b4": ("float32", "int32", ">"), "lb8l": ("float64", "int64", "<"), "lb8": ("float64", "int32", "<"),
         "lb4": ("float32", "int32", "<"), "r8": ("float64", "int32", ">"), "r4": ("float32", "int32", ">"), "lr8": ("float64", "int32", "<"), "lr4": ("float32", "int32", "<")}
MEDIT = {1: ("float32", "int32", "int32"), 2: ("float64", "int32", "int32"), 3: ("float64", "int32", "int64"), 4: ("float64", "int64", "int64")}
# MSH sections: the binary numbers in order (i int32, Q uint64, d float64; id = records of an int32 and a float64)
GMSH = {"2.2": {"MeshFormat": "i", "Nodes": "(id)+", "Elements": "(ii)*", "NodeData": "(id)*", "ElementData": "(id)*"},
        "4.0": {"MeshFormat": "i", "Nodes": "QiQ(id)+", "Elements": "Q(iQi)*", "NodeData": "(id)*", "ElementData": "(id)*", "Periodic": "i.*"},
        "4.1": {"MeshFormat": "i", "Nodes": "Q(iQQd)*", "Elements": "Q(iQQ)*", "NodeData": "(id)*", "ElementData": "(id)*", "Entities": "Q[iQd]*", "Periodic": "Q(i(Q|Qd)QQ)*"}}


def name1(f):
    """Single (name, order) of a plain or homogeneous dtype."""
    return f[0] if f and len(set(f)) == 1 else None


def orig(it):
    return sorted({x.origin for x in it.recs or ()})


def what(it):
    o = [x for x in orig(it) if not x.startswith(("desig", "name:"))]
    return o[0].split("[")[0] if o else "numbers"


def ck_vtk(tr, ctx):
    decl = None
    for it in tr:
        if it.kind == "text" and it.text is not None and it.text.strip():
            t = it.text.strip()
            w = t.split()
            decl = None
            if w[0] == "CELLS" and ctx["name"] == "vtk42":
                decl = "int32"
            elif w[0] == "CELL_TYPES":
                decl = "int32"
            elif w[-1].lower() in VTK:
                decl = VTK[w[-1].lower()]
        elif it.kind == "text" and it.text is None:
            decl = None
        elif it.kind == "raw":
            f = name1(flat(it.dt))
            if f is None:
                yield it, None, f"{what(it)} of undetermined type"
            elif f[1] == "<":
                yield it, False, f"{what(it)} written in little-endian order; binary VTK files are big-endian"
            elif decl is None:
                yield it, None, f"{what(it)}: no type word in front"
            else:
                yield it, f[0] == decl, f"{what(it)} declared as {decl}, written as {f[0]}"


def ck_vtu(tr, ctx):
    decls, raws = [], []
    order, head = "LittleEndian", "UInt32"
    for it in tr:
        if it.kind == "text" and it.text:
            m = re.search(r'<VTKFile[^>]*byte_order="(\w+)"', it.text)
            if m:
                order = m.group(1)
            m = re.search(r'<VTKFile[^>]*header_type="(\w+)"', it.text)
            if m:
                head = m.group(1)
            if it.text.startswith("<DataArray") or it.text.startswith("<\0"):
                m = re.search(r'<DataArray[^>]*\btype="(\w+)"', it.text)
                decls.append((it, VTU.get(m.group(1)) if m else None))
        elif it.kind == "raw":
            raws.append(it)
    for it in raws:
        f = name1(flat(it.dt))
        if f is None:
            yield it, None, f"{what(it)} of undetermined type"
        elif f[1] != "|":
            yield it, (f[1] == "<") == (order == "LittleEndian"), f"{what(it)} written in {'little' if f[1] == '<' else 'big'}-endian order, the file declares {order}"
    # pair declarations with the arrays in order; length prefixes are of the header type
    hd = VTU.get(head)
    nodes = {}
    for it in raws:
        f = name1(flat(it.dt))
        nodes.setdefault(it.node, []).append(not it.recs and f is not None and f[0] == hd)
    if ctx["binary"] and len(raws) == 2 * len(decls):
        # every array has a prefix: a number (its length in bytes) or a list of numbers that is not as long as anything of the mesh
        pre = [it for it in raws if not it.recs and it.shape in ((), (None,), (1,))]
        if len(pre) == len(decls):
            for it in pre:
                f = name1(flat(it.dt))
                if f is not None and f[0] != hd:
                    yield it, False, f"lengths are encoded as {f[0]}, the file declares {head}"
                    return
    body, hdrs = [], []
    for it in raws:
        (hdrs if all(nodes[it.node]) else body).append((it, name1(flat(it.dt))))
    if len(body) != len(decls):
        if ctx["binary"]:
            yield None, None, f"{len(decls)} DataArray elements, {len(body)} encoded arrays"
        return
    if ctx["binary"] and not hdrs:
        yield body[0][0], False, f"no length prefix of type {head} in front of the arrays"
    for (d, t), (it, f) in zip(decls, body):
        yield it, None if t is None or f is None else t == f[0], f"{what(it)} declared as {t}, encoded as {f and f[0]}"


def ck_xdmf(tr, ctx):
    decls, raws = [], []
    for it in tr:
        if it.kind == "xml":
            tag = [a.v for a in it.val or [] if isinstance(a, Const) and isinstance(a.v, str)]
            if "DataItem" in tag:
                k = it.kw or {}
                dt, pr = k.get("DataType", k.get("NumberType")), k.get("Precision")
                decls.append((it, XDMF.get((getattr(dt, "v", None), getattr(pr, "v", None))), k.get("Endian")))
        elif it.kind == "raw":
            raws.append((it, name1(flat(it.dt))))
    if not raws:
        return
    if len(raws) != len(decls):
        yield None, None, f"{len(decls)} DataItem elements, {len(raws)} binary files"
        return
    for (d, t, en), (it, f) in zip(decls, raws):
        if f is None or t is None:
            yield it, None, f"{what(it)}: undetermined type"
            continue
        big = isinstance(en, Const) and en.v == "Big"
        yield it, f[1] == "|" or (f[1] == ">") == big, f"{what(it)} written in {f[1]} order, the item says {'Big' if big else 'native'}"
        yield it, t == f[0], f"{what(it)} declared as {t}, written as {f[0]}"


def ck_ply(tr, ctx):
    elem, props, order = None, {}, None
    raws = []
    for it in tr:
        if it.kind == "text" and it.text is not None:
            for line in it.text.split("\n"):
                w = line.split()
                if not w:
                    continue
                if w[0] == "format" and len(w) > 1:
                    order = {"binary_little_endian": "<", "binary_big_endian": ">"}.get(w[1])
                elif w[0] == "element":
                    elem = w[1]
                    props[elem] = []
                elif w[0] == "property" and elem:
                    props[elem].append([PLY.get(x) for x in (w[2:4] if w[1] == "list" else w[1:2])])
        elif it.kind == "raw":
            raws.append(it)
    for it in raws:
        f = flat(it.dt)
        if f is None or order is None:
            yield it, None, f"{what(it)}: undetermined type"
            continue
        bad = [x for x in f if x[1] not in ("|", order)]
        yield it, not bad, f"{what(it)} written as {bad}, the header says {order}"
        cells = any(o.startswith("cells") for o in orig(it))
        p = props.get("face" if cells else "vertex")
        if p is None:
            continue
        want = [p[0][0]] + [p[0][1]] * (len(f) - 1) if cells and p and len(p[0]) == 2 else [x[0] for x in p]
        if cells and len(f) == 1:
            continue
        got = [x[0] for x in f]
        if len(got) == 1 and len(want) > 1:
            got = got * len(want)
        yield it, None if None in want else got == want, f"{what(it)} declared as {want}, written as {got}"


def ck_ansys(tr, ctx):
    want = None
    for it in tr:
        if it.kind == "text" and it.text is not None:
            m = re.search(r"\((20|30)(10|12|13) \(", it.text)
            if m:
                want = (m.group(1), m.group(2))
        elif it.kind == "raw":
            f = name1(flat(it.dt))
            if f is None or want is None:
                yield it, None, f"{what(it)}: undetermined type or section"
                continue
            if want[1] == "10":
                t = {"20": "float32", "30": "float64"}[want[0]]
                yield it, f == (t, "<"), f"section {want[0]}{want[1]} holds {t}, {what(it)} written as {f[1]}{f[0]}"
            else:
                t = {"20": "int32", "30": "int64"}[want[0]]
                # the sign is immaterial for indices
                yield it, f[0].lstrip("u") == t and f[1] == "<", f"section {want[0]}{want[1]} holds {t}, {what(it)} written as {f[1]}{f[0]}"


def ck_ugrid(tr, ctx):
    spec = UGRID.get((ctx["fn"] or "").split(".")[-2]) if (ctx["fn"] or "").count(".") > 1 else None
    if spec is None:
        return
    for it in tr:
        if it.kind == "raw":
            f = name1(flat(it.dt))
            if f is None:
                yield it, None, f"{what(it)}: undetermined type"
                continue
            t = spec[0] if "points" in orig(it) else spec[1]
            yield it, f == (t, spec[2]), f"{ctx['fn']} holds {spec[2]}{t}, {what(it)} written as {f[1]}{f[0]}"


def ck_medit(tr, ctx):
    ver = None
    first = True
    for it in tr:
        if it.kind != "raw":
            continue
        f = flat(it.dt)
        if f is None:
            yield it, None, f"{what(it)}: undetermined type"
            continue
        bad = [x for x in f if x[1] == ">"]
        yield it, not bad, f"{what(it)} in big-endian order; the cookie 1 is written natively"
        if first:
            first = False
            v = dict(it.fields or ()).get("f1")
            ver = v.v if isinstance(v, Const) else v if isinstance(v, int) else None
            if ver not in MEDIT:
                yield it, None, "version not determined"
                return
            ft, it_, pt = MEDIT[ver]
            yield it, [x[0] for x in f] == ["int32", "int32", "int32", pt, "int32"], f"version {ver} header written as {[x[0] for x in f]}"
            continue
        ft, it_, pt = MEDIT[ver]
        o = orig(it)
        got = [x[0] for x in f]
        if "points" in o:
            ok = got[:-1] and set(got[:-1]) == {ft} and got[-1] == it_
        elif any(x.startswith("cells[") and x.endswith("data") for x in o):
            ok = set(got) == {it_}
        else:
            ok = got in (["int32", pt, it_], ["int32", pt])
        yield it, bool(ok), f"version {ver} ({ft}, {it_}, positions {pt}): {what(it)} written as {got}"


def ck_gmsh(tr, ctx):
    sec, ver, codes = None, ctx["version"], {}
    items = {}
    for it in tr:
        if it.kind == "text" and it.text is not None:
            for m in re.finditer(r"\$(\w+)", it.text):
                sec = None if m.group(1).startswith("End") else m.group(1)
        elif it.kind == "raw":
            f = flat(it.dt)
            if f is None:
                yield it, None, f"{what(it)}: undetermined type"
                codes.setdefault(sec, []).append("?")
                continue
            bad = [x for x in f if x[1] == ">"]
            yield it, not bad, f"{what(it)} in big-endian order; the file's byte order mark is written natively"
            codes.setdefault(sec, []).append("".join(CODE[x[0]] for x in f))
            items.setdefault(sec, it)
    for s, c in codes.items():
        pat = GMSH[ver].get(s)
        code = "".join(c)
        if pat is None or "?" in code:
            continue
        yield items[s], re.fullmatch(pat, code) is not None, f"MSH {ver} section {s} holds numbers of types {pat}, written: {code[:40]}"


def ck_stl(tr, ctx):
    raws = [it for it in tr if it.kind == "raw"]
    for it in raws:
        f = flat(it.dt)
        if f is None:
            yield it, None, "undetermined type"
        elif it is raws[0]:
            yield it, f == [("uint32", "<")], f"the number of facets is a little-endian uint32, written as {f}"
        else:
            yield it, f == [("float32", "<"), ("float32", "<"), ("uint16", "<")], f"a facet is twelve little-endian float32 and a uint16, written as {f}"


def ck_neuro(tr, ctx):
    for it in tr:
        if it.kind == "raw":
            f = name1(flat(it.dt))
            t = ("float32", "<") if "points" in orig(it) else ("uint32", "<")
            yield it, None if f is None else f == t, f"{what(it)} should be {t}, written as {f}"
        elif it.kind == "pack":
            yield it, None if it.text is None else it.text == "<I", f"the number of vertices is packed as {it.text}"


def ck_flac(tr, ctx):
    for it in tr:
        if it.kind == "pack":
            t = it.text
            if t is None:
                yield it, None, "pack format undetermined"
                continue
            t = re.sub("\x01[^\x02]*\x02|\x00|[0-9]+|[ ]", "", t)
            pts = "points" in orig(it) and not any(x.startswith("cells") for x in orig(it))
            yield it, t.startswith("<") and set(t[1:]) <= set("IHsdL") and (not pts or t[1:] in ("Id", "Iddd")), f"{what(it)} packed as {it.text!r}; FLAC3D files are little-endian with 32-bit integers and doubles"
        elif it.kind == "raw":
            f = flat(it.dt)
            yield it, None if f is None else all(x in (("uint32", "<"), ("float64", "<"), ("uint8", "|"), ("uint16", "<"), ("int32", "<")) for x in f), f"{what(it)} written as {f}"


CHECK = {"vtk": ck_vtk, "vtk42": ck_vtk, "vtk51": ck_vtk, "vtu": ck_vtu, "xdmf": ck_xdmf, "xdmf:series": ck_xdmf, "ply": ck_ply, "ansys": ck_ansys, "ugrid": ck_ugrid, "medit": ck_medit, "gmsh": ck_gmsh, "gmsh22": ck_gmsh,
         "gmsh40": ck_gmsh, "stl": ck_stl, "neuroglancer": ck_neuro, "flac3d": ck_flac}
LAY = ["tri", "tet", "tri+quad"]


def wjob(job):
    name, fdts, idts = job
    I = interp()
    W = registry(I)[1]
    out = []
    real = "gmsh" if name == "gmsh40" else name
    wr = I.modattr("meshio._helpers", "write")
    if name == "gmsh40":
        wr = I.modattr("meshio.gmsh.main", "write")
    vs = variants(real, W[real])
    if name == "ugrid":
        vs = [(f, {}, f) for s in UGRID for f in (f"x.{s}.ugrid", f"r4.lb8l.{s}.ugrid")]
    if name == "vtu":
        vs = list(vs) + [(f"{lab},header_type={h}", dict(kw, header_type=Const(h)), fn) for lab, kw, fn in vs if "binary=False" not in lab and "lzma" not in lab for h in ("UInt64", "UInt32")]
    for lab, kw, fn in vs:
        b = kw.get("binary")
        if isinstance(b, Const) and b.v is False or lab == "data_format=XML" or lab == "data_format=HDF" or fn == "x.mesh":
            continue
        kw = dict(kw, fmt_version=Const("4.0")) if name == "gmsh40" else dict(kw, file_format=Const(name))
        ctx = {"name": name, "fn": fn, "binary": True, "version": {"gmsh22": "2.2", "gmsh40": "4.0", "gmsh": "4.1"}.get(name)}
        for ln in LAY:
            for fd in fdts:
                for idt in idts:
                    if "header_type" in lab and (fd, idt) != ("float64", "int64"):
                        continue
                    sp = MeshSpec(LAYOUTS[ln], points_dim=3, point_data=["pd", "pint"], cell_data=["cd", "cint"], field_data=[], float_dtype=fd, int_dtype=idt)
                    r = run_writer(I, wr, sp, kw, filename=fn)
                    key = f"{name}[{lab}] {ln} of {fd}/{idt}"
                    if r.err:
                        out.append((key, "skip", r.err, ""))
                        continue
                    if r.st is None:
                        out.append((key, "ok", "refused with an exception", ""))
                        continue
                    n = 0
                    for it, ok, msg in CHECK[name](trace(I, r), ctx):
                        n += 1
                        out.append((key, "skip" if ok is None else "ok" if ok else "bad", msg, it.where if it is not None else ""))
                    if not n:
                        out.append((key, "skip", "no binary output seen", ""))
    return out


def run(rep):
    rep.rule = ("Every binary write of every registered writer is followed with its numpy type and byte order, for input meshes of all float and integer types and byte "
                "orders, and compared with the type word, version, section key or file-name suffix the same file declares in front of it. Every binary read of every "
                "reader is followed under the assumption that the file declares a given type and byte order, and must use exactly that one.")
    R, W, _ = registry(interp())
    jobs = []
    for n in CHECK:
        if n in W or n == "gmsh40":
            jobs += [(n, FDT, IDT[i:i + 3]) for i in (0, 3, 6)]
    for (name, *_), res in pmap(wjob, jobs):
        if isinstance(res, Failed):
            rep.skip("written", f"{name}: {res.why}")
            continue
        for key, v, msg, where in res:
            if v == "ok":
                rep.ok("written", f"{key}: {msg}")
            elif v == "skip":
                rep.skip("written", f"{key}: {msg}")
            else:
                rep.bad("written", "binary-type", f"{name}:{where}", f"{key}: {msg} ({where})")
    from .p16r import READ, rjob

    for name, res in pmap(rjob, list(READ)):
        if isinstance(res, Failed):
            rep.skip("read", f"{name}: {res.why}")
            continue
        for key, v, msg, where in res:
            if v == "ok":
                rep.ok("read", f"{key}: {msg}")
            elif v == "skip":
                rep.skip("read", f"{key}: {msg}")
            else:
                rep.bad("read", "binary-type", f"{name}:{where}", f"{key}: {msg} ({where})")
    rep.floor("written", 4000)
    rep.floor("read", 200)
