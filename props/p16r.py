"""Reader half of P16: under the assumption that the file declares a type, every binary read uses it."""
from .trace import *
from msa import extcalls
from .p16 import VTK, VTU, XDMF, PLY, UGRID, MEDIT

SEC = ["METADATA", "POINTS", "CELLS", "CELL_TYPES", "COLOR_SCALARS"]


def reads(I, name, assume, focus="triangle", arg=None, script=(), kwargs=None):
    """(where, kind, [flat types or None]) of the binary reads of a scenario."""
    R = registry(I)[0]
    out = {}
    r = run_reader(I, R[name], focus, assume=assume, arg=arg, script=script, kwargs=kwargs)
    if r.err:
        return None
    for rr in (r, r.prev):
        for e in rr.ev("fromfile", "unpack", "frombuffer") if rr is not None else ():
            sep = e.data.get("sep")
            if sep is not None and not (isinstance(sep, Const) and sep.v in ("", b"")):
                continue
            w = e.node._mod.rel + ":" + func_of(e.node)
            if e.kind == "unpack":
                f = e.data["fmt"]
                ts = [f.v if isinstance(f, Const) else None]
                if isinstance(f, Unk) and isinstance(f.extra, tuple) and f.extra[:1] == ("pat",):
                    ts = ["".join(x if isinstance(x, str) else "1" for x in f.extra[1])]
            else:
                ts = [flat(field(x)) for x in e.data["dts"]]
            k = (e.node, e.kind)
            w0, old = out.get(k, (w, []))
            out[k] = (w, old + [t for t in ts if t not in old])
    return [(w, n.lineno, k, ts) for (n, k), (w, ts) in out.items()]


def field(d):
    return extcalls.field_types(d) if isinstance(d, DT) and d.name == "struct" else d


def plain(ts):
    """The single (name, order) of a read, None when undetermined."""
    if len(ts) != 1 or ts[0] is None:
        return None
    return ts[0][0] if len(set(ts[0])) == 1 else ("mixed", ts[0])


def say(x):
    return "?" if x is None else f"{x[1]}{x[0]}" if isinstance(x[1], str) else str(x)


def expect(key, ws, want, native=False):
    """Every read is of type ``want`` (name, order); yields result tuples."""
    for w, line, kind, ts in ws:
        got = plain(ts)
        ok = None if got is None else got[0] == want[0] and (got[1] == "|" or got[1] == want[1])
        yield key, "skip" if ok is None else "ok" if ok else "bad", f"declared {want[1]}{want[0]}, read as {say(got)}", w


def r_vtk(I):
    A = {"BINARY": True, "ASCII": False}
    for s in ("POINTS", "CELLS", "CELL_TYPES", "data"):
        for t in VTK:
            if s == "CELL_TYPES" and t != "double":
                continue
            a = dict(A, **{x: x == t for x in VTK}, **{x: x == s for x in SEC})
            for ver in ("4.2", "5.1"):
                if ver == "4.2" and t.startswith("vtk") or ver == "5.1" and not t.startswith("vtktype") and t not in ("float", "double", "int"):
                    continue
                fixed = s == "CELL_TYPES" or s == "CELLS" and ver == "4.2"
                ws = reads(I, "vtk", dict(a, **{"5.1": ver == "5.1"}))
                key = f"vtk {ver} section {s} of type {t}"
                if ws is None:
                    yield key, "skip", "budget", ""
                    continue
                ws = [x for x in ws if len(x[3]) == 1 or fixed]  # several: the reader does not accept the word
                yield from expect(key, ws, ("int32" if fixed else VTK[t], ">"))


def attrs(**k):
    return {("attr", n): v for n, v in k.items()}


def r_vtu0(I):
    yield from r_vtu(I, ())


def r_vtu1(I):
    yield from r_vtu(I, ("vtkZLibDataCompressor",))


def r_vtu2(I):
    yield from r_vtu(I, ("vtkLZMADataCompressor",))


def r_vtu(I, comp):
    for bo in ("LittleEndian", "BigEndian", None):
        o = ">" if bo == "BigEndian" else "<"
        for hd in ("UInt32", "UInt64", None):
            for t in VTU:
                if t == (hd or "UInt32") or t not in ("Float32", "Int8") and (hd != "UInt32" or bo is None):
                    continue
                ws = reads(I, "vtu", attrs(byte_order=(bo,) if bo else (), header_type=(hd,) if hd else (), type=("UnstructuredGrid", t), compressor=comp, format=("binary",)))
                key = f"vtu {bo} header {hd} data {t} {comp[0] if comp else 'uncompressed'}"
                hn = VTU[hd or "UInt32"]
                data = 0
                for w, line, kind, ts in ws or ():
                    got = plain(ts)
                    data += got is not None and got[0] == VTU[t]
                    ok = None if got is None else got[0] in (hn, VTU[t]) and (got[1] == "|" or got[1] == o)
                    yield key, "skip" if ok is None else "ok" if ok else "bad", f"the file holds {o}{hn} headers and {o}{VTU[t]} data, read as {say(got)}", w
                if ws and all(plain(x[3]) is not None for x in ws):
                    yield key, "ok" if data else "bad", f"{data} reads of the declared type {VTU[t]}", ws[-1][0]


def r_xdmf(I, fmt="xdmf"):
    for (dt, pr), n in XDMF.items():
        if dt in ("Char", "UChar"):
            continue
        for en, o in (("Big", ">"), ("Little", "<"), ("Native", "<"), (None, "<")):
            for kind in ("DataType", "NumberType"):
                if en in ("Little", "Native") and n not in ("int8", "float64"):
                    continue
                a = attrs(Format=("Binary",), Precision=(pr,), Endian=(en,) if en else (), Reference=(), **{"DataType": (), "NumberType": (), kind: (dt,)})
                yield from expect(f"{fmt} {kind}={dt} Precision={pr} Endian={en}", [x for x in reads(I, fmt, a) or () if x[2] == "fromfile"], (n, o))
    a = attrs(Format=("Binary",), Precision=(), Endian=(), Reference=(), DataType=(), NumberType=())
    yield from expect(f"{fmt} with the default type", [x for x in reads(I, fmt, a) or () if x[2] == "fromfile"], ("float32", "<"))


def r_series(I):
    yield from r_xdmf(I, "xdmf:series")


def r_ply(I):
    for o, line in (("<", "format binary_little_endian 1.0"), (">", "format binary_big_endian 1.0")):
        for t in PLY:
            a = {"format ascii 1.0": False, "format binary_little_endian 1.0": False, "format binary_big_endian 1.0": False, line: True}
            a.update({x: x == t for x in PLY})
            ws = [x for x in reads(I, "ply", a) or () if len(x[3]) == 1]
            yield from expect(f"ply {line.split()[1]} {t}", ws, (PLY[t], o))


def r_ansys(I):
    for k, fl, it in (("20", "float32", "int32"), ("30", "float64", "int64")):
        ws = reads(I, "ansys", {"20": k == "20", "30": k == "30"})
        key = f"ansys binary section {k}…"
        pts = 0
        for w, line, kind, ts in ws or ():
            got = plain(ts)
            pts += got == (fl, "<")
            yield key, "skip" if got is None else "ok" if got in ((fl, "<"), (it, "<"), ("u" + it, "<")) else "bad", f"holds {fl} or {it} little-endian, read as {say(got)}", w
        if ws:
            yield key, "ok" if pts else "bad", f"{pts} reads of {fl} coordinates", ws[0][0]


def r_ugrid(I):
    for s, (fl, it, o), p in [(s, t, p) for s, t in UGRID.items() for p in ("x", "r4.lb8l")]:
        ws = reads(I, "ugrid", {}, arg=Const(f"{p}.{s}.ugrid"))
        key = f"ugrid {p}.{s}.ugrid"
        pts = 0
        for w, line, kind, ts in ws or ():
            for t in ts:
                got = plain([t])
                pts += got == (fl, o)
                yield key, "skip" if got is None else "ok" if got in ((fl, o), (it, o)) else "bad", f"holds {o}{fl} and {o}{it}, read as {say(got)}", w
        if ws:
            yield key, "ok" if pts else "bad", f"{pts} reads of {fl} coordinates", ws[0][0]


def r_medit(I):
    for code, o in ((1, "<"), (16777216, ">")):
        for v, (fl, it, pos) in MEDIT.items():
            for kw, want in ((4, [fl, it]), (6, [it]), (8, [it])):
                ws = reads(I, "medit", {}, script=[code, v, 3, None, 3, kw])
                ws = [x for x in ws or () if x[2] == "fromfile"]
                key = f"medit code {code} version {v} keyword {kw}"
                # cookie, version, keyword, position, dimension, keyword, position, number, records
                seq = ["int32", "int32", "int32", pos, "int32", "int32", pos, it]
                for i, (w, line, kind, ts) in enumerate(ws[:9]):
                    t = ts[0] if len(ts) == 1 else None
                    if t is None:
                        yield key, "skip", f"read {i}: undetermined type", w
                        continue
                    names, orders = [x[0] for x in t], {x[1] for x in t} - {"|"}
                    if i == 0:
                        ok = names == ["int32"] and orders == {"<"}
                    elif i < 8:
                        ok = names == [seq[i]] and orders == {o}
                    else:
                        ok = names in (want, [want[0]] * len(names) if len(want) == 1 else want) and orders == {o}
                    yield key, "ok" if ok else "bad", f"read {i}: expected {o}{seq[i] if i < 8 else want}, read as {t}", w


# types of the numbers of a section, in file order
GMSH = {"2.2": {"Nodes": "(id)+", "Elements": "i+", "NodeData": "(id)+", "ElementData": "(id)+"},
        "4.0": {"Entities": "Q(idQi(Qi)?)+", "Nodes": "Q(iQ(id)+)+", "Elements": "Q(iQi+)+", "Periodic": "Q?(i+(Q|q)?(dQ)?i+)+", "NodeData": "(id)+", "ElementData": "(id)+"},
        "4.1": {"Entities": "Q(idQi(Qi)?)+", "Nodes": "Q(iQQd)+", "Elements": "Q(iQQ)+", "Periodic": "Q(iQdQQ)+", "NodeData": "(id)+", "ElementData": "(id)+"}}


def r_gmsh(I):
    for v, secs in GMSH.items():
        base = {x: x == v for x in ("2", "4", "4.0", "4.1", "2.2")}
        base.update({"0": False, "1": True, "hole": "8"})
        ws = reads(I, "gmsh", base)
        if not ws:
            yield f"gmsh {v}", "skip", "no binary reads", ""
            continue
        for w, line, kind, ts in ws:
            if kind == "unpack":
                ok = ts[0] in ("i", "=i", "<i") if ts[0] is not None else None
                yield f"gmsh {v} byte order mark", "skip" if ok is None else "ok" if ok else "bad", f"an int32, read as {ts[0]}", w
                continue
            for t in ts:
                if t is None:
                    yield f"gmsh {v}", "skip", "undetermined type", w
                    continue
                big = any(x[1] == ">" for x in t)
                yield f"gmsh {v}", "bad" if big else "ok", f"native byte order, read as {t}", w
        for sec, pat in secs.items():
            # the elements are read with the nodes known
            on = {sec, "Nodes"} if sec == "Elements" else {sec}
            got = sequence(I, "gmsh", dict(base, **{s: False for s in ("PhysicalNames", "Entities", "Nodes", "Elements", "Periodic", "NodeData", "ElementData") if s not in on}))
            if not got or any(c is None for c, _ in got):
                yield f"gmsh {v} {sec}", "skip", "reads of the section not determined", ""
                continue
            code = "".join(c for c, _ in got)
            alt = [pat] if len(on) == 1 else [pat, secs["Nodes"], pat + secs["Nodes"], secs["Nodes"] + pat]
            yield f"gmsh {v} {sec}", "ok" if any(re.fullmatch(x, code) for x in alt) else "bad", f"the section holds numbers of types {pat}, read: {code}", got[-1][1]


def call_path(I, ctx):
    """Call sites through which a context is reached, whatever the iteration of the loops around them."""
    out = []
    while isinstance(ctx, int):
        key = I._ctxkeys[ctx]
        if key[0] != "call":
            break
        out.append(key[3])
        ctx = key[1]
    return tuple(out)


def sequence(I, name, assume):
    """[(types, where)] of the binary reads of one scenario in order of execution."""
    r = run_reader(I, registry(I)[0][name], "triangle", assume=assume)
    if r.err:
        return None
    out, seen = [], set()
    for e in r.ev("fromfile", "frombuffer"):
        sep = e.data.get("sep")
        if sep is not None and not (isinstance(sep, Const) and sep.v in ("", b"")):
            continue
        ts = [flat(field(x)) for x in e.data["dts"]]
        code = None if len(ts) != 1 or ts[0] is None else "".join(CODE[x[0]] for x in ts[0])
        k = (e.node, call_path(I, e.ctx), code)
        if k not in seen:
            seen.add(k)
            out.append((code, e.node._mod.rel + ":" + func_of(e.node)))
    return out


def r_stl(I):
    ws = reads(I, "stl", {})
    for w, line, kind, ts in ws or ():
        t = ts[0] if len(ts) == 1 else None
        ok = None if t is None else t in ([("uint32", "<")], [("float32", "<"), ("float32", "<"), ("int16", "<")], [("float32", "<"), ("float32", "<"), ("uint16", "<")])
        yield "stl", "skip" if ok is None else "ok" if ok else "bad", f"a little-endian uint32 and facets of twelve float32 and a 16-bit number, read as {t}", w


def r_neuro(I):
    ws = reads(I, "neuroglancer", {})
    fl = 0
    for w, line, kind, ts in ws or ():
        if kind == "unpack":
            ok = None if ts[0] is None else ts[0] == "<I"
            yield "neuroglancer", "skip" if ok is None else "ok" if ok else "bad", f"the number of vertices is a little-endian uint32, read as {ts[0]}", w
            continue
        got = plain(ts)
        fl += got == ("float32", "<")
        yield "neuroglancer", "skip" if got is None else "ok" if got in (("float32", "<"), ("uint32", "<")) else "bad", f"little-endian float32 and uint32, read as {say(got)}", w
    if ws:
        yield "neuroglancer", "ok" if fl else "bad", "reads of float32 coordinates", ws[0][0]


def r_flac(I):
    ws = reads(I, "flac3d", {})
    pts = 0
    for w, line, kind, ts in ws or ():
        for t in ts:
            if kind != "unpack" or t is None:
                yield "flac3d", "skip", "undetermined format", w
                continue
            pts += t in ("<I3d", "<Iddd", "<3d")
            c = re.sub(r"[0-9 ]", "", t)
            yield "flac3d", "ok" if c[:1] == "<" and set(c[1:]) <= set("IHsdL") else "bad", f"little-endian 32-bit integers, strings and doubles, read as {t!r}", w
    if ws:
        yield "flac3d", "ok" if pts else "bad", "reads of point records (an id and three doubles)", ws[0][0]


READ = {"vtk": r_vtk, "vtu": r_vtu0, "vtu zlib": r_vtu1, "vtu lzma": r_vtu2, "xdmf": r_xdmf, "xdmf:series": r_series, "ply": r_ply, "ansys": r_ansys, "ugrid": r_ugrid, "medit": r_medit, "gmsh": r_gmsh, "stl": r_stl, "neuroglancer": r_neuro,
        "flac3d": r_flac}


def rjob(name):
    return list(READ[name](interp()))
