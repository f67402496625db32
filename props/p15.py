"""Counts, sizes and positions declared in a file equal what the file holds."""
from msa import dims

from .trace import *

ASSUMPTIONS = ["numpy/h5py/netCDF4/lxml calls behave as modelled in msa/ext.py and msa/extcalls.py", "points and every cell block of the mesh are non-empty"]
NUM = "(\x01[^\x02]*\x02|\x00|-?[0-9]+)"
S, V, ALL = ("tri", "tet"), ("tri", "tet", "tri+quad", "vol"), ("tri", "tet", "tri+quad", "vol", "quad+tri+quad")
# format: (layouts, [(text with # for each declared number, what each number is)]); b = the i-th occurrence belongs to the i-th block
VTK_DATA = [(r"FIELD FieldData #\n", ["arrays"]), (r"POINT_DATA #\n", ["np"]), (r"CELL_DATA #\n", ["nc"]), (r"\bpd # # double", [1, "np"]), (r"\bpint # # \w+", [1, "np"]), (r"\bpv # # double", [3, "np"]),
            (r"\bcd # # double", [1, "nc"]), (r"\bcint # # \w+", [1, "nc"]), (r"\bcv # # double", [3, "nc"])]
GMSH_DATA = [(r'\$NodeData\n1\n"pd"\n1\n[0-9.]+\n3\n0\n#\n#\n', [1, "np"]), (r'\$NodeData\n1\n"pv"\n1\n[0-9.]+\n3\n0\n#\n#\n', [3, "np"]),
             (r'\$ElementData\n1\n"cd"\n1\n[0-9.]+\n3\n0\n#\n#\n', [1, "nc"]), (r'\$ElementData\n1\n"cv"\n1\n[0-9.]+\n3\n0\n#\n#\n', [3, "nc"])]
RULES = {
    "vtk42": (ALL, [(r"POINTS # \w+", ["np"]), (r"CELLS # #\n", ["nc", "nn+nc"]), (r"CELL_TYPES #\n", ["nc"])] + VTK_DATA),
    "vtk51": (ALL, [(r"POINTS # \w+", ["np"]), (r"CELLS # #\n", ["nc+1", "nn"]), (r"CELL_TYPES #\n", ["nc"])] + VTK_DATA),
    "vtk": (ALL, [(r"POINTS # \w+", ["np"]), (r"CELLS # #\n", ["nc+1", "nn"]), (r"CELL_TYPES #\n", ["nc"])] + VTK_DATA),
    "vtu": (ALL, [(r'NumberOfPoints="#"', ["np"]), (r'NumberOfCells="#"', ["nc"]), (r'Name="Points"[^>]*NumberOfComponents="#"', [3]), (r'Name="pv"[^>]*NumberOfComponents="#"', [3]),
                  (r'Name="cv"[^>]*NumberOfComponents="#"', [3])]),
    "ply": (("tri", "tri+quad"), [(r"element vertex #\n", ["np"]), (r"element face #\n", ["nc"])]),
    "off": (("tri",), [(r"OFF\n(?:#.*\n)*(?:\n)*# # [0-9]+\n", ["np", "nc"])]),
    "medit": (V, [(r"Vertices\n#\n", ["np"]), (r"(?:Edges|Triangles|Quadrilaterals|Tetrahedra|Prisms|Pyramids|Hexahedra)\n#\n", ["b"])]),
    "gmsh22": (ALL, [(r"\$Nodes\n#\n", ["np"]), (r"\$Elements\n#\n", ["nc"])] + GMSH_DATA),
    "gmsh": (ALL, GMSH_DATA), "gmsh40": (ALL, GMSH_DATA),
    "avsucd": (ALL, [(r"(?:^|\n)# # # # #\n", ["np", "nc", "pcomp", "ccomp-1", 0])]),
    "su2": (("tet", "vol"), [(r"NDIME= #\n", ["dim"]), (r"NPOIN= #\n", ["np"]), (r"NELEM= #\n", ["nc"]), (r"NMARK= #\n", ["marks"]), (r"MARKER_ELEMS= #\n", ["outside"])]),
    "tecplot": (("tri", "tet", "tri+quad"), [(r"NODES = #, ELEMENTS = #,", ["np", "nc"])]),
    "tetgen": (("tet",), [(r"# 3 # #\n", ["np", "?", "?"]), (r"# 4 #\n", ["nc", "?"])]),
    "netgen": (V, [(r"\npoints\n#\n", ["np"]), (r"\nedgesegments\w*\n#\n", ["d1"]), (r"\nsurfaceelements\w*\n#\n", ["d2"]),
               (r"\nvolumeelements\w*\n#\n", ["d3"]), (r"\npointelements\w*\n#\n", ["d0"])]),
    "ansys": (V, [(r"\(10 \(0 1 # 0\)\)", ["np"]), (r"\(12 \(0 1 # 0\)\)", ["nc"]), (r"\((?:30|20)?10 \(1 # # ", [1, "np"]), (r"\((?:30|20)?12 \(1 # # ", ["from", "span"])]),
    "dolfin-xml": (S, [(r'<vertices size="#"', ["np"]), (r'<cells size="#"', ["nc"])]),
    "exodus": (ALL, []), "med": (V, []), "cgns": (("tet",), []), "h5m": (("tri", "tet", "vol"), []), "xdmf": (ALL, []), "xdmf:series": (ALL, []), "ugrid": (("tet", "vol"), []), "flac3d": (("tet", "vol", "tri", "tri+tet"), []), "stl": (("tri",), []), "neuroglancer": (("tri",), []),
}
NODES = {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8, "wedge": 6, "triangle6": 6, "tetra10": 10, "hexahedron20": 20, "line3": 3}
DIMENSION = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "tetra": 3, "hexahedron": 3, "wedge": 3, "triangle6": 2, "tetra10": 3, "hexahedron20": 3, "line3": 1}
# layouts in which many formats skip some blocks: the counts are those of the stored blocks
MIX = {"line, triangle, tetra": ["line", "triangle", "tetra"], "triangle, tetra, triangle": ["triangle", "tetra", "triangle"], "tetra, triangle, tetra": ["tetra", "triangle", "tetra"],
       "vertex, quad, hexahedron, quad": ["vertex", "quad", "hexahedron", "quad"], "tetra, line, wedge, tetra": ["tetra", "line", "wedge", "tetra"],
       "tetra10, tetra, hexahedron20": ["tetra10", "tetra", "hexahedron20"], "triangle6, triangle, line3, quad": ["triangle6", "triangle", "line3", "quad"]}
# formats in which meshes of the plane are stored differently
PLANE = {"su2": ["triangle, line, quad", "triangle6, triangle, line3, quad"], "gmsh22": [], "netgen": ["triangle, line, quad"], "ansys": ["triangle, line, quad"], "medit": ["triangle, line, quad"], "dolfin-xml": ["triangle, line, quad"]}
MIX["triangle, line, quad"] = ["triangle", "line", "quad"]


def total(xs):
    r = 0
    for x in xs:
        r = dims.add(r, x)
    return r


class Ctx:
    def __init__(self, types, stored, sizes):
        self.types = [types[i] for i in stored]
        self.b = [f"nc{i}" for i in stored]
        self.k = [NODES[t] for t in self.types]
        self.np = "np"
        self.nc = total(self.b)
        self.nn = total(dims.mul(k, b) for k, b in zip(self.k, self.b))
        self.pcomp, self.ccomp = sizes
        self.tags = False
        self.outside = None  # boundary blocks, when all have one label

    def value(self, e, i):
        if isinstance(e, int):
            return e
        if e in ("np", "nc", "nn"):
            return getattr(self, e)
        if e in ("marks", "outside"):
            return None if self.outside is None else total(self.outside) if e == "outside" else min(len(self.outside), 1)
        if e == "nn+nc":
            return dims.add(self.nn, self.nc)
        if e == "nc+1":
            return dims.add(self.nc, 1)
        if e == "b":
            return self.b[i] if i < len(self.b) else None
        if e == "blocks":
            return len(self.b)
        if e in ("d0", "d1", "d2", "d3"):
            return total(b for b, t in zip(self.b, self.types) if DIMENSION[t] == int(e[1]))
        if e == "dim":
            return self.dim
        if e == "arrays":
            return self.arrays
        if e == "pcomp":
            return self.pcomp
        if e == "ccomp":
            return self.ccomp
        return None


def num(t):
    """Size denoted by a piece of text; None when unknown."""
    if t.startswith("\x01"):
        d = t[1:-1]
        d = d[2:] if d.startswith("x:") else d
        if d.startswith("run:"):
            return None
        return int(d) if re.fullmatch(r"-?\d+", d) else d
    return int(t) if re.fullmatch(r"-?\d+", t) else None


def blob(tr):
    """All text of the trace; binary data shows as \\3, unknown text as \\0."""
    out, at = [], []
    for it in tr:
        if it.kind == "text":
            at.append((len(out), it))
            out.append(it.text if it.text is not None else "\0")
        elif it.kind in ("raw", "pack", "savetxt"):
            out.append("\3")
    return "".join(out)


def same(a, b):
    d = dims.add(a, b, -1)
    return None if d is None else d == 0


def text_rules(name, tr, cx):
    text = blob(tr)
    where = next((it.where for it in tr if it.kind == "text"), "")
    for pat, exp in RULES[name][1]:
        rx = re.compile(pat.replace("#.*", "\x05").replace("#", NUM).replace("\x05", "#.*"))
        base = None
        for i, m in enumerate(rx.finditer(text)):
            label = re.sub(r"\\[bn]|[\\^$]|\(\?:", "", pat)[:40]
            start = None
            for g, e in zip(m.groups(), exp):
                if g.startswith("\1") and not g.startswith("\1run:") and g.startswith("\1x:") != (name == "ansys"):
                    yield where_of(tr, pat, where), False, f"`{label}` states {num(g)} in {'decimal' if name == 'ansys' else 'hexadecimal'} digits"
                    continue
                if e == "from":
                    start = num(g)
                    base = start if i == 0 else base
                    if i and i < len(cx.b) and start is not None and base is not None:
                        want = dims.add(base, total(cx.b[:i]))
                        yield where_of(tr, pat, where), same(start, want), f"`{label}` starts at {start}, the blocks before it end at {want}"
                    continue
                if e == "span":
                    # numbers of the first and of the last cell of a block
                    n = dims.add(num(g), dims.add(start, -1), -1) if start is not None and num(g) is not None else None
                    if i < len(cx.b):
                        yield where_of(tr, pat, where), None if n is None else same(n, cx.b[i]), f"`{label}` spans {n}, the mesh has {cx.b[i]}"
                    continue
                if e == "?" or e == "ccomp-1":
                    continue
                want, got = cx.value(e, i), num(g)
                if want is None:
                    continue
                ok = None if got is None else same(got, want)
                yield where_of(tr, pat, where), ok, f"`{label}` states {got}, the mesh has {want}"


def where_of(tr, pat, default):
    word = re.search(r"[A-Za-z_]{3,}", pat)
    for it in tr:
        if it.kind == "text" and it.text and word and word.group() in it.text:
            return it.where
    return default


def dim_text(v):
    """Numbers of a text such as a Dimensions attribute, or None."""
    if isinstance(v, Unk) and isinstance(v.sym, tuple) and v.sym[:1] == ("dim",):
        return [v.sym[1]]
    t = holes(v)
    return None if t is None else [num(x) for x in t.split()]


def ck_xdmf(name, tr, cx):
    """Dimensions of every DataItem, in order: points, topology, data; with the arrays written where they are in binary files."""
    center, after = None, None
    for it in tr:
        if it.kind != "xml":
            if it.kind == "raw" and after is not None and it.shape is not None and None not in it.shape:
                want = dims.product(it.shape)
                got = dims.product(after) if None not in after else None
                yield it.where, None if got is None or want is None else same(got, want), f"the item declares {after}, the file holds {it.shape}"
                after = None
            continue
        tag = next((a.v for a in it.val or [] if isinstance(a, Const) and isinstance(a.v, str)), None)
        k = it.kw or {}
        if tag == "Topology":
            center = ["topology"]
            got = dim_text(k.get("NumberOfElements"))
            yield it.where, None if not got or got[0] is None else same(got[0], cx.nc), f"NumberOfElements is {got}, the mesh has {cx.nc}"
        elif tag == "Geometry":
            center = ["np", 3]
        elif tag == "Attribute":
            c = k.get("Center")
            nm = k.get("Name")
            comp = [3] if isinstance(nm, Const) and nm.v in ("pv", "cv") else []
            center = (["np"] if isinstance(c, Const) and c.v == "Node" else ["nc"]) + comp
        elif tag == "DataItem" and center is not None:
            got = dim_text(k.get("Dimensions"))
            if center == ["topology"]:
                # in mixed topologies each cell is preceded by its type, and vertices and lines by their number of nodes as well
                more = total(b for b, t in zip(cx.b, cx.types) if t in ("vertex", "line"))
                want = [cx.b[0], cx.k[0]] if len(cx.b) == 1 else [dims.add(dims.add(cx.nn, cx.nc), more)]
            else:
                want = [cx.value(x, 0) for x in center]
            ok = None if got is None or None in got else len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
            yield it.where, ok, f"Dimensions are {got}, the data has {want}"
            after = got


def atoms(s, out):
    if isinstance(s, tuple) and s and s[0] in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "USub", "int"):
        for x in s[1:]:
            atoms(x, out)
    elif not (isinstance(s, tuple) and s[:1] == ("c",)):
        out.add(s)
    return out


def value_at(s, n):
    """Value of a symbolic number whose single unknown is n."""
    if not isinstance(s, tuple) or s[0] not in ("c", "Add", "Sub", "Mult", "FloorDiv", "Mod", "USub", "int"):
        return n
    if s[0] == "c":
        return s[1]
    v = [value_at(x, n) for x in s[1:]]
    return {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "USub": lambda a: -a, "int": int}[s[0]](*v)


def ck_vtu(name, tr, cx):
    """Header of compressed arrays: number of blocks, size of a block, size of the last one (or 0 when it is a whole block), compressed sizes."""
    for it in tr:
        e = it.val.extra if it.kind == "raw" and isinstance(it.val, Unk) else None
        if not (isinstance(e, tuple) and e[:1] == ("lead",)) or len(e[1]) != 3:
            continue
        n, m, last = e[1]
        tail = e[2]
        if isinstance(tail, Const) and type(tail.v) is int:
            yield it.where, False, f"the compressed sizes are stated as {tail.v} for every block"
        if not (isinstance(m, Const) and type(m.v) is int and m.v > 0):
            if isinstance(n, Const) or isinstance(last, Const):
                yield it.where, False, "the second entry of the header of compressed data is not the size of a block"
            continue
        M = m.v
        for what, v, want in (("number of blocks", n, lambda b: (-(-b // M),)), ("size of the last block", last, lambda b: (b - (-(-b // M) - 1) * M, b % M))):
            s = ("c", v.v) if isinstance(v, Const) else v.sym if isinstance(v, Unk) else None
            at = atoms(s, set())
            if s is None or len(at) > 1 or any(x is None for x in at) or not all(isinstance(x, tuple) and x[:1] in (("len",), ("dim",), (".",)) for x in at):
                yield it.where, None, f"{what}: not followed"
                continue
            try:
                bad = [b for b in (1, 8, M - 1, M, M + 1, M + 8, 2 * M - 8, 2 * M, 2 * M + 8, 5 * M + 24) if value_at(s, b) not in want(b)]
            except (TypeError, ZeroDivisionError):
                yield it.where, None, f"{what}: not followed"
                continue
            yield it.where, not bad, f"{what} in the header of compressed data" + (f" is {value_at(s, bad[0])} for {bad[0]} bytes in blocks of {M}" if bad else "")


def ints(it):
    v = it.val
    if isinstance(v, HList) and v.items is not None and 0 < len(v.items) <= 8 and all(isinstance(x, Const) and type(x.v) is int for x in v.items):
        return [x.v for x in v.items]
    return list(v.extra[1]) if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("vals",) else None


def nbytes(it):
    d = it.dt
    if d is None or it.shape is None or None in it.shape or d.name not in ext.ITEMSIZE:
        return None
    return dims.mul(dims.product(it.shape), ext.ITEMSIZE[d.name])


def ck_ugrid(name, tr, cx, fn=""):
    order = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    want = ["np"] + [total(b for b, t in zip(cx.b, cx.types) if t == o) for o in order]
    raws = [it for it in tr if it.kind == "raw"]
    heads = [i for i, it in enumerate(raws) if ints(it) is not None and len(ints(it)) == 7]
    for i in heads:
        got = ints(raws[i])
        yield raws[i].where, None if None in got else all(same(g, w) for g, w in zip(got, want)), f"the header states {got}, the mesh has {want}"
    if ".r" in fn or ".lr" in fn:
        # records: length, items, length
        i = 0
        while i < len(raws):
            n = size1(raws[i])
            j, tot = i + 1, 0
            while j < len(raws) and not is_marker(raws[j]):
                b = nbytes(raws[j])
                tot = None if tot is None or b is None else dims.add(tot, b)
                j += 1
            if j < len(raws):
                e = size1(raws[j])
                for x, w in ((n, "first"), (e, "last")):
                    yield raws[i].where, None if x is None or tot is None else same(x, tot), f"the {w} length of the record is {x}, the record holds {tot} bytes"
            i = j + 1


def is_marker(it):
    return not it.recs and (it.shape == (1,) or size1(it) is not None)


def size1(it):
    v = ints(it)
    if v is not None:
        return v[0] if len(v) == 1 else None
    o = it.val
    if isinstance(o, HList) and o.items and len(o.items) == 1:
        return ext.dim_of_value(o.items[0])
    return None


def ck_medit(name, tr, cx):
    raws = [it for it in tr if it.kind == "raw"]
    pos, ver = 0, None
    want = ["np"] + cx.b
    n = 0
    for it in raws:
        fv = [(a, ext.dim_of_value(Const(b.v) if isinstance(b, Const) else b)) for a, b in it.fields or ()]
        f = flat(it.dt)
        if f is None:
            return
        item = sum(ext.ITEMSIZE[x[0]] for x in f)
        if ver is None:
            ver = dict(fv).get("f1")
            if not isinstance(ver, int):
                return
            pos = item
            at = dict(fv).get("f3")
            yield it.where, None if at is None else same(at, pos), f"the first keyword is said to end at byte {at}, it ends at {pos}"
            continue
        if [x[0] for x in f][:1] == ["int32"] and len(f) == 3 and not any(o.startswith("points") or o.endswith("data") for o in {x.origin for x in it.recs}):
            # keyword, position of the next keyword, number of items
            if n < len(want):
                cnt, nxt = fv[2][1], fv[1][1]
                isz, fsz = ext.ITEMSIZE[f[2][0]], 4 if ver == 1 else 8
                rec = cx.dim * fsz + isz if n == 0 else (cx.k[n - 1] + 1) * isz
                yield it.where, None if cnt is None else same(cnt, want[n]), f"keyword {n} states {cnt} items, the mesh has {want[n]}"
                end = dims.add(dims.add(pos, item), dims.mul(rec, want[n]))
                yield it.where, None if nxt is None else same(nxt, end), f"keyword {n} is said to end at byte {nxt}, it ends at {end}"
                pos = end
            n += 1


def ck_tecplot(name, tr, cx):
    """The variables said to belong to cells are those of the cell data."""
    text = blob(tr)
    v = re.search(r"VARIABLES\s*=\s*(.*)\n", text)
    if v is None or "\0" in v.group(1) or "\1" in v.group(1):
        return
    names = re.findall(r'"([^"]*)"', v.group(1))
    want = [i + 1 for i, n in enumerate(names) if re.match(r"(cd|cint|cv)", n)]
    m = re.search(r"VARLOCATION\s*=\s*\(\[([^\]]*)\]\s*=\s*CELLCENTERED", text)
    where = where_of(tr, "VARIABLES", next((it.where for it in tr if it.kind == "text"), ""))
    if m is None:
        yield where, None if "VARLOCATION" in text else not want, f"no variable is said to belong to cells, the file has {want}"
        return
    got = []
    for part in m.group(1).split(","):
        ab = part.strip().split("-")
        if not all(re.fullmatch(r"\d+", x.strip()) for x in ab) or len(ab) > 2:
            yield where, None, "VARLOCATION"
            return
        got += range(int(ab[0]), int(ab[-1]) + 1)
    yield where, sorted(got) == want, f"variables {m.group(1)} are said to belong to cells, the file has {want}"


def ck_gmsh22b(name, tr, cx):
    i = 0
    for it in tr:
        v = ints(it) if it.kind == "raw" else None
        if v is not None and len(v) == 3 and i < len(cx.b):
            yield it.where, None if v[1] is None else same(v[1], cx.b[i]), f"block {i} states {v[1]} elements, the mesh has {cx.b[i]}"
            i += 1


def ck_gmsh4(name, tr, cx):
    """Head and block headers of the Nodes and Elements sections."""
    sect, heads = None, {"Nodes": [], "Elements": []}
    for it in tr:
        if it.kind == "text" and it.text:
            for line in it.text.split("\n"):
                m = re.fullmatch(r"\$(End)?(\w+)", line)
                if m:
                    sect = None if m.group(1) or m.group(2) not in heads else m.group(2)
                elif sect and line.strip():
                    v = [num(x) for x in line.split()]
                    if v[-1] is not None:
                        heads[sect].append((it, v))
        elif it.kind == "raw" and sect and ints(it) and it.dt and it.dt.name in ("uint64", "int64"):
            heads[sect].append((it, ints(it)))
    for sect, (nb, tot, per) in {"Nodes": (1, "np", ["np"]), "Elements": (len(cx.b), cx.nc, cx.b)}.items():
        h = heads[sect]
        if not h:
            continue
        it, got = h[0]
        want = [nb, tot] if name == "gmsh40" else [nb, tot, 1, tot]
        if len(got) == len(want):
            for a, b in zip(got, want):
                if not (sect == "Nodes" and cx.tags and b == nb):
                    yield it.where, None if a is None else same(a, b), f"the {sect} section states {got}, the mesh has {want}"
        if sect == "Nodes" and cx.tags:
            continue
        rest = [(it, v) for it, v in h[1:] if name != "gmsh40" or it.kind == "raw" or len(v) == 4]
        for (it, got), b in zip(rest, per):
            yield it.where, same(got[-1], b), f"a block of the {sect} section states {got[-1]} items, the mesh has {b}"


def ck_flac(name, tr, cx):
    packs = [it for it in tr if it.kind == "pack"]
    counts = [(it, ext.dim_of_value(it.val[0])) for it in packs if it.text in ("<I", "<L") and it.val]
    dim = lambda d: total(b for b, t in zip(cx.b, cx.types) if DIMENSION[t] == d)
    want = ["np", dim(3), 0, dim(2), 0]  # points, zones, zone groups, faces, face groups
    for (it, got), want in zip(counts, want if len(counts) == len(want) else ()):
        yield it.where, None if got is None else same(got, want), f"the file states {got} items, the mesh has {want}"


def ck_neuro(name, tr, cx):
    for it in tr:
        if it.kind == "pack" and it.val:
            got = ext.dim_of_value(it.val[0])
            yield it.where, None if got is None else same(got, "np"), f"the file states {got} vertices, the mesh has np"


def ck_stl(name, tr, cx):
    raws = [it for it in tr if it.kind == "raw"]
    if raws:
        v = raws[0].val
        got = ext.dim_of_value(v) if v is not None else None
        if got is None and ints(raws[0]):
            got = ints(raws[0])[0]
        yield raws[0].where, None if got is None else same(got, cx.nc), f"the file states {got} facets, the mesh has {cx.nc}"


def stores(r, hows):
    """(event, name, other arguments) of every named entry of an HDF5/netCDF file."""
    for e in r.events:
        if e.kind == "sink" and e.data["how"] in hows:
            v = e.data["vals"]
            if v and isinstance(v[0], Const) and isinstance(v[0].v, str):
                yield e, v[0].v, v[1:]


def place(e):
    return e.node._mod.rel + ":" + func_of(e.node)


def size(v):
    return ext.dim_of_value(Const(v.v) if isinstance(v, Const) else v)


def ck_exodus(name, r, cx):
    fixed = {"num_nodes": "np", "num_dim": 3, "num_elem": cx.nc, "num_el_blk": len(cx.b)}
    for e, n, a in stores(r, ("createDimension",)):
        m = re.fullmatch(r"(num_el_in_blk|num_nod_per_el|num_nod_var|dim_nod_var)(\d*)", n)
        want = fixed.get(n)
        if m and m.group(1) == "num_nod_var":
            want = cx.arrays
        elif m and m.group(1) == "dim_nod_var":
            want = "np" if m.group(2)[-1:] == "0" else None
        elif m and m.group(2) and int(m.group(2)) <= len(cx.b):
            want = (cx.b if m.group(1) == "num_el_in_blk" else cx.k)[int(m.group(2)) - 1]
        if want is not None and a:
            got = size(a[0])
            yield place(e), None if got is None else same(got, want), f"dimension {n} is {got}, the mesh has {want}"


def ck_med(name, r, cx):
    """The number of entities (NBR) with each array, and NCO*NBR*NGA values per field."""
    owner, k, f = None, 0, {}
    for e, n, a in stores(r, ("create_group", "create_dataset", "create")):
        how = e.data["how"]
        if how == "create_group":
            owner = None
        elif how == "create_dataset" and n == "FAM":
            # family numbers of the points, or of the cells stored last
            owner, want = n, "np" if not k else cx.b[k - 1] if k <= len(cx.b) else None
        elif how == "create_dataset" and n in ("COO", "NOD", "CO"):
            owner = n
            sh = getattr(a[0], "shape", None) if a else None
            total_ = dims.product(sh) if sh is not None and None not in sh else None
            if n == "CO":
                want = None if None in (f.get("NCO"), f.get("NBR"), f.get("NGA")) else dims.mul(dims.mul(f["NCO"], f["NBR"]), f["NGA"])
                yield place(e), None if want is None or total_ is None else same(total_, want), f"the field is said to have {want} values, the file holds {total_}"
            want = "np" if n == "COO" else cx.b[k] if n == "NOD" and k < len(cx.b) else None
            k += n == "NOD"
        elif how == "create" and n in ("NBR", "NGA", "NCO") and a:
            f[n] = size(a[0])
            if n == "NBR" and owner in ("COO", "NOD", "FAM") and want is not None:
                yield place(e), None if f[n] is None else same(f[n], want), f"NBR of {owner} is {f[n]}, the mesh has {want}"


def ck_cgns(name, r, cx):
    """The only dataset of two integers is the range of element numbers."""
    for e, n, a in stores(r, ("create_dataset",)):
        v = a[0] if a else None
        o = cx.I.get_obj(r.st, v.addr) if isinstance(v, Ref) else None
        it = o.items if isinstance(o, HList) else None
        got = [size(x) for x in it] if it is not None else list(v.extra[1]) if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("vals",) else None
        if got and len(got) == 2:
            yield place(e), None if None in got else same(got[0], 1) and same(got[1], cx.nc), f"ElementRange is {got}, the mesh has elements 1 to {cx.nc}"


def ck_h5m(name, r, cx):
    owner, k = None, 0
    for e, n, a in stores(r, ("create_dataset", "create")):
        if e.data["how"] == "create_dataset":
            owner = n
        elif n == "start_id" and a:
            want = 1 if owner == "coordinates" else dims.add(dims.add("np", 1), total(cx.b[:k])) if owner == "connectivity" else None
            k += owner == "connectivity"
            if want is not None:
                yield place(e), None if size(a[0]) is None else same(size(a[0]), want), f"ids of {owner} are said to start at {size(a[0])}, they start at {want}"


STORED = {"exodus": ck_exodus, "med": ck_med, "cgns": ck_cgns, "h5m": ck_h5m}
EXTRA = {"vtu": ck_vtu, "xdmf": ck_xdmf, "xdmf:series": ck_xdmf, "ugrid": ck_ugrid, "medit": ck_medit, "gmsh22": ck_gmsh22b, "gmsh": ck_gmsh4, "gmsh40": ck_gmsh4, "flac3d": ck_flac, "neuroglancer": ck_neuro, "stl": ck_stl, "tecplot": ck_tecplot}
SPECS = {"plain": dict(), "data": dict(point_data=["pd", "pint", "pv"], cell_data=["cd", "cint", "cv"], data_shapes={"pv": (3,), "cv": (3,)}),
         "scalars": dict(point_data=["pd", "pint"], cell_data=["cd", "cint"]), "float32": dict(point_data=["pd"], cell_data=["cd"], float_dtype="float32", int_dtype="int32")}
SU2_INSIDE = {3: {"tetra", "hexahedron", "wedge", "pyramid"}, 2: {"triangle", "quad"}}
ENTITIES = dict(point_data=["gmsh:dim_tags"], cell_data=["gmsh:geometrical", "gmsh:physical"], data_shapes={"gmsh:dim_tags": (2,)})
FAMILIES = dict(point_data=["point_tags"], cell_data=["cell_tags"])
COMP = {"entities": (0, 0), "tags": (1, 1), "plain": (0, 0), "data": (5, 5), "scalars": (2, 2), "float32": (1, 1)}


def wjob(name):
    I = interp()
    W = registry(I)[1]
    out = []
    real = "gmsh" if name == "gmsh40" else name
    wr = I.modattr("meshio._helpers", "write") if name != "gmsh40" else I.modattr("meshio.gmsh.main", "write")
    for lab, kw, fn in variants(real, W[real]):
        kw = dict(kw, fmt_version=Const("4.0")) if name == "gmsh40" else dict(kw, file_format=Const(name))
        for ln, dim in [(ln, 3) for ln in RULES[name][0] + tuple(MIX)] + [(ln, 2) for ln in PLANE.get(name, [])]:
            types = MIX[ln] if ln in MIX else [t for t, _ in LAYOUTS[ln]]
            for sl, sp in list(SPECS.items()) + ([("entities", ENTITIES)] if real == "gmsh" else [("tags", FAMILIES)] if name == "med" else []):
                r = run_writer(I, wr, MeshSpec([(t, None) for t in types], points_dim=dim, **sp), kw, filename=fn)
                key = f"{name}[{lab}] {ln} {sl} {dim}d"
                if r.err:
                    if ln not in MIX:
                        out.append((key, "skip", r.err, ""))
                    continue
                if r.st is None:
                    continue
                fl = flows(r, ("cells[",))
                stored = [i for i, t in enumerate(types) if f"cells[{i}].data" in fl and (name != "su2" or t in SU2_INSIDE[dim])]
                tr, cx = trace(I, r), Ctx(types, stored, COMP[sl])
                cx.dim, cx.tags, cx.arrays, cx.I = dim, sl == "entities", len(sp.get("point_data", [])), I
                if name == "su2" and "cint" not in sp.get("cell_data", []):
                    cx.outside = [f"nc{i}" for i, t in enumerate(types) if t in ({"line"} if dim == 2 else {"triangle", "quad"})]
                res = list(text_rules(name, tr, cx))
                if name in EXTRA:
                    res += list(EXTRA[name](name, tr, cx, fn or "") if name == "ugrid" else EXTRA[name](name, tr, cx))
                if name in STORED:
                    res += list(STORED[name](name, r, cx))
                for where, ok, msg in res:
                    out.append((key, "skip" if ok is None else "ok" if ok else "bad", msg, where))
    return out


def run(rep):
    rep.rule = ("Every writer is followed with symbolic sizes (np points, nc<k> cells in block k); each count, size, dimension, index range and byte position the writer puts into the "
                "file is a polynomial in these sizes and must be identical to that of the contents.")
    W = registry(interp())[1]
    for name, res in pmap(wjob, [n for n in RULES if n in W or n == "gmsh40"]):
        if isinstance(res, Failed):
            rep.skip("counts", f"{name}: {res.why}")
            continue
        for key, v, msg, where in res:
            if v == "ok":
                rep.ok("counts", f"{key}: {msg}")
            elif v == "skip":
                rep.skip("counts", f"{key}: {msg}")
            else:
                rep.bad("counts", "count", f"{name}:{where}", f"{key}: {msg} ({where})")
    rep.floor("counts", 300)
