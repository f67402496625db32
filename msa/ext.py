"""Models of the outside world for the abstract interpreter: builtins, numpy, files, text."""
from __future__ import annotations

import ast
import operator
import re
from pathlib import PurePosixPath
from dataclasses import replace

from . import dims
from .values import *
from .values import _Undef

FILE = frozenset({Rec("file")})
SCALAR = ("int", "float", "bool", "tok", "str", "bytes", "none")
SINKS = ("file", "h5", "xml", "nc")

OPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
    ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}


def _dead():
    from .interp import Dead

    return Dead()


# --------------------------------------------------------------------------- recs helpers
def flat_recs(I, v, st, depth=0, seen=None):
    """All provenance records reachable from a value, in order where the order is known."""
    if v is None or isinstance(v, Const) and not v.recs:
        return frozenset()
    if isinstance(v, (Const, Unk, Ext)):
        return v.recs
    if isinstance(v, Alt):
        r = frozenset()
        for a in v.alts:
            r |= flat_recs(I, a, st, depth, seen)
        return r
    if isinstance(v, Method):
        return flat_recs(I, v.recv, st, depth, seen)
    if isinstance(v, Ref):
        if depth > 6:
            return frozenset()
        seen = (seen or frozenset()) | {v.addr}
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList):
            if o.items is not None:
                return recs_concat([flat_recs(I, x, st, depth + 1, seen) for x in o.items]) | o.tagrec
            return (flat_recs(I, o.elem, st, depth + 1, seen) if o.elem is not None else frozenset()) | o.tagrec
        r = frozenset()
        if isinstance(o, HDict):
            for k, x in o.entries:
                r |= flat_recs(I, k, st, depth + 1, seen) | flat_recs(I, x, st, depth + 1, seen)
            if o.rest_v is not None:
                r |= flat_recs(I, o.rest_v, st, depth + 1, seen)
            return r
        if isinstance(o, HObj):
            if o.cls == "structarr":
                return recs_concat([flat_recs(I, x, st, depth + 1, seen) for _, x in o.attrs])
            for _, x in o.attrs:
                if isinstance(x, Ref) and x.addr in seen:
                    continue
                r |= flat_recs(I, x, st, depth + 1, seen)
            return r
    return frozenset()


NARROW = {"float32", "float16", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "bool", "intc", "int"}


SHORT = ("int8", "uint8", "int16", "uint16")


def narrow(recs, dt):
    """Mark values converted to a number type that cannot hold every float64."""
    n = dt.name if isinstance(dt, DT) else dt
    if n not in NARROW:
        return recs
    return frozenset(r._replace(nar=n) if r.nar is None and _float_origin(r.origin, n) else r for r in recs)


def _float_origin(o, n):
    return (o.startswith(("points", "point_data[", "cell_data[")) or o == "file" and n in ("float32", "float16") + SHORT
            or o.startswith("cells[") and n in ("float32", "float16") + SHORT)


_RANK = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"]


def promote(a, b):
    """numpy's result type of two simple dtypes, None if not known"""
    if not (isinstance(a, DT) and isinstance(b, DT)) or a.name not in _RANK or b.name not in _RANK:
        return None
    if a.name == b.name:
        return native(a)
    for f in ("float64",):
        if f in (a.name, b.name):
            return DT(f)
    x, y = sorted((a.name, b.name), key=_RANK.index)
    if y.startswith("float"):
        return DT(y) if x.startswith("float") or x in ("bool", "int8", "uint8") or x in ("int16", "uint16") and y == "float32" else DT("float64") if y == "float32" else None
    if x == "bool":
        return DT(y)
    if x.startswith("u") == y.startswith("u"):
        return DT(y)
    u, i = (x, y) if x.startswith("u") else (y, x)
    bu, bi = int(u[4:]), int(i[3:])
    if bi > bu:
        return DT(i)
    return DT(f"int{2 * bu}") if bu < 64 else DT("float64")


def native(d):
    """stacking and arithmetic give arrays in the machine's byte order"""
    return DT(d.name) if isinstance(d, DT) and d.name in _RANK and d.order in ("<", ">", "=") else d


def promote_all(dts):
    out = None
    for k, d in enumerate(dts):
        out = native(d) if k == 0 else promote(out, d)
        if out is None:
            return None
    return out


def arith_dtype(op, u, v):
    """dtype of array ``u`` combined with ``v``"""
    d = u.dtype
    if not isinstance(d, DT) or d.name not in _RANK:
        return d if isinstance(v, Const) and isinstance(v.v, int) and not isinstance(op, ast.Div) else None
    if isinstance(v, Unk) and v.kind in ("arr", "row"):
        d = promote(d, v.dtype)
    elif isinstance(v, Const):
        if isinstance(v.v, float) and not d.name.startswith("float"):
            d = DT("float64")
        elif not isinstance(v.v, (int, float)):
            d = None
    elif isinstance(v, Unk) and v.kind not in ("int", "bool"):
        d = None if not d.name == "float64" else d
    if isinstance(op, ast.Div) and d is not None and not d.name.startswith("float"):
        d = DT("float64")
    return native(d)


def dtype_of(I, v, st):
    if isinstance(v, Unk):
        return v.dtype if isinstance(v.dtype, DT) else None
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList):
            if isinstance(getattr(o, "dtype", None), DT):
                return o.dtype
            if o.items and all(isinstance(x, Const) and type(x.v) is int for x in o.items):
                return DT("int64")
            if o.items:
                return promote_all([dtype_of(I, x, st) for x in o.items])
    if isinstance(v, Const) and type(v.v) is NInt:
        return v.v.dt
    if isinstance(v, Const) and type(v.v) is int:
        return DT("int64")
    if isinstance(v, Const) and type(v.v) is float:
        return DT("float64")
    return None


def narrow_value(v, dt):
    if isinstance(v, Unk) and dt is not None:
        r = narrow(v.recs, dt)
        return v if r is v.recs else replace(v, recs=r)
    return v


def set_prec(recs, prec):
    return frozenset(r._replace(prec=prec) if r.prec is None else r for r in recs)


def deep_own(I, v, st, depth=0):
    if isinstance(v, Unk):
        return v.own
    if isinstance(v, Alt):
        r = frozenset()
        for a in v.alts:
            r |= deep_own(I, a, st, depth)
        return r
    return frozenset()


def sym_of(v):
    if isinstance(v, Const):
        try:
            hash(v.v)
            return ("c", v.v)
        except TypeError:
            return None
    if isinstance(v, Unk):
        if v.kind == "slice" and v.extra:
            ss = tuple(sym_of(x) for x in v.extra)
            return ("sl",) + ss if all(s is not None for s in ss) else None
        return v.sym
    return None


def _symdepth(s, d=0):
    if not isinstance(s, tuple) or d > 12:
        return d
    return max([_symdepth(x, d + 1) for x in s] or [d])


def mk_sym(*parts):
    if any(p is None for p in parts):
        return None
    if _symdepth(parts) > 10:
        return None
    return parts


def _contains(s, x):
    if s == x:
        return True
    if isinstance(s, tuple):
        return any(_contains(p, x) for p in s)
    return False


def fresh_sym(I, st, node, fr, tag=""):
    s = ("s", I.intern(("sym", id(node), fr.ctx if fr else 0, fr.iter if fr else (), tag)))
    if st.refine:
        for k in [k for k in st.refine if _contains(k, s)]:
            del st.refine[k]
    return s


# --------------------------------------------------------------------------- text
def is_text(I, v, st):
    if isinstance(v, Const):
        return isinstance(v.v, (str, bytes))
    return isinstance(v, Unk) and v.kind in ("str", "bytes")


def concat_text(I, parts, st):
    # constants (with few alternatives) stay constants
    combos = [("", frozenset())]
    ok = True
    byt = any(isinstance(p, Const) and isinstance(p.v, bytes) for p in parts) or any(
        isinstance(p, Unk) and p.kind == "bytes" for p in parts)
    combos = [(b"" if byt else "", [])]
    for p in parts:
        al = alts(p)
        if not all(isinstance(a, Const) and isinstance(a.v, (str, bytes)) for a in al) or len(al) * len(combos) > 12:
            ok = False
            break
        try:
            combos = [(c + a.v, r + [a.recs]) for c, r in combos for a in al]
        except TypeError:
            ok = False
            break
    if ok:
        return join_all([Const(c, recs_concat(r)) for c, r in combos])
    # partial text: keep a pattern of known fragments
    pat = []
    for p in parts:
        if isinstance(p, Const) and isinstance(p.v, (str, bytes)):
            pat.append(p.v)
        elif isinstance(p, Unk) and isinstance(p.extra, tuple) and p.extra[:1] == ("pat",):
            pat += list(p.extra[1])
        else:
            d = dim_of_value(p)
            pat.append(("dim", d) if d is not None else ("run", run_of(p)) if run_of(p) is not None else None)
    # merge
    mp = []
    for x in pat:
        if mp and isinstance(x, (str, bytes)) and type(x) is type(mp[-1]):
            mp[-1] = mp[-1] + x
        elif mp and x is None and mp[-1] is None:
            pass
        else:
            mp.append(x)
    recs = recs_concat([flat_recs(I, p, st) for p in parts])
    return Unk(recs=recs, kind="bytes" if byt else "str", extra=("pat", tuple(mp[:60])))


def cpath(v):
    """The string of a constant path or string, else None."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, Unk) and v.kind == "path" and isinstance(v.extra, tuple) and v.extra[:1] == ("cpath",):
        return v.extra[1]
    return None


def mk_cpath(p, recs=frozenset()):
    return Unk(kind="path", recs=recs, extra=("cpath", str(p)))


def dim_text(a, spec="d"):
    """Text of a symbolic size: a pattern with one hole that names the size."""
    if not isinstance(a, Unk):
        return None
    d = dim_of_value(a)
    t = spec[-1:] if spec else "d"
    if d is None and not a.recs and a.kind in ("int", "tok") and run_of(a) is not None and t in "diusr":
        return Unk(kind="str", extra=("pat", (("run", run_of(a)),)))
    if d is None or t not in "diuxXsr":
        return None
    return Unk(kind="str", extra=("pat", (("hex" if t in "xX" else "dim", d),)))


def to_text(I, v, st, how):
    def one(a):
        dt = dim_text(a)
        if dt is not None:
            return dt
        if isinstance(a, Const):
            if isinstance(a.v, (str, int, float, bool, bytes)) or a.v is None:
                try:
                    return Const(str(a.v) if how == "s" else repr(a.v), set_prec(a.recs, "x"))
                except Exception:
                    pass
        if isinstance(a, Unk) and a.kind == "str" and how == "s":
            return a
        if isinstance(a, Unk) and a.kind == "path" and cpath(a) is not None:
            return Const(cpath(a), a.recs)
        return Unk(recs=set_prec(flat_recs(I, a, st), "x" if how == "s" else "r"), kind="str")

    return I.map_alts(v, one)


_SPEC = re.compile(r"^(?:.?[<>^=])?[-+ ]?z?#?0?(\d+)?[,_]?(?:\.(\d+))?([a-zA-Z%])?$")


def spec_prec(spec):
    """Significant digits guaranteed by a format specification; 'x' exact; '?' unknown."""
    if spec is None:
        return "?"
    spec = spec.strip()
    m = _SPEC.match(spec)
    if not m:
        return "?"
    p, t = m.group(2), m.group(3)
    if t in ("d", "i", "u", "s", "x", "X", "b", "o", "c"):
        return "x"
    if t == "r":
        return "r"
    if t is None:
        return "x" if p is None else int(p)
    if t in "eE":
        return 1 + (6 if p is None else int(p))
    if t in "gGn":
        return 6 if p is None else int(p)
    if t in "fF%":
        return ("f", 6 if p is None else int(p))
    return "?"


def format_value(I, v, spec, st, node, fr):
    def one(a):
        if isinstance(spec, Const) and isinstance(spec.v, str):
            if isinstance(a, Const) and isinstance(a.v, (str, int, float, bool)):
                try:
                    return Const(format(a.v, spec.v), set_prec(a.recs, spec_prec(spec.v)))
                except Exception:
                    pass
            r = flat_recs(I, a, st)
            if isinstance(a, Unk) and a.kind == "str" and spec.v == "":
                return a
            dt = dim_text(a, spec.v if spec.v[-1:].isalpha() else "d")
            if dt is not None:
                return dt
            return Unk(recs=set_prec(r, spec_prec(spec.v)), kind="str")
        pv = "?"
        if isinstance(spec, Alt):
            ps = {spec_prec(x.v) if isinstance(x, Const) and isinstance(x.v, str) else "?" for x in spec.alts}
            r = flat_recs(I, a, st)
            out = frozenset()
            for p in ps:
                out |= set_prec(r, p)
            return Unk(recs=out, kind="str")
        return Unk(recs=set_prec(flat_recs(I, a, st), pv), kind="str")

    return I.map_alts(v, one)


_FIELD = re.compile(r"\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}")


def str_format(I, fmt, args, kwargs, st, node, fr):
    from .interp import Star

    if not (isinstance(fmt, Const) and isinstance(fmt.v, str)):
        r = flat_recs(I, fmt, st)
        for a in list(args) + list(kwargs.values()):
            r |= set_prec(flat_recs(I, a.v if isinstance(a, Star) else a, st), "?")
        return Unk(recs=r, kind="str")
    if any(isinstance(a, Star) for a in args):
        r = frozenset()
        pr = "x"
        for m in _FIELD.finditer(fmt.v):
            if m.group(3):
                pr = spec_prec(m.group(3))
        for a in args:
            r |= set_prec(flat_recs(I, a.v if isinstance(a, Star) else a, st), pr)
        return Unk(recs=r, kind="str")
    parts = []
    pos = 0
    auto = 0
    for m in _FIELD.finditer(fmt.v):
        if m.start() > pos:
            parts.append(Const(fmt.v[pos: m.start()]))
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            parts.append(Const(m.group(0)[0]))
            continue
        name = m.group(1)
        base = re.split(r"[.\[]", name)[0]
        if base == "":
            val = args[auto] if auto < len(args) else None
            auto += 1
        elif base.isdigit():
            val = args[int(base)] if int(base) < len(args) else None
        else:
            val = kwargs.get(base, UNK)
        if val is None:
            I.event("formaterror", node, fr, what=f"format string {fmt.v!r} has more fields than arguments")
            I.raise_(st, fr, "IndexError", node)
        if base != name:
            val = Unk(recs=degrade(flat_recs(I, val, st)))
        if m.group(2):
            val = to_text(I, val, st, m.group(2))
        spec = m.group(3) or ""
        if "{" in spec:
            # nested spec
            sp = str_format(I, Const(spec), args[auto:], kwargs, st, node, fr)
            auto += spec.count("{}")
        else:
            sp = Const(spec)
        parts.append(format_value(I, val, sp, st, node, fr))
    if pos < len(fmt.v):
        parts.append(Const(fmt.v[pos:]))
    r = concat_text(I, parts, st)
    if fmt.recs and isinstance(r, (Const, Unk)):
        r = Const(r.v, r.recs | fmt.recs) if isinstance(r, Const) else replace(r, recs=r.recs | fmt.recs)
    return r


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])")


def percent_format(I, fmt, val, st, node, fr):
    s = fmt.v if isinstance(fmt.v, str) else fmt.v.decode("latin1")
    byt = isinstance(fmt.v, bytes)
    its = None
    if isinstance(val, Ref):
        o = I.get_obj(st, val.addr)
        if isinstance(o, HList) and o.typ == "tuple":
            its = list(o.items) if o.items is not None else "many"
    if its is None:
        its = [val]
    parts = []
    pos = 0
    n = 0
    for m in _PCT.finditer(s):
        if m.start() > pos:
            parts.append(Const(s[pos: m.start()]))
        pos = m.end()
        if m.group(5) == "%":
            parts.append(Const("%"))
            continue
        if its == "many":
            v = I.get_obj(st, val.addr).element()
        elif n < len(its):
            v = its[n]
        else:
            v = UNK
        n += 1
        spec = (("." + m.group(4)) if m.group(4) and m.group(4) != "*" else "") + m.group(5)
        if m.group(5) == "s":
            parts.append(to_text(I, v, st, "s"))
        elif m.group(5) == "r":
            parts.append(to_text(I, v, st, "r"))
        else:
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                try:
                    parts.append(Const(m.group(0) % v.v, set_prec(v.recs, spec_prec(spec))))
                    continue
                except Exception:
                    pass
            parts.append(dim_text(v, spec) or Unk(recs=set_prec(flat_recs(I, v, st), spec_prec(spec)), kind="str"))
    if pos < len(s):
        parts.append(Const(s[pos:]))
    r = concat_text(I, parts, st)
    if byt:
        if isinstance(r, Const):
            return Const(r.v.encode("latin1"), r.recs)
        if isinstance(r, Unk):
            return replace(r, kind="bytes")
    return r


# --------------------------------------------------------------------------- operators
def unary(I, op, a, st, fr, node):
    if isinstance(a, Const):
        try:
            if isinstance(op, ast.USub):
                return Const(-a.v, a.recs and degrade(a.recs))
            if isinstance(op, ast.UAdd):
                return a
            if isinstance(op, ast.Invert):
                return Const(~a.v)
        except Exception:
            return UNK
    if isinstance(a, Ref):
        o = I.get_obj(st, a.addr)
        if isinstance(o, HList) and o.typ == "nd" and o.items is not None:
            its = [unary(I, op, x, st, fr, node) for x in o.items]
            return I.alloc(st, replace(o, items=tuple(its), own=None), node, fr, "neg")
        return Unk(recs=degrade(flat_recs(I, a, st)), kind="arr")
    if isinstance(a, Unk):
        return replace(a, recs=degrade(a.recs), own=frozenset(), sym=mk_sym("USub", a.sym) if a.kind == "int" and isinstance(op, ast.USub) else None, extra=None)
    return UNK


def shift_recs(recs, d):
    return frozenset(r._replace(off=None if r.off is None else r.off + d) for r in recs)


def binop(I, op, x, y, st, fr, node):
    if isinstance(op, ast.Mult) and isinstance(x, Const) and isinstance(x.v, DT):
        return x  # an item of several numbers of this type
    if isinstance(x, Const) and isinstance(y, Const):
        if isinstance(op, ast.Mod) and isinstance(x.v, (str, bytes)):
            return percent_format(I, x, y, st, node, fr)
        f = OPS.get(type(op))
        if f is not None:
            if isinstance(x.v, int) and isinstance(y.v, int) and isinstance(op, (ast.Pow, ast.LShift)) and abs(y.v) > 128:
                return Unk(kind="int")
            if isinstance(op, ast.Mult) and isinstance(x.v, (str, bytes, tuple)) and isinstance(y.v, int) and y.v > 4096:
                return Unk(kind="str")
            try:
                r = f(x.v, y.v)
                rx, ry = x.recs, y.recs
                if isinstance(op, ast.Add) and isinstance(x.v, (str, bytes)):
                    return Const(r, recs_concat([rx, ry]))
                if rx or ry:
                    return Const(r, degrade(rx | ry))
                return Const(r)
            except ZeroDivisionError:
                I.raise_(st, fr, "ZeroDivisionError", node)
            except TypeError:
                if all(isinstance(z.v, (str, int, float, bytes, type(None))) for z in (x, y)):
                    I.event("typeerror", node, fr, what=f"unsupported operand types: {x.v!r} {type(op).__name__} {y.v!r}", v=x)
                    I.raise_(st, fr, "TypeError", node)
                return UNK
            except Exception:
                return UNK
        return UNK
    # string formatting / concatenation
    if isinstance(op, ast.Mod) and isinstance(x, Const) and isinstance(x.v, (str, bytes)):
        return percent_format(I, x, y, st, node, fr)
    if isinstance(op, ast.Mod) and isinstance(x, Unk) and x.kind in ("str", "bytes"):
        return Unk(recs=x.recs | set_prec(flat_recs(I, y, st), "?"), kind=x.kind)
    if isinstance(op, ast.Add) and (is_text(I, x, st) or is_text(I, y, st)):
        return concat_text(I, [x, y], st)
    if isinstance(op, ast.Mult) and (is_text(I, x, st) or is_text(I, y, st)):
        k = x if is_text(I, x, st) else y
        return Unk(recs=flat_recs(I, k, st), kind="bytes" if isinstance(k, Const) and isinstance(k.v, bytes) else "str")
    # containers
    ox = I.get_obj(st, x.addr) if isinstance(x, Ref) else None
    oy = I.get_obj(st, y.addr) if isinstance(y, Ref) else None
    for o, v in ((ox, x), (oy, y)):
        if isinstance(o, HObj) and isinstance(o.cls, ClsV):
            names = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.BitOr: "or", ast.Div: "truediv"}
            m = o.cls.lookup(f"__{names.get(type(op), 'xx')}__")
            if isinstance(m, FuncV):
                return I.call(replace(m, selfv=v, cls=o.cls), [y if v is x else x], {}, st, node, fr)
            if not set(o.cls.ext_bases()) - {"builtins.object"}:
                I.event("typeerror", node, fr, what=f"arithmetic on a {o.cls.name} object", v=v)
                I.raise_(st, fr, "TypeError", node)
    lx = isinstance(ox, HList) and ox.typ in ("list", "tuple")
    ly = isinstance(oy, HList) and oy.typ in ("list", "tuple")
    if isinstance(op, ast.Add) and lx and ly:
        if ox.items is not None and oy.items is not None:
            return I.alloc(st, HList(ox.items + oy.items, None, ox.typ), node, fr, "cat")
        e = None
        for o in (ox, oy):
            if o.items is None or o.items:
                e = join(e, o.element())
        return I.alloc(st, HList(None, e, ox.typ, nonempty=ox.nonempty or oy.nonempty or bool(ox.items) or bool(oy.items),
                                 lead=(ox.items, oy.element()) if ox.items and oy.items is None else ()), node, fr, "cat")
    if isinstance(op, ast.Add) and (lx or ly) and isinstance(x if ly else y, Unk) and (x if ly else y).kind in ("list", "row"):
        u = x if ly else y
        l = y if ly else x
        parts = [flat_recs(I, x, st), flat_recs(I, y, st)]
        return Unk(recs=recs_concat(parts), kind="list")
    if isinstance(op, ast.Add) and isinstance(x, Unk) and isinstance(y, Unk) and (x.kind in ("list", "row") and y.kind in ("list", "row")) and not (x.kind == y.kind == "row"):
        return Unk(recs=recs_concat([x.recs, y.recs]), kind="list")
    if isinstance(op, ast.Add) and isinstance(x, Unk) and isinstance(y, Unk) and x.kind == "list" and y.kind == "list":
        return Unk(recs=recs_concat([x.recs, y.recs]), kind="list")
    if isinstance(op, ast.Mult) and (lx or ly):
        l, n = (ox, y) if lx else (oy, x)
        if isinstance(n, Const) and isinstance(n.v, int) and l.items is not None and len(l.items) * max(n.v, 0) <= 400:
            return I.alloc(st, HList(l.items * n.v, None, l.typ), node, fr, "rep")
        return I.alloc(st, HList(None, l.element(), l.typ), node, fr, "rep")
    if isinstance(ox, HList) and ox.typ == "set" and isinstance(oy, HList):
        if ox.items is not None and oy.items is not None and all(isinstance(z, Const) for z in ox.items + oy.items):
            sx, sy = list(ox.items), list(oy.items)
            if isinstance(op, ast.BitOr):
                r = sx + [z for z in sy if z not in sx]
            elif isinstance(op, ast.BitAnd):
                r = [z for z in sx if z in sy]
            elif isinstance(op, ast.Sub):
                r = [z for z in sx if z not in sy]
            else:
                r = [z for z in sx if z not in sy] + [z for z in sy if z not in sx]
            return I.alloc(st, HList(tuple(r), None, "set"), node, fr, "setop")
        return I.alloc(st, HList(None, join(ox.element() if ox.items != () else None, oy.element() if oy.items != () else None), "set"), node, fr, "setop")
    if isinstance(ox, HDict) and isinstance(oy, HDict) and isinstance(op, ast.BitOr):
        d = I.dict_merge(replace(ox, own=None), y, st)
        return I.alloc(st, d, node, fr, "dictor")
    # numpy constant arrays
    ndx = isinstance(ox, HList) and ox.typ == "nd"
    ndy = isinstance(oy, HList) and oy.typ == "nd"
    if (ndx or ndy):
        def elems(o, v, n):
            if isinstance(o, HList):
                return list(o.items) if o.items is not None and len(o.items) == n else None
            return [v] * n

        n = None
        for o in (ox, oy):
            if isinstance(o, HList) and o.items is not None:
                n = len(o.items)
        if n is not None and (isinstance(ox, HList) or isinstance(x, (Const, Unk))) and (isinstance(oy, HList) or isinstance(y, (Const, Unk))):
            ci, sc = (ox, y) if ndx else (oy, x)
            if (n > 1 and isinstance(sc, Unk) and sc.kind in ("int", "tok") and isinstance(op, ast.Add) and ci.items is not None
                    and all(isinstance(i, Const) and isinstance(i.v, int) and not isinstance(i.v, bool) for i in ci.items)):
                # constant pattern of positions shifted by a scalar: an index pattern
                return Unk(recs=degrade(sc.recs), kind="arr", shape=(n,), extra=("idx", tuple(i.v for i in ci.items)))
            ex, ey = elems(ox, x, n), elems(oy, y, n)
            ok = ex is not None and ey is not None
            for o, v in ((ox, x), (oy, y)):
                if not isinstance(o, HList) and isinstance(v, Unk) and v.kind == "arr":
                    ok = False
            if ok:
                out = [binop(I, op, p, q, st, fr, node) for p, q in zip(ex, ey)]
                return I.alloc(st, HList(tuple(out), None, "nd"), node, fr, "ndop")
        return Unk(recs=degrade(flat_recs(I, x, st) | flat_recs(I, y, st)), kind="arr")
    dv = dim_arith(op, x, y)
    if dv is not None:
        return dv
    rx, ry = flat_recs(I, x, st), flat_recs(I, y, st)
    kx = x.kind if isinstance(x, Unk) else kind_of_const(x.v) if isinstance(x, Const) else None
    ky = y.kind if isinstance(y, Unk) else kind_of_const(y.v) if isinstance(y, Const) else None
    if isinstance(op, ast.Div) and kx == "path" and cpath(x) is not None and cpath(y) is not None:
        return mk_cpath(PurePosixPath(cpath(x)) / cpath(y), rx | ry)
    if isinstance(op, ast.Div) and kx == "path":
        return Unk(kind="path", recs=rx | ry, extra=x.extra if isinstance(x, Unk) else None)
    # result kind and shape
    kind = None
    shape = None
    dtype = None
    if "arr" in (kx, ky) or "h5" in (kx, ky) or "row" in (kx, ky):
        kind = "arr"
        u = x if kx in ("arr", "h5", "row") else y
        v = y if u is x else x
        if isinstance(u, Unk):
            if not (isinstance(v, Unk) and v.kind in ("arr", "row", None)):
                shape = u.shape
            elif isinstance(v, Unk) and v.shape == u.shape:
                shape = u.shape
            if kx == "row" or ky == "row":
                kind = "row" if not ("arr" in (kx, ky)) else "arr"
            dtype = arith_dtype(op, u, v)
    elif kx in ("int", "tok", "bool") and ky in ("int", "bool", "tok"):
        kind = "int" if not isinstance(op, ast.Div) else "float"
    elif kx in ("int", "float", "tok") and ky in ("int", "float", "tok"):
        kind = "float"
    elif isinstance(x, Unk) and isinstance(y, Const):
        kind = kx
        shape = x.shape
        dtype = x.dtype
    elif isinstance(y, Unk) and isinstance(x, Const):
        kind = ky
        shape = y.shape
        dtype = y.dtype
    sym = mk_sym(type(op).__name__, sym_of(x), sym_of(y)) if kind in ("int", "float", None) else None
    # sums of lengths
    if isinstance(op, (ast.Add, ast.Sub)):
        sgn = 1 if isinstance(op, ast.Add) else -1
        if rx and not ry:
            if isinstance(y, Const) and isinstance(y.v, (int, float)) and y.v == 0:
                r = rx
            elif isinstance(y, Const) and isinstance(y.v, int):
                r = shift_recs(rx, sgn * y.v)
            elif isinstance(y, Const):
                r = frozenset(q._replace(off=None, scaled=True) for q in rx)
            else:
                r = frozenset(q._replace(off=None) for q in rx)
            idx = x.extra if isinstance(x, Unk) and isinstance(x.extra, tuple) and x.extra[:1] == ("idx",) else None
            if isinstance(y, Const) and isinstance(y.v, int) and isinstance(x, Unk):
                idx = _shift_extra(x, sgn * y.v) or idx
            return Unk(recs=r, kind=kind, shape=shape, dtype=dtype, sym=sym, extra=idx)
        if ry and not rx and sgn == 1:
            if isinstance(x, Const) and isinstance(x.v, float) and x.v == 0:
                return Unk(recs=ry, kind=kind, shape=shape, dtype=dtype, sym=sym)
            if isinstance(x, Const) and isinstance(x.v, int):
                return Unk(recs=shift_recs(ry, x.v), kind=kind, shape=shape, dtype=dtype, sym=sym,
                           extra=_shift_extra(y, x.v) if isinstance(y, Unk) else None)
            else:
                r = frozenset(q._replace(off=None) for q in ry)
            return Unk(recs=r, kind=kind, shape=shape, dtype=dtype, sym=sym)
        if rx and kx in ("arr", "row") and isinstance(y, Unk) and isinstance(y.extra, tuple) and y.extra[:1] == ("extremum",) and set(y.extra[1:]) & {q.origin for q in rx}:
            # shifted by its own smallest or largest entry
            return Unk(recs=frozenset(q._replace(off=None, scaled="self") for q in rx), kind=kind, shape=shape, dtype=dtype, sym=sym)
        if rx and ry and kx in ("arr", "row") and ky == "int" and isinstance(y, Unk) and not y.shape:
            # array shifted by an integer read elsewhere (an index base)
            return Unk(recs=frozenset(q._replace(off=None) for q in rx), kind=kind, shape=shape, dtype=dtype, sym=sym)
        if not rx and not ry:
            for u_, c_, g_ in ((x, y, sgn), (y, x, 1 if sgn == 1 else None)):
                if g_ is not None and run_of(u_) is not None and dim_of_value(c_) is not None and dims.add(run_of(u_), dim_of_value(c_), g_) is not None:
                    if isinstance(u_, Unk) and u_.kind == "arr":
                        kind, shape = "arr", u_.shape
                    return Unk(kind=kind, shape=shape, dtype=dtype, sym=sym, extra=("ctr", dims.add(run_of(u_), dim_of_value(c_), g_)))
                if g_ is not None and isinstance(u_, Unk) and isinstance(u_.extra, tuple) and u_.extra[:1] == ("pos",) and isinstance(c_, Const) and type(c_.v) is int:
                    return Unk(kind="arr", shape=u_.shape, dtype=dtype, sym=sym, extra=("pos", u_.extra[1] + g_ * c_.v))
        ex = x.extra if isinstance(x, Unk) and isinstance(x.extra, tuple) and x.extra[:1] == ("idx",) else None
        ey = y.extra if isinstance(y, Unk) and isinstance(y.extra, tuple) and y.extra[:1] == ("idx",) else None
        if (ex is None) != (ey is None):
            return Unk(recs=degrade(rx | ry), kind="arr", extra=ex or ey)
    if isinstance(op, (ast.Mult, ast.Div)) and isinstance(y, Const) and y.v in (1, 1.0) and not isinstance(y.v, bool) and rx:
        r = rx
    elif isinstance(op, ast.Mult) and isinstance(x, Const) and x.v in (1, 1.0) and not isinstance(x.v, bool) and ry and ky in ("arr", "row", "float", "int", "tok"):
        r = ry
    else:
        r = degrade(rx | ry, True if kx not in ("str", "bytes", "list", "path") and ky not in ("str", "bytes", "list", "path") else "u")
    return Unk(recs=r, kind=kind, shape=shape, dtype=dtype, sym=sym)


def run_of(x):
    """First value (an int or a symbolic size) of a running number (loop counter, enumerate/range/arange element), else None."""
    if isinstance(x, Unk) and isinstance(x.extra, tuple):
        if x.extra[:1] == ("ctr",):
            return x.extra[1]
        if x.extra[:1] == ("at",):
            return 0
    return None


def ctr_of(x):
    c = run_of(x)
    return c if isinstance(c, int) else None


def iter_dim(I, v, st):
    """Symbolic number of elements of an iterable, or None."""
    if isinstance(v, Unk) and v.kind in ("arr", "row") and v.shape:
        return v.shape[0]
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList):
            if o.items is not None:
                return len(o.items)
            return o.sym[1] if isinstance(o.sym, tuple) and o.sym[:1] == ("dim",) else None
    return None


def len_sym(d):
    return ("dim", d) if isinstance(d, str) else None


def _shift_extra(x, d):
    cr = composite(x)
    if cr is not None:
        return ("cols", tuple(shift_recs(c, d) for c in cr))
    to = t_orig(x)
    if to is not None:
        return ("T", replace(to, recs=shift_recs(to.recs, d), own=frozenset(), extra=None))
    return None


def py_eq(a, b):
    return keq(a, b)


def assumed(I, v, c):
    """Truth of ``v == c`` under the scenario's assumption about what the file declares."""
    return I.assume.get(c) if isinstance(v, Unk) and v.kind not in ("arr", "file", "h5", "nc") and isinstance(c, (str, bytes, int)) and not isinstance(c, bool) else None


def attr_value(I, name):
    """Scenario value of an XML attribute: a value, False when it is absent, None without an assumption."""
    if not I.assume or ("attr", name) not in I.assume:
        return None
    vals = I.assume["attr", name]
    return join_all([Const(v) for v in vals]) if vals else False


def assumed_key(I, k, keys, st):
    """The table keys an unknown key stands for under the assumptions, or None."""
    def parts(z):
        if isinstance(z, Ref):
            o = I.get_obj(st, z.addr)
            return list(o.items) if isinstance(o, HList) and o.items is not None else None
        if isinstance(z, Const) and isinstance(z.v, tuple):
            return [x if isinstance(x, V) else Const(x) for x in z.v]
        return [z]

    ks = parts(k)
    if ks is None or not any(isinstance(x, Unk) for x in ks):
        return None
    hit = []
    for c in keys:
        cs = parts(c)
        if cs is None or len(cs) != len(ks) or not all(isinstance(q, Const) for q in cs):
            continue
        ok = [(keq(p, q) if isinstance(p, Const) else assumed(I, p, q.v) if not isinstance(p, Ref) else None) for p, q in zip(ks, cs)]
        if all(z is True for z in ok):
            hit.append(c)
    return hit or None


def compare(I, op, x, y, st, fr, node):
    if I.assume and isinstance(op, (ast.Eq, ast.NotEq)):
        for p, q in ((x, y), (y, x)):
            if isinstance(q, Const):
                r = assumed(I, p, q.v)
                if r is not None:
                    return r == isinstance(op, ast.Eq)
    if isinstance(op, (ast.Is, ast.IsNot)):
        neg = isinstance(op, ast.IsNot)
        r = None
        if isinstance(y, Const) and y.v is None or isinstance(x, Const) and x.v is None:
            o = x if isinstance(y, Const) and y.v is None else y
            r = I.is_none(o)
            if r is None and I.assume and isinstance(o, Unk) and o.kind in ("xml", "str", "tok", "bytes"):
                r = False
        elif isinstance(x, Const) and isinstance(y, Const):
            if isinstance(x.v, bool) or isinstance(y.v, bool):
                r = x.v is y.v
            elif x.v == y.v and isinstance(x.v, (str, int)):
                r = True
            else:
                r = False if x.v != y.v else None
        elif isinstance(x, (ClsV, Ext, FuncV)) and isinstance(y, (ClsV, Ext, FuncV)):
            r = x == y
        elif isinstance(x, Ref) and isinstance(y, Ref):
            r = True if x == y and False else (None if x == y else False)
        return None if r is None else (r != neg)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, y, x, st, fr, node)
        if r is None:
            return None
        return r if isinstance(op, ast.In) else not r
    if isinstance(op, (ast.Eq, ast.NotEq)) and any(isinstance(z, Const) and isinstance(z.v, DT) for z in (x, y)):
        d1, d2 = to_dtype(x), to_dtype(y)
        if d1 is not None and d2 is not None:
            same = d1.name == d2.name and (d1.name != "struct" or d1 == d2)
            o1, o2 = ("=" if o in ("<", "|") else o for o in (d1.order, d2.order))
            if same and o1 != o2 and ITEMSIZE.get(d1.name) != 1:
                same = None if "?" in (o1, o2) else False
            return None if same is None else same == isinstance(op, ast.Eq)
    if isinstance(x, Const) and isinstance(y, Const):
        try:
            if isinstance(op, ast.Eq):
                return bool(keq(x, y))
            if isinstance(op, ast.NotEq):
                return not keq(x, y)
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            return bool(f(x.v, y.v))
        except TypeError:
            if isinstance(x.v, (int, float, str)) and isinstance(y.v, (int, float, str)):
                I.event("typeerror", node, fr, what=f"ordering {x.v!r} against {y.v!r}", v=x)
                I.raise_(st, fr, "TypeError", node)
            return None
        except Exception:
            return None
    kx = x.kind if isinstance(x, Unk) else None
    ky = y.kind if isinstance(y, Unk) else None
    if kx == "arr" or ky == "arr":
        nm, rx, ry = type(op).__name__, recs_of(x), recs_of(y)
        if kx != "arr":
            nm, rx, ry = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(nm, nm), ry, rx
        for c in (x, y):
            if isinstance(c, Const) and type(c.v) is int and not c.recs:
                ry = ry | {Rec(f"const:{c.v}")}
        return Unk(kind="arr", recs=degrade(recs_of(x) | recs_of(y)), extra=("cmp", nm, rx, ry),
                   shape=(x if kx == "arr" else y).shape)
    # exact containers
    if isinstance(x, Ref) or isinstance(y, Ref):
        ox = I.get_obj(st, x.addr) if isinstance(x, Ref) else None
        oy = I.get_obj(st, y.addr) if isinstance(y, Ref) else None
        if isinstance(ox, HList) and ox.typ == "nd" or isinstance(oy, HList) and oy.typ == "nd":
            return Unk(kind="arr", extra=("cmp",))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            kx2, ky2 = I.key(x, st), I.key(y, st)
            if isinstance(kx2, Const) and isinstance(ky2, Const):
                r = kx2.v == ky2.v
                return r if isinstance(op, ast.Eq) else not r
            if isinstance(ox, HList) and isinstance(oy, HList) and ox.items is not None and oy.items is not None:
                if len(ox.items) != len(oy.items):
                    return isinstance(op, ast.NotEq)
                rs = [compare(I, ast.Eq(), a, b, st, fr, node) for a, b in zip(ox.items, oy.items)]
                if any(r is False for r in rs):
                    return isinstance(op, ast.NotEq)
                if all(r is True for r in rs):
                    return isinstance(op, ast.Eq)
                return None
            for o, z in ((ox, y), (oy, x)):
                if isinstance(o, HObj) and isinstance(z, Const):
                    return isinstance(op, ast.NotEq)
                if isinstance(o, (HList, HDict)) and isinstance(z, Const) and not isinstance(z.v, tuple):
                    return isinstance(op, ast.NotEq)
        return None
    if isinstance(x, (ClsV, Ext, FuncV)) and isinstance(y, (ClsV, Ext, FuncV)) and isinstance(op, (ast.Eq, ast.NotEq)):
        if isinstance(x, Ext) and isinstance(y, Ext) and (x.recs or y.recs):
            return None
        return (x == y) == isinstance(op, ast.Eq)
    # kind disagreement: text against number never equal
    if isinstance(op, (ast.Eq, ast.NotEq)):
        tx = kx or (kind_of_const(x.v) if isinstance(x, Const) else None)
        ty = ky or (kind_of_const(y.v) if isinstance(y, Const) else None)
        num = ("int", "float")
        if (tx == "str" and ty in num) or (ty == "str" and tx in num) or {tx, ty} == {"str", "bytes"}:
            I.event("kindcompare", node, fr, what=f"{tx} compared with {ty}")
            return isinstance(op, ast.NotEq)
        if tx is not None and ty == "none" or ty is not None and tx == "none":
            if tx != ty and "none" in (tx, ty):
                return isinstance(op, ast.NotEq)
    # symbolic dimensions
    sx, sy = sym_of(x), sym_of(y)
    if I.dims_positive:
        for s_, z, flip in ((sx, y, False), (sy, x, True)):
            if is_posdim(s_) and isinstance(z, Const) and type(z.v) is int and z.v <= 1:
                o = type(op)
                if flip:
                    o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
                c = z.v
                if c <= 0 and o in (ast.Gt, ast.GtE, ast.NotEq) or c == 1 and o is ast.GtE:
                    return True
                if c <= 0 and o in (ast.Lt, ast.LtE, ast.Eq) or c == 1 and o is ast.Lt:
                    return False
    if sx is not None and sy is not None:
        dims = I.__dict__.get("dimcmp")
        if dims is not None:
            r = dims(op, sx, sy)
            if r is not None:
                return r
        if sx == sy and isinstance(op, (ast.Eq, ast.LtE, ast.GtE)):
            return True
        if sx == sy and isinstance(op, (ast.NotEq, ast.Lt, ast.Gt)):
            return False
    return None


def contains(I, c, x, st, fr, node):
    if I.assume and isinstance(c, Unk) and isinstance(x, Const) and ("has", x.v) in I.assume:
        return I.assume["has", x.v]
    if I.assume and isinstance(c, Unk) and c.kind == "xml" and isinstance(x, Const) and ("attr", x.v) in I.assume:
        return bool(I.assume["attr", x.v])
    if I.assume and isinstance(c, Ref) and isinstance(x, Unk):
        o = I.get_obj(st, c.addr)
        its = [I.key(i, st) for i in o.items] if isinstance(o, HList) and o.items is not None else [k for k, _ in o.entries] if isinstance(o, HDict) else []
        r = [assumed(I, x, i.v) if isinstance(i, Const) else None for i in its]
        if True in r:
            return True
        if r and all(z is False for z in r):
            return False
    if isinstance(c, Const):
        if isinstance(c.v, (str, bytes, tuple, frozenset)) and isinstance(x, Const):
            try:
                return x.v in c.v
            except TypeError:
                return None
        return None
    if isinstance(c, Ref):
        o = I.get_obj(st, c.addr)
        x = I.key(x, st)
        if isinstance(o, HObj) and isinstance(o.cls, ClsV):
            m = o.cls.lookup("__contains__")
            if isinstance(m, FuncV):
                return I.truth(I.call(replace(m, selfv=c, cls=o.cls), [x], {}, st, node, fr), st)
            return None
        if isinstance(o, HList):
            if o.items is not None:
                its = [I.key(i, st) for i in o.items]
                if isinstance(x, Const):
                    if any(isinstance(i, Const) and keq(i, x) for i in its):
                        return True
                    if all(isinstance(i, (Const, Ext, ClsV)) for i in its):
                        return False
                    if its and all(isinstance(i, Ref) and isinstance(I.get_obj(st, i.addr), HObj) for i in its):
                        I.event("neverin", node, fr, what=f"constant {x.v!r} tested for membership in a list of {I.describe(its[0], st)}")
                        return False
                elif isinstance(x, Ext) and all(isinstance(i, (Const, Ext, ClsV)) for i in its):
                    return any(keq(i, x) for i in its)
                if not its:
                    return False
                return None
            e = o.elem
            if isinstance(x, Const) and isinstance(e, Ref) and isinstance(I.get_obj(st, e.addr), HObj):
                I.event("neverin", node, fr, what=f"constant {x.v!r} tested for membership in a list of {I.describe(e, st)}")
                return False
            if isinstance(x, Const) and e is not None and all(isinstance(a, Const) and not keq(a, x) for a in alts(e)):
                return False
            return None
        if isinstance(o, HDict):
            if isinstance(x, (Const, Ext, ClsV)):
                if o.get(x) is not None:
                    return None if o.weak else True
                return None if o.has_unknown() else False
            if not o.entries and not o.has_unknown():
                return False
            if isinstance(x, Unk) and I.focus is not None and not o.weak and _focus_entries(I, o, st):
                return True
            return None
    return None


# --------------------------------------------------------------------------- subscripting
def _focus_match(I, v, st):
    f = I.focus
    if isinstance(v, Const):
        if v.v == f:
            return True
        if isinstance(v.v, tuple) and f in v.v:
            return True
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList) and o.items is not None and o.typ in ("tuple", "list"):
            return any(isinstance(i, Const) and i.v == f for i in o.items)
    return False


def _focus_entries(I, o, st):
    if I.focus is None:
        return []
    return [(k, v) for k, v in o.entries if _focus_match(I, v, st)]


def subscript(I, a, k, st, fr, node):
    k = I.key(k, st) if isinstance(k, Ref) else k
    if isinstance(a, Const):
        if isinstance(k, Const) and isinstance(a.v, (str, bytes, tuple)) and not isinstance(a.v, (Sl, DT)):
            try:
                kk = slice(*k.v) if isinstance(k.v, Sl) else k.v
                return Const(a.v[kk], a.recs)
            except IndexError:
                I.event("indexerror", node, fr, what="index out of range")
                I.raise_(st, fr, "IndexError", node)
            except TypeError:
                I.event("typeerror", node, fr, what=f"bad index {k.v!r} into constant", v=a)
                I.raise_(st, fr, "TypeError", node)
        if isinstance(a.v, (str, bytes)):
            return Unk(recs=a.recs, kind="str" if isinstance(a.v, str) else "bytes")
        if isinstance(a.v, tuple):
            return join_all([Const(x, a.recs) for x in a.v]) if a.v else UNK
        if a.v is None or isinstance(a.v, (int, float)):
            I.event("typeerror", node, fr, what=f"constant {a.v!r} is not subscriptable", v=a)
            I.raise_(st, fr, "TypeError", node)
        return UNK
    if isinstance(a, Ref):
        o = I.get_obj(st, a.addr)
        if isinstance(o, HList):
            return list_subscript(I, a, o, k, st, fr, node)
        if isinstance(o, HDict):
            return I.map_alts(k, lambda kk: dict_subscript(I, a, o, kk, st, fr, node))
        if isinstance(o, HObj):
            if o.cls == "structarr":
                if isinstance(k, Const) and isinstance(k.v, str):
                    v = o.get(k.v)
                    if v is None:
                        I.raise_(st, fr, "ValueError", node)
                    return v
                return a if isinstance(k, Const) and isinstance(k.v, (Sl, int)) else Unk(recs=flat_recs(I, a, st))
            if isinstance(o.cls, ClsV):
                m = o.cls.lookup("__getitem__")
                if isinstance(m, FuncV):
                    return I.call(replace(m, selfv=a, cls=o.cls), [k], {}, st, node, fr)
                if set(o.cls.ext_bases()) - {"builtins.object"}:
                    return UNK
                I.event("typeerror", node, fr, what=f"{I.describe(a, st)} is not subscriptable", v=a)
                I.raise_(st, fr, "TypeError", node)
            return UNK
        return UNK
    if isinstance(a, Unk):
        return I.map_alts(k, lambda kk: unk_subscript(I, a, kk, st, fr, node))
    if isinstance(a, Ext):
        return a  # typing generics
    if isinstance(a, (FuncV, ModV, PartialV)):
        I.event("typeerror", node, fr, what=f"{I.describe(a, st)} is not subscriptable", v=a)
        I.raise_(st, fr, "TypeError", node)
    return Unk(recs=degrade(recs_of(a)))


def list_subscript(I, a, o, k, st, fr, node):
    if isinstance(k, Alt):
        return I.map_alts(k, lambda kk: list_subscript(I, a, o, kk, st, fr, node))
    if isinstance(k, Const):
        if o.items is not None:
            if isinstance(k.v, int):
                try:
                    return o.items[k.v]
                except IndexError:
                    I.event("indexerror", node, fr, what=f"index {k.v} out of range for length {len(o.items)}")
                    I.raise_(st, fr, "IndexError", node)
            if isinstance(k.v, Sl):
                try:
                    its = o.items[slice(*k.v)]
                except Exception:
                    return UNK
                return I.alloc(st, replace(o, items=tuple(its), own=None if o.typ != "nd" else o.own), node, fr, "slice")
            if isinstance(k.v, tuple) and o.typ == "nd":
                # multi axis on constant arrays
                if all(isinstance(x, int) for x in k.v):
                    # fancy list index arrives as Const tuple too (key() normalises lists)
                    if getattr(node, "slice", None) is not None and isinstance(node.slice, ast.Tuple):
                        v = a
                        for x in k.v:
                            v = subscript(I, v, Const(x), st, fr, node)
                        return v
                    try:
                        return I.alloc(st, HList(tuple(o.items[x] for x in k.v), None, "nd"), node, fr, "fancy")
                    except IndexError:
                        return UNK
            if isinstance(k.v, str):
                if o.typ in ("list", "tuple"):
                    I.event("typeerror", node, fr, what=f"list indexed with string {k.v!r}", v=a)
                    I.raise_(st, fr, "TypeError", node)
                return Unk(recs=flat_recs(I, a, st), kind="arr")
        elif isinstance(k.v, str) and o.typ in ("list", "tuple"):
            I.event("typeerror", node, fr, what=f"list indexed with string {k.v!r}", v=a)
            I.raise_(st, fr, "TypeError", node)
        elif isinstance(k.v, int):
            e = o.element()
            if isinstance(e, Unk) and e.kind in SCALAR:
                return replace(e, recs=frozenset(r._replace(cols=cols_item(r.cols, k.v)) for r in e.recs), sym=None)
            return e
        elif isinstance(k.v, Sl):
            e = o.elem
            if isinstance(e, Unk) and e.kind in SCALAR:
                e = replace(e, recs=frozenset(r._replace(cols=cols_slice(r.cols, *k.v)) for r in e.recs), sym=None)
            return I.alloc(st, replace(o, elem=e, own=None, nonempty=False), node, fr, "slice")
        elif isinstance(k.v, tuple) and all(isinstance(i, int) for i in k.v):
            e = o.elem
            if isinstance(e, Unk) and e.kind in SCALAR and o.typ == "nd":
                return replace(e, recs=frozenset(r._replace(cols=cols_select(r.cols, k.v)) for r in e.recs), sym=None, kind="row")
        return o.element()
    if isinstance(k, Unk) and k.kind == "slice":
        return I.alloc(st, HList(None, o.element() if o.items != () else None, o.typ, o.own if o.typ == "nd" else None), node, fr, "slice")
    if isinstance(k, Ref):
        ok = I.get_obj(st, k.addr)
        if o.typ in ("list", "tuple") and isinstance(ok, HList) and ok.typ == "tuple":
            # list[:, x]: only valid on arrays
            I.event("typeerror", node, fr, what="list indexed with a tuple", v=a)
            I.raise_(st, fr, "TypeError", node)
        if o.typ in ("list", "tuple") and isinstance(ok, (HObj, HDict)):
            I.event("typeerror", node, fr, what=f"list indexed with {I.describe(k, st)}", v=a)
            I.raise_(st, fr, "TypeError", node)
        if o.typ == "nd":
            return Unk(recs=flat_recs(I, a, st), kind="arr")
    return o.element()


def dict_subscript(I, a, o, k, st, fr, node):
    definite = isinstance(k, (Const, Ext, ClsV)) and not o.weak and (o.get(k) is not None or not o.has_unknown())
    (I.safe_subs if definite else I.unsafe_subs).add(id(node))
    if isinstance(k, (Const, Ext, ClsV)):
        v = o.get(k)
        if v is not None:
            if o.weak or False:
                pass
            if isinstance(k, Const) and k.recs:
                I.event("lookup", node, fr, addr=a.addr, key=k, value=v, k=(a.addr, k.v))
                if isinstance(v, Const):
                    rs = v.recs | k.recs
                    if isinstance(v.v, (int, str, bytes)) and any(isinstance(q.origin, str) and q.origin.endswith(".type") for q in k.recs):
                        rs = rs | {Rec(f"desig:{v.v!r}")}
                    return Const(v.v, rs)
            return v
        if o.default is not None:
            dv = I.call(o.default, [], {}, st, node, fr)
            st.heap[a.addr] = I.dict_put(I.get_obj(st, a.addr), k, dv)
            return dv
        if o.has_unknown():
            return o.rest_v
        I.event("keyerror", node, fr, addr=a.addr, key=k, k=str(k))
        I.raise_(st, fr, "KeyError", node)
    if isinstance(k, Ref):
        ok = I.get_obj(st, k.addr)
        if isinstance(ok, HDict) or (isinstance(ok, HList) and ok.typ in ("list", "nd")):
            I.event("typeerror", node, fr, what=f"unhashable key: {I.describe(k, st)}", v=k)
            I.raise_(st, fr, "TypeError", node)
    # unknown key
    I.event("lookup_unk", node, fr, addr=a.addr, key=k, k=a.addr)
    if I.assume:
        hit = assumed_key(I, k, [q for q, _ in o.entries], st)
        if hit:
            return join_all([o.get(q) if o.get(q) is not None else dict((id(x), y) for x, y in o.entries)[id(q)] for q in hit])
    fe = _focus_entries(I, o, st)
    if fe:
        if isinstance(k, Unk) and k.sym is not None and len(fe) == 1 and isinstance(fe[0][0], Const):
            st.refine[k.sym] = fe[0][0]
            I.found[k.sym] = fe[0][0]
        return join_all([v for _, v in fe])
    if not o.entries and not o.has_unknown() and o.default is None:
        I.raise_(st, fr, "KeyError", node, maybe=True)
        return UNK
    I.raise_(st, fr, "KeyError", node, maybe=True)
    v = o.values_join()
    if o.default is not None and not o.entries and not o.has_unknown():
        dv = I.call(o.default, [], {}, st, node, fr)
        st.heap[a.addr] = replace(I.get_obj(st, a.addr), rest_k=k, rest_v=dv)
        return dv
    if o.has_unknown():
        v = map_recs(v, flat_recs(I, k, st), key_shift(flat_recs(I, o.rest_k, st)) if o.rest_k is not None and not o.entries else None)
    return v


def key_shift(recs):
    """What was added to the file's numbers before they became keys; None if not known."""
    offs = {r.off for r in recs if r.origin == "file"}
    return offs.pop() if len(offs) == 1 and all(r.origin == "file" for r in recs) else None


def map_recs(v, krecs, made=None):
    """Result of an index-map lookup: keeps the structure of the key, loses its shift (made: shift of the keys in the map)."""
    if not krecs:
        return v

    def one(x):
        c = ctr_of(x)
        if c is not None and not x.recs:
            d = lambda r: c if made is None or r.origin != "file" or r.off is None else c + r.off - made
            return replace(x, extra=None, recs=frozenset(r._replace(off=d(r), origin="mapped" if r.origin == "file" else r.origin) for r in krecs))
        if isinstance(x, Unk) and x.kind not in SINKS and x.kind not in ("str", "bytes", "list", "row", "path"):
            if x.kind in (None, "int", "num", "float") and x.recs and all(r.origin == "file" and r.off is not None for r in x.recs) and all(r.origin == "file" for r in krecs):
                return replace(x, recs=frozenset(r._replace(off=x_.off) for x_ in x.recs for r in krecs))  # the file's own numbers
            ko = {r.origin for r in krecs}
            keep = frozenset(r for r in x.recs if r.origin not in ko)
            return replace(x, recs=keep | frozenset(r._replace(off=None) for r in krecs))
        if isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool):
            return Unk(kind="int", recs=frozenset(r._replace(off=None) for r in krecs))
        return x
    if isinstance(v, Alt):
        return join_all([one(x) for x in v.alts])
    return one(v)


def _dims(I, v, st):
    pass


def conn_recs(k):
    """Connectivity used as an index: what is selected still depends on it."""
    return degrade(frozenset(r for r in k.recs if r.origin.startswith("cells[") and r.origin.endswith(".data")))


def gather_parts(v):
    """``points[cells]``: (recs of the index, recs of the gathered array) or None."""
    if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("gather",):
        return v.extra[1], v.extra[2]
    return None


def gather(base, krecs, arecs, shape):
    return Unk(recs=arecs | krecs, kind="arr" if len(shape) > 1 else "row", shape=shape, dtype=base.dtype, extra=("gather", krecs, arecs))


def gather_item(v, i):
    kr, ar = gather_parts(v)
    if len(v.shape) == 3:
        return gather(v, kr, ar, v.shape[1:])
    kr = frozenset(r._replace(cols=cols_item(r.cols, i) if i is not None else None) for r in kr)
    row = Unk(recs=kr | ar, kind="row", shape=v.shape[1:], dtype=v.dtype)
    if isinstance(v.shape[1], int):
        return with_cols(row, tuple(kr | frozenset(r._replace(cols=cols_item(r.cols, j)) for r in ar) for j in range(v.shape[1])), v.shape[1:], "row")
    return row


def row_tag(a, k, node):
    """How a subscript selects rows of an array with at least two axes: None (all or single rows), "part" or "rev"."""
    if a.shape is None or len(a.shape) < 1 or len(a.shape) < 2 and not (isinstance(a.shape[0], int) and a.kind == "arr") or a.kind in SINKS or t_orig(a) is not None:
        return None
    if isinstance(k, Const) and isinstance(k.v, tuple) and isinstance(getattr(node, "slice", None), ast.Tuple):
        sl = k.v[0] if k.v else None
    else:
        sl = k.v if isinstance(k, Const) else None
    if not isinstance(sl, Sl) or sl == Sl(None, None, None):
        return None
    if isinstance(sl.c, int) and sl.c < 0:
        return "rev"
    if sl.a in (None, 0) and sl.b is None and sl.c in (None, 1):
        return None
    n = a.shape[0]
    if isinstance(n, int) and sl.c in (None, 1) and all(x is None or isinstance(x, int) for x in (sl.a, sl.b)):
        lo, hi, _ = slice(sl.a, sl.b).indices(n)
        return None if (lo, hi) == (0, n) else ("iv", lo, max(lo, hi))
    return "part"


def row_compose(old, new):
    """Rows ``new`` of rows ``old``."""
    if old is None:
        return new
    if isinstance(old, tuple) and isinstance(new, tuple):
        return ("iv", old[1] + new[1], old[1] + new[2])
    return old


def chosen_by(I, k, st):
    """Origins of the data whose values select rows: a mask, or the positions at which it holds."""
    if isinstance(k, Ref):
        o = I.get_obj(st, k.addr)
        return chosen_by(I, o.items[0], st) if isinstance(o, HList) and o.items is not None and len(o.items) == 1 else frozenset()
    if not isinstance(k, Unk):
        return frozenset()
    if isinstance(k.extra, tuple) and k.extra[:1] == ("cmp",) and len(k.extra) == 4:
        return frozenset(x.origin for x in k.extra[2] if x.origin.startswith("cell_data["))
    return frozenset(x for r in k.recs if r.origin.startswith("where|") for x in r.origin.split("|")[2].split(",") if x.startswith("cell_data["))


def unk_subscript(I, a, k, st, fr, node):
    v = unk_subscript_(I, a, k, st, fr, node)
    if len(a.recs) == 1 and next(iter(a.recs)).origin.startswith("cells["):
        by = chosen_by(I, k, st)
        if by:
            I.event("select", node, fr, of=next(iter(a.recs)).origin, by=by)
    t = row_tag(a, k, node)
    if t is not None and isinstance(v, Unk):
        v = replace(v, recs=frozenset(r._replace(rows=row_compose(r.rows, t)) for r in v.recs))
    return v


def unk_subscript_(I, a, k, st, fr, node):
    if gather_parts(a) is not None:
        if len(a.shape) in (2, 3) and isinstance(k, Const) and isinstance(k.v, int):
            return gather_item(a, k.v)
        a = replace(a, extra=None)
    if composite(a) is not None:
        r = comp_subscript(I, a, k, st, node)
        if r is not None:
            cr = composite(r)
            if cr is not None and any(isinstance(c, ZeroCol) for c in cr):
                I.event("colstack", node, fr, parts=["zeros" if isinstance(c, ZeroCol) else frozenset(x.origin for x in c) for c in cr])
            return r
    to = t_orig(a)
    if to is not None:
        if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
            return _axes(I, to, replace(to, sym=None, extra=None), [Const(Sl(None, None, None)), k], st, fr, node)
        if isinstance(k, Const) and isinstance(k.v, tuple) and not isinstance(getattr(node, "slice", None), ast.Tuple) and all(isinstance(i, int) for i in k.v):
            return transpose(_axes(I, to, replace(to, sym=None, extra=None), [Const(Sl(None, None, None)), k], st, fr, node))
        if isinstance(k, Const) and isinstance(k.v, Sl):
            return transpose(_axes(I, to, replace(to, sym=None, extra=None), [Const(Sl(None, None, None)), k], st, fr, node))
        a = replace(a, extra=None)
    sym = mk_sym("[]", a.sym, sym_of(k))
    base = replace(a, sym=sym, extra=a.extra if a.kind in SINKS else None)
    if a.kind in ("file",):
        return Unk()
    if a.kind in ("h5", "xml", "nc"):
        if a.kind == "xml" and isinstance(k, Const) and isinstance(k.v, str):
            r = attr_value(I, k.v)
            if r is False:
                I.raise_(st, fr, "KeyError", node)
            elif r is not None:
                return r
        return replace(base, shape=None)
    if a.kind in ("none",):
        I.raise_(st, fr, "TypeError", node)
    if isinstance(k, Const):
        kv = k.v
        if isinstance(kv, bool):
            return replace(base, own=frozenset())
        if isinstance(kv, int):
            if a.shape is not None:
                if len(a.shape) == 1:
                    return Unk(recs=frozenset(r._replace(cols=cols_item(r.cols, kv)) for r in a.recs), kind="tok", sym=sym, dtype=a.dtype)
                if len(a.shape) == 2:
                    return replace(base, shape=a.shape[1:], kind="row")
                return replace(base, shape=a.shape[1:])
            if a.extra == ("subtok",):
                return Unk(recs=a.recs, kind="tok", sym=sym)
            if a.kind in ("list", "row", "tuple"):
                return Unk(recs=frozenset(r._replace(cols=cols_item(r.cols, kv)) for r in a.recs), kind="tok", sym=sym)
            if a.kind in ("str", "bytes"):
                return Unk(recs=a.recs, kind="str" if a.kind == "str" else "int", sym=sym)
            return replace(base, recs=frozenset(r._replace(cols=None) for r in a.recs), kind=None if a.kind == "arr" else a.kind, shape=None)
        if isinstance(kv, Sl):
            full = kv == Sl(None, None, None)
            if (a.shape is not None and len(a.shape) == 1) or a.kind in ("list", "row", "tuple"):
                own = a.own if a.kind != "list" else frozenset()
                shp = None
                if a.shape is not None:
                    d = a.shape[0]
                    if full:
                        shp = a.shape
                    elif isinstance(d, int):
                        try:
                            shp = (len(range(d)[slice(*kv)]),)
                        except Exception:
                            shp = (None,)
                    else:
                        shp = (None,)
                return replace(base, recs=frozenset(r._replace(cols=cols_slice(r.cols, *kv)) for r in a.recs), own=own, shape=shp)
            if a.kind in ("str", "bytes"):
                return base
            if a.shape is not None and len(a.shape) >= 2:
                return replace(base, shape=(a.shape[0] if full else None,) + a.shape[1:])
            if full:
                return base
            return replace(base, recs=a.recs, shape=None)
        if isinstance(kv, str):
            return replace(base, shape=None, kind=a.kind if a.kind not in ("str",) else a.kind)
        if kv is None:
            return replace(base, shape=(1,) + a.shape if a.shape is not None else None)
        if kv is Ellipsis:
            return base
        if isinstance(kv, tuple):
            is_axes = isinstance(getattr(node, "slice", None), ast.Tuple)
            if is_axes:
                return _axes(I, a, base, [Const(x) for x in kv], st, fr, node)
            if all(isinstance(i, int) for i in kv):
                return _fancy(I, a, base, kv)
        return replace(base, shape=None, own=frozenset())
    if isinstance(k, Unk) and k.kind == "slice":
        lo, hi, step = k.extra or (None, None, None)
        if lo in (NONE, Const(0)) and step in (NONE, Const(1)) and a.shape and isinstance(a.shape[0], str) and dim_of_value(hi) == a.shape[0]:
            return a  # x[: len(x)]
        if (a.shape is not None and len(a.shape) == 1) or a.kind in ("list", "row"):
            cs = [None]
            if not isinstance(hi, Const) and all(isinstance(x, Const) and (x.v is None or isinstance(x.v, int)) for x in alts(lo)):
                cs = [x.v or 0 for x in alts(lo)]
            rs = frozenset(
                r._replace(cols=cols_slice(r.cols, c, None, None) if c is not None and step == NONE
                           else ID if r.origin == "file" and r.cols == ID and step == NONE and a.kind != "list" else None) for r in a.recs for c in cs)
            return replace(base, recs=rs, shape=(None,) if a.shape is not None else None, own=a.own if a.kind != "list" else frozenset())
        if a.kind in ("str", "bytes"):
            return base
        return replace(base, shape=(None,) + a.shape[1:] if a.shape else None)
    if isinstance(k, Unk):
        if isinstance(k.extra, tuple) and k.extra[:1] == ("idx",):
            idx = k.extra[1]
            m = min(idx) if idx else 0
            rs = frozenset(r._replace(cols=tuple(i - m for i in idx)) for r in a.recs)
            return replace(base, recs=rs, own=frozenset(), shape=(len(idx),) if k.shape is not None and len(k.shape) == 1 else (None, len(idx)), sym=None)
        if k.kind in ("int", "tok"):
            if a.shape is not None:
                if len(a.shape) == 1:
                    return Unk(recs=frozenset(r._replace(cols=None if cols_finite(r.cols) else r.cols) for r in a.recs), kind="tok", sym=sym)
                return replace(base, shape=a.shape[1:], kind="row" if len(a.shape) == 2 else a.kind)
            if a.kind in ("list", "row"):
                return Unk(recs=a.recs, kind="tok", sym=sym)
            return replace(base, kind=None, shape=None)
        if (k.kind in ("arr", "row") and k.recs and a.recs and a.shape is not None and len(a.shape) == 2 and k.shape is not None
                and isinstance(k.shape[-1], int) and (len(k.shape) == 2 or k.kind == "row" and len(k.shape) == 1)
                and not (k.dtype and k.dtype.name == "bool") and composite(k) is None and t_orig(k) is None):
            return gather(a, k.recs, a.recs, k.shape + a.shape[1:])
        if isinstance(a.extra, tuple) and a.extra[:1] == ("inv",) and k.recs and not (k.dtype and k.dtype.name == "bool"):
            return map_recs(Unk(kind="arr", shape=k.shape, dtype=a.dtype, sym=sym, extra=("ctr", a.extra[1])), k.recs, a.extra[2])
        # mask or index array: copies
        if (k.kind in ("arr", "row") and k.recs and (a.shape is None or len(a.shape) == 1)
                and not (a.shape is None and a.recs) and not (k.dtype and k.dtype.name == "bool")):
            return map_recs(replace(base, own=frozenset(), shape=k.shape, kind="arr"), k.recs)
        if k.kind == "arr" and k.extra == ("order",) and a.recs and all(r.rows is None for r in a.recs) and not any(r.origin == "file" for r in a.recs):
            if a.kind == "row":
                return replace(base, own=frozenset(), shape=a.shape, recs=frozenset(r._replace(cols=None, rows="nsort") for r in a.recs))
            return replace(base, own=frozenset(), shape=a.shape, recs=frozenset(r._replace(rows="perm") for r in a.recs))
        if k.kind == "arr" and isinstance(k.extra, tuple) and k.extra == ("ctr", 0) and a.shape and k.shape == a.shape[:1] and isinstance(a.shape[0], str):
            return replace(a, own=frozenset())  # x[np.arange(len(x))]
        if k.kind == "arr" or k.kind is None:
            shp = None
            if a.shape is not None:
                shp = (None,) + a.shape[1:] if k.shape is None or len(k.shape) == 1 else None
            some = k.dtype is not None and k.dtype.name == "bool" or isinstance(k.extra, tuple) and k.extra[:1] == ("cmp",) or any(r.origin.startswith("where|") for r in k.recs)
            return replace(base, own=frozenset() if k.kind == "arr" else a.own, shape=shp, recs=base.recs | conn_recs(k), extra=("filter",) if some and base.extra is None else base.extra)
        return replace(base, shape=None, recs=base.recs | conn_recs(k))
    if isinstance(k, Ref):
        o = I.get_obj(st, k.addr)
        if isinstance(o, HList):
            if o.typ == "tuple" and isinstance(getattr(node, "slice", None), ast.Tuple) and o.items is not None:
                return _axes(I, a, base, list(o.items), st, fr, node)
            if o.typ in ("list", "nd") and o.items is not None and all(isinstance(i, Const) and isinstance(i.v, int) for i in o.items):
                return _fancy(I, a, base, tuple(i.v for i in o.items))
            if o.typ == "tuple" and o.items is not None:
                return _axes(I, a, base, list(o.items), st, fr, node)
        return replace(base, own=frozenset(), shape=None)
    return replace(base, shape=None)


def _fancy(I, a, base, idx):
    if (a.shape is not None and len(a.shape) == 1) or a.kind in ("row",):
        return replace(base, recs=frozenset(r._replace(cols=cols_select(r.cols, idx)) for r in a.recs), own=frozenset(), shape=(len(idx),))
    return replace(base, own=frozenset(), shape=(len(idx),) + a.shape[1:] if a.shape else None)


def _axes(I, a, base, ks, st, fr, node):
    """Multi-axis subscript; the last axis holds the columns."""
    ks = [I.key(x, st) if isinstance(x, Ref) else x for x in ks]
    if any(isinstance(x, Const) and x.v is None for x in ks):
        if len(ks) == 2 and isinstance(ks[0], Const) and ks[0].v == Sl(None, None, None) and a.shape is not None and len(a.shape) == 1 and not a.recs and ctr_of(a) is not None and a.kind == "arr":
            # running numbers as a column
            return replace(base, shape=(a.shape[0], 1), extra=a.extra)
        return replace(base, shape=None)
    own = a.own
    nd = len(a.shape) if a.shape is not None else len(ks)
    ell = [i for i, x in enumerate(ks) if isinstance(x, Const) and x.v is Ellipsis]
    if ell:
        i = ell[0]
        fill = max(nd - (len(ks) - 1), 0)
        ks = ks[:i] + [Const(Sl(None, None, None))] * (fill if a.shape is not None else 1) + ks[i + 1:]
        if a.shape is None:
            nd = len(ks)
    shape = []
    recs = a.recs
    for ax, x in enumerate(ks):
        last = ax == nd - 1
        d = a.shape[ax] if a.shape is not None and ax < len(a.shape) else None
        if isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool):
            if last:
                recs = frozenset(r._replace(cols=cols_item(r.cols, x.v)) for r in recs)
        elif isinstance(x, Const) and isinstance(x.v, Sl):
            if last:
                recs = frozenset(r._replace(cols=cols_slice(r.cols, *x.v)) for r in recs)
            if x.v == Sl(None, None, None):
                shape.append(d)
            elif isinstance(d, int):
                try:
                    shape.append(len(range(d)[slice(*x.v)]))
                except Exception:
                    shape.append(None)
            elif x.v.a in (None, 0) and isinstance(x.v.b, int) and x.v.b >= 0 and x.v.c is None:
                shape.append(x.v.b if last and recs and False else None)
            else:
                shape.append(None)
        elif isinstance(x, Const) and isinstance(x.v, tuple):
            own = frozenset()
            shape.append(len(x.v))
            if last:
                if all(isinstance(i, int) and not isinstance(i, bool) for i in x.v):
                    recs = frozenset(r._replace(cols=cols_select(r.cols, x.v)) for r in recs)
                else:
                    recs = frozenset(r._replace(cols=None) for r in recs)
        elif isinstance(x, Ref):
            own = frozenset()
            o = I.get_obj(st, x.addr)
            its = o.items if isinstance(o, HList) else None
            shape.append(len(its) if its is not None else None)
            if last:
                if its is not None and all(isinstance(i, Const) and isinstance(i.v, int) for i in its):
                    recs = frozenset(r._replace(cols=cols_select(r.cols, tuple(i.v for i in its))) for r in recs)
                else:
                    recs = frozenset(r._replace(cols=None) for r in recs)
        elif isinstance(x, Unk) and x.kind == "slice":
            if last:
                lo, hi, step = x.extra
                c = None
                if isinstance(lo, Const) and isinstance(hi, Unk) and step == NONE:
                    c = lo.v or 0
                recs = frozenset(r._replace(cols=cols_slice(r.cols, c, None, None) if c is not None else None) for r in recs)
            shape.append(None)
        elif isinstance(x, Unk) and x.kind in ("int", "tok"):
            if last:
                recs = frozenset(r._replace(cols=None if not len(ks) == 1 else r.cols) for r in recs)
        else:
            if last:
                recs = frozenset(r._replace(cols=None) for r in recs)
            if isinstance(x, Unk) and x.kind == "arr":
                own = frozenset()
            shape.append(None)
    if a.shape is not None:
        shape += list(a.shape[len(ks):])
        shp = tuple(shape)
    else:
        shp = None
    kind = a.kind if a.kind not in (None, "list") else "arr"
    if shp == ():
        return Unk(recs=recs, kind="tok", sym=base.sym)
    return replace(base, recs=recs, own=own, shape=shp, kind=kind)


def scalar_like(v):
    return isinstance(v, Unk) and v.kind in SCALAR


# --------------------------------------------------------------------------- item assignment
def set_item(I, c, k, v, st, fr, node):
    k = I.key(k, st) if isinstance(k, Ref) else k
    strong = not isinstance(c, Alt)
    for a in alts(c):
        if isinstance(a, Ref):
            o = I.get_obj(st, a.addr)
            if isinstance(o, HDict):
                if o.own:
                    I.event("mutate", node, fr, path=o.own + "[" + (repr(k.v) if isinstance(k, Const) else "*") + "]", how="item assignment", k=(o.own, str(k)))
                if isinstance(k, Ref):
                    ko = I.get_obj(st, k.addr)
                    if isinstance(ko, HDict) or isinstance(ko, HList) and ko.typ in ("list", "nd"):
                        I.event("typeerror", node, fr, what=f"unhashable key: {I.describe(k, st)}", v=k)
                        I.raise_(st, fr, "TypeError", node)
                if isinstance(k, Const):
                    k2 = Const(k.v, k.recs)
                else:
                    k2 = k
                if strong:
                    st.heap[a.addr] = I.dict_put(o, k2, v)
                else:
                    old = o.get(k2) if is_exact_key(k2) else None
                    st.heap[a.addr] = replace(I.dict_put(o, k2, join(old, v)), weak=o.weak or old is None)
            elif isinstance(o, HList):
                if o.own:
                    I.event("mutate", node, fr, path=o.own + "[*]", how="item assignment", k=(o.own, "item"))
                if o.typ == "tuple":
                    I.event("typeerror", node, fr, what="tuple does not support item assignment", v=a)
                    I.raise_(st, fr, "TypeError", node)
                if o.items is not None and isinstance(k, Const) and isinstance(k.v, int) and strong:
                    it = list(o.items)
                    try:
                        it[k.v] = v
                    except IndexError:
                        I.event("indexerror", node, fr, what="assignment index out of range")
                        I.raise_(st, fr, "IndexError", node)
                    st.heap[a.addr] = replace(o, items=tuple(it))
                else:
                    if o.typ in ("list",) and isinstance(k, Const) and isinstance(k.v, str):
                        I.event("typeerror", node, fr, what=f"list indexed with string {k.v!r}", v=a)
                        I.raise_(st, fr, "TypeError", node)
                    sl = isinstance(k, Unk) and k.kind == "slice" or isinstance(k, Const) and isinstance(k.v, Sl)
                    vv = v
                    if sl and o.typ == "list":
                        its, el, _ = I.iter_items(v, st, fr, node)
                        vv = join_all(its) if its else (el or UNK)
                    full = isinstance(k, Const) and k.v == Sl(None, None, None)
                    if strong and o.items is None and isinstance(k, Unk) and k.extra == ("at", a.addr) and a.addr in I.maploops:
                        # in-place map over the list being enumerated
                        old = st.heap.get(("map", a.addr))
                        st.heap[("map", a.addr)] = HList(None, join(old.elem, v) if old is not None else v, "list")
                        st.facts |= {("mapped", a.addr)}
                    elif strong and full and o.typ == "list" and vv is not v:
                        st.heap[a.addr] = replace(o, items=None, elem=vv, nonempty=False)
                    elif o.items is not None and not sl:
                        st.heap[a.addr] = replace(o, items=tuple(join(x, vv) for x in o.items))
                    else:
                        st.heap[a.addr] = replace(o, items=None, elem=join(o.element() if o.items != () else None, vv), nonempty=o.nonempty or bool(o.items))
            elif isinstance(o, HObj):
                if o.cls == "structarr":
                    if isinstance(k, Const) and isinstance(k.v, str):
                        fd = o.get(k.v)
                        st.heap[a.addr] = o.set(k.v, narrow_value(v, fd.dtype) if isinstance(fd, Unk) else v)
                    else:
                        n = o
                        for f, old in o.attrs:
                            n = n.set(f, join(old, v))
                        st.heap[a.addr] = n
                elif isinstance(o.cls, ClsV):
                    m = o.cls.lookup("__setitem__")
                    if isinstance(m, FuncV):
                        I.call(replace(m, selfv=a, cls=o.cls), [k, v], {}, st, node, fr)
                    elif not set(o.cls.ext_bases()) - {"builtins.object"}:
                        I.event("typeerror", node, fr, what=f"{I.describe(a, st)} does not support item assignment", v=a)
                        I.raise_(st, fr, "TypeError", node)
        elif isinstance(a, Unk):
            if a.own:
                I.note_mutation(a, st, fr, node, "item assignment")
            if a.kind in SINKS:
                ext_store(I, a, k, v, st, fr, node)
            else:
                I.event("astore", node, fr, arr=a, key=k, value=v, recs=flat_recs(I, k, st), k=(str(a.shape), str(k), str(v)))
                unk_update(I, a, k, v, st, fr, node)


def unk_update(I, a, k, v, st, fr, node):
    """x[k] = v on an array value: rebind the assigned location to the updated value."""
    fdt = a.dtype
    if isinstance(fdt, DT) and fdt.name == "fields":
        fdt = dict(fdt.order).get(k.v) if isinstance(k, Const) and isinstance(k.v, str) else None
    v = narrow_value(v, fdt)
    tgt = None
    targets = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []
    for t in targets:
        for sub in ast.walk(t):
            if isinstance(sub, ast.Subscript):
                tgt = sub.value
                break
        if tgt is not None:
            break
    if tgt is None:
        return
    while isinstance(tgt, ast.Subscript):
        tgt = tgt.value
    rv = flat_recs(I, v, st)
    if not rv and isinstance(k, Const) and isinstance(k.v, str) and isinstance(v, Unk) and v.kind == "arr" and run_of(v) is not None:
        rv = frozenset({Rec(f"run:{run_of(v)}", ID)})
    F = Sl(None, None, None)
    whole = isinstance(k, Const) and (k.v == F or k.v is Ellipsis)
    ko = I.get_obj(st, k.addr) if isinstance(k, Ref) else None
    if isinstance(ko, HList) and ko.items and all(isinstance(x, Const) and x.v == F for x in ko.items):
        whole = True
    if isinstance(k, Const) and isinstance(k.v, tuple) and not isinstance(k.v, Sl) and k.v and all(x == F for x in k.v):
        whole = True
    new = replace(a, recs=rv if whole and not a.recs else a.recs | rv, sym=None)
    if isinstance(tgt, ast.Name):
        cur = I.load_name(tgt.id, st, fr, tgt)
        if isinstance(cur, Unk):
            direct = isinstance(tgt, ast.Name) and any(isinstance(t, ast.Subscript) and t.value is tgt for t in targets)
            if whole and direct and isinstance(v, Unk) and v.kind in ("arr", "row") and not isinstance(node, ast.AugAssign):
                I.bind_existing(tgt.id, replace(cur, recs=rv, sym=None, extra=v.extra), st, fr)
            elif direct and isinstance(k, Unk) and not isinstance(node, ast.AugAssign) and ctr_of(v) is not None and not rv and k.kind in ("arr", "row", "int", "tok") and key_shift(k.recs) is not None:
                # inverse table: position of each number
                I.bind_existing(tgt.id, replace(cur, sym=None, extra=("inv", ctr_of(v), key_shift(k.recs))), st, fr)
            else:
                I.bind_existing(tgt.id, replace(cur, recs=cur.recs | rv, sym=None), st, fr)
        elif isinstance(cur, Alt):
            I.bind_existing(tgt.id, I.map_alts(cur, lambda z: replace(z, recs=z.recs | rv) if isinstance(z, Unk) else z), st, fr)
        elif isinstance(cur, Ref):
            # container of arrays: update matching elements weakly
            o = I.get_obj(st, cur.addr)
            up = lambda z: I.map_alts(z, lambda q: replace(q, recs=q.recs | rv, sym=None) if isinstance(q, Unk) and q.kind in ("arr", "row", None) else q)
            if isinstance(o, HList):
                if o.items is not None:
                    st.heap[cur.addr] = replace(o, items=tuple(up(x) for x in o.items))
                elif o.elem is not None:
                    st.heap[cur.addr] = replace(o, elem=up(o.elem))
            elif isinstance(o, HDict):
                st.heap[cur.addr] = replace(o, entries=tuple((kk, up(x)) for kk, x in o.entries), rest_v=up(o.rest_v) if o.rest_v is not None else None)
    elif isinstance(tgt, ast.Attribute):
        try:
            c = I.ev(tgt.value, st, fr)
        except Exception:
            return
        if isinstance(c, Ref):
            o = I.get_obj(st, c.addr)
            if isinstance(o, HObj):
                cur = o.get(tgt.attr)
                if isinstance(cur, Unk):
                    st.heap[c.addr] = o.set(tgt.attr, replace(cur, recs=cur.recs | rv, sym=None))


def ext_store(I, a, k, v, st, fr, node):
    if a.kind in SINKS:
        sink(I, [k, v], st, node, fr, a)


def buffer(I, vals, node, fr, own=False):
    """The caller's array is used through its memory, as it happens to be laid out."""
    for v in vals:
        for x in v.alts if isinstance(v, Alt) else (v,):
            if isinstance(x, Unk) and x.kind == "arr" and x.recs and (x.own or not own and x.extra is None and composite(x) is None and len(x.recs) == 1) and x.shape is not None and len(x.shape) == 2 and not isinstance(x.shape[0], int):
                I.event("buffer", node, fr, recs=x.recs)


def sink(I, vals, st, node, fr, target, how="store", **more):
    if how == "write":
        buffer(I, vals, node, fr)
    recs = recs_concat([flat_recs(I, v, st) for v in vals])
    I.event("sink", node, fr, vals=vals, recs=recs, target=target, how=how, st_facts=st.facts, **more)
    add = frozenset(("sink", r.origin) for r in recs)
    st.facts |= add
    st.may |= add


# --------------------------------------------------------------------------- iteration of unknowns
WHOLE = ("points", "cells[", "point_data[", "cell_data[")


def iter_unk(I, v, st, fr, node):
    its, el, ne = iter_unk_(I, v, st, fr, node)
    if not ne and its is None and el is not None and v.kind not in SINKS and v.shape is None or not ne and its is None and v.shape and v.shape[0] is None:
        # of unknown length, but made from arrays that are not empty
        ne = v.extra != ("filter",) and any(r.origin.startswith(WHOLE) for r in v.recs)
    return its, el, ne


def iter_unk_(I, v, st, fr, node):
    ne = False
    if v.kind in ("int", "float", "bool"):
        return None, None, False
    if v.kind == "file":
        if I.eof_mode:
            return [], None, False
        return None, file_text(I, v, st, node, fr), False
    if gather_parts(v) is not None:
        if len(v.shape) == 3:
            return None, gather_item(v, None), True
        if len(v.shape) == 2 and isinstance(v.shape[0], int):
            return [gather_item(v, i) for i in range(v.shape[0])], None, True
        v = replace(v, extra=None)
    cr = composite(v)
    if cr is not None:
        if v.kind == "row" or v.shape is not None and len(v.shape) == 1:
            return [Unk(recs=c, kind="tok", dtype=v.dtype) for c in cr], None, bool(cr)
        return None, with_cols(v, cr, (len(cr),), "row"), isinstance(v.shape[0] if v.shape else None, (int, str))
    to = t_orig(v)
    if to is not None and to.shape is not None and len(to.shape) == 2 and isinstance(to.shape[1], int) and to.shape[1] <= 130:
        return [unk_subscript(I, v, Const(i), st, fr, node) for i in range(to.shape[1])], None, to.shape[1] > 0
    if v.shape is not None and len(v.shape) >= 1:
        d = v.shape[0]
        ne = not isinstance(d, int) or d > 0
        ne = ne and isinstance(d, (int, str))
        if len(v.shape) == 1:
            if isinstance(d, int) and d <= 130 and v.recs:
                return [Unk(recs=frozenset(r._replace(cols=cols_item(r.cols, i)) for r in v.recs), kind="tok", dtype=v.dtype) for i in range(d)], None, d > 0
            c = run_of(v)
            return None, Unk(recs=v.recs, kind="tok" if c is None else "int", dtype=v.dtype, extra=None if c is None else ("ctr", c)), ne
        return None, replace(v, shape=v.shape[1:], sym=None, kind="row" if len(v.shape) == 2 else v.kind, extra=None), ne
    if v.kind in ("list", "row"):
        return None, Unk(recs=v.recs, kind="tok"), False
    if v.kind == "str":
        return None, Unk(recs=v.recs, kind="str"), False
    if v.kind == "bytes":
        return None, Unk(recs=v.recs, kind="int"), False
    if v.kind == "lines":
        return None, Unk(recs=v.recs, kind="str"), False
    return None, replace(v, shape=None, sym=None, extra=v.extra if v.kind in SINKS else None,
                         kind=v.kind if v.kind in SINKS else None), False


# --------------------------------------------------------------------------- dtypes
_DT_ALIASES = {
    "int": "int64", "float": "float64", "bool": "bool", "double": "float64", "single": "float32",
    "f4": "float32", "f8": "float64", "f2": "float16", "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64",
    "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64", "b": "int8", "B": "uint8",
    "i": "int32", "I": "uint32", "l": "int64", "L": "uint64", "q": "int64", "Q": "uint64",
    "f": "float32", "d": "float64", "h": "int16", "H": "uint16", "c": "bytes1", "?": "bool", "uint": "uint64",
    "intc": "int32", "int_": "int64", "float_": "float64", "byte": "int8", "ubyte": "uint8", "short": "int16",
    "ushort": "uint16", "uintc": "uint32", "longlong": "int64", "ulonglong": "uint64", "intp": "int64", "uintp": "uint64",
    "P": "uint64", "p": "int64", "bool_": "bool", "half": "float16", "str_": "str", "bytes_": "bytes", "object": "object", "O": "object",
}
_DT_NAMES = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool",
             "complex64", "complex128", "float128", "longdouble", "bytes1", "str", "bytes", "object"}
ITEMSIZE = {"int8": 1, "int16": 2, "int32": 4, "int64": 8, "uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8,
            "float16": 2, "float32": 4, "float64": 8, "bool": 1, "complex64": 8, "complex128": 16, "bytes1": 1}


# on the 64-bit hosts meshio runs on
_CTYPES = {"ctypes.c_float": "float32", "ctypes.c_double": "float64", "ctypes.c_int": "int32", "ctypes.c_uint": "uint32", "ctypes.c_long": "int64", "ctypes.c_ulong": "uint64", "ctypes.c_longlong": "int64",
           "ctypes.c_ulonglong": "uint64", "ctypes.c_size_t": "uint64", "ctypes.c_short": "int16", "ctypes.c_ushort": "uint16", "ctypes.c_byte": "int8", "ctypes.c_ubyte": "uint8", "ctypes.c_bool": "bool"}


def to_dtype(v):
    """DT for a dtype-like abstract value, else None."""
    if isinstance(v, Const):
        s = v.v
        if isinstance(s, DT):
            return s
        if isinstance(s, str):
            order = "="
            t = s
            if t and t[0] in "<>=|":
                order, t = t[0], t[1:]
            if "," in s:
                return DT("struct", tuple((f"f{i}", f.strip()) for i, f in enumerate(s.split(",")) if f.strip()))
            if t in _DT_NAMES:
                return DT(t, order)
            if t in _DT_ALIASES:
                return DT(_DT_ALIASES[t], order)
            return None
        if s is None:
            return DT("float64")
    if isinstance(v, Ext):
        n = v.name.rsplit(".", 1)[-1]
        if v.name in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.bytes", "builtins.object"):
            return DT(_DT_ALIASES.get(n, n))
        if v.name.startswith("numpy."):
            if n in _DT_NAMES:
                return DT(n)
            if n in _DT_ALIASES:
                return DT(_DT_ALIASES[n])
        if v.name in _CTYPES:
            return DT(_CTYPES[v.name])
    if isinstance(v, Unk) and v.kind == "dtype" and isinstance(v.dtype, DT):
        return v.dtype
    return None


# --------------------------------------------------------------------------- attributes
def ext_attr(I, a, name, st):
    full = f"{a.name}.{name}"
    if full in ("sys.byteorder",):
        return Const("little")
    if full in ("os.sep",):
        return Const("/")
    if full in ("sys.stdout", "sys.stderr"):
        return Unk(kind="stdout")
    if full in ("numpy.pi", "math.pi"):
        return Const(3.141592653589793)
    if full == "numpy.newaxis":
        return NONE
    if full in ("numpy.nan", "numpy.inf", "math.inf", "math.nan", "numpy.NaN"):
        return Const(float("nan") if "nan" in full.lower() else float("inf"))
    if full == "numpy.c_" or full == "numpy.r_":
        return Unk(kind="np_c_", extra=full)
    if full == "sys.version_info":
        return Unk(kind="tuple")
    if full in ("sys.argv", "os.environ"):
        return Unk()
    return Ext(full, a.recs)


def container_attr(I, a, o, name, st, fr, node):
    if isinstance(o, HList):
        if o.typ == "nd":
            if name == "shape":
                return I.alloc(st, HList((Const(len(o.items)),) if o.items is not None else None, Unk(kind="int") if o.items is None else None, "tuple"), node, fr, "shape")
            if name == "dtype":
                return Const(o.dtype) if o.dtype else Unk(kind="dtype")
            if name == "size":
                return Const(len(o.items)) if o.items is not None else Unk(kind="int")
            if name == "T":
                return a
            return Method(a, name)
        if o.typ in ("cm",):
            return Method(a, name)
        if o.typ == "buf":
            return Method(a, name)
        real = {"list": list, "tuple": tuple, "set": set}.get(o.typ)
        if real is not None and not hasattr(real, name):
            I.event("attrerror", node, fr, what=f"{o.typ} object has no attribute '{name}'", v=a, name=name)
            I.raise_(st, fr, "AttributeError", node)
        return Method(a, name)
    if isinstance(o, HDict):
        if not hasattr(dict, name) and o.default is None and name not in ("move_to_end",):
            I.event("attrerror", node, fr, what=f"dict object has no attribute '{name}'", v=a, name=name)
            I.raise_(st, fr, "AttributeError", node)
        return Method(a, name)
    return UNK


def is_posdim(s):
    return isinstance(s, tuple) and len(s) == 2 and s[0] == "dim" and isinstance(s[1], str) and dims.positive(s[1])


def dim_of_value(v):
    """The symbolic size an integer value denotes, or None."""
    if isinstance(v, Const):
        return int(v.v) if isinstance(v.v, int) and not isinstance(v.v, bool) and not v.recs else None
    if isinstance(v, Unk) and isinstance(v.sym, tuple) and v.sym[:1] == ("dim",):
        return v.sym[1]
    return None


def dim_arith(op, x, y):
    if not (isinstance(x, Unk) or isinstance(y, Unk)):
        return None
    a, b = dim_of_value(x), dim_of_value(y)
    if a is None or b is None:
        return None
    if isinstance(op, ast.Add):
        r = dims.add(a, b)
    elif isinstance(op, ast.Sub):
        r = dims.add(a, b, -1)
    elif isinstance(op, ast.Mult):
        r = dims.mul(a, b)
    elif isinstance(op, ast.FloorDiv):
        r = dims.floordiv(a, b)
    else:
        return None
    return dim_value(r) if r is not None else None


def dim_value(d):
    if isinstance(d, int):
        return Const(d)
    if isinstance(d, str):
        return Unk(kind="int", sym=("dim", d))
    return Unk(kind="int")


def value_attr(I, a, name, st, fr, node):
    from .interp import SuperV

    if isinstance(a, SuperV):
        if a.base is not None:
            for b in a.base.bases:
                if isinstance(b, ClsV):
                    m = b.lookup(name)
                    if m is not None:
                        return I.bind_method(m, a.selfv, b, st, fr, node)
        return Unk()
    if isinstance(a, Const):
        if isinstance(a.v, DT):
            d = a.v
            if d.name == "struct":
                if name == "names":
                    return I.alloc(st, HList(tuple(Const(n) for n, _ in d.order), None, "tuple"), node, fr, "names")
                if name == "itemsize":
                    return Unk(kind="int")
                return Method(a, name)
            if name == "name":
                return Const(d.name, a.recs)
            if name == "itemsize":
                return Const(ITEMSIZE[d.name]) if d.name in ITEMSIZE else Unk(kind="int")
            if name == "kind":
                k = {"i": "i", "u": "u", "f": "f", "b": "b", "c": "c"}.get(d.name[0])
                return Const(k) if k else Unk(kind="str")
            if name == "type":
                return Ext("numpy." + d.name)
            if name == "isnative":
                return Const(d.order != ">" or ITEMSIZE.get(d.name) == 1)
            if name == "char" and d.name in ("float64", "float32", "int64", "int32"):
                return Const({"float64": "d", "float32": "f", "int64": "l", "int32": "i"}[d.name])
            if name == "byteorder":
                return Const(d.order if d.order != "<" else "=") if d.name in ITEMSIZE and ITEMSIZE[d.name] > 1 else Const("|")
            if name == "str":
                rev = {v: k for k, v in _DT_ALIASES.items() if len(k) == 2}
                o = {"=": "<"}.get(d.order, d.order)
                if ITEMSIZE.get(d.name) == 1:
                    o = "|"
                return Const(o + rev.get(d.name, d.name))
            return Method(a, name)
        if a.v is None:
            I.event("attrerror", node, fr, what=f"None has no attribute '{name}'", v=a, name=name)
            I.raise_(st, fr, "AttributeError", node)
        if isinstance(a.v, (str, bytes, int, float, bool, tuple)) and not isinstance(a.v, Sl):
            if not hasattr(a.v, name):
                if isinstance(a.v, (int, float)) and name in ("dtype", "item", "shape", "astype", "ndim", "tolist", "reshape", "newbyteorder"):
                    return Unk() if name != "item" else Method(a, name)
                I.event("attrerror", node, fr, what=f"{type(a.v).__name__} has no attribute '{name}'", v=a, name=name)
                I.raise_(st, fr, "AttributeError", node)
            return Method(a, name)
        return UNK
    if isinstance(a, Unk):
        k = a.kind
        if name == "shape" and k not in SINKS + ("str",):
            if a.shape is not None:
                return I.alloc(st, HList(tuple(dim_value(d) for d in a.shape), None, "tuple"), node, fr, "shape")
            return Unk(kind="tuple", sym=mk_sym(".", a.sym, "shape"), recs=frozenset())
        if name == "dtype":
            if a.dtype is not None:
                return Const(a.dtype)
            return Unk(kind="dtype", sym=mk_sym(".", a.sym, "dtype"))
        if name == "data" and k == "arr":
            buffer(I, [a], node, fr)
        if name in ("ndim",):
            return Const(len(a.shape)) if a.shape is not None else Unk(kind="int", sym=mk_sym(".", a.sym, "ndim"))
        if name in ("size", "nbytes", "itemsize") and k in ("arr", None, "row"):
            isz = ITEMSIZE.get(a.dtype.name) if isinstance(a.dtype, DT) else None
            d = isz if name == "itemsize" else dims.product(a.shape) if a.shape is not None and None not in a.shape else None
            if d is not None and name == "nbytes":
                d = dims.mul(d, isz) if isz else None
            if d is not None:
                return dim_value(d)
        if name in ("size", "nbytes", "itemsize", "num", "alignment"):
            return Unk(kind="int", sym=mk_sym(".", a.sym, name))
        if k == "dtype":
            if name in ("name", "str", "kind", "byteorder", "char"):
                return Unk(kind="str", sym=mk_sym(".", a.sym, name))
            if name == "isnative":
                return Unk(kind="bool", sym=mk_sym(".", a.sym, name))
            if name == "type":
                return Unk(sym=mk_sym(".", a.sym, "type"))
            return Method(a, name)
        if name == "T" and k not in SINKS:
            return transpose(a)
        if name in ("real", "flat") and k not in SINKS:
            return replace(a, shape=None)
        if k == "path":
            if cpath(a) is not None and name in ("suffix", "stem", "name", "suffixes", "parts", "parent"):
                v = getattr(PurePosixPath(cpath(a)), name)
                if isinstance(v, str):
                    return Const(v, a.recs)
                if isinstance(v, (list, tuple)):
                    return I.alloc(st, HList(tuple(Const(x, a.recs) for x in v), None, "list" if name == "suffixes" else "tuple"), node, fr, "pathparts")
                return mk_cpath(v, a.recs)
            if name in ("suffix", "stem", "name", "suffixes", "parts"):
                return Unk(kind="str" if name in ("suffix", "stem", "name") else "list", recs=a.recs, sym=mk_sym(".", a.sym, name),
                           extra=("pathpart", name))
            if name in ("parent",):
                return Unk(kind="path", recs=a.recs, extra=("parent",))
            return Method(a, name)
        if k in ("str", "bytes") and not hasattr(str if k == "str" else bytes, name):
            if name not in ("name",):
                I.event("attrerror", node, fr, what=f"{k} has no attribute '{name}'", v=a, name=name)
                I.raise_(st, fr, "AttributeError", node)
        if k in ("str", "bytes"):
            return Method(a, name)
        if k in ("file", "h5", "xml", "nc", "match", "exc", "arr", "list", "row", "tok", "int", "float", "path", "np_c_"):
            if k in ("h5", "xml", "nc", "file") and name in ("attrs", "text", "tag", "attrib", "data", "name", "variables", "dimensions", "value", "tail", "nodes", "file"):
                return replace(a, sym=None)
            return Method(a, name)
        # generic unknown: could be attribute or method
        return MaybeAttr(a, name)
    if isinstance(a, (Method, PartialV)):
        return Method(a, name)
    return UNK


def transpose(a):
    """Transposed array; the original is kept so that columns can be recovered."""
    if a.shape is not None and len(a.shape) == 1:
        return replace(a, sym=None)
    if isinstance(a.extra, tuple) and a.extra[:1] == ("T",):
        return replace(a.extra[1], own=a.own)
    r = frozenset(x._replace(cols=None) for x in a.recs)
    return replace(a, recs=r, shape=tuple(reversed(a.shape)) if a.shape else None, sym=None, kind="arr", extra=("T", a))


class ZeroCol(frozenset):
    """Records of a column of zeros (none)."""


def composite(v):
    """Per-column records of an array assembled column by column, else None."""
    return v.extra[1] if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("cols",) else None


def with_cols(base, cr, shape, kind):
    """Array value built from per-column records."""
    return replace(base, recs=recs_concat(list(cr)), shape=shape, kind=kind, extra=("cols", tuple(cr)), sym=None)


def shift_cols(v, d):
    cr = composite(v)
    if cr is None:
        return v
    return replace(v, extra=("cols", tuple(shift_recs(c, d) for c in cr)))


def comp_subscript(I, a, k, st, node):
    """Subscript of a composite; None when the generic rules apply."""
    cr = composite(a)
    one_d = a.kind == "row" or (a.shape is not None and len(a.shape) == 1)
    is_axes = isinstance(getattr(node, "slice", None), ast.Tuple)
    base = replace(a, extra=None, sym=None)
    try:
        if one_d:
            if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
                return Unk(recs=cr[k.v], kind="tok", dtype=a.dtype)
            if isinstance(k, Const) and isinstance(k.v, Sl):
                c = cr[slice(*k.v)]
                return with_cols(base, c, (len(c),), "row")
            if isinstance(k, Const) and isinstance(k.v, tuple) and all(isinstance(i, int) for i in k.v):
                return with_cols(replace(base, own=frozenset()), [cr[i] for i in k.v], (len(k.v),), "row")
            return None
        if is_axes:
            ks = k.v if isinstance(k, Const) and isinstance(k.v, tuple) else None
            ks = [Const(x) for x in ks] if ks is not None else None
            if ks is None and isinstance(k, Ref):
                o = I.get_obj(st, k.addr)
                ks = [I.key(x, st) for x in o.items] if isinstance(o, HList) and o.items is not None else None
            if ks is None or len(ks) != 2:
                return None
            if isinstance(ks[0], Const) and ks[0].v is Ellipsis:
                ks[0] = Const(Sl(None, None, None))
            x = ks[1]
            rows = a.shape[0] if a.shape and isinstance(ks[0], Const) and ks[0].v == Sl(None, None, None) else None
            row_scalar = isinstance(ks[0], Const) and isinstance(ks[0].v, int) or isinstance(ks[0], Unk) and ks[0].kind in ("int", "tok")
            if not isinstance(x, Const):
                return None
            if isinstance(x.v, int) and not isinstance(x.v, bool):
                if row_scalar:
                    return Unk(recs=cr[x.v], kind="tok", dtype=a.dtype)
                return replace(base, recs=cr[x.v], shape=(rows,), kind="arr")
            c = cr[slice(*x.v)] if isinstance(x.v, Sl) else [cr[i] for i in x.v] if isinstance(x.v, tuple) else None
            if c is None:
                return None
            return with_cols(base, c, (len(c),) if row_scalar else (rows, len(c)), "row" if row_scalar else "arr")
        if isinstance(k, Const) and isinstance(k.v, int) or isinstance(k, Unk) and k.kind in ("int", "tok"):
            return with_cols(base, cr, (len(cr),), "row")
        if isinstance(k, Unk) and k.kind == "arr" and k.shape is not None and len(k.shape) == 2:
            return replace(base, recs=recs_concat(list(cr)), shape=(k.shape[0], k.shape[1], len(cr)))
        if isinstance(k, Const) and isinstance(k.v, Sl) or isinstance(k, Unk) and k.kind in ("slice", "arr"):
            return with_cols(base, cr, (None, len(cr)), "arr")
    except (IndexError, TypeError):
        return None
    return None


def t_orig(v):
    return v.extra[1] if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("T",) else None


def MaybeAttr(a, name):
    return Method(a, name)


# --------------------------------------------------------------------------- isinstance
_KINDCLS = {
    "str": {"builtins.str"}, "bytes": {"builtins.bytes"}, "int": {"builtins.int"}, "float": {"builtins.float"},
    "bool": {"builtins.bool", "builtins.int"}, "list": {"builtins.list"}, "arr": {"numpy.ndarray"}, "row": {"numpy.ndarray"},
    "path": {"pathlib.Path", "os.PathLike"},
}


def isinstance_(I, a, cv, st):
    classes = []
    if isinstance(cv, Ref):
        o = I.get_obj(st, cv.addr)
        if isinstance(o, HList) and o.items is not None:
            classes = list(o.items)
    elif isinstance(cv, Alt):
        return None
    else:
        classes = [cv]
    res = False
    for c in classes:
        r = _isinst1(I, a, c, st)
        if r is True:
            return True
        if r is None:
            res = None
    return res


def _isinst1(I, a, c, st):
    if isinstance(a, Alt):
        rs = {_isinst1(I, x, c, st) for x in a.alts}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(c, Ext):
        n = c.name
        if isinstance(a, Const):
            t = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bytes": bytes, "builtins.bool": bool,
                 "builtins.list": list, "builtins.dict": dict, "builtins.tuple": tuple}.get(n)
            if t is not None:
                return isinstance(a.v, t) and not isinstance(a.v, (DT, Sl))
            return False if n in ("numpy.ndarray",) else None
        if isinstance(a, Ref):
            o = I.get_obj(st, a.addr)
            if isinstance(o, HList):
                names = {"list": {"builtins.list"}, "tuple": {"builtins.tuple"}, "set": {"builtins.set"}, "nd": {"numpy.ndarray"}}.get(o.typ, set())
                return n in names if n.startswith(("builtins.", "numpy.ndarray")) else None
            if isinstance(o, HDict):
                return n in ("builtins.dict",) if n.startswith(("builtins.", "numpy.")) else None
            if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                return n in o.cls.ext_bases()
            return None
        if isinstance(a, Unk):
            if a.kind in _KINDCLS:
                return n in _KINDCLS[a.kind] if n.startswith(("builtins.", "numpy.ndarray", "pathlib", "os.")) and not n.startswith("numpy.int") else None
            return None
        return None
    if isinstance(c, ClsV):
        if isinstance(a, Ref):
            o = I.get_obj(st, a.addr)
            if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                return o.cls.isa(c)
            return False
        if isinstance(a, Const):
            return False
        if isinstance(a, Unk) and a.kind in _KINDCLS:
            return False
        return None
    return None


# --------------------------------------------------------------------------- files
def file_text(I, f, st, node, fr, what="line"):
    mode = f.extra if isinstance(f.extra, str) else None
    kind = None
    if mode is not None:
        kind = "bytes" if "b" in mode else "str"
    if I.eof_mode:
        if kind:
            return Const("" if kind == "str" else b"")
        return Const("" if I.eof_mode == "str" else b"")
    return Unk(recs=FILE, kind=kind or "str", sym=fresh_sym(I, st, node, fr, what))


from .extcalls import call_ext  # noqa: E402,F401
