"""The output of a writer run as an ordered trace of texts, XML elements and array memory."""
import re

from .floats import *


class It:
    """One item of the trace: kind in text | raw | pack | xml, plus where it is written."""

    __slots__ = ("kind", "where", "text", "dt", "recs", "fields", "kw", "node", "shape", "val", "start")

    def __init__(self, kind, node, **kw):
        self.kind, self.node = kind, node
        self.where = node._mod.rel + ":" + func_of(node)
        for k in ("text", "dt", "recs", "fields", "kw", "shape", "val", "start"):
            setattr(self, k, kw.get(k))

    def __repr__(self):
        return f"<{self.kind} {self.text or self.dt or self.kw} {self.where}>"


def holes(v):
    """Text with each unknown part replaced: '\\0' or '\\1{size}\\2'. None when nothing is known."""
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
        return v.v.decode("latin1") if isinstance(v.v, bytes) else v.v
    if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("pat",):
        out = []
        for f in v.extra[1]:
            if f is None:
                out.append("\0")
            elif isinstance(f, bytes):
                out.append(f.decode("latin1"))
            elif isinstance(f, str):
                out.append(f)
            elif isinstance(f, tuple):
                out.append("\1" + ("x:" if f[0] == "hex" else "run:" if f[0] == "run" else "") + str(f[1]) + "\2")
        return "".join(out)
    return None


def trace(I, r):
    out = []
    for e in r.events:
        if e.kind == "raw":
            out.append(It("raw", e.node, dt=e.data["dtype"], recs=e.data["recs"], fields=e.data.get("fields"), shape=e.data.get("shape"), val=e.data.get("val")))
        elif e.kind == "pack":
            for a in alts(e.data["fmt"]) if e.data.get("fmt") is not None else []:
                out.append(It("pack", e.node, text=holes(a), recs=e.data["recs"], val=e.data.get("vals")))
        elif e.kind == "sink":
            how = e.data["how"]
            if how == "xml":
                out.append(It("xml", e.node, kw=e.data.get("kw"), val=e.data.get("args"), recs=e.data["recs"]))
                continue
            for v in e.data["vals"]:
                for a in alts(v):
                    if isinstance(a, Unk) and a.kind == "arr" and how == "write":
                        out.append(It("raw", e.node, dt=a.dtype, recs=a.recs, shape=a.shape, val=a))
                    elif isinstance(a, (Const, Unk)) and how in ("write", "writelines", "print"):
                        out.append(It("text", e.node, text=holes(a), recs=e.data["recs"], val=a))
                    else:
                        out.append(It(how, e.node, val=a, recs=e.data["recs"]))
    return out


def little(dt):
    """Byte order on the little-endian hosts meshio runs on: '<' or '>' ('|' for single bytes)."""
    if ext.ITEMSIZE.get(dt.name) == 1:
        return "|"
    return "<" if dt.order in ("=", "<", "|") else ">"


CODE = {"float32": "f", "float64": "d", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q"}


def flat(dt):
    """[(name, order)] of a (structured) dtype; None where unknown."""
    if not isinstance(dt, DT):
        return None
    if dt.name == "fields":
        out = []
        for _, x in dt.order:
            f = flat(x)
            if f is None:
                return None
            out += f
        return out
    if dt.name not in CODE:
        return None
    return [(dt.name, little(dt))]


def constants(I, v, st, out, depth=0):
    """Texts reachable from a value; None is added for a text that is not known."""
    for a in alts(v):
        t = holes(a)
        if t is not None:
            out.append(None if "\0" in t else t)
            if "\0" in t:
                out.append(t)
        elif isinstance(a, Ref) and depth < 4:
            o = I.get_obj(st, a.addr)
            if isinstance(o, HList) and o.items is not None:
                for x in o.items:
                    constants(I, x, st, out, depth + 1)
            elif isinstance(o, HDict):
                for k, x in o.entries:
                    constants(I, k, st, out, depth + 1)
                    constants(I, x, st, out, depth + 1)
            else:
                out.append(None)
        elif isinstance(a, Unk) and a.kind in ("arr", "int", "float", "bool"):
            if any(x.origin.startswith("name:") for x in a.recs):
                out.append(None)
        elif not isinstance(a, Const):
            out.append(None)


def name_written(I, r, name, strict=True):
    """Is the name part of the output exactly as given (strict: with nothing attached)? True, False, or None when its text is not followed."""
    st, origin = r.st, "name:" + name
    texts, letters, know = [], {}, True
    for e in r.events:
        if e.kind not in ("sink", "pack"):
            continue
        vals = [x for x in (e.data.get("vals") or ()) if isinstance(x, V)]
        if e.data.get("how") == "xml":
            vals += [x for x in list((e.data.get("kw") or {}).values()) + list(e.data.get("args") or ()) if isinstance(x, V)]
        out = []
        for v in vals:
            constants(I, v, st, out)
        texts += [t for t in out if t is not None]
        if any(x.origin == origin for x in e.data["recs"]):
            # letter by letter: [(row, position)] = letter
            if len(vals) == 2 and isinstance(vals[0], Const) and isinstance(vals[0].v, tuple) and isinstance(vals[1], Const) and isinstance(vals[1].v, (str, bytes)) and len(vals[1].v) == 1:
                c = vals[1].v if isinstance(vals[1].v, str) else vals[1].v.decode("latin1")
                letters.setdefault(vals[0].v[:-1], {})[vals[0].v[-1]] = c
            elif None in out or not out:
                know = False
    for d in letters.values():
        if all(isinstance(i, int) for i in d):
            texts.append("".join(d[i] for i in sorted(d)))
    pat = re.compile((r"(?<![\w.-])%s(?![\w.-])" if strict else "%s") % re.escape(name))
    if any(pat.search(t) for t in texts):
        return True
    return False if know else None
