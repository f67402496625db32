"""Call models: builtins, numpy functions, methods of unmodelled values."""
from __future__ import annotations

import ast
import re
import posixpath
from pathlib import PurePosixPath
from dataclasses import replace

from . import ext as X
from .values import *

PASS_TEXT = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "decode", "encode", "title", "zfill", "ljust",
             "rjust", "center", "expandtabs", "casefold", "capitalize", "swapcase", "translate", "format_map", "removesuffix", "removeprefix"}
LISTY_TEXT = {"split", "rsplit", "splitlines", "partition", "rpartition"}
ARR_FRESH_SAME = {"copy", "astype", "flatten", "byteswap", "round", "clip", "conj", "repeat", "take", "compress"}
ARR_VIEW = {"reshape", "ravel", "view", "squeeze", "newbyteorder", "swapaxes", "transpose", "__array__", "getfield"}
ARR_MUT = {"sort", "fill", "put", "resize", "itemset", "partition", "setflags", "setfield"}
FILE_READ = {"readline", "read", "readlines", "__next__", "peek"}
H5_WRITE = {"create_dataset", "create_group", "createVariable", "createDimension", "setncattr", "create", "set", "append", "write",
            "insert", "extend", "require_group", "require_dataset", "setncatts", "put", "dump"}


def U(**k):
    return Unk(**k)


def unstar(args):
    from .interp import Star

    return [a.v if isinstance(a, Star) else a for a in args]


def call_ext(I, f, args, kwargs, st, node, fr):
    from .interp import Star, SuperV

    if isinstance(f, Ext):
        name = f.name
        h = I.hooks.get("ext:" + name)
        if h is not None:
            return h(I, f, args, kwargs, st, node, fr)
        m = BUILTINS.get(name) or NUMPY.get(name) or OTHER.get(name)
        if m is not None:
            return m(I, args, kwargs, st, node, fr)
        dt = X.to_dtype(f)
        if dt is not None and name.startswith("numpy."):
            return _cast(I, args, kwargs, st, node, fr, dt)
        if name.startswith("builtins.") and (name.endswith(("Error", "Exception", "Exit", "Interrupt", "Warning", "Iteration"))):
            return U(kind="exc", extra=name.split(".")[-1])
        p = name.split(".")
        if len(p) == 3 and p[0] == "builtins" and p[1] in ("dict", "str", "list", "set", "bytes", "tuple", "int", "float") and args and not isinstance(args[0], Star):
            if p[2] == "fromkeys":
                return _fromkeys(I, unstar(args), st, node, fr)
            if p[2] in ("maketrans", "fromhex", "from_bytes"):
                return generic(I, name, args, kwargs, st, node, fr)
            return I.call(I.get_attr(args[0], p[2], st, fr, node), list(args[1:]), kwargs, st, node, fr)
        return generic(I, name, args, kwargs, st, node, fr)
    if isinstance(f, Method):
        return call_method(I, f, args, kwargs, st, node, fr)
    if isinstance(f, Unk):
        # calling an unknown value
        a = unstar(args)
        escape(I, a, kwargs, st, node, fr, "unknown call")
        return U(recs=degrade(I.args_recs(args, kwargs, st) | f.recs))
    return U(recs=degrade(I.args_recs(args, kwargs, st)))


def escape(I, args, kwargs, st, node, fr, name):
    """Values passed to an unmodelled callee; a file among them makes it a sink."""
    vals = list(args) + list(kwargs.values())
    if any(isinstance(a, Unk) and a.kind in X.SINKS for v in vals for a in alts(v)):
        X.sink(I, [v for v in vals if not (isinstance(v, Unk) and v.kind in X.SINKS)], st, node, fr, None, how=name)


FSCHANGE = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.mkdir", "os.makedirs", "os.truncate", "os.open", "shutil.move", "shutil.copy",
            "shutil.copyfile", "shutil.copy2", "shutil.rmtree"}


def generic(I, name, args, kwargs, st, node, fr):
    a = unstar(args)
    escape(I, a, kwargs, st, node, fr, name)
    I.event("extcall", node, fr, name=name, args=a, kwargs=kwargs)
    if name in FSCHANGE:
        I.event("fschange", node, fr, name=name)
    r = degrade(I.args_recs(args, kwargs, st))
    if name.startswith("numpy."):
        return U(recs=r, kind="arr")
    return U(recs=r)


def _cast(I, args, kwargs, st, node, fr, dt):
    if not args:
        return Const(0)
    v = unstar(args)[0]

    def one(a):
        if isinstance(a, Const) and type(a.v) in (int, NInt) and dt.name in ("int8", "int16", "int32", "uint8", "uint16", "uint32"):
            return Const(NInt(a.v, dt), a.recs)
        if isinstance(a, Const) and isinstance(a.v, (int, float)):
            return a
        if isinstance(a, Unk):
            return replace(a, dtype=dt, own=frozenset(), recs=X.narrow(a.recs, dt), kind=a.kind if a.kind not in ("str", "bytes", None) else ("int" if "int" in dt.name else "float" if "float" in dt.name else a.kind))
        return U(recs=X.flat_recs(I, a, st))

    return I.map_alts(v, one)


# --------------------------------------------------------------------------- methods
def call_method(I, f, args, kwargs, st, node, fr):
    recv = f.recv
    name = f.attr
    if isinstance(recv, Const):
        return const_method(I, recv, name, args, kwargs, st, node, fr)
    if isinstance(recv, Ref):
        o = I.get_obj(st, recv.addr)
        if isinstance(o, HList):
            return list_method(I, recv, o, name, args, kwargs, st, node, fr)
        if isinstance(o, HDict):
            return dict_method(I, recv, o, name, args, kwargs, st, node, fr)
        if isinstance(o, HObj) and o.cls == "structarr":
            u = U(recs=X.flat_recs(I, recv, st), kind="arr", dtype=getattr(o.cls, "dt", None), extra=("fieldvals", tuple((k, x) for k, x in o.attrs)) if name == "tofile" else None)
            return unk_method(I, u, name, args, kwargs, st, node, fr)
        return U(recs=degrade(I.args_recs(args, kwargs, st)))
    if isinstance(recv, Unk):
        return unk_method(I, recv, name, args, kwargs, st, node, fr)
    if isinstance(recv, Method):
        # method of an attribute of an unknown object
        base = recv
        while isinstance(base, Method):
            base = base.recv
        if isinstance(base, Unk):
            return unk_method(I, replace(base, sym=None), name, args, kwargs, st, node, fr)
    return U(recs=degrade(I.args_recs(args, kwargs, st) | recs_of(recv)))


def const_method(I, c, name, args, kwargs, st, node, fr):
    a = unstar(args)
    if isinstance(c.v, DT):
        if name == "newbyteorder":
            o = a[0].v if a and isinstance(a[0], Const) else None
            if o in ("<", ">", "=") and c.v.name not in ("fields", "struct"):
                return Const(DT(c.v.name, o))
            return U(kind="dtype")
        return U()
    if isinstance(c.v, str) and name == "format":
        return X.str_format(I, c, args, kwargs, st, node, fr)
    if isinstance(c.v, (str, bytes)) and name == "join":
        return join_text(I, c, a[0] if a else UNK, st, fr, node)
    if isinstance(c.v, (str, bytes)):
        cargs = []
        for x in a:
            x = I.key(x, st) if isinstance(x, Ref) else x
            cargs.append(x)
        if all(isinstance(x, Const) for x in cargs) and all(isinstance(x, Const) for x in kwargs.values()):
            try:
                r = getattr(c.v, name)(*[x.v for x in cargs], **{k: x.v for k, x in kwargs.items()})
            except Exception:
                return U(recs=c.recs)
            if isinstance(r, (list, tuple)):
                return I.alloc(st, HList(tuple(Const(x, c.recs) for x in r), None, "list" if isinstance(r, list) else "tuple"), node, fr, "strm")
            if isinstance(r, (str, bytes)):
                return Const(r, c.recs)
            return Const(r)
        r = I.args_recs(args, kwargs, st)
        if name in PASS_TEXT:
            return U(recs=c.recs | r, kind="str" if isinstance(c.v, str) else "bytes")
        if name in ("startswith", "endswith", "isdigit", "isnumeric"):
            return U(kind="bool")
        if name in ("find", "index", "count"):
            return U(kind="int")
        return U(recs=degrade(c.recs | r))
    if name == "item":
        return c
    return U()


def join_text(I, sep, seq, st, fr, node):
    its, el, _ = I.iter_items(seq, st, fr, node)
    if its is not None:
        parts = []
        for i, x in enumerate(its):
            if i:
                parts.append(sep)
            parts.append(x)
        if not parts:
            return Const("" if isinstance(sep, Const) and isinstance(sep.v, str) else b"")
        return X.concat_text(I, parts, st)
    kind = "bytes" if isinstance(sep, Const) and isinstance(sep.v, bytes) else "str"
    r = X.flat_recs(I, el, st) if el is not None else frozenset()
    pat = None
    if isinstance(el, Unk) and isinstance(el.extra, tuple) and el.extra[:1] == ("pat",):
        pat = el.extra
    return U(recs=r | X.flat_recs(I, sep, st), kind=kind)


def list_method(I, ref, o, name, args, kwargs, st, node, fr):
    a = unstar(args)
    if o.typ == "cm":
        return o.elem
    if o.typ == "buf":
        return buf_method(I, ref, o, name, a, kwargs, st, node, fr)
    if o.typ == "nd":
        return nd_method(I, ref, o, name, a, kwargs, st, node, fr)
    if name in ("append", "add", "appendleft"):
        I.note_mutation(ref, st, fr, node, "." + name + "()")
        v = a[0] if a else UNK
        if o.items is not None and len(o.items) < 400:
            if name == "add" and any(x == v for x in o.items):
                return NONE
            st.heap[ref.addr] = replace(o, items=o.items + (v,))
        else:
            st.heap[ref.addr] = replace(o, items=None, elem=join(o.element() if o.items != () else None, v), nonempty=True)
        return NONE
    if name in ("extend", "update"):
        for x in a:
            I.list_extend(ref, x, st, fr, node)
        return NONE
    if name == "insert":
        I.note_mutation(ref, st, fr, node, ".insert()")
        v = a[1] if len(a) > 1 else UNK
        if o.items is not None and isinstance(a[0], Const) and isinstance(a[0].v, int):
            it = list(o.items)
            it.insert(a[0].v, v)
            st.heap[ref.addr] = replace(o, items=tuple(it))
        else:
            st.heap[ref.addr] = replace(o, items=None, elem=join(o.element() if o.items != () else None, v), nonempty=True)
        return NONE
    if name in ("pop", "popleft"):
        I.note_mutation(ref, st, fr, node, ".pop()")
        if o.items is not None:
            i = -1 if name == "pop" else 0
            if a and isinstance(a[0], Const) and isinstance(a[0].v, int):
                i = a[0].v
            elif a:
                st.heap[ref.addr] = replace(o, items=None, elem=o.element(), nonempty=False)
                return o.element()
            it = list(o.items)
            try:
                v = it.pop(i)
            except IndexError:
                I.event("indexerror", node, fr, what="pop from empty list")
                I.raise_(st, fr, "IndexError", node)
            st.heap[ref.addr] = replace(o, items=tuple(it))
            return v
        st.heap[ref.addr] = replace(o, nonempty=False)
        return o.element()
    if name in ("remove", "discard", "clear", "sort", "reverse"):
        I.note_mutation(ref, st, fr, node, f".{name}()")
        if name == "clear":
            st.heap[ref.addr] = replace(o, items=(), elem=None)
        elif name == "reverse" and o.items is not None:
            st.heap[ref.addr] = replace(o, items=tuple(reversed(o.items)))
        elif name == "sort" and o.items is not None and all(isinstance(x, Const) for x in o.items) and not kwargs:
            try:
                st.heap[ref.addr] = replace(o, items=tuple(sorted(o.items, key=lambda c: c.v)))
            except TypeError:
                pass
        elif name in ("remove", "discard") and o.items is not None and a and isinstance(a[0], Const) and all(isinstance(x, Const) for x in o.items):
            it = list(o.items)
            for i, x in enumerate(it):
                if keq(x, a[0]):
                    del it[i]
                    break
            st.heap[ref.addr] = replace(o, items=tuple(it))
        else:
            st.heap[ref.addr] = replace(o, items=None, elem=o.element() if o.items != () else None, nonempty=False)
        return NONE
    if name == "copy":
        return I.alloc(st, replace(o, own=None), node, fr, "copy")
    if name == "index":
        if o.items is not None and a and isinstance(a[0], Const) and all(isinstance(x, Const) for x in o.items):
            for i, x in enumerate(o.items):
                if keq(x, a[0]):
                    return Const(i)
            I.raise_(st, fr, "ValueError", node)
        return U(kind="int")
    if name == "count":
        return U(kind="int")
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        e = o.element() if o.items != () else None
        for x in a:
            its, el, _ = I.iter_items(x, st, fr, node)
            for z in its or ():
                e = join(e, z)
            e = join(e, el)
        return I.alloc(st, HList(None, e, "set"), node, fr, name)
    if name in ("issubset", "issuperset", "isdisjoint"):
        return U(kind="bool")
    return U()


def buf_method(I, ref, o, name, a, kwargs, st, node, fr):
    if name in ("write", "writelines"):
        v = a[0] if a else UNK
        st.heap[ref.addr] = replace(o, items=(o.items or ()) + (v,) if o.items is not None and len(o.items) < 300 else None,
                                    elem=join(o.elem, v) if o.items is None or len(o.items) >= 300 else None)
        return NONE
    if name in ("getvalue", "read", "readlines", "readline"):
        return U(recs=X.flat_recs(I, ref, st), kind="bytes" if o.dtype == "bytes" else "str")
    return U()


def flat_shape(sh):
    d = X.dims.product(sh) if sh is not None and None not in sh else None
    return (d if isinstance(d, str) else None,)


def raw(I, dt, recs, a, kwargs, node, fr, **more):
    """Array memory turned into output bytes."""
    sep = kwargs.get("sep", a[1] if len(a) > 1 else Const(""))
    if isinstance(sep, Const) and sep.v == "":
        I.event("raw", node, fr, dtype=dt, recs=recs, **more)


def flat(I, u, name, a, kwargs, sh, node, fr):
    """A two-dimensional array is laid out in a row: in which order?"""
    if not isinstance(u, Unk) or not u.recs or u.shape is not None and len(u.shape) < 2 or u.kind in ("row", "str", "bytes", "tok", "int", "float"):
        return
    od = kwargs.get("order", a[0] if a and name != "reshape" else Const("C"))
    od = "C" if od == NONE else od.v if isinstance(od, Const) else None
    if od not in ("C", "F", "A", "K") or name == "reshape" and od in "CF" and (sh is None or len(sh) != 1):
        return
    if X.t_orig(u) is not None and od in "CF":
        u, od = X.t_orig(u), "CF"[od == "C"]
    I.event("flat", node, fr, order=od, recs=u.recs, shape=u.shape, name=name)


def nd_cast(I, o, dt, st, node, fr, tag):
    """Copy of a constant array with another type of numbers."""
    items = None
    if o.items is not None:
        conv = int if "int" in dt.name else float if "float" in dt.name else None
        items = []
        for i, x in enumerate(o.items):
            y = I.get_obj(st, x.addr) if isinstance(x, Ref) else None
            if isinstance(y, HList) and y.typ == "nd":
                x = nd_cast(I, y, dt, st, node, fr, (tag, i))
            elif isinstance(x, Const) and conv and isinstance(x.v, (int, float)) and not isinstance(x.v, bool) and x.v == x.v and abs(x.v) != float("inf"):
                x = Const(conv(x.v), x.recs)
            items.append(x)
        items = tuple(items)
    return I.alloc(st, replace(o, own=None, items=items, dtype=dt), node, fr, tag)


def nd_method(I, ref, o, name, a, kwargs, st, node, fr):
    if name in ("copy", "astype", "flatten", "ravel", "squeeze"):
        if name == "astype":
            dt = X.to_dtype(a[0]) if a else None
            if dt is not None and dt.name in X.ITEMSIZE:
                return nd_cast(I, o, dt, st, node, fr, name)
        return I.alloc(st, replace(o, own=None), node, fr, name)
    if name == "tolist":
        return I.alloc(st, replace(o, own=None, typ="list"), node, fr, name)
    if name in ("tofile",):
        raw(I, X.dtype_of(I, ref, st), X.flat_recs(I, ref, st), a, kwargs, node, fr, val=o)
        X.sink(I, [ref], st, node, fr, a[0] if a else None, how="tofile")
        return NONE
    if name in ARR_MUT:
        I.note_mutation(ref, st, fr, node, f".{name}()")
        if name == "sort":
            return list_method(I, ref, replace(o, typ="list"), "sort", a, kwargs, st, node, fr)
        return NONE
    if name == "argsort" and o.items is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in o.items):
        return const_argsort(I, o.items, st, node, fr)
    if name in ("sum", "max", "min", "item", "prod") and o.items is not None and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in o.items) and o.items:
        vs = [x.v for x in o.items]
        try:
            return Const({"sum": sum, "max": max, "min": min, "item": lambda z: z[0], "prod": lambda z: __import__("math").prod(z)}[name](vs))
        except Exception:
            pass
    if name == "tobytes":
        raw(I, X.dtype_of(I, ref, st), X.flat_recs(I, ref, st), (), {}, node, fr, val=o)
        return U(recs=X.flat_recs(I, ref, st), kind="bytes", dtype=X.dtype_of(I, ref, st))
    if name == "reshape":
        return U(recs=X.flat_recs(I, ref, st), kind="arr", shape=_shape_args(I, a, st))
    return U(recs=X.flat_recs(I, ref, st), kind="arr")


def const_argsort(I, items, st, node, fr):
    vs = [x.v for x in items]
    r = sorted(range(len(vs)), key=lambda i: vs[i])
    return I.alloc(st, HList(tuple(Const(i) for i in r), None, "nd"), node, fr, "argsort")


def dict_method(I, ref, o, name, args, kwargs, st, node, fr):
    a = unstar(args)
    exact = not o.has_unknown() and not o.weak
    if name == "items":
        if exact:
            its = []
            for i, (k, v) in enumerate(o.entries):
                its.append(I.alloc(st, HList((k, v), None, "tuple"), node, fr, ("item", i)))
            return I.alloc(st, HList(tuple(its), None, "view", sym=("dictview", ref.addr)), node, fr, "items")
        t = I.alloc(st, HList((o.keys_join(), o.values_join()), None, "tuple"), node, fr, "item")
        return I.alloc(st, HList(None, t, "view", nonempty=bool(o.entries) and not o.weak, sym=("dictview", ref.addr)), node, fr, "items")
    if name == "keys":
        if exact:
            return I.alloc(st, HList(tuple(k for k, _ in o.entries), None, "view", sym=("dictview", ref.addr)), node, fr, "keys")
        return I.alloc(st, HList(None, o.keys_join(), "view", nonempty=bool(o.entries) and not o.weak, sym=("dictview", ref.addr)), node, fr, "keys")
    if name == "values":
        if exact:
            return I.alloc(st, HList(tuple(v for _, v in o.entries), None, "view", sym=("dictview", ref.addr)), node, fr, "values")
        return I.alloc(st, HList(None, o.values_join(), "view", nonempty=bool(o.entries) and not o.weak, sym=("dictview", ref.addr)), node, fr, "values")
    if name == "__getitem__" and len(a) == 1:
        return X.subscript(I, ref, a[0], st, fr, node)
    if name in ("get", "pop", "setdefault"):
        k = a[0] if a else UNK
        d = a[1] if len(a) > 1 else kwargs.get("default", NONE if name != "pop" else None)
        if name == "pop":
            I.note_mutation(ref, st, fr, node, ".pop()")
        if isinstance(k, Ref):
            k = I.key(k, st)

        def one(kk):
            cur = I.get_obj(st, ref.addr)
            if isinstance(kk, (Const, Ext, ClsV)):
                v = cur.get(kk)
                if v is not None:
                    if isinstance(kk, Const) and kk.recs:
                        I.event("lookup", node, fr, addr=ref.addr, key=kk, value=v, k=(ref.addr, kk.v))
                        if isinstance(v, Const):
                            v = Const(v.v, v.recs | kk.recs)
                    if name == "pop":
                        st.heap[ref.addr] = replace(cur, entries=tuple((x, y) for x, y in cur.entries if not keq(x, kk)))
                    if cur.weak and name in ("get", "setdefault") and d is not None:
                        r = join(v, d)
                    else:
                        r = v
                    if name == "setdefault" and cur.weak:
                        st.heap[ref.addr] = I.dict_put(cur, kk, r)
                    return r
                if cur.has_unknown():
                    r = join(cur.rest_v, d) if d is not None else cur.rest_v
                else:
                    r = d
                if name == "setdefault":
                    I.note_mutation(ref, st, fr, node, ".setdefault()")
                    st.heap[ref.addr] = I.dict_put(cur, kk, r if r is not None else NONE)
                if r is None:
                    I.event("keyerror", node, fr, addr=ref.addr, key=kk, k=str(kk))
                    I.raise_(st, fr, "KeyError", node)
                return r
            I.event("lookup_unk", node, fr, addr=ref.addr, key=kk, k=ref.addr)
            if I.assume:
                hit = X.assumed_key(I, kk, [q for q, _ in cur.entries], st)
                if hit:
                    return join_all([y for x, y in cur.entries if any(x is h for h in hit)])
            fe = X._focus_entries(I, cur, st)
            if fe:
                if isinstance(kk, Unk) and kk.sym is not None and len(fe) == 1 and isinstance(fe[0][0], Const):
                    st.refine[kk.sym] = fe[0][0]
                    I.found[kk.sym] = fe[0][0]
                return join_all([v for _, v in fe])
            r = None
            if cur.entries or cur.has_unknown():
                r = cur.values_join()
            if name == "pop":
                st.heap[ref.addr] = replace(cur, weak=True)
            if name == "setdefault":
                I.note_mutation(ref, st, fr, node, ".setdefault()")
                st.heap[ref.addr] = replace(cur, rest_k=join(cur.rest_k, kk), rest_v=join(cur.rest_v, d if d is not None else NONE))
            if d is not None:
                r = join(r, d)
            return r if r is not None else UNK

        return I.map_alts(k, one)
    if name == "update":
        I.note_mutation(ref, st, fr, node, ".update()")
        d = o
        for x in a:
            d = I.dict_merge(d, x, st)
        for k, v in kwargs.items():
            if k != "**":
                d = I.dict_put(d, Const(k), v)
        st.heap[ref.addr] = d
        return NONE
    if name in ("clear", "popitem"):
        I.note_mutation(ref, st, fr, node, f".{name}()")
        if name == "clear":
            st.heap[ref.addr] = replace(o, entries=(), rest_k=None, rest_v=None, weak=False)
            return NONE
        st.heap[ref.addr] = replace(o, weak=True)
        return I.alloc(st, HList((o.keys_join(), o.values_join()), None, "tuple"), node, fr, "popitem")
    if name == "copy":
        return I.alloc(st, replace(o, own=None), node, fr, "copy")
    if name == "fromkeys":
        return _fromkeys(I, a, st, node, fr)
    return U()


def _fromkeys(I, a, st, node, fr):
    its, el, _ = I.iter_items(a[0], st, fr, node)
    v = a[1] if len(a) > 1 else NONE
    d = HDict()
    if its is not None:
        for k in its:
            d = I.dict_put(d, I.key(k, st), v)
    else:
        d = replace(d, rest_k=el, rest_v=v)
    return I.alloc(st, d, node, fr, "fromkeys")


def _shape_args(I, a, st):
    if len(a) == 1 and isinstance(a[0], Ref):
        o = I.get_obj(st, a[0].addr)
        if isinstance(o, HList) and o.items is not None:
            a = list(o.items)
        else:
            return None
    out = []
    for x in a:
        if isinstance(x, Const) and isinstance(x.v, int):
            out.append(x.v if x.v >= 0 else None)
        elif isinstance(x, Const) and isinstance(x.v, tuple):
            out += [i if i >= 0 else None for i in x.v if isinstance(i, int)]
        elif isinstance(x, Unk) and x.sym is not None and isinstance(x.sym, tuple) and x.sym[:1] == ("dim",):
            out.append(x.sym[1])
        else:
            out.append(None)
    return tuple(out)


def unk_method(I, u, name, args, kwargs, st, node, fr):
    a = unstar(args)
    k = u.kind
    r_args = I.args_recs(args, kwargs, st)
    if k == "file":
        if name in FILE_READ:
            if name == "readlines":
                if I.eof_mode:
                    return I.alloc(st, HList((), None, "list"), node, fr, "rl")
                return U(recs=X.FILE, kind="lines")
            v = X.file_text(I, u, st, node, fr, name)
            if I.eof_mode and name == "__next__":
                I.raise_(st, fr, "StopIteration", node)
            return v
        if name in ("write", "writelines"):
            X.sink(I, a, st, node, fr, u, how="write")
            return U(kind="int")
        if name == "close":
            I.event("close", node, fr, target=u)
            return NONE
        if name in ("tell", "seek", "fileno"):
            return U(kind="int")
        return U()
    if k == "np_c_":
        return U()
    if k in ("h5", "xml", "nc"):
        if I.assume and name in ("get", "pop") and a and isinstance(a[0], Const) and ("has", a[0].v) in I.assume:
            if not I.assume["has", a[0].v]:
                return a[1] if len(a) > 1 else kwargs.get("default", NONE)
            return U(kind="str", recs=u.recs)
        if I.assume and k == "xml" and name in ("get", "pop") and a and isinstance(a[0], Const):
            r = X.attr_value(I, a[0].v)
            if r is not None:
                return r if r is not False else a[1] if len(a) > 1 else kwargs.get("default", NONE)
        if name in H5_WRITE:
            if r_args or True:
                X.sink(I, list(a) + list(kwargs.values()), st, node, fr, u, how=name)
        if name == "close":
            I.event("close", node, fr, target=u)
            return NONE
        if name in ("items",):
            return I.alloc(st, HList(None, I.alloc(st, HList((U(kind="str", recs=u.recs, sym=None), replace(u, sym=None)), None, "tuple"), node, fr, "kv"), "list"), node, fr, "items")
        if name == "keys":
            return I.alloc(st, HList(None, U(kind="str", recs=u.recs), "list"), node, fr, "keys")
        if name in ("tobytes", "decode", "tostring", "strip"):
            return U(recs=u.recs, kind="str")
        return replace(u, sym=X.mk_sym("call", u.sym, name) if not args else None, recs=u.recs, shape=None)
    if k == "path":
        if name in ("exists", "is_file", "is_dir"):
            if getattr(I, "path_exists", None) is not None and name != "is_dir":
                return Const(I.path_exists)
            return U(kind="bool")
        if name in ("with_suffix", "joinpath", "with_name", "with_stem", "as_posix", "__fspath__") and X.cpath(u) is not None and all(X.cpath(x) is not None for x in a) and not kwargs:
            try:
                v = getattr(PurePosixPath(X.cpath(u)), name)(*[X.cpath(x) for x in a])
                return Const(v, u.recs) if isinstance(v, str) else X.mk_cpath(v, u.recs)
            except ValueError:
                I.raise_(st, fr, "ValueError", node)
        if name in ("expanduser",) and X.cpath(u) is not None:
            return u
        if name in ("with_suffix", "resolve", "absolute", "expanduser", "joinpath", "with_name", "relative_to", "with_stem"):
            return U(kind="path", recs=u.recs | r_args, extra=(name,))
        if name == "open":
            m = a[0] if a else kwargs.get("mode", Const("r"))
            I.event("open", node, fr, name="Path.open", args=a, kwargs=kwargs)
            return U(kind="file", extra=m.v if isinstance(m, Const) else None)
        if name in ("touch", "unlink", "mkdir", "rmdir", "rename", "replace", "write_text", "write_bytes", "chmod", "symlink_to", "hardlink_to"):
            I.event("fschange", node, fr, name="Path." + name)
            if name not in ("write_text", "write_bytes", "rename", "replace"):
                return NONE
        if name in ("read_text", "read_bytes"):
            return U(recs=X.FILE, kind="str" if name == "read_text" else "bytes")
        if name in ("write_text", "write_bytes"):
            X.sink(I, a, st, node, fr, U(kind="file"), how=name)
            return NONE
        return U(kind="str", recs=u.recs)
    # text
    if k in ("str", "bytes", "lines") or (k in (None, "tok") and name in PASS_TEXT | LISTY_TEXT):
        kk = k if k in ("str", "bytes") else "str"
        if name in PASS_TEXT:
            kind = "bytes" if name == "encode" else "str" if name == "decode" else kk
            ex = u.extra if isinstance(u.extra, tuple) and u.extra[:1] == ("pat",) else None
            if name == "encode" and ex:
                ex = ("pat", tuple(p.encode() if isinstance(p, str) else p for p in ex[1]))
            elif name not in ("encode",):
                ex = None
            return U(recs=u.recs | (r_args if name == "replace" else frozenset()), kind=kind, extra=ex, dtype=u.dtype if name == "decode" else None,
                     sym=X.mk_sym("m", u.sym, name, *[X.sym_of(z) for z in a]) if not kwargs else None)
        if name in LISTY_TEXT:
            sub = ("subtok",) if k == "tok" and any(q.cols != ID for q in u.recs) else None
            return U(recs=u.recs, kind="list", sym=X.mk_sym("m", u.sym, name, *[X.sym_of(z) for z in a]), extra=sub)
        if name == "join":
            v = join_text(I, u, a[0], st, fr, node)
            return v
        if name == "format":
            return X.str_format(I, u, args, kwargs, st, node, fr)
        if I.assume and name in ("startswith", "endswith") and a and isinstance(a[0], Const) and X.assumed(I, u, a[0].v) is not None:
            return Const(X.assumed(I, u, a[0].v))
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha", "isspace", "isupper"):
            return U(kind="bool")
        if name in ("find", "index", "count", "rfind"):
            return U(kind="int")
        if k in ("str", "bytes"):
            return U(recs=degrade(u.recs | r_args))
    if k == "match":
        if name in ("group", "__getitem__"):
            return U(recs=u.recs, kind="str", sym=X.mk_sym("grp", u.sym, *[X.sym_of(z) for z in a]))
        if name in ("groups",):
            return U(recs=u.recs, kind="list")
        if name in ("start", "end", "span"):
            return U(kind="int")
        return U()
    # reading from an unknown object that may be a file
    if name in FILE_READ and k in (None,):
        f = U(kind="file", extra=None)
        if name == "readlines":
            return U(recs=X.FILE, kind="lines") if not I.eof_mode else I.alloc(st, HList((), None, "list"), node, fr, "rl")
        v = X.file_text(I, f, st, node, fr, name)
        if I.eof_mode and name == "__next__":
            I.raise_(st, fr, "StopIteration", node)
        return v
    if name == "write" and k is None:
        X.sink(I, a, st, node, fr, u, how="write")
        return UNK
    if name == "tofile":
        fmt = kwargs.get("format", a[2] if len(a) > 2 else None)
        sep = kwargs.get("sep", a[1] if len(a) > 1 else Const(""))
        v = u
        if not (isinstance(sep, Const) and sep.v == ""):
            prec = "x"
            if fmt is not None:
                prec = X.spec_prec(fmt.v.lstrip("%")) if isinstance(fmt, Const) and isinstance(fmt.v, str) else "?"
            v = replace(u, recs=X.set_prec(u.recs, prec))
        raw(I, u.dtype, u.recs, a, kwargs, node, fr, fields=u.extra[1] if isinstance(u.extra, tuple) and u.extra[:1] == ("fieldvals",) else None, val=u, shape=u.shape)
        tgt = a[0] if a else kwargs.get("fid")
        b = as_buf(I, tgt, st)
        if b is not None:
            buf_method(I, b[0], b[1], "write", [v], {}, st, node, fr)
        else:
            X.sink(I, [v], st, node, fr, tgt, how="tofile")
        return NONE
    if name in ("tobytes", "tostring", "flatten", "ravel", "reshape"):
        flat(I, u, name, a, kwargs, _shape_args(I, a, st) if name == "reshape" else None, node, fr)
    if name in ("tobytes", "tostring"):
        raw(I, u.dtype, u.recs, (), {}, node, fr, val=u, shape=u.shape)
        return U(recs=u.recs, kind="bytes", dtype=u.dtype)
    if name == "tolist":
        if u.shape is not None and len(u.shape) >= 2:
            return U(recs=u.recs, kind="arr", shape=u.shape)
        return U(recs=u.recs, kind="list", shape=u.shape)
    if name == "item":
        return U(recs=u.recs, kind="tok", sym=X.mk_sym("item", u.sym))
    if name in ARR_MUT and (k in ("arr", "row") or u.own):
        I.note_mutation(u, st, fr, node, f".{name}()")
        return NONE
    if name in ARR_FRESH_SAME:
        if name == "byteswap":
            ip = kwargs.get("inplace", a[0] if a else FALSE)
            if I.truth(ip, st) is not False:
                I.note_mutation(u, st, fr, node, ".byteswap(inplace)")
                return u
        if name == "astype":
            dt = X.to_dtype(a[0]) if a else None
            cp = kwargs.get("copy", TRUE)
            own = frozenset() if I.truth(cp, st) is True else u.own
            recs = u.recs
            kd = k if k not in ("str", None, "list") else "arr"
            if dt is not None and dt.name in ("str", "bytes"):
                recs = X.set_prec(recs, "x")
            recs = X.narrow(recs, dt)
            return replace(u, own=own, dtype=dt, sym=None, kind=kd, recs=recs)
        sh = u.shape
        if name in ("round", "clip"):
            return replace(u, own=frozenset(), sym=None, recs=frozenset(r._replace(scaled=True, off=None) for r in u.recs))
        if name == "flatten":
            sh = flat_shape(u.shape)
        if name in ("repeat", "take", "compress"):
            return replace(u, own=frozenset(), shape=None, recs=frozenset(r._replace(cols=None) for r in u.recs))
        return replace(u, own=frozenset(), shape=sh, sym=None)
    if name in ARR_VIEW:
        if name == "reshape":
            sh = _shape_args(I, a, st)
            recs = u.recs
            last = sh[-1] if sh else None
            if sh == (None,):
                sh = flat_shape(u.shape)
            if u.shape is not None and len(u.shape) >= 2 and sh is not None and last is not None and last != u.shape[-1]:
                recs = frozenset(r._replace(cols=None) for r in recs)
            od = kwargs.get("order")
            if od is not None and not (isinstance(od, Const) and od.v == "C"):
                if (isinstance(od, Const) and od.v == "F" and X.t_orig(u) is None and u.shape is None or u.shape is not None and len(u.shape) == 1) and sh is not None and len(sh) == 2:
                    # column-major fill of a flat buffer: the transpose of the row-major one
                    return X.transpose(replace(u, shape=tuple(reversed(sh)), sym=None, kind="arr"))
                recs = frozenset(r._replace(cols=None) for r in recs)
            return replace(u, shape=sh, sym=None, kind="arr", recs=recs, extra=None)
        if name in ("ravel",):
            return replace(u, shape=flat_shape(u.shape), kind="arr")
        if name == "transpose" and not a:
            return X.transpose(u)
        if name in ("transpose", "swapaxes"):
            return replace(u, shape=None, recs=frozenset(r._replace(cols=None) for r in u.recs), kind="arr")
        if name == "view":
            if a or "dtype" in kwargs:
                X.buffer(I, [u], node, fr, True)
            return replace(u, shape=None)
        if name == "newbyteorder":
            if k == "dtype":
                o = a[0].v if a and isinstance(a[0], Const) else None
                if isinstance(u.dtype, DT) and u.dtype.name not in ("fields", "struct"):
                    return Const(DT(u.dtype.name, o or "?"))
                return U(kind="dtype", dtype=DT("?", o) if o in ("<", ">", "=") else None)
            return u
        return replace(u, sym=None)
    if name == "nonzero" and where_index(u).recs:
        return I.alloc(st, HList((where_index(u),), None, "tuple"), node, fr, "where")
    if name == "cumsum" and not a and not kwargs:
        c = fill_cumsum(I, u, st, node, fr)
        if c is not None:
            return c
    if name in ("max", "min") and u.kind in ("arr", "row", "h5") and not a and not kwargs:
        return extremum(u)
    if name in ("sum", "max", "min", "mean", "prod", "any", "all", "argsort", "argmax", "nonzero", "cumsum", "dot", "std"):
        return U(recs=degrade(u.recs) if u.recs else frozenset(), kind="arr" if name in ("argsort", "cumsum", "dot", "nonzero") or kwargs or a else None,
                 sym=X.mk_sym("m", u.sym, name))
    if name in ("get",):
        return U(recs=u.recs, sym=X.mk_sym("get", u.sym, *[X.sym_of(z) for z in a]))
    if name == "append" and k in ("list",):
        return NONE
    escape(I, a, kwargs, st, node, fr, name)
    I.event("extmethod", node, fr, name=name, recv=u, args=a, kwargs=kwargs)
    if name == "outer" and len(a) == 2:
        return _outer(I, a, kwargs, st, node, fr)
    return U(recs=degrade(u.recs | r_args), kind=None)


# --------------------------------------------------------------------------- builtins
def b_len(I, args, kw, st, node, fr):
    v = unstar(args)[0]

    def one(a):
        if isinstance(a, Const):
            try:
                return Const(len(a.v))
            except TypeError:
                if isinstance(a.v, (int, float)) or a.v is None:
                    I.event("typeerror", node, fr, what=f"len() of {a.v!r}", v=a)
                    I.raise_(st, fr, "TypeError", node)
                return U(kind="int")
        if isinstance(a, Ref):
            o = I.get_obj(st, a.addr)
            if isinstance(o, HList):
                return Const(len(o.items)) if o.items is not None else U(kind="int", sym=o.sym)
            if isinstance(o, HDict):
                return Const(len(o.entries)) if not o.has_unknown() and not o.weak else U(kind="int")
            if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                m = o.cls.lookup("__len__")
                if isinstance(m, FuncV):
                    return I.call(replace(m, selfv=a, cls=o.cls), [], {}, st, node, fr)
                if not set(o.cls.ext_bases()) - {"builtins.object"}:
                    I.event("typeerror", node, fr, what=f"len() of {I.describe(a, st)}", v=a)
                    I.raise_(st, fr, "TypeError", node)
            return U(kind="int")
        if isinstance(a, Unk):
            if a.shape:
                return X.dim_value(a.shape[0])
            return U(kind="int", sym=X.mk_sym("len", a.sym))
        return U(kind="int")

    return I.map_alts(v, one)


def b_range(I, args, kw, st, node, fr):
    a = unstar(args)
    if all(isinstance(x, Const) and isinstance(x.v, int) for x in a):
        try:
            r = range(*[x.v for x in a])
        except (TypeError, ValueError):
            return U()
        if len(r) <= 1400:
            return I.alloc(st, HList(tuple(Const(i) for i in r), None, "range"), node, fr, "range")
    ne = any(isinstance(x, Unk) and isinstance(x.sym, tuple) and x.sym[:1] == ("dim",) for x in a)
    first = a[0] if len(a) > 1 else Const(0)
    f0 = X.dim_of_value(first)
    up = f0 is not None and (len(a) < 3 or isinstance(a[2], Const) and a[2].v == 1)
    n = X.dims.add(X.dim_of_value(a[-1 if len(a) < 3 else 1]), f0, -1) if up and X.dim_of_value(a[-1 if len(a) < 3 else 1]) is not None else None
    return I.alloc(st, HList(None, U(kind="int", extra=("ctr", f0) if up else None), "range", nonempty=ne, sym=X.len_sym(n)), node, fr, "range")


def b_enumerate(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, ne = I.iter_items(a[0], st, fr, node)
    start = kw.get("start", a[1] if len(a) > 1 else Const(0))
    if its is None and el is None:
        I.event("typeerror", node, fr, what=f"cannot iterate {I.describe(a[0], st)}", v=a[0])
        I.raise_(st, fr, "TypeError", node)
    if its is not None:
        out = []
        for i, x in enumerate(its):
            ci = Const(start.v + i) if isinstance(start, Const) and isinstance(start.v, int) else U(kind="int")
            out.append(I.alloc(st, HList((ci, x), None, "tuple"), node, fr, ("en", i)))
        return I.alloc(st, HList(tuple(out), None, "list"), node, fr, "enum")
    ix = U(kind="int", extra=("ctr", X.dim_of_value(start)) if X.dim_of_value(start) is not None else None)
    if isinstance(a[0], Ref) and isinstance(I.get_obj(st, a[0].addr), HList) and isinstance(start, Const) and start.v == 0:
        ix = U(kind="int", extra=("at", a[0].addr))
    t = I.alloc(st, HList((ix, el), None, "tuple"), node, fr, "en")
    return I.alloc(st, HList(None, t, "list", nonempty=ne, sym=X.len_sym(X.iter_dim(I, a[0], st))), node, fr, "enum")


def b_zip(I, args, kw, st, node, fr):
    from .interp import Star

    if any(isinstance(x, Star) for x in args):
        el = join_all([X.iter_unk(I, x.v, st, fr, node)[1] if isinstance(x, Star) and isinstance(x.v, Unk) else UNK for x in args])
        r = I.args_recs(args, kw, st)
        t = I.alloc(st, HList(None, U(recs=r), "tuple"), node, fr, "zs")
        # transpose of an inexact list of exact tuples
        return I.alloc(st, HList(None, t, "list"), node, fr, "zips")
    cols = []
    for x in args:
        its, el, ne = I.iter_items(x, st, fr, node)
        if its is None and el is None:
            I.event("typeerror", node, fr, what=f"cannot iterate {I.describe(x, st)}", v=x)
            I.raise_(st, fr, "TypeError", node)
        cols.append((its, el, ne))
    if cols and all(c[0] is not None for c in cols):
        n = min(len(c[0]) for c in cols)
        out = [I.alloc(st, HList(tuple(c[0][i] for c in cols), None, "tuple"), node, fr, ("z", i)) for i in range(n)]
        return I.alloc(st, HList(tuple(out), None, "list"), node, fr, "zip")
    el = tuple(join_all(c[0]) if c[0] is not None and c[0] else (c[1] if c[1] is not None else UNK) for c in cols)
    if any(c[0] == [] for c in cols):
        return I.alloc(st, HList((), None, "list"), node, fr, "zip")
    # an exact column zipped with rows of unknown number keeps its length only if exact
    t = I.alloc(st, HList(el, None, "tuple"), node, fr, "z")
    ds = {X.iter_dim(I, x, st) for x in args}
    return I.alloc(st, HList(None, t, "list", nonempty=all(c[2] for c in cols), sym=X.len_sym(ds.pop()) if len(ds) == 1 else None), node, fr, "zip")


def _to_seq(typ):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)
        if not a:
            return I.alloc(st, HList((), None, typ), node, fr, typ)
        v = a[0]

        def one(x):
            if isinstance(x, Unk) and x.shape is None and x.kind in ("list", "row", "tuple") and typ in ("list", "tuple"):
                return replace(x, kind="list", own=frozenset())
            its, el, ne = I.iter_items(x, st, fr, node)
            if its is None and el is None:
                I.event("typeerror", node, fr, what=f"cannot iterate {I.describe(x, st)}", v=x)
                I.raise_(st, fr, "TypeError", node)
            if its is not None:
                if typ == "set":
                    return I.alloc(st, set_of(its), node, fr, typ)
                return I.alloc(st, HList(tuple(its), None, typ), node, fr, typ)
            return I.alloc(st, HList(None, el, typ, nonempty=ne, sym=X.len_sym(X.iter_dim(I, x, st)) if typ != "set" else None), node, fr, typ)

        return I.map_alts(v, one)

    return f


def b_dict(I, args, kw, st, node, fr):
    d = HDict()
    for a in unstar(args):
        its, el, _ = I.iter_items(a, st, fr, node)
        if isinstance(a, Ref) and isinstance(I.get_obj(st, a.addr), HDict):
            d = I.dict_merge(d, a, st)
        elif its is not None:
            for it in its:
                p, pe, _ = I.iter_items(it, st, fr, node)
                if p is not None and len(p) == 2:
                    d = I.dict_put(d, I.key(p[0], st), p[1])
                else:
                    d = replace(d, rest_k=UNK, rest_v=join(d.rest_v, pe or UNK))
        elif el is not None:
            p, pe, _ = I.iter_items(el, st, fr, node)
            if p is not None and len(p) == 2:
                d = replace(I.dict_put(d, I.key(p[0], st), p[1]), weak=True)
            else:
                d = replace(d, rest_k=UNK, rest_v=join(d.rest_v, pe or UNK))
    for k, v in kw.items():
        if k == "**":
            d = replace(d, rest_k=UNK, rest_v=v)
        else:
            d = I.dict_put(d, Const(k), v)
    return I.alloc(st, d, node, fr, "dict")


def by_value(recs):
    """Records whose columns were put in the order of their values."""
    return frozenset(r._replace(cols=None, rows="nsort" if r.origin == "file" or r.origin.startswith("cells[") else r.rows) for r in recs)


def is_row(v):
    """One row of connectivity (a sort of it reorders the nodes of one cell)?"""
    return isinstance(v, Unk) and bool(v.recs) and (v.kind == "row" or v.kind in ("arr", "list") and v.shape is not None and len(v.shape) == 1 and isinstance(v.shape[0], int))


def n_sort(I, args, kw, st, node, fr):
    a = unstar(args)
    axis = kw.get("axis", a[1] if len(a) > 1 else Const(-1))

    def one(v):
        if isinstance(v, Unk) and (is_row(v) or v.kind == "arr" and v.shape is not None and len(v.shape) == 2 and isinstance(axis, Const) and axis.v in (-1, 1)):
            return replace(v, recs=by_value(v.recs), own=frozenset(), sym=None, extra=None)
        return U(recs=degrade(X.flat_recs(I, v, st)), kind="arr", shape=_shape_of(I, v, st))

    return I.map_alts(a[0], one)


def b_sorted(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, ne = I.iter_items(a[0], st, fr, node)
    if is_row(a[0]) and "key" not in kw:
        its, el = None, U(recs=by_value(a[0].recs), kind="tok")
    if its is not None and all(isinstance(x, Const) for x in its):
        key = kw.get("key")
        if key is None or isinstance(key, Const):
            try:
                r = sorted(its, key=lambda c: c.v, reverse=bool(kw.get("reverse") and I.truth(kw["reverse"], st)))
                return I.alloc(st, HList(tuple(r), None, "list"), node, fr, "sorted")
            except TypeError:
                pass
        else:
            try:
                ks = [I.call(key, [x], {}, st, node, fr) for x in its]
            except RecursionError:
                ks = [None]
            if all(isinstance(x, Const) for x in ks):
                try:
                    order = sorted(range(len(its)), key=lambda i: ks[i].v, reverse=bool(kw.get("reverse") and I.truth(kw["reverse"], st)))
                    return I.alloc(st, HList(tuple(its[i] for i in order), None, "list"), node, fr, "sorted")
                except TypeError:
                    pass
    e = join_all(its) if its else el
    if its == []:
        return I.alloc(st, HList((), None, "list"), node, fr, "sorted")
    return I.alloc(st, HList(None, e if e is not None else UNK, "list", nonempty=ne), node, fr, "sorted")


def b_reversed(I, args, kw, st, node, fr):
    v = unstar(args)[0]
    its, el, ne = I.iter_items(v, st, fr, node)
    if its is not None:
        return I.alloc(st, HList(tuple(reversed(its)), None, "list"), node, fr, "rev")
    if isinstance(v, Unk):
        return replace(v, recs=frozenset(r._replace(cols=None) for r in v.recs), sym=None)
    return I.alloc(st, HList(None, el, "list", nonempty=ne), node, fr, "rev")


def b_map(I, args, kw, st, node, fr):
    a = unstar(args)
    f = a[0]
    if len(a) == 2:
        v = a[1]
        its, el, ne = I.iter_items(v, st, fr, node)
        if its is not None and len(its) <= 130:
            out = []
            for i, x in enumerate(its):
                saved = fr.iter
                fr.iter = saved + ((id(node), i),)
                try:
                    out.append(I.call(f, [x], {}, st, node, fr))
                finally:
                    fr.iter = saved
            return I.alloc(st, HList(tuple(out), None, "list"), node, fr, "map")
        if its is not None:
            el = join_all(its)
        r = I.call(f, [el if el is not None else UNK], {}, st, node, fr)
        if isinstance(v, Unk) and v.kind in ("list", "row") and isinstance(r, Unk):
            return replace(v, recs=r.recs, kind="list", own=frozenset(), sym=None)
        return I.alloc(st, HList(None, r, "list", nonempty=ne), node, fr, "map")
    els = []
    for v in a[1:]:
        its, el, ne = I.iter_items(v, st, fr, node)
        els.append(join_all(its) if its else el or UNK)
    r = I.call(f, els, {}, st, node, fr)
    return I.alloc(st, HList(None, r, "list"), node, fr, "map")


def b_filter(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, ne = I.iter_items(a[1], st, fr, node)
    if its is not None and isinstance(a[0], Const) and a[0].v is None:
        ts = [I.truth(x, st) for x in its]
        if None not in ts:
            return I.alloc(st, HList(tuple(x for x, t in zip(its, ts) if t), None, "list"), node, fr, "filter")
    if its is not None and isinstance(a[0], FuncV):
        ts = [I.truth(I.call(a[0], [x], {}, st, node, fr), st) for x in its]
        if None not in ts:
            return I.alloc(st, HList(tuple(x for x, t in zip(its, ts) if t), None, "list"), node, fr, "filter")
    e = join_all(its) if its else el
    if isinstance(a[1], Unk) and a[1].kind in ("list", "row"):
        return replace(a[1], kind="list", sym=None)
    return I.alloc(st, HList(None, e if e is not None else UNK, "list"), node, fr, "filter")


def b_sum(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, _ = I.iter_items(a[0], st, fr, node)
    start = kw.get("start", a[1] if len(a) > 1 else Const(0))
    if its is not None:
        v = start
        for x in its:
            if isinstance(v, Const) and v.v == 0 and not isinstance(x, (Const, Unk)):
                v = x
            else:
                v = I.binop(ast.Add(), v, x, st, fr, node)
        return v
    if isinstance(start, Ref):
        e = el
        its2, el2, _ = I.iter_items(el, st, fr, node) if el is not None else (None, UNK, False)
        return I.alloc(st, HList(None, join_all(its2) if its2 else el2, "list"), node, fr, "sum")
    return U(recs=degrade(X.flat_recs(I, el, st)) if el is not None else frozenset(), kind="int" if isinstance(el, Unk) and el.kind == "int" else None)


def extremum(u):
    """The smallest or largest entry of an array."""
    return U(recs=degrade(u.recs) if u.recs else frozenset(), kind=None, sym=X.mk_sym("m", u.sym, "extremum"), extra=("extremum",) + tuple(sorted({x.origin for x in u.recs})))


def n_minmax(I, args, kw, st, node, fr):
    a = unstar(args)
    if len(a) == 1 and not kw and isinstance(a[0], Unk) and a[0].kind in ("arr", "row", "h5"):
        return extremum(a[0])
    return generic(I, "numpy.min", args, kw, st, node, fr)


def b_minmax(which):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)
        vals = a
        if len(a) == 1:
            its, el, _ = I.iter_items(a[0], st, fr, node)
            vals = its
        if vals is not None and vals and all(isinstance(x, Const) for x in vals) and "key" not in kw:
            try:
                return Const((min if which == "min" else max)(x.v for x in vals))
            except TypeError:
                pass
        if vals and "key" not in kw:
            ds = {X.dim_of_value(x) if isinstance(x, (Const, Unk)) else None for x in vals} - ({0} if which == "max" else set())
            if ds and all(isinstance(d, str) and X.dims.POSITIVE.match(d) for d in ds):
                return X.dim_value(ds.pop() if len(ds) == 1 else f"{which}[{'|'.join(sorted(ds))}]")
        return U(recs=degrade(I.args_recs(args, {}, st)), kind="int" if vals and all(isinstance(x, (Const, Unk)) and (isinstance(x, Const) and isinstance(x.v, int) or isinstance(x, Unk) and x.kind == "int") for x in vals) else None)

    return f


def b_anyall(which):
    def f(I, args, kw, st, node, fr):
        its, el, _ = I.iter_items(unstar(args)[0], st, fr, node)
        if its is not None:
            ts = [I.truth(x, st) for x in its]
            if which == "any":
                if any(t is True for t in ts):
                    return TRUE
                if all(t is False for t in ts):
                    return FALSE
            else:
                if any(t is False for t in ts):
                    return FALSE
                if all(t is True for t in ts):
                    return TRUE
        return U(kind="bool")

    return f


def b_int(I, args, kw, st, node, fr):
    a = unstar(args)
    if not a:
        return Const(0)

    def one(v):
        if isinstance(v, Const):
            try:
                b = a[1].v if len(a) > 1 and isinstance(a[1], Const) else None
                return Const(int(v.v, b) if b is not None else int(v.v), v.recs)
            except (ValueError, TypeError):
                if isinstance(v.v, (str, bytes)):
                    I.raise_(st, fr, "ValueError", node)
                I.event("typeerror", node, fr, what=f"int() of {v.v!r}", v=v)
                I.raise_(st, fr, "TypeError", node)
        I.raise_(st, fr, "ValueError", node, maybe=True)
        if isinstance(v, Unk):
            return U(recs=v.recs, kind="int", sym=X.mk_sym("int", v.sym))
        return U(recs=X.flat_recs(I, v, st), kind="int")

    return I.map_alts(a[0], one)


def b_float(I, args, kw, st, node, fr):
    a = unstar(args)
    if not a:
        return Const(0.0)

    def one(v):
        if isinstance(v, Const):
            try:
                return Const(float(v.v), v.recs)
            except (ValueError, TypeError):
                I.raise_(st, fr, "ValueError", node)
        I.raise_(st, fr, "ValueError", node, maybe=True)
        return U(recs=X.flat_recs(I, v, st), kind="float", sym=X.mk_sym("float", X.sym_of(v)))

    return I.map_alts(a[0], one)


def b_str(I, args, kw, st, node, fr):
    a = unstar(args)
    if not a:
        return Const("")
    if len(a) > 1 or kw:
        return U(recs=X.flat_recs(I, a[0], st), kind="str")
    if isinstance(a[0], Unk) and a[0].kind == "path" and X.cpath(a[0]) is not None:
        return Const(X.cpath(a[0]), a[0].recs)
    if isinstance(a[0], Unk) and a[0].kind == "path":
        return U(kind="str", recs=a[0].recs, sym=X.mk_sym("str", a[0].sym), extra=a[0].extra)
    return X.to_text(I, a[0], st, "s")


def b_repr(I, args, kw, st, node, fr):
    return X.to_text(I, unstar(args)[0], st, "r")


def b_format(I, args, kw, st, node, fr):
    a = unstar(args)
    return X.format_value(I, a[0], a[1] if len(a) > 1 else Const(""), st, node, fr)


def b_isinstance(I, args, kw, st, node, fr):
    a = unstar(args)
    r = X.isinstance_(I, a[0], a[1], st)
    return U(kind="bool") if r is None else Const(r)


def b_hasattr(I, args, kw, st, node, fr):
    a = unstar(args)

    def one(v):
        nm = a[1].v if isinstance(a[1], Const) else None
        if isinstance(v, Unk):
            if v.kind in ("path", "str"):
                if nm in ("read", "write", "readline"):
                    return FALSE
            if v.kind == "file" and nm in ("read", "write", "readline"):
                return TRUE
        if isinstance(v, Const) and nm in ("read", "write"):
            return FALSE
        if isinstance(v, Ref):
            o = I.get_obj(st, v.addr)
            if isinstance(o, HObj) and isinstance(o.cls, ClsV) and nm:
                return Const(o.get(nm) is not None or o.cls.lookup(nm) is not None)
            if isinstance(o, HList) and o.typ in ("list", "tuple", "set") and nm:
                return Const(hasattr({"list": list, "tuple": tuple, "set": set}[o.typ], nm))
            if isinstance(o, HDict) and nm:
                return Const(hasattr(dict, nm))
        return U(kind="bool")

    return I.map_alts(a[0], one)


def b_getattr(I, args, kw, st, node, fr):
    a = unstar(args)
    if isinstance(a[1], Const) and isinstance(a[1].v, str):
        if len(a) > 2:
            n = len(fr.raises)
            from .interp import Dead

            try:
                return join(I.get_attr(a[0], a[1].v, st, fr, node), None)
            except Dead:
                del fr.raises[n:]
                return a[2]
        return I.get_attr(a[0], a[1].v, st, fr, node)
    if isinstance(a[1], Alt):
        outs = []
        for x in alts(a[1]):
            if isinstance(x, Const) and isinstance(x.v, str):
                outs.append(I.get_attr(a[0], x.v, st, fr, node))
        if outs:
            return join_all(outs)
    return U(recs=degrade(X.flat_recs(I, a[0], st)))


def b_setattr(I, args, kw, st, node, fr):
    a = unstar(args)
    if isinstance(a[1], Const):
        I.set_attr(a[0], a[1].v, a[2], st, fr, node)
    else:
        I.note_mutation(a[0], st, fr, node, "setattr()")
    return NONE


def b_next(I, args, kw, st, node, fr):
    a = unstar(args)
    if isinstance(a[0], Unk) and a[0].kind in ("file", None):
        if I.eof_mode:
            if len(a) > 1:
                return a[1]
            I.raise_(st, fr, "StopIteration", node)
        if len(a) == 1:
            I.raise_(st, fr, "StopIteration", node, maybe=True)
        if a[0].kind == "file" or a[0].kind is None:
            v = X.file_text(I, a[0] if a[0].kind == "file" else U(kind="file"), st, node, fr, "next")
            return join(v, a[1]) if len(a) > 1 else v
    its, el, ne = I.iter_items(a[0], st, fr, node)
    if its is not None:
        arg = node.args[0] if isinstance(node, ast.Call) and node.args else None
        if isinstance(arg, ast.GeneratorExp) or isinstance(arg, ast.Call) and isinstance(arg.func, ast.Name) and arg.func.id == "iter":
            # a fresh iterator
            if its:
                return its[0]
            if len(a) > 1:
                return a[1]
        v = join_all(its) if its else None
    else:
        v = el
    if len(a) == 1:
        I.raise_(st, fr, "StopIteration", node, maybe=True)
    else:
        v = join(v, a[1])
    if v is None:
        I.raise_(st, fr, "StopIteration", node)
    return v


def b_iter(I, args, kw, st, node, fr):
    a = unstar(args)
    if len(a) == 2:
        # iter(callable, sentinel)
        r = I.call(a[0], [], {}, st, node, fr)
        return I.alloc(st, HList(None, r, "list"), node, fr, "iter2")
    if isinstance(a[0], Ref):
        o = I.get_obj(st, a[0].addr)
        if isinstance(o, HObj):
            its, el, _ = I.iter_items(a[0], st, fr, node)
            return I.alloc(st, HList(tuple(its) if its is not None else None, el, "list"), node, fr, "iter")
    return a[0]


def b_type(I, args, kw, st, node, fr):
    a = unstar(args)
    v = a[0]
    if isinstance(v, Const):
        k = kind_of_const(v.v)
        return Ext("builtins." + k) if k and k != "none" else U()
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HObj) and isinstance(o.cls, ClsV):
            return o.cls
        if isinstance(o, HList):
            return Ext("builtins." + o.typ) if o.typ in ("list", "tuple", "set") else Ext("numpy.ndarray")
        if isinstance(o, HDict):
            return Ext("builtins.dict")
    return U()


def b_print(I, args, kw, st, node, fr):
    f = kw.get("file")
    if f is not None and not (isinstance(f, Const) and f.v is None):
        X.sink(I, [X.to_text(I, x, st, "s") for x in unstar(args)], st, node, fr, f, how="print")
    return NONE


def b_open(I, args, kw, st, node, fr):
    a = unstar(args)
    m = kw.get("mode", a[1] if len(a) > 1 else Const("r"))
    I.event("open", node, fr, name="open", args=a, kwargs=kw)
    st.may |= {("open", m.v if isinstance(m, Const) else "?")}
    return U(kind="file", extra=m.v if isinstance(m, Const) else None)


def b_scalarfn(kind):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)

        def one(v):
            if isinstance(v, Const):
                try:
                    if kind == "abs":
                        return Const(abs(v.v))
                    if kind == "round":
                        return Const(round(v.v, *[x.v for x in a[1:]]))
                    if kind == "ord":
                        return Const(ord(v.v))
                    if kind == "chr":
                        return Const(chr(v.v))
                    if kind == "bool":
                        return Const(bool(v.v))
                    if kind == "bytes":
                        return Const(bytes(v.v))
                except Exception:
                    return U()
            if kind == "bool":
                t = I.truth(v, st)
                return U(kind="bool") if t is None else Const(t)
            return U(recs=degrade(X.flat_recs(I, v, st)), kind={"ord": "int", "chr": "str", "bytes": "bytes"}.get(kind, v.kind if isinstance(v, Unk) else None))

        return I.map_alts(a[0], one) if a else (FALSE if kind == "bool" else Const(b""))

    return f


def b_slice(I, args, kw, st, node, fr):
    a = unstar(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a = a + [NONE]
    if all(isinstance(x, Const) for x in a):
        return Const(Sl(*[x.v for x in a]))
    return U(kind="slice", extra=tuple(a))


def b_exit(I, args, kw, st, node, fr):
    I.event("exit", node, fr)
    I.raise_(st, fr, "SystemExit", node)


def b_ident(I, args, kw, st, node, fr):
    a = unstar(args)
    X.buffer(I, a, node, fr)
    return a[0] if a else UNK


def b_vars(I, args, kw, st, node, fr):
    a = unstar(args)
    return I.get_attr(a[0], "__dict__", st, fr, node) if a else UNK


def b_callable(I, args, kw, st, node, fr):
    v = unstar(args)[0]
    if isinstance(v, (FuncV, PartialV, ClsV, Ext, Method)):
        return TRUE
    if isinstance(v, Const):
        return FALSE
    return U(kind="bool")


BUILTINS = {
    "builtins." + k: v
    for k, v in {
        "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "list": _to_seq("list"), "tuple": _to_seq("tuple"),
        "set": _to_seq("set"), "frozenset": _to_seq("set"), "dict": b_dict, "sorted": b_sorted, "reversed": b_reversed, "map": b_map, "filter": b_filter,
        "sum": b_sum, "min": b_minmax("min"), "max": b_minmax("max"), "any": b_anyall("any"), "all": b_anyall("all"), "int": b_int,
        "float": b_float, "str": b_str, "repr": b_repr, "format": b_format, "isinstance": b_isinstance, "hasattr": b_hasattr,
        "getattr": b_getattr, "setattr": b_setattr, "next": b_next, "iter": b_iter, "type": b_type, "print": b_print, "open": b_open,
        "abs": b_scalarfn("abs"), "round": b_scalarfn("round"), "ord": b_scalarfn("ord"), "chr": b_scalarfn("chr"), "bool": b_scalarfn("bool"),
        "bytes": b_scalarfn("bytes"), "slice": b_slice, "exit": b_exit, "quit": b_exit, "memoryview": b_ident, "bytearray": b_ident,
        "callable": b_callable, "vars": b_vars,
    }.items()
}


# --------------------------------------------------------------------------- numpy
def as_buf(I, v, st):
    if isinstance(v, Ref):
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList) and o.typ == "buf":
            return v, o
    return None


def _const_nested(I, v, st, depth=0):
    """Exact constant (possibly nested) list?"""
    if isinstance(v, Const):
        return isinstance(v.v, (int, float, bool))
    if isinstance(v, Ref) and depth < 4:
        o = I.get_obj(st, v.addr)
        return isinstance(o, HList) and o.typ in ("list", "tuple", "nd", "range") and o.items is not None and all(_const_nested(I, x, st, depth + 1) for x in o.items)
    return False


def _shape_of(I, v, st, depth=0):
    if isinstance(v, Const):
        return () if isinstance(v.v, (int, float, bool)) else None
    if isinstance(v, Unk):
        if v.kind in ("int", "float", "bool", "tok") or v.shape == ():
            return ()
        if v.shape is not None:
            return v.shape
        if v.kind in ("list", "row"):
            return (None,)
        return None
    if isinstance(v, Ref) and depth < 5:
        o = I.get_obj(st, v.addr)
        if isinstance(o, HList):
            if o.items is not None:
                if not o.items:
                    return (0,)
                ss = [_shape_of(I, x, st, depth + 1) for x in o.items]
                if any(s is None for s in ss):
                    return None
                s0 = ss[0]
                for s in ss[1:]:
                    s0 = join_shape(s0, s)
                    if s0 is None:
                        return None
                return (len(o.items),) + s0
            if o.elem is None:
                return None
            s = _shape_of(I, o.elem, st, depth + 1)
            d = o.sym[1] if isinstance(o.sym, tuple) and o.sym[:1] == ("dim",) else None
            return (d,) + s if s is not None else None
    if isinstance(v, Alt):
        s = None
        for i, a in enumerate(v.alts):
            x = _shape_of(I, a, st, depth)
            s = x if i == 0 else join_shape(s, x)
            if s is None:
                return None
        return s
    return None


def _nd_of(I, v, st, node, fr, tag, dtype=None):
    """nd heap list from an exact constant list."""
    o = I.get_obj(st, v.addr)
    items = []
    for i, x in enumerate(o.items):
        items.append(_nd_of(I, x, st, node, fr, (tag, i), dtype) if isinstance(x, Ref) else x)
    return I.alloc(st, HList(tuple(items), None, "nd", dtype=dtype), node, fr, ("nd", tag))


def to_array(I, v, st, node, fr, copy, dtype=None, tag="arr"):
    def one(a):
        if isinstance(a, Ref):
            o = I.get_obj(st, a.addr)
            if isinstance(o, HObj):
                if isinstance(o.cls, ClsV) and not set(o.cls.ext_bases()) - {"builtins.object"}:
                    return U(recs=X.flat_recs(I, a, st), kind="arr")
                return U(kind="arr", recs=X.flat_recs(I, a, st))
            if isinstance(o, HList) and o.typ == "nd":
                if not copy:
                    return a
                return I.alloc(st, replace(o, own=None), node, fr, tag)
            if _const_nested(I, a, st) and o.items is not None and len(o.items) <= 1400:
                return _nd_of(I, a, st, node, fr, tag, dtype)
            sh = _shape_of(I, a, st)
            recs = X.narrow(X.flat_recs(I, a, st), dtype)
            return U(recs=recs, kind="arr", shape=sh, dtype=dtype, extra=known_sizes(I, a, st) or (("lead", *o.lead) if isinstance(o, HList) and o.lead else None))
        if isinstance(a, Unk):
            own = frozenset() if copy else a.own
            if dtype is not None and a.dtype != dtype:
                own = own if a.dtype is None and not copy else frozenset()
            sh = a.shape
            if sh is None and a.kind in ("list", "row"):
                sh = (None,)
            if a.kind in ("int", "float", "tok", "bool"):
                sh = ()
            return replace(a, own=own, kind="arr" if a.kind not in ("row",) else "arr", dtype=dtype or a.dtype, shape=sh, recs=X.narrow(a.recs, dtype),
                           extra=a.extra if isinstance(a.extra, tuple) and a.extra[:1] == ("idx",) else ("vals", (X.dim_of_value(a),)) if sh == () and X.dim_of_value(a) is not None else None)
        if isinstance(a, Const):
            return a if not isinstance(a.v, str) else U(recs=a.recs, kind="arr")
        return U(recs=recs_of(a), kind="arr")

    return I.map_alts(v, one)


def known_sizes(I, a, st):
    """("vals", sizes) of a short (nested) list of integers with symbolic values, row by row."""
    out = []

    def walk(x, depth):
        o = I.get_obj(st, x.addr) if isinstance(x, Ref) else None
        if isinstance(o, HList) and o.items is not None and len(o.items) <= 64 and depth < 3:
            return all(walk(y, depth + 1) for y in o.items)
        if o is not None or not isinstance(x, (Const, Unk)):
            return False
        out.append(X.dim_of_value(x if not isinstance(x, Const) or not x.recs else Const(x.v)))
        return True

    return ("vals", tuple(out)) if walk(a, 0) and any(x is not None for x in out) and len(out) <= 64 else None


def n_array(copy):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)
        dt = kw.get("dtype", a[1] if len(a) > 1 else None)
        cp = copy
        if copy and "copy" in kw and I.truth(kw["copy"], st) is not True:
            cp = False
        v = a[0] if a else kw.get("object", kw.get("a", UNK))
        return to_array(I, v, st, node, fr, cp, X.to_dtype(dt) if dt is not None and not (isinstance(dt, Const) and dt.v is None) else None)

    return f


def field_types(d):
    """DT('fields', ...) of a DT('struct', ...) given by its text form."""
    return DT("fields", tuple((n, X.to_dtype(Const(re.sub(r"^([<>=|]?)(\(.*?\)|\d+)", r"\1", t))) if isinstance(t, str) else None) for n, t in d.order))


def fields_dtype(I, v, st):
    """DT('fields', ((name, DT or None), ...)) for a literal list of field tuples."""
    if not isinstance(v, Ref):
        return None
    o = I.get_obj(st, v.addr)
    if not isinstance(o, HList) or o.items is None and not (I.assume and o.elem is not None):
        return None
    out = []
    for x in o.items if o.items is not None else [o.elem]:
        t = I.get_obj(st, x.addr) if isinstance(x, Ref) else None
        if not isinstance(t, HList) or t.items is None or len(t.items) < 2 or not (I.assume or isinstance(t.items[0], Const) and isinstance(t.items[0].v, str)):
            return None
        ft = t.items[1]
        if isinstance(ft, Ref):
            q = I.get_obj(st, ft.addr)
            ft = q.items[0] if isinstance(q, HList) and q.items else UNK
        out.append((t.items[0].v if isinstance(t.items[0], Const) else "?", X.to_dtype(ft)))
    return DT("fields", tuple(out)) if out else None


def n_fresh(I, args, kw, st, node, fr):
    a = unstar(args)
    sh = None
    if a:
        sh = _shape_args(I, [a[0]], st)
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    recs = frozenset()
    d = X.to_dtype(dt) if dt is not None else None
    if d is not None and d.name == "struct":
        return I.alloc(st, HObj(StructArr.of(field_types(d)), tuple((n, U(kind="arr", dtype=X.to_dtype(Const(re.sub(r"^(\(.*?\)|\d+)", "", t))) if isinstance(t, str) else None)) for n, t in d.order)), node, fr, "struct")
    return U(kind="arr", shape=sh, recs=recs, dtype=d or (fields_dtype(I, dt, st) if dt is not None else DT("float64")))


def n_full(I, args, kw, st, node, fr):
    a = unstar(args)
    sh = _shape_args(I, [a[0]], st) if a else None
    v = a[1] if len(a) > 1 else kw.get("fill_value", UNK)
    dt = kw.get("dtype", a[2] if len(a) > 2 else None)
    return U(kind="arr", shape=sh, recs=X.flat_recs(I, v, st), dtype=X.to_dtype(dt) if dt is not None else X.dtype_of(I, v, st),
             extra=("fill", v.v) if isinstance(v, Const) and isinstance(v.v, (int, float)) else None)


def n_broadcast(I, args, kw, st, node, fr):
    a = unstar(args)
    sh = kw.get("shape", a[1] if len(a) > 1 else None)
    return n_full(I, [sh, a[0]], {}, st, node, fr) if sh is not None and isinstance(a[0], Const) else n_pass(I, args, kw, st, node, fr)


def n_prod(I, args, kw, st, node, fr):
    a = unstar(args)
    its, _ = _seq_parts(I, a[0], st, fr, node) if a else (None, None)
    if its is not None and len(a) == 1 and set(kw) <= {"dtype"}:
        d = X.dims.product([X.dim_of_value(x) for x in its])
        if d is not None:
            return X.dim_value(d)
    return n_elementwise(I, args, kw, st, node, fr)


def n_sum(I, args, kw, st, node, fr):
    a = unstar(args)
    its, _ = _seq_parts(I, a[0], st, fr, node) if a else (None, None)
    if its is not None and len(a) == 1 and set(kw) <= {"dtype"}:
        ds = [X.dim_of_value(x) for x in its]
        d = X.dims.total(ds) if None not in ds else None
        if d is not None:
            return X.dim_value(d)
    return generic(I, "numpy.sum", args, kw, st, node, fr)


def n_like(I, args, kw, st, node, fr):
    a = unstar(args)
    sh = _shape_of(I, a[0], st) if a else None
    dt = a[0].dtype if a and isinstance(a[0], Unk) else None
    if "dtype" in kw:
        dt = X.to_dtype(kw["dtype"])
    return U(kind="arr", shape=sh, dtype=dt)


def n_arange(I, args, kw, st, node, fr):
    a = [x for x in unstar(args)]
    if "start" in kw or "stop" in kw:
        a = [x for x in (kw.get("start"), kw.get("stop"), kw.get("step")) if x is not None]
    if len(a) > 3:
        a = a[:3]
    a = [x for x in a if not (isinstance(x, (Ext,)))]
    dt = kw.get("dtype")
    if a and all(isinstance(x, Const) and isinstance(x.v, int) for x in a):
        try:
            r = range(*[x.v for x in a])
        except (TypeError, ValueError):
            return U(kind="arr")
        if len(r) <= 1400:
            return I.alloc(st, HList(tuple(Const(i) for i in r), None, "nd", dtype=X.to_dtype(dt) if dt is not None else DT("int64")), node, fr, "arange")
    sh = (None,)
    if len(a) == 1 and isinstance(a[0], Unk) and isinstance(a[0].sym, tuple) and a[0].sym[:1] == ("dim",):
        sh = (a[0].sym[1],)
    first = a[0] if len(a) > 1 else Const(0)
    f0 = X.dim_of_value(first)
    up = f0 is not None and (len(a) < 3 or isinstance(a[2], Const) and a[2].v == 1)
    ex = ("ctr", f0) if up else None
    if up and len(a) == 2 and X.dim_of_value(a[1]) is not None:
        sh = (X.dims.add(X.dim_of_value(a[1]), f0, -1),)
    if dt is None and a and all(isinstance(x, Const) and type(x.v) is int or isinstance(x, Unk) and x.kind == "int" and not x.recs for x in a):
        return U(kind="arr", shape=sh, dtype=DT("int64"), extra=ex)
    return U(kind="arr", shape=sh, dtype=X.to_dtype(dt) if dt is not None else None, extra=ex)


def _seq_parts(I, v, st, fr, node):
    its, el, ne = I.iter_items(v, st, fr, node)
    return its, el


def labelled(I, x, st):
    """Records of a column; running numbers are recorded by their first value."""
    r = X.flat_recs(I, x, st)
    if not r and isinstance(x, Unk) and x.kind == "arr" and isinstance(x.extra, tuple) and x.extra[:1] == ("ctr",):
        return frozenset({Rec(f"run:{x.extra[1]}", ID)})
    return r


def n_colstack(I, args, kw, st, node, fr):
    """column_stack / hstack / c_: columns side by side."""
    a = unstar(args)
    its, el = _seq_parts(I, a[0], st, fr, node)
    if its is not None:
        I.event("colstack", node, fr, parts=[("zeros" if isinstance(x, Unk) and x.extra == ("zeros",) else frozenset(r.origin for r in X.flat_recs(I, x, st))) for x in its])
        shapes = [_shape_of(I, x, st) for x in its]
        ncols = 0
        nrows = None
        for s in shapes:
            if s is None:
                ncols = None
                break
            if len(s) == 2:
                nrows = nrows if nrows is not None else s[0]
                if not isinstance(s[1], int):
                    ncols = None
                    break
                ncols += s[1]
            elif len(s) == 1:
                ncols += 1
            else:
                ncols = None
                break
        cr = []
        if ncols is not None and ncols <= 130:
            for x, s in zip(its, shapes):
                c = X.composite(x)
                if len(s) == 1 or s[1] == 1 and c is None:
                    cr.append(X.ZeroCol() if isinstance(x, Unk) and x.extra == ("zeros",) else labelled(I, x, st))
                elif c is not None:
                    cr += list(c)
                elif isinstance(x, Unk):
                    cr += [frozenset(r._replace(cols=cols_item(r.cols, i)) for r in x.recs) for i in range(s[1])]
                else:
                    cr = None
                    break
        else:
            cr = None
        cd = X.promote_all([X.dtype_of(I, x, st) for x in its])
        if cr is not None:
            return replace(X.with_cols(U(), cr, (nrows, ncols), "arr"), dtype=cd)
        return U(recs=recs_concat([labelled(I, x, st) for x in its]), kind="arr", shape=(nrows, ncols) if ncols is not None else None, dtype=cd)
    return U(recs=X.flat_recs(I, el, st) if el is not None else frozenset(), kind="arr")


def n_fromarrays(I, args, kw, st, node, fr):
    """numpy.rec.fromarrays: one field per array, each of the array's own type."""
    v = n_colstack(I, args, {}, st, node, fr)
    its, _ = _seq_parts(I, unstar(args)[0], st, fr, node)
    if its is None or not isinstance(v, Unk) or "dtype" in kw or "formats" in kw:
        return replace(v, dtype=None) if isinstance(v, Unk) else v
    return replace(v, dtype=DT("fields", tuple((f"f{i}", X.dtype_of(I, x, st)) for i, x in enumerate(its))))


def n_hstack(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el = _seq_parts(I, a[0], st, fr, node)
    if its is not None and any((_shape_of(I, x, st) or (0,)) and len(_shape_of(I, x, st) or ()) >= 2 for x in its):
        return n_colstack(I, args, kw, st, node, fr)
    return n_concat(I, args, kw, st, node, fr)


def n_concat(I, args, kw, st, node, fr):
    a = unstar(args)
    axis = kw.get("axis", a[1] if len(a) > 1 else Const(0))
    if isinstance(axis, Const) and axis.v in (1, -1):
        return n_colstack(I, args, kw, st, node, fr)
    its, el = _seq_parts(I, a[0], st, fr, node)
    if its is not None:
        if its and all(isinstance(x, Ref) and isinstance(I.get_obj(st, x.addr), HList) and _const_nested(I, x, st) for x in its):
            items = ()
            for x in its:
                items += I.get_obj(st, x.addr).items
            return I.alloc(st, HList(items, None, "nd"), node, fr, "concat")
        r = frozenset()
        shp = None
        first = True
        rows = []
        for x in its:
            r |= X.flat_recs(I, x, st)
            s = _shape_of(I, x, st)
            rows.append(s[0] if s else None)
            if first:
                shp = s
                first = False
            else:
                shp = None if s is None or shp is None or len(s) != len(shp) else (None,) + join_shape(shp, s)[1:]
        if shp and len(its) > 1:
            d = None
            if all(isinstance(x, int) for x in rows):
                d = sum(rows)
            elif all(isinstance(x, (int, str)) for x in rows):
                d = X.dims.total(rows)
            shp = (d,) + shp[1:]
        parts = ("cat", tuple(its)) if its and all(isinstance(x, Unk) for x in its) else None
        if parts is not None and len(its) > 1:
            I.event("cat", node, fr, parts=parts)
        cd = X.promote_all([X.dtype_of(I, x, st) for x in its])
        if "dtype" in kw:
            cd = X.to_dtype(kw["dtype"])
            r = X.narrow(r, cd)
        return U(recs=r, kind="arr", shape=shp, extra=parts, dtype=cd)
    e = el
    sh = _shape_of(I, e, st) if e is not None else None
    return U(recs=X.flat_recs(I, e, st) if e is not None else frozenset(), kind="arr", shape=(None,) + sh[1:] if sh else None,
             dtype=e.dtype if isinstance(e, Unk) else None)


def n_stack(I, args, kw, st, node, fr):
    a = unstar(args)
    axis = kw.get("axis", a[1] if len(a) > 1 else Const(0))
    if isinstance(axis, Const) and axis.v == 0:
        return to_array(I, a[0], st, node, fr, True, X.to_dtype(kw["dtype"]) if "dtype" in kw else None)
    return n_concat(I, args, kw, st, node, fr)


def n_vstack(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el = _seq_parts(I, a[0], st, fr, node)
    parts = its if its is not None else [el] if el is not None else []
    if its is None and parts and all(isinstance(x, Unk) and x.shape is not None and len(x.shape) == 1 for x in parts):
        return n_stack(I, [a[0]], kw, st, node, fr)
    return n_concat(I, args, kw, st, node, fr)


def n_append(I, args, kw, st, node, fr):
    a = unstar(args)
    r = frozenset()
    for x in a[:2]:
        r |= X.flat_recs(I, x, st)
    return U(recs=r, kind="arr")


def n_insert(I, args, kw, st, node, fr):
    a = unstar(args)
    base = X.flat_recs(I, a[0], st)
    return U(recs=base | (X.flat_recs(I, a[2], st) if len(a) > 2 else frozenset()), kind="arr")


def fill_holes(I, v):
    """Scenario: a number read from the file and put into a type string."""
    if I.assume and "hole" in I.assume and isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("pat",) and len(v.extra) == 2:
        return Const("".join(x if isinstance(x, str) else I.assume["hole"] for x in v.extra[1]))
    return v


def n_dtype(I, args, kw, st, node, fr):
    a = unstar(args)

    def one(v):
        d = X.to_dtype(fill_holes(I, v))
        if d is not None:
            return Const(d)
        if isinstance(v, Unk) and v.kind == "dtype":
            return v
        if isinstance(v, Const) and isinstance(v.v, str):
            # numpy rejects it
            if v.v.isalpha() and v.v not in ("S", "U", "V", "O", "F", "D", "G", "complex", "object"):
                I.event("typeerror", node, fr, what=f"data type {v.v!r} not understood", v=v)
                I.raise_(st, fr, "TypeError", node)
        return U(kind="dtype", sym=X.mk_sym("dtype", X.sym_of(v)), dtype=fields_dtype(I, v, st))

    return I.map_alts(a[0], one) if a else U(kind="dtype")


def n_savetxt(I, args, kw, st, node, fr):
    a = unstar(args)
    fmt = kw.get("fmt", a[2] if len(a) > 2 else Const("%.18e"))
    data = a[1] if len(a) > 1 else kw.get("X", UNK)
    recs = X.flat_recs(I, data, st)
    precs = set()
    for f in alts(fmt):
        if isinstance(f, Const) and isinstance(f.v, str):
            specs = [m.group(0)[1:] for m in X._PCT.finditer(f.v)]
            precs |= {X.spec_prec(s) for s in specs} or {"?"}
        elif isinstance(f, Ref):
            o = I.get_obj(st, f.addr)
            its = o.items if isinstance(o, HList) and o.items is not None else [o.element()] if isinstance(o, HList) else []
            for x in its:
                precs.add(X.spec_prec(x.v.lstrip("%")) if isinstance(x, Const) and isinstance(x.v, str) else "?")
        else:
            precs.add("?")
    if len(precs) > 1:
        precs.discard("x")
    out = frozenset()
    for p in precs or {"?"}:
        out |= X.set_prec(recs, p)
    v = U(recs=out, kind="str")
    tgt = a[0] if a else kw.get("fname", UNK)
    b = as_buf(I, tgt, st)
    if b is not None:
        buf_method(I, b[0], b[1], "write", [v], {}, st, node, fr)
    else:
        X.sink(I, [replace(v, extra=data.extra) if X.composite(data) is not None else v], st, node, fr, tgt, how="savetxt")
    return NONE


def read_dts(I, dt, st):
    """The types of a binary read: a list of DT, with None for an undetermined one."""
    if dt is None:
        return [DT("float64")]
    return [X.to_dtype(x) or fields_dtype(I, x, st) or (x.dtype if isinstance(x, Unk) and x.kind == "dtype" else None) for x in alts(dt)]


def n_fromfile(I, args, kw, st, node, fr):
    a = unstar(args)
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    if I.eof_mode:
        return I.alloc(st, HList((), None, "nd"), node, fr, "eofarr")
    cnt = kw.get("count", a[2] if len(a) > 2 else None)
    sh = (None,)
    if isinstance(cnt, Const) and isinstance(cnt.v, int) and cnt.v >= 0:
        sh = (cnt.v,)
    I.event("fromfile", node, fr, dtype=dt, count=cnt, sep=kw.get("sep"), dts=read_dts(I, dt, st))
    if isinstance(I.script, dict):
        # scenario: the contents of records of a certain length
        if isinstance(cnt, Const) and cnt.v in I.script:
            return I.alloc(st, HList(tuple(Const(x) for x in I.script[cnt.v]), None, "nd"), node, fr, "scripted")
    elif I.script and isinstance(cnt, Const) and cnt.v == 1:
        # scenario: the first single numbers of the file
        if node not in I.script_pos:
            I.script_pos[node] = len(I.script_pos)
        if I.script_pos[node] < len(I.script) and I.script[I.script_pos[node]] is not None:
            return I.alloc(st, HList((Const(I.script[I.script_pos[node]]),), None, "nd"), node, fr, "scripted")
    d = X.to_dtype(dt) if dt is not None else None
    if d is not None and d.name == "struct":
        return I.alloc(st, HObj(StructArr.of(field_types(d)), tuple((n, U(recs=frozenset([Rec("file", (i,))]), kind="arr", shape=(None,))) for i, (n, _) in enumerate(d.order))), node, fr, "struct")
    return U(recs=X.FILE, kind="arr", shape=sh, dtype=X.to_dtype(dt) if dt is not None else DT("float64"), sym=X.fresh_sym(I, st, node, fr))


def n_loadtxt(I, args, kw, st, node, fr):
    a = unstar(args)
    v = a[0] if a else UNK
    if isinstance(v, Unk) and v.kind == "file":
        return U(recs=X.FILE, kind="arr")
    r = X.flat_recs(I, v, st)
    return U(recs=r or X.FILE, kind="arr")


def n_frombuffer(I, args, kw, st, node, fr):
    a = unstar(args)
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    r = X.flat_recs(I, a[0], st)
    I.event("frombuffer", node, fr, dtype=dt, sep=kw.get("sep", a[3] if len(a) > 3 else None), dts=read_dts(I, dt, st))
    return U(recs=r, kind="arr", shape=(None,), dtype=X.to_dtype(dt) if dt is not None else None, sym=X.fresh_sym(I, st, node, fr))


def n_fromiter(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, _ = I.iter_items(a[0], st, fr, node)
    r = X.flat_recs(I, a[0], st)
    return U(recs=r, kind="arr", shape=(None,))


def _outer(I, a, kw, st, node, fr):
    b = a[1]
    if isinstance(b, Ref):
        o = I.get_obj(st, b.addr)
        if isinstance(o, HList) and o.items is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in o.items):
            return U(kind="arr", shape=(None, len(o.items)), extra=("idx", tuple(x.v for x in o.items)))
    if isinstance(b, Alt):
        return I.map_alts(b, lambda z: _outer(I, [a[0], z], kw, st, node, fr))
    return U(kind="arr")


def n_outer(I, args, kw, st, node, fr):
    return _outer(I, unstar(args), kw, st, node, fr)


def n_elementwise(I, args, kw, st, node, fr):
    a = unstar(args)
    if "out" in kw:
        I.note_mutation(kw["out"], st, fr, node, "out=")
    r = degrade(I.args_recs(args, kw, st))
    sh = a[0].shape if a and isinstance(a[0], Unk) else None
    return U(recs=r, kind="arr", shape=sh)


def n_pass(I, args, kw, st, node, fr):
    """Same content, possibly a view."""
    a = unstar(args)
    return to_array(I, a[0], st, node, fr, False)


def n_ravel(I, args, kw, st, node, fr):
    a = unstar(args)
    flat(I, to_array(I, a[0], st, node, fr, False), "ravel", a[1:], kw, None, node, fr)
    return n_pass(I, args, kw, st, node, fr)


def n_copy(I, args, kw, st, node, fr):
    a = unstar(args)
    return to_array(I, a[0], st, node, fr, True)


def n_reshape(I, args, kw, st, node, fr):
    a = unstar(args)
    v = to_array(I, a[0], st, node, fr, False)
    sh = _shape_args(I, a[1:2], st)
    flat(I, v, "reshape", (), kw, sh, node, fr)
    if isinstance(v, Unk):
        return replace(v, shape=sh, sym=None)
    return U(recs=X.flat_recs(I, v, st), kind="arr", shape=sh)


def n_argsort(I, args, kw, st, node, fr):
    a = unstar(args)
    if isinstance(a[0], Ref):
        o = I.get_obj(st, a[0].addr)
        if isinstance(o, HList) and o.items is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in o.items):
            return const_argsort(I, o.items, st, node, fr)
    return U(kind="arr", shape=a[0].shape if isinstance(a[0], Unk) and a[0].shape is not None and len(a[0].shape) == 1 else None, extra=("order",))


def n_attr(nm):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)
        if len(a) == 1 and not kw:
            v = a[0]
            if isinstance(v, Ref) and isinstance(I.get_obj(st, v.addr), HList) and I.get_obj(st, v.addr).typ != "nd":
                v = to_array(I, v, st, node, fr, False)
            if isinstance(v, (Unk, Ref)):
                r = I.get_attr(v, nm, st, fr, node)
                return replace(r, recs=frozenset()) if isinstance(r, Unk) else r
        return U(kind="int" if nm != "shape" else None)

    return f


def n_changed(I, args, kw, st, node, fr):
    """Functions that alter numbers element by element."""
    a = unstar(args)
    return U(recs=degrade(X.flat_recs(I, a[0], st), True), kind="arr", shape=_shape_of(I, a[0], st))


def n_pad(I, args, kw, st, node, fr):
    a = unstar(args)
    v = a[0]
    return U(recs=X.flat_recs(I, v, st), kind="arr")


def n_zeros(f):
    def g(I, args, kw, st, node, fr):
        v = f(I, args, kw, st, node, fr)
        return replace(v, extra=("zeros",)) if isinstance(v, Unk) and v.extra is None else v

    return g


def n_ones(I, args, kw, st, node, fr):
    v = n_fresh(I, args, kw, st, node, fr)
    return replace(v, extra=("fill", 1)) if isinstance(v, Unk) and v.extra is None and v.shape is not None and len(v.shape) == 1 else v


def fill_cumsum(I, u, st, node, fr):
    """cumsum of a short array filled with one known number"""
    if isinstance(u.extra, tuple) and u.extra[:1] == ("fill",) and isinstance(u.extra[1], int) and u.shape is not None and len(u.shape) == 1 and isinstance(u.shape[0], int) and u.shape[0] <= 64:
        return I.alloc(st, HList(tuple(Const(u.extra[1] * (i + 1)) for i in range(u.shape[0])), None, "nd", dtype=DT("int64")), node, fr, "cumsum")
    return None


def n_cumsum(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el = _seq_parts(I, a[0], st, fr, node) if a else (None, None)
    if its is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in its) and len(a) == 1:
        t, out = 0, []
        for x in its:
            t += x.v
            out.append(Const(t))
        return I.alloc(st, HList(tuple(out), None, "nd", dtype=DT("int64")), node, fr, "cumsum")
    if a and len(a) == 1 and not kw and isinstance(a[0], Unk):
        c = fill_cumsum(I, a[0], st, node, fr)
        if c is not None:
            return c
    return n_elementwise(I, args, kw, st, node, fr)


def n_split(I, args, kw, st, node, fr):
    a = unstar(args)
    v = a[0]
    cut = a[1] if len(a) > 1 else kw.get("indices_or_sections")
    if isinstance(v, Unk) and v.shape and isinstance(v.shape[0], int) and isinstance(cut, Ref) and "axis" not in kw and len(a) < 3:
        o = I.get_obj(st, cut.addr)
        if isinstance(o, HList) and o.items is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in o.items):
            n = v.shape[0]
            at = [0] + [min(x.v, n) for x in o.items] + [n]
            out = []
            for lo, hi in zip(at, at[1:]):
                t = None if (lo, hi) == (0, n) else ("iv", lo, max(lo, hi))
                out.append(replace(v, sym=None, shape=(max(hi - lo, 0),) + v.shape[1:], extra=None, recs=frozenset(r._replace(rows=X.row_compose(r.rows, t) if t else r.rows) for r in v.recs)))
            return I.alloc(st, HList(tuple(out), None, "list"), node, fr, "split")
    if isinstance(v, Unk):
        e = replace(v, sym=None, shape=(None,) + v.shape[1:] if v.shape else None)
    else:
        e = U(recs=X.flat_recs(I, v, st), kind="arr")
    return I.alloc(st, HList(None, e, "list", nonempty=True), node, fr, "split")


def n_copyto(I, args, kw, st, node, fr):
    a = unstar(args)
    I.note_mutation(a[0], st, fr, node, "np.copyto/put/place")
    return NONE


def n_unique(I, args, kw, st, node, fr):
    a = unstar(args)
    o = I.get_obj(st, a[0].addr) if a and isinstance(a[0], Ref) else None
    if (isinstance(o, HList) and o.items is not None and not kw and all(isinstance(x, Const) and isinstance(x.v, (int, str)) for x in o.items)
            and len({type(x.v) for x in o.items}) <= 1):
        by = {}
        for x in o.items:
            by[x.v] = by.get(x.v, frozenset()) | x.recs
        return I.alloc(st, HList(tuple(Const(v, by[v]) for v in sorted(by)), None, "nd"), node, fr, "unique")
    f = a[0] if a else None
    if isinstance(f, Unk) and isinstance(f.extra, tuple) and f.extra[:1] == ("fill",) and not f.recs and f.shape is not None and len(f.shape) == 1 and f.shape[0] is not None \
            and (not kw or set(kw) == {"return_counts"} and I.truth(kw["return_counts"], st) is True):
        one = I.alloc(st, HList((Const(f.extra[1]),), None, "nd"), node, fr, "unique-1")
        if not kw:
            return one
        n = I.alloc(st, HList((X.dim_value(f.shape[0]),), None, "nd"), node, fr, "unique-n")
        return I.alloc(st, HList((one, n), None, "tuple"), node, fr, "unique")
    r = frozenset(x._replace(cols=None, rows="perm" if "axis" in kw and x.origin == "points" else "part" if "axis" in kw and x.rows is None else x.rows) for x in X.flat_recs(I, a[0], st))
    u = U(recs=r, kind="arr")
    k = I.distinct.get(frozenset(x.origin for x in r if x.origin.startswith(("cell_data[", "point_data["))))
    if k is not None:  # an input array known to hold k different values
        u = I.alloc(st, HList(tuple(U(kind="int", recs=frozenset([Rec(f"tag:{i}")])) for i in range(k)), None, "nd"), node, fr, "unique-k")
    extra = [k for k in ("return_index", "return_inverse", "return_counts") if k in kw and I.truth(kw[k], st) is not False]
    if extra:
        return I.alloc(st, HList((u,) + tuple(U(kind="arr") for _ in extra), None, "tuple"), node, fr, "unique")
    return u


def n_bool(I, args, kw, st, node, fr):
    a = unstar(args)
    return U(kind="bool", extra=("red", a[0] if a else None) if False else None)


def n_issubdtype(I, args, kw, st, node, fr):
    return U(kind="bool")


def n_where(I, args, kw, st, node, fr):
    a = unstar(args)
    if len(a) >= 3:
        r1, r2 = X.flat_recs(I, a[1], st), X.flat_recs(I, a[2], st)
        if {x.origin for x in r1} & {x.origin for x in r2} and r1 != r2:
            t = I.intern(("where", id(node)))
            r1 = frozenset(x._replace(alt=(t, 0)) if x.alt is None else x for x in r1)
            r2 = frozenset(x._replace(alt=(t, 1)) if x.alt is None else x for x in r2)
        r = r1 | r2
        sh = a[1].shape if isinstance(a[1], Unk) else None
        return U(recs=r, kind="arr", shape=sh)
    return I.alloc(st, HList((where_index(a[0] if a else None),), None, "tuple"), node, fr, "where")


def where_index(m):
    """The positions at which a mask holds; the comparison behind the mask is kept in the record."""
    r = frozenset()
    if isinstance(m, Unk) and isinstance(m.extra, tuple) and m.extra[:1] == ("cmp",) and len(m.extra) == 4:
        _, op, rx, ry = m.extra
        if rx and all(x.origin.startswith(("cell_data[", "point_data[")) for x in rx):
            r = frozenset([Rec("where|" + op + "|" + ",".join(sorted({x.origin for x in rx})) + "|" + ",".join(sorted({x.origin for x in ry})))])
    return U(kind="arr", shape=(None,), recs=r, extra=None if r else ("pos", 0))


def n_flatnonzero(I, args, kw, st, node, fr):
    a = unstar(args)
    return where_index(a[0] if a else None)


def n_empty_of(I, args, kw, st, node, fr):
    return U(kind="arr")


def n_fmtfloat(I, args, kw, st, node, fr):
    a = unstar(args)
    p = kw.get("precision")
    prec = 1 + p.v if isinstance(p, Const) and isinstance(p.v, int) else "x"
    return U(recs=X.set_prec(X.flat_recs(I, a[0], st), prec), kind="str")


def n_vectorize(I, args, kw, st, node, fr):
    return PartialV(Ext("$vectorized"), (unstar(args)[0],), ())


def o_vectorized(I, args, kw, st, node, fr):
    a = unstar(args)
    f, x = a[0], a[1]
    el = x
    if isinstance(x, Unk):
        el = U(recs=x.recs, kind="tok")
    r = I.call(f, [el] + list(a[2:]), {}, st, node, fr)
    out = U(recs=X.flat_recs(I, r, st), kind="arr", shape=x.shape if isinstance(x, Unk) else None)
    if isinstance(x, Unk) and not out.recs:
        out = X.map_recs(out, x.recs)
    return out


def n_array2string(I, args, kw, st, node, fr):
    a = unstar(args)
    return U(recs=X.set_prec(X.flat_recs(I, a[0], st), "?"), kind="str")


NUMPY = {
    "numpy." + k: v
    for k, v in {
        "array": n_array(True), "asarray": n_array(False), "ascontiguousarray": n_array(False), "asanyarray": n_array(False),
        "asfortranarray": n_array(False), "atleast_1d": n_pass, "atleast_2d": n_pass, "atleast_3d": n_pass, "squeeze": n_pass, "ravel": n_ravel, "require": n_pass,
        "copy": n_copy, "empty": n_fresh, "zeros": n_zeros(n_fresh), "ones": n_ones, "full": n_full, "empty_like": n_like, "zeros_like": n_zeros(n_like),
        "ones_like": n_like, "full_like": n_like, "arange": n_arange, "column_stack": n_colstack, "rec.fromarrays": n_fromarrays, "core.records.fromarrays": n_fromarrays, "rec.rec.fromarrays": n_fromarrays, "hstack": n_hstack, "vstack": n_vstack,
        "concatenate": n_concat, "stack": n_stack, "sort": n_sort, "row_stack": n_vstack, "append": n_append, "insert": n_insert, "dtype": n_dtype, "savetxt": n_savetxt,
        "fromfile": n_fromfile, "loadtxt": n_loadtxt, "genfromtxt": n_loadtxt, "fromstring": n_frombuffer, "frombuffer": n_frombuffer,
        "fromiter": n_fromiter, "add.outer": n_outer, "reshape": n_reshape, "argsort": n_argsort, "lexsort": n_argsort, "pad": n_pad, "split": n_split, "array_split": n_split,
        **{k: n_changed for k in ("abs", "absolute", "fabs", "round", "around", "rint", "floor", "ceil", "trunc", "fix", "clip", "nan_to_num", "sqrt", "square", "sign", "exp", "log", "cbrt", "reciprocal", "deg2rad", "rad2deg")},
        "size": n_attr("size"), "shape": n_attr("shape"), "ndim": n_attr("ndim"),
        "copyto": n_copyto, "put": n_copyto, "place": n_copyto, "putmask": n_copyto, "fill_diagonal": n_copyto, "unique": n_unique,
        "all": n_bool, "any": n_bool, "issubdtype": n_issubdtype, "allclose": n_bool, "array_equal": n_bool, "isscalar": n_bool, "isin": n_empty_of,
        "where": n_where, "nonzero": n_where, "flatnonzero": n_flatnonzero, "cumsum": n_cumsum, "prod": n_prod, "sum": n_sum, "min": n_minmax, "max": n_minmax, "amin": n_minmax, "amax": n_minmax, "broadcast_to": n_broadcast, "add": n_elementwise, "subtract": n_elementwise, "multiply": n_elementwise,
        "format_float_scientific": n_fmtfloat, "format_float_positional": n_fmtfloat, "vectorize": n_vectorize, "array2string": n_array2string,
    }.items()
}


# --------------------------------------------------------------------------- others
def o_passbytes(I, args, kw, st, node, fr):
    a = unstar(args)
    X.buffer(I, a, node, fr)
    return U(recs=I.args_recs(args[:1], {}, st), kind="bytes", dtype=a[0].dtype if a and isinstance(a[0], Unk) else None)


def o_structpack(I, args, kw, st, node, fr):
    a = unstar(args)
    fmt = a[0].v if a and isinstance(a[0], Const) and isinstance(a[0].v, str) else ""
    codes = set(fmt) - set("@=<>!0123456789 ")
    I.event("pack", node, fr, fmt=a[0] if a else None, vals=a[1:], recs=recs_concat([X.flat_recs(I, x, st) for x in a[1:]]))
    if fmt and all(isinstance(x, Const) and not x.recs and isinstance(x.v, (int, float, bytes)) for x in a[1:]):
        try:
            return Const(__import__("struct").pack(fmt, *[x.v for x in a[1:]]))
        except Exception:
            pass
    dt = None if "d" in codes else DT("float32") if "f" in codes else DT("float16") if "e" in codes else None
    return U(recs=X.narrow(recs_concat([X.flat_recs(I, x, st) for x in a[1:]]), dt), kind="bytes", extra=("pack", a[0].v if isinstance(a[0], Const) else None))


def o_structunpack(I, args, kw, st, node, fr):
    a = unstar(args)
    r = X.flat_recs(I, a[1], st) if len(a) > 1 else frozenset()
    if I.eof_mode and len(a) > 1 and isinstance(a[1], Const) and a[1].v in (b"", ""):
        I.raise_(st, fr, "StructError", node)
    I.event("unpack", node, fr, fmt=a[0])
    if isinstance(a[0], Const) and isinstance(a[0].v, str):
        import struct

        if len(a) > 1 and isinstance(a[1], Const) and isinstance(a[1].v, bytes) and not a[1].recs:
            try:
                return I.alloc(st, HList(tuple(Const(x) for x in struct.unpack(a[0].v, a[1].v)), None, "tuple"), node, fr, "unpack")
            except Exception:
                pass
        try:
            n = len(struct.unpack(a[0].v, b"\0" * struct.calcsize(a[0].v)))
            if n <= 64:
                s = X.fresh_sym(I, st, node, fr)
                return I.alloc(st, HList(tuple(U(recs=frozenset(q._replace(cols=cols_item(q.cols, i)) for q in r), kind="tok", sym=("i", s, i)) for i in range(n)), None, "tuple"), node, fr, "unpack")
        except Exception:
            pass
    return U(recs=r, kind="list", sym=X.fresh_sym(I, st, node, fr))


def o_partial(I, args, kw, st, node, fr):
    a = unstar(args)
    return PartialV(a[0], tuple(a[1:]), tuple(kw.items()))


def o_reduce(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, _ = I.iter_items(a[1], st, fr, node)
    if its is not None and its:
        v = a[2] if len(a) > 2 else its[0]
        for x in its if len(a) > 2 else its[1:]:
            v = I.call(a[0], [v, x], {}, st, node, fr)
        return v
    e = el if el is not None else UNK
    v = I.call(a[0], [a[2] if len(a) > 2 else e, e], {}, st, node, fr)
    return join(v, a[2]) if len(a) > 2 else v


def o_defaultdict(I, args, kw, st, node, fr):
    a = unstar(args)
    return I.alloc(st, HDict(default=a[0] if a and not (isinstance(a[0], Const)) else None), node, fr, "dd")


def o_buf(kind):
    def f(I, args, kw, st, node, fr):
        a = unstar(args)
        return I.alloc(st, HList(tuple(a), None, "buf", dtype=kind), node, fr, "buf")

    return f


def o_h5file(I, args, kw, st, node, fr):
    a = unstar(args)
    m = kw.get("mode", a[1] if len(a) > 1 else Const("r"))
    mode = m.v if isinstance(m, Const) else "r"
    I.event("open", node, fr, name="h5", args=a, kwargs=kw)
    st.may |= {("open", mode)}
    rd = isinstance(mode, str) and mode.startswith("r")
    return U(kind="h5", recs=X.FILE if rd else frozenset(), extra=mode, sym=X.fresh_sym(I, st, node, fr))


def o_path(I, args, kw, st, node, fr):
    a = unstar(args)
    if not a:
        return U(kind="path")
    r = I.args_recs(args, kw, st)
    cp = [X.cpath(x) for x in a]
    if all(c is not None for c in cp):
        return X.mk_cpath(PurePosixPath(*cp), r)
    return U(kind="path", recs=r, sym=X.mk_sym("Path", X.sym_of(a[0])), extra=a[0].extra if isinstance(a[0], Unk) and len(a) == 1 else None)


def o_xmlread(I, args, kw, st, node, fr):
    I.event("open", node, fr, name="xml", args=unstar(args), kwargs=kw)
    return U(kind="xml", recs=X.FILE, sym=X.fresh_sym(I, st, node, fr))


def o_xmlelem(I, args, kw, st, node, fr):
    a = unstar(args)
    X.sink(I, [x for x in a if not (isinstance(x, Unk) and x.kind == "xml")] + list(kw.values()), st, node, fr, None, how="xml", kw=dict(kw), args=a)
    return U(kind="xml")


def o_rematch(I, args, kw, st, node, fr):
    a = unstar(args)
    s = a[-1] if a else UNK
    r = X.flat_recs(I, a[1] if len(a) > 1 else s, st)
    s = X.fresh_sym(I, st, node, fr)
    return join(NONE, U(kind="match", recs=r, sym=s))


def o_refind(I, args, kw, st, node, fr):
    r = I.args_recs(args, kw, st)
    return I.alloc(st, HList(None, U(kind="match", recs=r), "list"), node, fr, "re")


def o_shlex(I, args, kw, st, node, fr):
    return U(kind="list", recs=I.args_recs(args, kw, st))


def o_copy(I, args, kw, st, node, fr):
    a = unstar(args)

    def one(v):
        if isinstance(v, Ref):
            o = I.get_obj(st, v.addr)
            if o is None:
                return v
            return I.alloc(st, replace(o, own=None), node, fr, ("copy", v.addr))
        if isinstance(v, Unk):
            return replace(v, own=frozenset())
        return v

    return I.map_alts(a[0], one)


def o_deepcopy(I, args, kw, st, node, fr):
    memo = {}

    def dc(v, d=0):
        if isinstance(v, Alt):
            return join_all([dc(x, d) for x in alts(v)])
        if isinstance(v, Unk):
            return replace(v, own=frozenset())
        if isinstance(v, Ref) and d < 10:
            if v.addr in memo:
                return memo[v.addr]
            o = I.get_obj(st, v.addr)
            new = I.alloc(st, o, node, fr, ("deep", v.addr))
            memo[v.addr] = new
            if isinstance(o, HList):
                o2 = replace(o, items=tuple(dc(x, d + 1) for x in o.items) if o.items is not None else None, elem=dc(o.elem, d + 1) if o.elem is not None else None, own=None)
            elif isinstance(o, HDict):
                o2 = replace(o, entries=tuple((k, dc(x, d + 1)) for k, x in o.entries), rest_v=dc(o.rest_v, d + 1) if o.rest_v is not None else None, own=None)
            else:
                o2 = replace(o, attrs=tuple((k, dc(x, d + 1)) for k, x in o.attrs), own=None)
            st.heap[new.addr] = o2
            return new
        return v

    return dc(unstar(args)[0])


def o_chain(I, args, kw, st, node, fr):
    from .interp import Star

    out = []
    exact = True
    e = None
    for x in args:
        if isinstance(x, Star):
            exact = False
            its, el, _ = I.iter_items(x.v, st, fr, node)
            e = join(e, join_all(its) if its else el or UNK)
            continue
        its, el, _ = I.iter_items(x, st, fr, node)
        if its is not None:
            out += its
        else:
            exact = False
            e = join(e, el if el is not None else UNK)
    if exact:
        return I.alloc(st, HList(tuple(out), None, "list"), node, fr, "chain")
    for x in out:
        e = join(e, x)
    return I.alloc(st, HList(None, e, "list"), node, fr, "chain")


def o_chainiter(I, args, kw, st, node, fr):
    its, el, _ = I.iter_items(unstar(args)[0], st, fr, node)
    if its is not None:
        return o_chain(I, its, {}, st, node, fr)
    i2, e2, _ = I.iter_items(el, st, fr, node)
    return I.alloc(st, HList(None, join_all(i2) if i2 else e2 or UNK, "list"), node, fr, "chain")


def o_islice(I, args, kw, st, node, fr):
    a = unstar(args)
    its, el, _ = I.iter_items(a[0], st, fr, node)
    e = join_all(its) if its else el
    if I.eof_mode and isinstance(a[0], Unk) and a[0].kind in (None, "file"):
        return I.alloc(st, HList((), None, "list"), node, fr, "islice")
    if isinstance(a[0], Unk) and a[0].kind is None:
        e = U(recs=X.FILE, kind="str")
    return I.alloc(st, HList(None, e or UNK, "list"), node, fr, "islice")


def o_sysexit(I, args, kw, st, node, fr):
    I.event("exit", node, fr)
    I.raise_(st, fr, "SystemExit", node)


def o_fspath(I, args, kw, st, node, fr):
    a = unstar(args)
    if isinstance(a[0], Unk) and a[0].kind == "path":
        return b_str(I, args, kw, st, node, fr)
    return a[0]


def o_splitext(I, args, kw, st, node, fr):
    c = X.cpath(unstar(args)[0])
    if c is not None:
        root, e = posixpath.splitext(c)
        return I.alloc(st, HList((Const(root), Const(e)), None, "tuple"), node, fr, "splitext")
    return I.alloc(st, HList((U(kind="str", extra=("noext",)), U(kind="str", extra=("pathpart", "suffix"))), None, "tuple"), node, fr, "splitext")


def o_pathstr(I, args, kw, st, node, fr):
    a = unstar(args)
    f = {"os.path.basename": posixpath.basename, "os.path.join": posixpath.join, "os.path.dirname": posixpath.dirname}.get(_extname(node))
    if f is not None and a and not kw and all(X.cpath(x) is not None for x in a):
        return Const(f(*[X.cpath(x) for x in a]), I.args_recs(args, kw, st))
    return U(kind="str", recs=I.args_recs(args, kw, st))


def o_itemgetter(I, args, kw, st, node, fr):
    return U()


def _extname(node):
    f = getattr(node, "func", None)
    return "os.path." + f.attr if isinstance(f, ast.Attribute) else "os.path." + f.id if isinstance(f, ast.Name) else None


OTHER = {
    "$vectorized": o_vectorized,
    "zlib.compress": o_passbytes, "lzma.compress": o_passbytes, "base64.b64encode": o_passbytes, "base64.b64decode": o_passbytes,
    "zlib.decompress": o_passbytes, "lzma.decompress": o_passbytes, "base64.standard_b64encode": o_passbytes,
    "struct.pack": o_structpack, "struct.unpack": o_structunpack, "functools.partial": o_partial, "functools.reduce": o_reduce,
    "collections.defaultdict": o_defaultdict, "collections.OrderedDict": b_dict, "io.BytesIO": o_buf("bytes"), "io.StringIO": o_buf("str"),
    "h5py.File": o_h5file, "netCDF4.Dataset": o_h5file, "pathlib.Path": o_path, "pathlib.PurePath": o_path, "xml.etree.ElementTree.parse": o_xmlread,
    "xml.etree.ElementTree.iterparse": o_xmlread, "xml.etree.ElementTree.fromstring": o_xmlread, "lxml.etree.parse": o_xmlread,
    "xml.etree.ElementTree.Element": o_xmlelem, "xml.etree.ElementTree.SubElement": o_xmlelem, "lxml.etree.Element": o_xmlelem,
    "re.match": o_rematch, "re.search": o_rematch, "re.fullmatch": o_rematch, "re.finditer": o_refind, "re.findall": o_shlex, "re.split": o_shlex,
    "shlex.split": o_shlex, "copy.copy": o_copy, "copy.deepcopy": o_deepcopy, "itertools.chain": o_chain, "itertools.chain.from_iterable": o_chainiter,
    "itertools.islice": o_islice, "sys.exit": o_sysexit, "os.fspath": o_fspath,
    "os.path.splitext": o_splitext,
    "os.path.basename": o_pathstr, "os.path.join": o_pathstr, "os.path.dirname": o_pathstr, "os.path.abspath": o_pathstr, "os.path.realpath": o_pathstr,
    "typing.cast": lambda I, a, k, st, n, fr: unstar(a)[1],
}
