"""Abstract interpreter over the repository's syntax trees.

Functions of the package are inlined at their call sites; values of the outside world (numpy,
files, h5py, ...) are modelled in ext.py.  The interpreter never executes repository code."""
from __future__ import annotations

import ast
import builtins as _b
from dataclasses import dataclass, field, replace

from . import ext
from .loader import AnalysisError, qualname, where
from .values import *
from .values import _Undef

MAX_DEPTH = 28
MAX_UNROLL = 130


class Dead(Exception):
    """The current abstract path ends here."""


class Budget(Exception):
    pass


@dataclass
class Event:
    kind: str
    node: object
    ctx: object
    data: dict

    def where(self):
        return where(self.node)


class Frame:
    def __init__(self, addr, mod, node, scope, ctx, interp, cls=None):
        self.addr, self.mod, self.node, self.scope, self.ctx = addr, mod, node, scope, ctx
        self.cls = cls
        self.returns = []  # (state, V)
        self.raises = []  # (state, excname, node)
        self.yields = None
        self.loops = []  # stack of dict(breaks=[], continues=[])
        self.globals = set()
        self.nonlocals = set()
        self.iter = ()  # unroll path
        self.depth = 0


EXC_BASES = {
    "KeyError": {"LookupError", "Exception", "BaseException"},
    "IndexError": {"LookupError", "Exception", "BaseException"},
    "ValueError": {"Exception", "BaseException"},
    "TypeError": {"Exception", "BaseException"},
    "AttributeError": {"Exception", "BaseException"},
    "AssertionError": {"Exception", "BaseException"},
    "RuntimeError": {"Exception", "BaseException"},
    "StopIteration": {"Exception", "BaseException"},
    "NotImplementedError": {"RuntimeError", "Exception", "BaseException"},
    "UnboundLocalError": {"NameError", "Exception", "BaseException"},
    "NameError": {"Exception", "BaseException"},
    "SystemExit": {"BaseException"},
    "FileNotFoundError": {"OSError", "Exception", "BaseException"},
    "UnicodeDecodeError": {"ValueError", "Exception", "BaseException"},
    "ModuleNotFoundError": {"ImportError", "Exception", "BaseException"},
    "ImportError": {"Exception", "BaseException"},
}


class Interp:
    def __init__(self, program, budget=400000):
        self.prog = program
        self.base = {}
        self.modstate = {}
        self.events = {}
        self._ctx = {}
        self._ctxkeys = []
        self.budget0 = budget
        self.budget = budget
        self.focus = None  # cell type in focus for reader table lookups
        self.safe_subs, self.unsafe_subs = set(), set()
        self.nodehooks = {}  # id(function node) -> handler
        self.hooks = {}  # qualified repo name -> handler(interp, fv, args, kwargs, st, node, fr)
        self.visited_funcs = set()
        self.call_depth = 0
        self.stack = []
        self.selfstack = []
        self.eof_mode = None  # None | "str" | "bytes": file reads return end-of-file
        self.assume_nonempty = True
        self.assume = {}  # scenario: {constant: whether a value from the file equals it}
        self.presets = {}  # focus mode: designations fixed by an earlier pass
        self.found = {}
        self.maploops = []
        self.script = []  # scenario: the first single numbers read from a binary file
        self.script_pos = {}
        self.defs = {}  # externally assumed constants
        self.on_stmt = None
        self.dims_positive = False  # caller's points and blocks are non-empty
        self.once = None  # entry function whose recursive re-entry is not followed
        self.degraded = 0

    def reset(self):
        self.maploops = []
        self.safe_subs, self.unsafe_subs = set(), set()
        self.found = {}
        self.events = {}
        self.budget = self.budget0
        self.focus = None
        self.visited_funcs = set()
        self.degraded = 0
        self.stack = []
        self.selfstack = []
        self.distinct = {}  # origins of an input array -> number of different values in it

    # ------------------------------------------------------------------ infrastructure
    def symkey(self, s):
        """Context-free name of a symbol (same program point in another pass)."""
        if isinstance(s, tuple):
            if len(s) == 2 and s[0] == "s" and isinstance(s[1], int):
                k = self._ctxkeys[s[1]]
                return (k[0], k[1], k[-1]) if isinstance(k, tuple) and k and k[0] == "sym" else s
            return tuple(self.symkey(x) for x in s)
        return s

    def intern(self, key):
        r = self._ctx.get(key)
        if r is None:
            r = self._ctx[key] = len(self._ctx)
            self._ctxkeys.append(key)
        return r

    def event(self, kind, node, fr, **data):
        key = (kind, id(node), fr.ctx if fr else None, fr.iter if fr else (), data.get("k"))
        self.events.pop(key, None)
        self.events[key] = Event(kind, node, fr.ctx if fr else None, data)
        return self.events[key]

    def get_obj(self, st, addr):
        o = st.heap.get(addr)
        if o is None:
            o = self.base.get(addr)
        return o

    def put(self, st, addr, obj):
        st.heap[addr] = obj

    def alloc(self, st, obj, node, fr, tag=None):
        addr = ("h", id(node), fr.ctx if fr else None, fr.iter if fr else (), tag)
        addr = self.intern(addr)
        st.heap[addr] = obj
        return Ref(addr)

    def env(self, st, addr):
        e = st.heap.get(addr)
        if e is None:
            e = self.base.get(addr)
        return e

    def setvar(self, st, addr, name, v):
        e = self.env(st, addr)
        n = Env(e) if e is not None else Env()
        n[name] = v
        st.heap[addr] = n

    # ------------------------------------------------------------------ modules
    def module_env(self, name):
        if name not in self.prog.modules and name not in self.prog.clients:
            return None
        addr = ("mod", name)
        if name in self.modstate:
            return self.base.get(addr)
        self.modstate[name] = "loading"
        m = self.prog.modules.get(name) or self.prog.clients[name]
        # parents first
        parent = name.rpartition(".")[0]
        if parent and parent in self.prog.modules and parent not in self.modstate:
            # do not execute parents eagerly: only bind names lazily
            pass
        st = State()
        st.heap[addr] = Env({"__name__": Const(name), "__file__": Unk(kind="str")})
        self.base[addr] = st.heap[addr]
        fr = Frame(addr, m, m.tree, (), self.intern(("modctx", name)), self)
        saved = self.events, self.eof_mode, self.focus
        self.eof_mode = self.focus = None
        try:
            out = self.exec_block(m.tree.body, st, fr)
        except Dead:
            out = None
        finally:
            self.eof_mode, self.focus = saved[1], saved[2]
        fin = out if out is not None else st
        self.base.update(fin.heap)
        self.modstate[name] = "done"
        return self.base[addr]

    def modattr(self, modname, attr):
        """Attribute of a repo module, or None."""
        if modname in self.prog.modules:
            env = self.module_env(modname)
            if env is not None and attr in env:
                return env[attr]
            sub = f"{modname}.{attr}"
            if sub in self.prog.modules:
                self.module_env(sub)
                return ModV(sub)
            return None
        return None

    def resolve_import(self, m, level, modname):
        if level == 0:
            return modname
        pkg = m.package.split(".")
        if level > 1:
            pkg = pkg[: len(pkg) - (level - 1)]
        return ".".join(pkg + ([modname] if modname else []))

    # ------------------------------------------------------------------ names
    def load_name(self, name, st, fr, node):
        addrs = [fr.addr] + list(reversed(fr.scope)) + [("mod", fr.mod.name)]
        for i, a in enumerate(addrs):
            e = self.env(st, a)
            if e is not None and name in e:
                v = e[name]
                return self._strip_undef(v, name, st, fr, node)
        if hasattr(_b, name):
            return Ext("builtins." + name)
        self.event("nameerror", node, fr, name=name)
        self.raise_(st, fr, "NameError", node)

    def _strip_undef(self, v, name, st, fr, node):
        if isinstance(v, Const) and v.v is _Undef:
            self.event("unbound", node, fr, name=name, definite=True)
            self.raise_(st, fr, "UnboundLocalError", node)
        if isinstance(v, Alt) and any(isinstance(a, Const) and a.v is _Undef for a in v.alts):
            s = frozenset(a for a in v.alts if not (isinstance(a, Const) and a.v is _Undef))
            v = next(iter(s)) if len(s) == 1 else Alt(s)
        return v

    # ------------------------------------------------------------------ raising
    def raise_(self, st, fr, excname, node, maybe=False):
        fr.raises.append((st.copy(), excname, node))
        if not maybe:
            raise Dead()

    # ------------------------------------------------------------------ truth
    def truth(self, v, st):
        """True / False / None (unknown)."""
        if isinstance(v, Const):
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Ref):
            o = self.get_obj(st, v.addr)
            if isinstance(o, HList):
                if o.items is not None:
                    if o.typ == "nd":
                        if len(o.items) == 1:
                            return self.truth(o.items[0], st)
                        return None
                    return len(o.items) > 0
                return True if o.nonempty else None
            if isinstance(o, HDict):
                if o.entries and not o.weak:
                    return True
                if not o.entries and not o.has_unknown():
                    return False
                return None
            if isinstance(o, HObj) and o.cls is not None:
                return True
            return None
        if isinstance(v, (FuncV, ClsV, ModV, PartialV, Ext, Method)):
            if isinstance(v, Ext) and v.recs:
                return None
            return True
        if isinstance(v, Alt):
            rs = {self.truth(a, st) for a in v.alts}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, Unk) and self.dims_positive and ext.is_posdim(v.sym):
            return True
        if isinstance(v, Unk) and v.kind in ("file", "h5obj", "path", "dtype", "match", "elem"):
            return True
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        """Execute; returns the state after normal completion or None."""
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.exec_stmt(s, st, fr)
            except Dead:
                return None
        return st

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    def exec_stmt(self, s, st, fr):
        self.tick()
        if self.on_stmt:
            self.on_stmt(self, s, st, fr)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.degraded += 1
            return st
        return m(s, st, fr)

    def st_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def st_Pass(self, s, st, fr):
        return st

    def st_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def st_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def st_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == "meshio":
                v = ModV(a.name if a.asname else top)
            else:
                v = Ext(a.name if a.asname else top)
            self.bind(a.asname or top, v, st, fr)
        return st

    def st_ImportFrom(self, s, st, fr):
        mod = self.resolve_import(fr.mod, s.level, s.module)
        for a in s.names:
            if a.name == "*":
                env = self.module_env(mod) if mod in self.prog.modules else None
                if env:
                    for k, v in env.items():
                        if not k.startswith("_"):
                            self.bind(k, v, st, fr)
                continue
            v = None
            if mod in self.prog.modules:
                v = self.modattr(mod, a.name)
                if v is None:
                    if self.modstate.get(mod) == "loading":
                        v = Ext(f"{mod}.{a.name}")
                    else:
                        self.event("importerror", s, fr, name=f"{mod}.{a.name}")
                        v = UNK
            else:
                v = Ext(f"{mod}.{a.name}")
            self.bind(a.asname or a.name, v, st, fr)
        return st

    def bind(self, name, v, st, fr):
        if name in fr.globals:
            self.setvar(st, ("mod", fr.mod.name), name, v)
        elif name in fr.nonlocals:
            for a in reversed(fr.scope):
                e = self.env(st, a)
                if e is not None and name in e:
                    self.setvar(st, a, name, v)
                    return
        else:
            self.setvar(st, fr.addr, name, v)

    def bind_existing(self, name, v, st, fr):
        for a in [fr.addr] + list(reversed(fr.scope)) + [("mod", fr.mod.name)]:
            e = self.env(st, a)
            if e is not None and name in e:
                self.setvar(st, a, name, v)
                return
        self.setvar(st, fr.addr, name, v)

    def st_FunctionDef(self, s, st, fr):
        v = self.make_func(s, st, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            nm = dv.name if isinstance(dv, Ext) else None
            if nm in ("builtins.property", "builtins.staticmethod", "builtins.classmethod",
                      "contextlib.contextmanager", "functools.cached_property"):
                v = replace(v, decos=v.decos + (nm.rsplit(".", 1)[1],)) if isinstance(v, FuncV) else v
            elif nm and nm.startswith(("functools.", "typing.", "abc.")):
                pass
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                v = replace(v, decos=v.decos + (d.attr,))
            else:
                v = self.call(dv, [v], {}, st, s, fr)
        if isinstance(v, FuncV) and "setter" in v.decos:
            # keep getter under the plain name
            self.bind("$set_" + s.name, v, st, fr)
            return st
        self.bind(s.name, v, st, fr)
        return st

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, s, st, fr):
        a = s.args
        defaults = tuple(self.ev(d, st, fr) for d in a.defaults)
        kwd = tuple(
            (p.arg, self.ev(d, st, fr)) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        )
        if isinstance(fr.node, ast.Module):
            scope = ()
        elif isinstance(fr.node, ast.ClassDef):
            scope = fr.scope
        else:
            scope = fr.scope + (fr.addr,)
        return FuncV(s, fr.mod, scope, defaults, kwd)

    def st_ClassDef(self, s, st, fr):
        bases = tuple(self.ev(b, st, fr) for b in s.bases)
        caddr = self.intern(("cls", id(s), fr.ctx))
        st.heap[caddr] = Env()
        scope = fr.scope if isinstance(fr.node, (ast.Module, ast.ClassDef)) else fr.scope + (fr.addr,)
        cf = Frame(caddr, fr.mod, s, scope, fr.ctx, self)
        out = self.exec_block(s.body, st, cf)
        fr.raises += cf.raises
        if out is not None and out is not st:
            st.assign(out)
        ns = tuple(sorted(self.env(st, caddr).items(), key=lambda kv: kv[0]))
        cls = ClsV(s, fr.mod, bases, ns)
        for d in s.decorator_list:
            dv = self.ev(d, st, fr)
            self.event("classdeco", d, fr, deco=dv)
        self.bind(s.name, cls, st, fr)
        return st

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st, v))
        return None

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, Const(_Undef), st, fr)
            elif isinstance(t, ast.Subscript):
                c = self.ev(t.value, st, fr)
                k = self.ev_slice(t.slice, st, fr)
                self.del_item(c, k, st, fr, s)
            elif isinstance(t, ast.Attribute):
                c = self.ev(t.value, st, fr)
                self.note_mutation(c, st, fr, s, "del ." + t.attr)
        return st

    def del_item(self, c, k, st, fr, node):
        self.note_mutation(c, st, fr, node, "del item")
        for a in alts(c):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if isinstance(o, HDict):
                    if is_exact_key(k):
                        st.heap[a.addr] = replace(
                            o, entries=tuple((x, y) for x, y in o.entries if not keq(x, k))
                        )
                    else:
                        st.heap[a.addr] = replace(o, weak=True)
                    self.event("dictmut", node, fr, addr=a.addr)
                elif isinstance(o, HList):
                    if o.items is not None and isinstance(k, Const) and isinstance(k.v, int):
                        it = list(o.items)
                        try:
                            del it[k.v]
                        except IndexError:
                            pass
                        st.heap[a.addr] = replace(o, items=tuple(it))
                    else:
                        st.heap[a.addr] = replace(o, items=None, elem=o.element(), nonempty=False)

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def st_AugAssign(self, s, st, fr):
        cur = self.ev(self._as_load(s.target), st, fr)
        rhs = self.ev(s.value, st, fr)
        # in place?
        inplace = False
        for a in alts(cur):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if isinstance(o, HList) and o.typ in ("list", "nd", "set"):
                    inplace = True
                    if isinstance(cur, Ref) and o.typ == "list" and isinstance(s.op, ast.Add):
                        self.list_extend(a, rhs, st, fr, s)
                        return st
                elif isinstance(o, HDict) and isinstance(s.op, ast.BitOr):
                    inplace = True
            elif isinstance(a, Unk) and a.own and a.kind not in ("int", "float", "str", "bool", "tok", "bytes"):
                inplace = True
        if inplace:
            self.note_mutation(cur, st, fr, s, "augmented assignment")
        v = self.binop(s.op, cur, rhs, st, fr, s)
        if isinstance(cur, Unk) and cur.kind == "arr" and cur.dtype is not None and isinstance(v, Unk) and v.kind == "arr":
            v = replace(v, dtype=cur.dtype, shape=cur.shape)  # numpy updates the array itself
        if inplace and isinstance(v, Unk):
            v = replace(v, own=v.own | own_of(cur))
        if inplace and isinstance(cur, Ref) and isinstance(v, Ref):
            ov = self.get_obj(st, v.addr)
            oc = self.get_obj(st, cur.addr)
            if isinstance(ov, HList) and isinstance(oc, HList):
                st.heap[cur.addr] = replace(ov, own=oc.own)
                v = cur
        if isinstance(s.target, ast.Subscript):
            # the element write mutates the container as well, but re-storing the same
            # array object is the augmented assignment already reported
            self.assign(s.target, v, st, fr, s)
        else:
            self.assign(s.target, v, st, fr, s)
        return st

    def _as_load(self, t):
        key = "_load"
        n = getattr(t, key, None)
        if n is None:
            import copy as _c

            if isinstance(t, ast.Name):
                n = ast.Name(t.id, ast.Load())
            elif isinstance(t, ast.Attribute):
                n = ast.Attribute(t.value, t.attr, ast.Load())
            else:
                n = ast.Subscript(t.value, t.slice, ast.Load())
            ast.copy_location(n, t)
            n._mod = getattr(t, "_mod", None)
            n._parent = getattr(t, "_parent", None)
            t._load = n
        return n

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.bind(t.id, self.with_sym(v, st, t, fr, "var"), st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr, node)
        elif isinstance(t, ast.Attribute):
            c = self.ev(t.value, st, fr)
            self.set_attr(c, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, st, fr)
            k = self.ev_slice(t.slice, st, fr)
            self.set_item(c, k, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def with_sym(self, v, st, node, fr, tag):
        """Name an unknown value at its binding so that later uses of the variable are correlated."""
        if isinstance(v, Unk):
            if v.sym is None and v.kind != "slice":
                v = replace(v, sym=ext.fresh_sym(self, st, node, fr, tag))
        elif isinstance(v, Alt) and sum(1 for a in v.alts if isinstance(a, Unk)) == 1:
            v = join_all([self.with_sym(a, st, node, fr, tag) for a in v.alts])
        return v

    def unpack(self, t, v, st, fr, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Alt):
            # unpack each alternative, join per target
            rows = []
            for a in alts(v):
                r = self.unpack_vals(a, n, star, st, fr, node)
                if r is not None:
                    rows.append(r)
            if not rows:
                self.raise_(st, fr, "TypeError", node)
            vals = [join_all([r[i] for r in rows]) for i in range(n)]
        else:
            vals = self.unpack_vals(v, n, star, st, fr, node)
            if vals is None:
                self.raise_(st, fr, "TypeError", node)
        for e, x in zip(t.elts, vals):
            self.assign(e, x, st, fr, node)

    def unpack_vals(self, v, n, star, st, fr, node):
        items, elem, _ = self.iter_items(v, st, fr, node, unpack=True)
        if items is None and elem is None:
            self.event("typeerror", node, fr, what=f"cannot unpack {self.describe(v, st)}", v=v)
            return None
        if items is not None:
            if star:
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    return None
                mid = items[i: len(items) - after]
                lst = self.alloc(st, HList(tuple(mid)), node, fr, ("star", i))
                return list(items[:i]) + [lst] + list(items[len(items) - after:])
            if len(items) != n:
                self.event("unpackerror", node, fr, got=len(items), want=n)
                return None
            return list(items)
        out = []
        for i in range(n):
            x = elem
            if isinstance(v, Unk):
                x = self.subscript(v, Const(i), st, fr, node)
            elif isinstance(x, Unk):
                x = replace(x, sym=None)
            elif isinstance(x, Alt):
                x = join_all([replace(a, sym=None) if isinstance(a, Unk) else a for a in x.alts])
            if star and i == star[0]:
                x = self.alloc(st, HList(None, elem), node, fr, ("star", i))
            out.append(x)
        return out

    def st_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            self.refine(s.test, True, st, fr)
            return self.exec_block(s.body, st, fr)
        if t is False:
            self.refine(s.test, False, st, fr)
            return self.exec_block(s.orelse, st, fr)
        self.event("openif", s.test, fr, v=c)
        s1, s2 = st.copy(), st
        o1 = o2 = None
        try:
            self.refine(s.test, True, s1, fr)
            o1 = self.exec_block(s.body, s1, fr)
        except Dead:
            o1 = None
        try:
            self.refine(s.test, False, s2, fr)
            o2 = self.exec_block(s.orelse, s2, fr)
        except Dead:
            o2 = None
        return join_states(o1, o2)

    # refinement of a state by a branch condition
    def refine(self, test, truth, st, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth, st, fr)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and truth) or (isinstance(test.op, ast.Or) and not truth):
                for v in test.values:
                    self.refine(v, truth, st, fr)
            return
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, truth, st, fr)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, rhs = test.ops[0], test.comparators[0]
            lhs = test.left
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(rhs, ast.Constant) and rhs.value is None:
                want_none = isinstance(op, ast.Is) == truth
                self.refine_lv(lhs, st, fr, (lambda a: self.is_none(a) is not False) if want_none else (lambda a: self.is_none(a) is not True),
                               to=NONE if want_none else None)
                return
            if isinstance(op, (ast.Eq, ast.NotEq)):
                eq = isinstance(op, ast.Eq) == truth
                for a, b in ((lhs, rhs), (rhs, lhs)):
                    if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                        try:
                            bv = self.ev(b, st.copy(), fr) if self._pure(b) else None
                        except Dead:
                            bv = None
                        if isinstance(bv, Const):
                            if eq:
                                self.refine_lv(a, st, fr, lambda x: not isinstance(x, Const) or keq(x, bv), to=bv)
                            else:
                                self.refine_lv(a, st, fr, lambda x: not (isinstance(x, Const) and keq(x, bv)))
                            return
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(lhs, (ast.Name, ast.Attribute)) and self._pure(rhs):
                isin = isinstance(op, ast.In) == truth
                try:
                    bv = self.ev(rhs, st.copy(), fr)
                except Dead:
                    return
                vals = self.exact_members(bv, st)
                if vals is not None:
                    if isin:
                        if self.assume:
                            yes = [x for x in vals if isinstance(x, Const) and self.assume.get(x.v) is True] if all(isinstance(x, Const) and isinstance(x.v, (str, int)) for x in vals) else []
                            kept = yes or [x for x in vals if not (isinstance(x, Const) and isinstance(x.v, (str, int)) and self.assume.get(x.v) is False)]
                        to = join_all(kept if self.assume and kept else vals) if vals else None
                        bo = self.get_obj(st, bv.addr) if isinstance(bv, Ref) else None
                        fe = ext._focus_entries(self, bo, st) if isinstance(bo, HDict) else []
                        if fe:
                            to = join_all([k for k, _ in fe])
                        elif isinstance(to, Unk):
                            to = None
                        self.refine_lv(lhs, st, fr, lambda x: not isinstance(x, Const) or any(keq(x, y) for y in vals), to=to)
                    else:
                        self.refine_lv(lhs, st, fr, lambda x: not (isinstance(x, Const) and any(keq(x, y) for y in vals)))
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            lhs = test.args[0]
            if isinstance(lhs, (ast.Name, ast.Attribute)):
                try:
                    cv = self.ev(test.args[1], st.copy(), fr)
                except Dead:
                    return

                def keep(a):
                    r = ext.isinstance_(self, a, cv, st)
                    return r is None or r == truth

                self.refine_lv(lhs, st, fr, keep)
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            self.refine_lv(test, st, fr, lambda a: self.truth(a, st) in (None, truth))

    def _pure(self, n):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n))

    def refine_lv(self, lv, st, fr, keep, to=None):
        try:
            v = self.ev(lv, st.copy(), fr)
        except Dead:
            return
        if isinstance(v, Alt):
            s = frozenset(a for a in v.alts if keep(a))
            if not s:
                raise Dead()
            nv = next(iter(s)) if len(s) == 1 else Alt(s)
        elif not keep(v):
            raise Dead()
        else:
            nv = v
        if to is not None and isinstance(nv, Unk) and nv.kind not in ("arr",) and (nv.shape is None or nv.shape == ()):
            if isinstance(to, Const):
                nv2 = Const(to.v, nv.recs | to.recs) if not nv.recs else Const(to.v, to.recs)
            else:
                nv2 = to
            if nv.sym is not None and isinstance(nv2, Const):
                st.refine[nv.sym] = nv2
            nv = nv2
        if nv is not v and nv != v:
            if isinstance(lv, ast.Name):
                for a in [fr.addr] + list(reversed(fr.scope)):
                    e = self.env(st, a)
                    if e is not None and lv.id in e:
                        self.setvar(st, a, lv.id, nv)
                        break
            elif isinstance(lv, ast.Attribute):
                try:
                    c = self.ev(lv.value, st, fr)
                except Dead:
                    return
                if isinstance(c, Ref):
                    o = self.get_obj(st, c.addr)
                    if isinstance(o, HObj):
                        st.heap[c.addr] = o.set(lv.attr, nv)

    def is_none(self, v):
        if isinstance(v, Const):
            return v.v is None
        if isinstance(v, Unk):
            if v.kind is not None:
                return False
            return None
        return False

    def exact_members(self, v, st):
        if isinstance(v, Ref):
            o = self.get_obj(st, v.addr)
            if isinstance(o, HList) and o.items is not None:
                if all(isinstance(x, Const) for x in o.items):
                    return list(o.items)
            if isinstance(o, HDict) and not o.has_unknown() and not o.weak:
                if all(isinstance(k, Const) for k, _ in o.entries):
                    return [k for k, _ in o.entries]
        return None

    def st_While(self, s, st, fr):
        loop = {"breaks": [], "continues": []}
        fr.loops.append(loop)
        saved = fr.iter
        exits = []
        try:
            cur = st
            unrolled = 0
            # phase 1: while the test is decided, unroll
            while True:
                t = self.truth(self._try(s.test, cur, fr), cur)
                is_true_const = isinstance(s.test, ast.Constant) or t is None
                if t is False:
                    exits.append(cur)
                    cur = None
                    break
                if t is None or is_true_const or unrolled >= MAX_UNROLL:
                    break
                fr.iter = saved + ((id(s), unrolled),)
                self.refine(s.test, True, cur, fr)
                loop["continues"] = []
                end = self.exec_block(s.body, cur, fr)
                for c in loop["continues"]:
                    end = join_states(end, c)
                cur = end
                unrolled += 1
                if cur is None:
                    break
            # phase 2: fixpoint
            if cur is not None:
                fr.iter = saved + ((id(s), "fix"),)
                n = 0
                ind = self.induction(s, cur, fr)
                self.event("while", s, fr, env=dict(self.env(cur, fr.addr) or {}))
                while True:
                    for nm, c0 in ind.items():
                        self.bind_existing(nm, Unk(kind="int", extra=("ctr", c0)), cur, fr)
                    test_st = cur.copy()
                    tv = self._try(s.test, test_st, fr)
                    t = self.truth(tv, test_st)
                    if t is not True:
                        ex = test_st.copy()
                        try:
                            self.refine(s.test, False, ex, fr)
                            exits.append(ex)
                        except Dead:
                            pass
                    if t is False:
                        break
                    b = test_st.copy()
                    loop["continues"] = []
                    try:
                        self.refine(s.test, True, b, fr)
                        end = self.exec_block(s.body, b, fr)
                    except Dead:
                        end = None
                    for c in loop["continues"]:
                        end = join_states(end, c)
                    if end is None:
                        break
                    new = join_states(cur, end)
                    n += 1
                    self.event("while", s, fr, env=dict(self.env(new, fr.addr) or {}))
                    if same_state(new, cur) or n >= 4:
                        # final test from the joined state
                        ts = new.copy()
                        tv = self._try(s.test, ts, fr)
                        if self.truth(tv, ts) is not True:
                            try:
                                self.refine(s.test, False, ts, fr)
                                exits.append(ts)
                            except Dead:
                                pass
                        break
                    cur = new
        except Dead:
            pass
        finally:
            fr.iter = saved
            fr.loops.pop()
        out = None
        for e in exits:
            for nm in getattr(s, "_ind", ()):
                v = (self.env(e, fr.addr) or {}).get(nm)
                if isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("ctr",):
                    self.bind_existing(nm, Unk(kind="int"), e, fr)
            if s.orelse:
                e = self.exec_block(s.orelse, e, fr)
            out = join_states(out, e)
        for b in loop["breaks"]:
            out = join_states(out, b)
        return out

    def induction(self, loop, st, fr):
        """{name: value before the loop} of the running numbers of a loop: integers only ever changed by += 1 in its body."""
        names = getattr(loop, "_ind", None)
        if names is None:
            inc, other = set(), set()
            for b in loop.body + ([loop.target] if isinstance(loop, ast.For) else []):
                for x in ast.walk(b):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                        ok = isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1 and type(x.value.value) is int
                        (inc if ok else other).add(x.target.id)
                        x.target._aug = True
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not getattr(x, "_aug", False):
                        other.add(x.id)
            names = loop._ind = inc - other
        out = {}
        for nm in names:
            e = self.env(st, fr.addr)
            v = e.get(nm) if e is not None else None
            if isinstance(v, Const) and type(v.v) is int:
                out[nm] = v.v
            elif isinstance(v, Unk) and isinstance(v.extra, tuple) and v.extra[:1] == ("ctr",):
                out[nm] = v.extra[1]
            elif isinstance(v, Unk) and ext.dim_of_value(v) is not None:
                out[nm] = ext.dim_of_value(v)
        return out

    def counted(self, loop, ind, n):
        """Values after a loop of n rounds of the running numbers that every round increments once."""
        if n is None or not ind:
            return {}
        once = getattr(loop, "_once", None)
        if once is None:
            top = [b.target.id for b in loop.body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name)]
            every = [x.target.id for b in loop.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]
            jumps = any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for b in loop.body for x in ast.walk(b))
            once = loop._once = set() if jumps else {x for x in top if every.count(x) == 1}
        return {nm: ext.dims.add(c0, n) for nm, c0 in ind.items() if nm in once}

    def _try(self, e, st, fr):
        return self.ev(e, st, fr)

    def st_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        items, elem, nonempty = self.iter_items(it, st, fr, s)
        if items is None and elem is None:
            self.event("typeerror", s, fr, what=f"cannot iterate {self.describe(it, st)}", v=it)
            self.raise_(st, fr, "TypeError", s)
        loop = {"breaks": [], "continues": []}
        fr.loops.append(loop)
        saved = fr.iter
        iter_addr = None
        out = None
        try:
            if items is not None and len(items) <= MAX_UNROLL:
                cur = st
                for i, x in enumerate(items):
                    fr.iter = saved + ((id(s), i),)
                    loop["continues"] = []
                    try:
                        self.assign(s.target, x, cur, fr, s)
                        end = self.exec_block(s.body, cur, fr)
                    except Dead:
                        end = None
                    for c in loop["continues"]:
                        end = join_states(end, c)
                    cur = end
                    if cur is None:
                        break
                if cur is not None:
                    if s.orelse:
                        cur = self.exec_block(s.orelse, cur, fr)
                    out = cur
            else:
                if items is not None:
                    elem = join_all(items)
                    nonempty = True
                fr.iter = saved + ((id(s), "fix"),)
                maddr = None
                if isinstance(elem, Ref):
                    eo = self.get_obj(st, elem.addr)
                    if isinstance(eo, HList) and eo.items and isinstance(eo.items[0], Unk) and isinstance(eo.items[0].extra, tuple) and eo.items[0].extra[:1] == ("at",):
                        maddr = eo.items[0].extra[1]
                        self.maploops.append(maddr)
                        st.heap.pop(("map", maddr), None)
                pre = st.copy()
                cur = st
                last = None
                alldef = True
                ind = self.induction(s, st, fr)
                for n in range(4):
                    for nm, c0 in ind.items():
                        self.bind_existing(nm, Unk(kind="int", extra=("ctr", c0)), cur, fr)
                    b = cur.copy()
                    b.facts -= {("mapped", maddr)}
                    loop["continues"] = []
                    try:
                        self.assign(s.target, elem, b, fr, s)
                        end = self.exec_block(s.body, b, fr)
                    except Dead:
                        end = None
                    for c in loop["continues"]:
                        end = join_states(end, c)
                    if end is None:
                        last = None if n == 0 else last
                        break
                    if maddr is not None and ("mapped", maddr) not in end.facts:
                        alldef = False
                    last = end
                    new = join_states(cur, end)
                    if same_state(new, cur):
                        break
                    cur = new
                out = last
                done = self.counted(s, ind, ext.iter_dim(self, it, pre))
                if maddr is not None:
                    self.maploops.pop()
                    for x in [out] + loop["breaks"]:
                        mo = x.heap.pop(("map", maddr), None) if x is not None else None
                        lo = self.get_obj(x, maddr) if mo is not None else None
                        if isinstance(lo, HList):
                            keep = not (alldef and x is out)
                            x.heap[maddr] = replace(lo, items=None, elem=join(lo.element(), mo.elem) if keep else mo.elem)
                if not (nonempty and self.assume_nonempty):
                    if maddr is not None and out is not None:
                        lo = self.get_obj(out, maddr)
                        if isinstance(lo, HList) and alldef:
                            pre.heap[maddr] = replace(lo, nonempty=False)
                    out = join_states(pre, out)
                if out is not None:
                    for nm in ind:
                        d = done.get(nm)
                        self.bind_existing(nm, ext.dim_value(d) if d is not None else Unk(kind="int"), out, fr)
                if out is not None and s.orelse:
                    out = self.exec_block(s.orelse, out, fr)
        finally:
            fr.iter = saved
            fr.loops.pop()
        for b in loop["breaks"]:
            out = join_states(out, b)
        return out

    def st_Break(self, s, st, fr):
        fr.loops[-1]["breaks"].append(st)
        return None

    def st_Continue(self, s, st, fr):
        fr.loops[-1]["continues"].append(st)
        return None

    def st_Assert(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        t = self.truth(c, st)
        if t is False:
            self.event("assertfail", s, fr)
            self.raise_(st, fr, "AssertionError", s)
        if t is None:
            self.raise_(st, fr, "AssertionError", s, maybe=True)
            self.refine(s.test, True, st, fr)
        return st

    def exc_name(self, v):
        for a in alts(v):
            if isinstance(a, ClsV):
                return a.name
            if isinstance(a, Ext):
                return a.name.rsplit(".", 1)[-1]
            if isinstance(a, Ref):
                return a  # resolved by caller
        return "Exception"

    def st_Raise(self, s, st, fr):
        name = "Exception"
        if s.exc is None:
            name = getattr(fr, "handling", None) or "Exception"
            self.event("raise", s, fr, exc=name)
            self.raise_(st, fr, name, s)
        v = self.ev(s.exc, st, fr)
        n = self.exc_name(v)
        if isinstance(n, Ref):
            o = self.get_obj(st, n.addr)
            name = o.cls.name if isinstance(o, HObj) and isinstance(o.cls, ClsV) else "Exception"
        else:
            name = n
        if isinstance(v, Unk) and isinstance(v.extra, str) and v.kind == "exc":
            name = v.extra
        self.event("raise", s, fr, exc=name)
        self.raise_(st, fr, name, s)

    def exc_matches(self, name, handler_types):
        """True / False for an exception class name against handler names (None = bare)."""
        if handler_types is None:
            return True
        anc = {name} | EXC_BASES.get(name, set())
        cls = self.repo_exc(name)
        if cls is not None:
            anc |= {"Exception", "BaseException"}
            for b in cls.ext_bases():
                bn = b.rsplit(".", 1)[-1]
                anc |= {bn} | EXC_BASES.get(bn, set())
            c = cls
            for b in c.bases:
                if isinstance(b, ClsV):
                    anc.add(b.name)
        if name == "Exception":
            anc = {"Exception", "BaseException"}
        return bool(anc & set(handler_types))

    def repo_exc(self, name):
        env = self.module_env("meshio._exceptions") or {}
        v = env.get(name)
        return v if isinstance(v, ClsV) else None

    def st_Try(self, s, st, fr):
        pre = st.copy()
        saved_raises = fr.raises
        fr.raises = []
        nret = len(fr.returns)
        marks = [(lp, len(lp["breaks"]), len(lp["continues"])) for lp in fr.loops]
        body_st = self.exec_block(s.body, st, fr)
        raised = fr.raises
        fr.raises = saved_raises
        # which handlers
        outs = []
        unhandled = []
        hlist = []
        for h in s.handlers:
            if h.type is None:
                types = None
            else:
                hst = pre.copy()
                tv = self.ev(h.type, hst, fr)
                types = set()
                if isinstance(tv, Ref):
                    its = getattr(self.get_obj(hst, tv.addr), "items", None) or ()
                else:
                    its = [tv]
                for x in its:
                    n = self.exc_name(x)
                    types.add(n if isinstance(n, str) else "Exception")
            hlist.append((h, types, []))
        for rs, name, node in raised:
            for h, types, lst in hlist:
                if self.exc_matches(name, types):
                    lst.append((rs, name))
                    break
            else:
                unhandled.append((rs, name, node))
        # implicit exceptions raised by operations that are not modelled
        implicit = None
        body_calls = self._may_raise_implicitly(s.body, bool(hlist) and all(t is not None and t <= {"KeyError", "IndexError", "LookupError"} for _, t, _ in hlist))
        if body_st is not None or len(fr.returns) > nret:
            if body_calls:
                implicit = pre
                if body_st is not None:
                    implicit = join_states(pre.copy(), body_st)
        if self.assume and hlist and all(types == {"KeyError"} for _, types, _ in hlist):
            # scenario: the key looked up in the body is (not) in the file
            def given(k):
                return bool(self.assume["attr", k]) if ("attr", k) in self.assume else self.assume.get(("has", k))

            has = {given(n.slice.value) for b in s.body for n in ast.walk(b)
                   if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Load)} - {None}
            if has == {True}:
                implicit = None
            elif has == {False}:
                implicit, body_st = implicit or pre, None
        else_st = body_st
        if body_st is not None and s.orelse:
            else_st = self.exec_block(s.orelse, body_st.copy(), fr)
        outs.append(else_st)
        for h, types, lst in hlist:
            hs = None
            for rs, name in lst:
                hs = join_states(hs, rs)
            if implicit is not None:
                hs = join_states(hs, implicit.copy())
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                self.bind(h.name, Unk(kind="exc"), hs, fr)
            old = getattr(fr, "handling", None)
            fr.handling = lst[0][1] if lst else (sorted(types)[0] if types else "Exception")
            o = self.exec_block(h.body, hs, fr)
            fr.handling = old
            outs.append(o)
        fr.raises += unhandled
        out = None
        for o in outs:
            out = join_states(out, o)
        if s.finalbody:
            # also run for abrupt exits
            new_ret = []
            for rs, rv in fr.returns[nret:]:
                e = self.exec_block(s.finalbody, rs.copy(), fr)
                if e is not None:
                    new_ret.append((e, rv))
            fr.returns[nret:] = new_ret
            nr = []
            for rs, name, node in unhandled:
                cp = rs.copy()
                save = fr.raises
                fr.raises = []
                e = self.exec_block(s.finalbody, cp, fr)
                fr.raises = save
                if e is not None:
                    nr.append((e, name, node))
            for x in unhandled:
                if x in fr.raises:
                    fr.raises.remove(x)
            fr.raises += nr
            if out is not None:
                out = self.exec_block(s.finalbody, out, fr)
        return out

    def _may_raise_implicitly(self, body, lookups_only=False):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Subscript) and id(n) in self.safe_subs and id(n) not in self.unsafe_subs:
                    continue  # dictionary lookups whose outcome is known
                if isinstance(n, (ast.Call, ast.Subscript)) or isinstance(n, (ast.BinOp, ast.Attribute)) and not lookups_only:
                    return True
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    return False
        return False

    def st_With(self, s, st, fr):
        for item in s.items:
            cm = self.ev(item.context_expr, st, fr)
            v = self.enter(cm, st, fr, item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, fr, s)
        out = self.exec_block(s.body, st, fr)
        return out

    st_AsyncWith = st_With

    def enter(self, cm, st, fr, node):
        outs = []
        for a in alts(cm):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if isinstance(o, HList) and o.typ == "cm":
                    outs.append(o.elem)
                    continue
                if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                    m = o.cls.lookup("__enter__")
                    if isinstance(m, FuncV):
                        outs.append(self.call(replace(m, selfv=a, cls=o.cls), [], {}, st, node, fr))
                        continue
            outs.append(a)
        return join_all(outs)

    def st_Match(self, s, st, fr):
        self.degraded += 1
        self.ev(s.subject, st, fr)
        out = st.copy()
        for c in s.cases:
            b = st.copy()
            o = self.exec_block(c.body, b, fr)
            out = join_states(out, o)
        return out

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.degraded += 1
            return UNK
        v = m(e, st, fr)
        if isinstance(v, Unk) and v.sym is not None:
            r = st.refine.get(v.sym)
            if r is None and self.presets:
                r = self.presets.get(self.symkey(v.sym))
            if r is not None:
                return r
        elif isinstance(v, Alt) and self.focus is not None and any(isinstance(a, Const) and a.v == self.focus for a in v.alts) \
                and all(isinstance(a, Const) and (a.v is None or isinstance(a.v, str)) for a in v.alts):
            return next(a for a in v.alts if isinstance(a, Const) and a.v == self.focus)
        return v

    def ex_Constant(self, e, st, fr):
        return Const(e.value)

    def ex_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def ex_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def ex_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def seq(self, elts, st, fr, node, typ):
        items = []
        exact = True
        elem = None
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                its, el, _ = self.iter_items(v, st, fr, x)
                if its is not None:
                    items += its
                else:
                    exact = False
                    elem = join(elem, el if el is not None else UNK)
            else:
                items.append(self.ev(x, st, fr))
        if exact:
            return self.alloc(st, set_of(items) if typ == "set" else HList(tuple(items), None, typ), node, fr)
        whole = elem
        for x in items:
            whole = join(whole, x)
        last = bool(items) and isinstance(elts[-1], ast.Starred) and not any(isinstance(x, ast.Starred) for x in elts[:-1])
        return self.alloc(st, HList(None, whole, typ, nonempty=bool(items), lead=(tuple(items), elem) if last else ()), node, fr)

    def ex_List(self, e, st, fr):
        return self.seq(e.elts, st, fr, e, "list")

    def ex_Tuple(self, e, st, fr):
        return self.seq(e.elts, st, fr, e, "tuple")

    def ex_Set(self, e, st, fr):
        return self.seq(e.elts, st, fr, e, "set")

    def ex_Dict(self, e, st, fr):
        d = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, st, fr)
                d = self.dict_merge(d, vv, st)
            else:
                kv = self.key(self.ev(k, st, fr), st)
                vv = self.ev(v, st, fr)
                d = self.dict_put(d, kv, vv)
        return self.alloc(st, d, e, fr)

    def key(self, k, st):
        """Normalise a key value: exact tuples become constants."""
        if isinstance(k, Const) and type(k.v) is NInt:
            return Const(int(k.v), k.recs)
        if isinstance(k, Ref):
            o = self.get_obj(st, k.addr)
            if isinstance(o, HList) and o.typ in ("tuple", "nd", "list") and o.items is not None:
                ks = [self.key(x, st) for x in o.items]
                if all(isinstance(x, Const) for x in ks):
                    try:
                        r = frozenset()
                        for x in ks:
                            r |= x.recs
                        return Const(tuple(x.v for x in ks), r)
                    except TypeError:
                        pass
        return k

    def dict_put(self, d, k, v):
        if is_exact_key(k):
            ents = []
            done = False
            for kk, vv in d.entries:
                if keq(kk, k):
                    ents.append((kk, v))
                    done = True
                else:
                    ents.append((kk, vv))
            if not done:
                ents.append((k, v))
            return replace(d, entries=tuple(ents))
        if isinstance(k, Alt) and all(is_exact_key(a) for a in k.alts):
            for a in alts(k):
                old = d.get(a)
                d2 = self.dict_put(d, a, join(old, v) if old is not None else v)
                d = replace(d2, weak=d.weak or old is None)
            return d
        return replace(d, rest_k=join(d.rest_k, k), rest_v=join(d.rest_v, v))

    def dict_merge(self, d, other, st):
        for a in alts(other):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if isinstance(o, HDict):
                    for k, v in o.entries:
                        d = self.dict_put(d, k, v)
                    if o.has_unknown():
                        d = replace(d, rest_k=join(d.rest_k, o.rest_k), rest_v=join(d.rest_v, o.rest_v))
                    if o.weak:
                        d = replace(d, weak=True)
                    continue
                if isinstance(o, HList) and o.items is not None:
                    ok = True
                    for it in o.items:
                        its, _, _ = self.iter_items(it, st, None, None)
                        if its is not None and len(its) == 2:
                            d = self.dict_put(d, self.key(its[0], st), its[1])
                        else:
                            ok = False
                    if ok:
                        continue
            r = recs_of(a)
            d = replace(d, rest_k=join(d.rest_k, Unk(recs=r)), rest_v=join(d.rest_v, Unk(recs=r, own=own_of(a))))
        return d

    def ex_JoinedStr(self, e, st, fr):
        parts = []
        const = ""
        exact = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                v = Const(p.value)
            else:
                v = self.ev(p, st, fr)
            parts.append(v)
        return ext.concat_text(self, parts, st)

    def ex_FormattedValue(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        spec = self.ev(e.format_spec, st, fr) if e.format_spec is not None else Const("")
        if e.conversion == ord("r"):
            v = ext.to_text(self, v, st, "r")
        elif e.conversion == ord("s"):
            v = ext.to_text(self, v, st, "s")
        return ext.format_value(self, v, spec, st, e, fr)

    def ex_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr, e)

    def ex_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            return Unk(kind="bool") if t is None else Const(not t)
        return self.map_alts(v, lambda a: ext.unary(self, e.op, a, st, fr, e))

    def map_alts(self, v, f):
        if isinstance(v, Alt):
            outs = []
            dead = 0
            for a in alts(v):
                try:
                    outs.append(f(a))
                except Dead:
                    dead += 1
            if not outs:
                raise Dead()
            return join_all(outs)
        return f(v)

    def binop(self, op, a, b, st, fr, node):
        aa, bb = alts(a), alts(b)
        if len(aa) * len(bb) > 64:
            return Unk(recs=degrade(recs_of(a) | recs_of(b)))
        outs = []
        dead = 0
        for x in aa:
            for y in bb:
                try:
                    outs.append(ext.binop(self, op, x, y, st, fr, node))
                except Dead:
                    dead += 1
        if not outs:
            raise Dead()
        return join_all(outs)

    def ex_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        acc = None
        cur = st
        for i, x in enumerate(e.values):
            s2 = st if i == 0 else st
            if i > 0 and not any(isinstance(n, ast.Call) for n in ast.walk(x)):
                # evaluate under refinement (pure operand)
                tmp = st.copy()
                try:
                    for y in e.values[:i]:
                        self.refine(y, is_and, tmp, fr)
                    saved = fr.raises
                    fr.raises = []
                    try:
                        v = self.ev(x, tmp, fr)
                    finally:
                        fr.raises = saved
                except Dead:
                    v = None
            else:
                v = self.ev(x, st, fr)
            if v is None:
                continue
            t = self.truth(v, st)
            if t is not None and t != is_and:
                return join(acc, v) if acc is not None else v
            if t is None:
                acc = join(acc, self._filter_truth(v, not is_and, st))
                if i == len(e.values) - 1:
                    acc = join(acc, v)
            elif i == len(e.values) - 1:
                acc = join(acc, v)
        return acc if acc is not None else Unk(kind="bool")

    def _filter_truth(self, v, t, st):
        if isinstance(v, Alt):
            s = frozenset(a for a in v.alts if self.truth(a, st) in (None, t))
            if not s:
                return None
            return next(iter(s)) if len(s) == 1 else Alt(s)
        if isinstance(v, Unk) and v.kind == "bool":
            return Const(t)
        return v

    def ex_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        vals = [left] + [None] * len(e.ops)
        outs = []
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, st, fr)
            r = self.compare(op, vals[i], right, st, fr, e)
            vals[i + 1] = right
            outs.append(r)
        if len(outs) == 1:
            return outs[0]
        ts = [self.truth(o, st) for o in outs]
        if any(t is False for t in ts):
            return FALSE
        if all(t is True for t in ts):
            return TRUE
        return Unk(kind="bool")

    def compare(self, op, a, b, st, fr, node):
        aa, bb = alts(a), alts(b)
        rs = set()
        extra = None
        for x in aa:
            for y in bb:
                r = ext.compare(self, op, x, y, st, fr, node)
                if isinstance(r, V):
                    extra = join(extra, r)
                else:
                    rs.add(r)
        if extra is not None:
            return extra
        if len(rs) == 1:
            r = rs.pop()
            if r is not None:
                return Const(r)
        return Unk(kind="bool")

    def ex_IfExp(self, e, st, fr):
        c = self.ev(e.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            return self.ev(e.body, st, fr)
        if t is False:
            return self.ev(e.orelse, st, fr)
        self.event("openif", e.test, fr, v=c)
        s1, s2 = st.copy(), st.copy()
        v1 = v2 = None
        try:
            self.refine(e.test, True, s1, fr)
            v1 = self.ev(e.body, s1, fr)
        except Dead:
            s1 = None
        try:
            self.refine(e.test, False, s2, fr)
            v2 = self.ev(e.orelse, s2, fr)
        except Dead:
            s2 = None
        j = join_states(s1, s2)
        if j is None:
            raise Dead()
        st.assign(j)
        return join(v1, v2)

    def ex_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def ex_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        fr.yields = join(fr.yields, v)
        return UNK

    def ex_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        its, el, _ = self.iter_items(v, st, fr, e)
        fr.yields = join(fr.yields, join_all(its) if its else (el or UNK))
        return UNK

    def ex_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ex_Slice(self, e, st, fr):
        return self.ev_slice(e, st, fr)

    def ev_slice(self, s, st, fr):
        if isinstance(s, ast.Slice):
            parts = [self.ev(x, st, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            if all(isinstance(p, Const) for p in parts):
                return Const(Sl(*[p.v for p in parts]))
            return Unk(kind="slice", extra=tuple(parts))
        return self.ev(s, st, fr)

    def ex_Subscript(self, e, st, fr):
        c = self.ev(e.value, st, fr)
        k = self.ev_slice(e.slice, st, fr)
        return self.subscript(c, k, st, fr, e)

    def subscript(self, c, k, st, fr, node):
        def one(a):
            return ext.subscript(self, a, k, st, fr, node)

        if self.focus is not None and isinstance(c, Alt) and not isinstance(k, Const):
            hit = [a for a in c.alts if isinstance(a, Ref) and isinstance(self.get_obj(st, a.addr), HDict)
                   and ext._focus_entries(self, self.get_obj(st, a.addr), st)]
            if hit:
                c = join_all(hit)
        return self.map_alts(c, one)

    def ex_Attribute(self, e, st, fr):
        c = self.ev(e.value, st, fr)
        return self.get_attr(c, e.attr, st, fr, e)

    def get_attr(self, c, name, st, fr, node):
        return self.map_alts(c, lambda a: self.get_attr1(a, name, st, fr, node))

    def get_attr1(self, a, name, st, fr, node):
        if isinstance(a, ModV):
            v = self.modattr(a.name, name)
            if v is None:
                self.event("attrerror", node, fr, what=f"module {a.name} has no attribute {name}", v=a, name=name)
                self.raise_(st, fr, "AttributeError", node)
            return v
        if isinstance(a, Ext):
            return ext.ext_attr(self, a, name, st)
        if isinstance(a, Ref):
            o = self.get_obj(st, a.addr)
            if isinstance(o, HObj) and o.cls == "structarr":
                if name == "dtype":
                    return Const(DT("struct", tuple((k, "?") for k, _ in o.attrs)))
                if name == "shape":
                    return Unk(kind="tuple")
                return Method(a, name)
            if isinstance(o, HObj):
                v = o.get(name)
                if v is not None:
                    return self._strip_undef(v, name, st, fr, node)
                if isinstance(o.cls, ClsV):
                    m = o.cls.lookup(name)
                    if m is not None:
                        return self.bind_method(m, a, o.cls, st, fr, node)
                    if name == "__dict__":
                        return self.alloc(st, HDict(tuple((Const(k), v) for k, v in o.attrs)), node, fr, "dict")
                    if name == "__class__":
                        return o.cls
                    if o.cls.ext_bases() and set(o.cls.ext_bases()) - {"builtins.object"}:
                        return Method(a, name)
                    self.event("attrerror", node, fr, what=f"{o.cls.name} object has no attribute '{name}'", v=a, name=name)
                    self.raise_(st, fr, "AttributeError", node)
                return Unk()
            if isinstance(o, (HList, HDict)):
                return ext.container_attr(self, a, o, name, st, fr, node)
            return Unk()
        if isinstance(a, ClsV):
            m = a.lookup(name)
            if m is not None:
                if isinstance(m, FuncV) and "classmethod" in m.decos:
                    return replace(m, selfv=a, cls=a)
                return m
            if name == "__name__":
                return Const(a.name)
            return UNK
        if isinstance(a, FuncV):
            if name == "__name__":
                return Const(getattr(a.node, "name", "<lambda>"))
            return UNK
        return ext.value_attr(self, a, name, st, fr, node)

    def bind_method(self, m, selfv, cls, st, fr, node):
        if isinstance(m, FuncV):
            if "property" in m.decos or "cached_property" in m.decos:
                return self.call(replace(m, selfv=selfv, cls=cls, decos=()), [], {}, st, node, fr)
            if "staticmethod" in m.decos:
                return m
            if "classmethod" in m.decos:
                return replace(m, selfv=cls, cls=cls)
            return replace(m, selfv=selfv, cls=cls)
        return m

    def set_attr(self, c, name, v, st, fr, node):
        for a in alts(c):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if isinstance(o, HObj):
                    if isinstance(o.cls, ClsV):
                        setter = o.cls.lookup("$set_" + name)
                        if isinstance(setter, FuncV):
                            self.call(replace(setter, selfv=a, cls=o.cls, decos=()), [v], {}, st, node, fr)
                            continue
                    if o.own:
                        self.event("mutate", node, fr, path=f"{o.own}.{name}", how="attribute assignment", k=(o.own, name))
                    if isinstance(c, Ref):
                        st.heap[a.addr] = o.set(name, v)
                    else:
                        st.heap[a.addr] = o.set(name, join(o.get(name), v))
                    self.event("setattr", node, fr, obj=o, name=name, value=v, addr=a.addr, k=(a.addr, name))
                elif isinstance(o, HList) and name == "shape":
                    pass
            elif isinstance(a, Unk):
                if a.own and name in ("shape", "dtype", "flat"):
                    self.note_mutation(a, st, fr, node, "attribute assignment ." + name)
                ext.ext_store(self, a, Const(name), v, st, fr, node)

    def set_item(self, c, k, v, st, fr, node):
        ext.set_item(self, c, k, v, st, fr, node)

    def note_mutation(self, c, st, fr, node, how):
        for a in alts(c):
            if isinstance(a, Ref):
                o = self.get_obj(st, a.addr)
                if o is not None and getattr(o, "own", None):
                    self.event("mutate", node, fr, path=o.own, how=how, k=(o.own, how))
                elif a.addr in self.base and a.addr not in st.heap and False:
                    pass
            elif isinstance(a, Unk):
                for p in sorted(a.own):
                    self.event("mutate", node, fr, path=p, how=how, inside=True, k=(p, how))

    def list_extend(self, ref, other, st, fr, node):
        o = self.get_obj(st, ref.addr)
        self.note_mutation(ref, st, fr, node, "extend")
        its, el, ne = self.iter_items(other, st, fr, node)
        if its is not None and o.items is not None:
            st.heap[ref.addr] = replace(o, items=o.items + tuple(its))
        else:
            e = o.element() if (o.items or o.items is None) else None
            for x in its or ():
                e = join(e, x)
            if el is not None:
                e = join(e, el)
            st.heap[ref.addr] = replace(o, items=None, elem=e, nonempty=o.nonempty or bool(o.items) or bool(its) or ne)

    # comprehensions
    def comp(self, e, st, fr, elt_fn, combine):
        """Evaluate generators; returns (exact list of results | None, joined elt, nonempty)."""
        caddr = self.intern(("comp", id(e), fr.ctx, fr.iter))
        st.heap[caddr] = Env()
        # comprehension frame shares fr's scope
        cf = Frame(caddr, fr.mod, e, fr.scope + (fr.addr,), fr.ctx, self, fr.cls)
        cf.iter = fr.iter
        cf.globals = set()
        cf.raises = fr.raises
        cf.returns = fr.returns
        cf.loops = fr.loops
        if isinstance(fr.node, ast.Module):
            cf.scope = (fr.addr,)
        if isinstance(fr.node, ast.ClassDef):
            cf.scope = fr.scope + (fr.addr,)

        def rec(i):
            if i == len(e.generators):
                return [elt_fn(cf)], None, True
            g = e.generators[i]
            it = self.ev(g.iter, st, cf if i else fr)
            items, elem, ne = self.iter_items(it, st, cf, e)
            if i == 0:
                dim[0] = ext.iter_dim(self, it, st)
            if items is None and elem is None:
                self.event("typeerror", e, fr, what=f"cannot iterate {self.describe(it, st)}", v=it)
                self.raise_(st, fr, "TypeError", e)
            if items is not None and len(items) <= MAX_UNROLL:
                out = []
                exact = True
                j = None
                allne = False
                saved = cf.iter
                for n, x in enumerate(items):
                    cf.iter = saved + ((id(g), n),)
                    self.assign(g.target, x, st, cf, e)
                    conds = []
                    dead = False
                    for c in g.ifs:
                        cc = self.ev(c, st, cf)
                        cv = self.truth(cc, st)
                        if cv is False:
                            dead = True
                            break
                        if cv is None:
                            self.event("openif", c, cf, v=cc)
                        conds.append(cv)
                        if cv is None:
                            try:
                                self.refine(c, True, st, cf)
                            except Dead:
                                dead = True
                                break
                    if dead:
                        continue
                    r, rj, rne = rec(i + 1)
                    if r is None or None in conds:
                        exact = False
                        for y in r or ():
                            j = join(j, y)
                        j = join(j, rj)
                    else:
                        out += r
                        allne = allne or rne
                cf.iter = saved
                if exact:
                    return out, None, bool(out)
                for y in out:
                    j = join(j, y)
                return None, j, bool(out)
            if items is not None:
                elem = join_all(items)
            saved = cf.iter
            cf.iter = saved + ((id(g), "fix"),)
            self.assign(g.target, elem, st, cf, e)
            ne2 = ne
            for c in g.ifs:
                cv = self.truth(self.ev(c, st, cf), st)
                if cv is False:
                    cf.iter = saved
                    return [], None, False
                if cv is None:
                    ne2 = False
                    try:
                        self.refine(c, True, st, cf)
                    except Dead:
                        cf.iter = saved
                        return [], None, False
            r, rj, rne = rec(i + 1)
            cf.iter = saved
            j = rj
            for y in r or ():
                j = join(j, y)
            return None, j if j is not None else UNK, ne2 and rne

        only = e.generators[0] if len(e.generators) == 1 and not e.generators[0].ifs else None
        self.comp_dim = None
        dim = [None]
        r = rec(0)
        self.comp_dim = dim[0] if only is not None else None
        return r

    def _comp_list(self, e, st, fr, typ):
        items, j, ne = self.comp(e, st, fr, lambda cf: self.ev(e.elt, st, cf), None)
        if items is not None:
            return self.alloc(st, set_of(items) if typ == "set" else HList(tuple(items), None, typ), e, fr)
        return self.alloc(st, HList(None, j, typ, nonempty=ne, sym=ext.len_sym(self.comp_dim) if typ != "set" else None), e, fr)

    def ex_ListComp(self, e, st, fr):
        r = self._comp_list(e, st, fr, "list")
        if self.focus is not None and len(e.generators) == 2 and isinstance(e.elt, ast.Name) and isinstance(r, Ref):
            # order-preserving flattening of a record read from the file: the record is the new row
            o = self.get_obj(st, r.addr)
            if isinstance(o, HList) and o.items is None and o.elem is not None:
                rs = ext.flat_recs(self, o.elem, st)
                if rs and all(x.origin == "file" for x in rs):
                    return Unk(kind="list", recs=frozenset([Rec("file", ID)]))
        return r

    def ex_GeneratorExp(self, e, st, fr):
        return self._comp_list(e, st, fr, "list")

    def ex_SetComp(self, e, st, fr):
        return self._comp_list(e, st, fr, "set")

    def ex_DictComp(self, e, st, fr):
        def elt(cf):
            k = self.key(self.ev(e.key, st, cf), st)
            v = self.ev(e.value, st, cf)
            return _KV(k, v)

        # collect pairs
        pairs = []
        unknown = []

        def elt2(cf):
            kv = elt(cf)
            pairs.append(kv)
            return Const(len(pairs))

        items, j, ne = self.comp(e, st, fr, elt2, None)
        d = HDict()
        if items is not None:
            for kv in pairs:
                d = self.dict_put(d, kv.k, kv.v)
        else:
            for kv in pairs:
                if is_exact_key(kv.k):
                    d = replace(self.dict_put(d, kv.k, kv.v), weak=True)
                else:
                    d = self.dict_put(d, kv.k, kv.v)
        return self.alloc(st, d, e, fr)

    # ------------------------------------------------------------------ iteration
    def iter_items(self, v, st, fr, node, unpack=False):
        """(exact list | None, element | None, nonempty). Both None: not iterable."""
        if isinstance(v, Alt):
            el = None
            ne = True
            ok = False
            exacts = []
            for a in alts(v):
                it, e, n = self.iter_items(a, st, fr, node)
                if it is None and e is None:
                    continue
                ok = True
                if it is not None:
                    exacts.append(it)
                    for x in it:
                        el = join(el, x)
                    ne = ne and bool(it)
                else:
                    el = join(el, e)
                    ne = ne and n
            if not ok:
                return None, None, False
            if len(exacts) == len(v.alts) and len({len(x) for x in exacts}) == 1:
                return [join_all(col) for col in zip(*exacts)], None, ne
            return None, el if el is not None else UNK, ne
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Const(c, v.recs) for c in v.v], None, bool(v.v)
            if isinstance(v.v, bytes):
                return [Const(c, v.recs) for c in v.v], None, bool(v.v)
            if isinstance(v.v, (tuple, frozenset)) and not isinstance(v.v, (Sl, DT)):
                return [Const(c, v.recs) for c in v.v], None, bool(v.v)
            return None, None, False
        if isinstance(v, Ref):
            o = self.get_obj(st, v.addr)
            if isinstance(o, HList):
                if o.items is not None:
                    return list(o.items), None, bool(o.items)
                return None, o.element(), o.nonempty
            if isinstance(o, HDict):
                if not o.has_unknown() and not o.weak:
                    return [k for k, _ in o.entries], None, bool(o.entries)
                return None, o.keys_join(), bool(o.entries) and not o.weak
            if isinstance(o, HObj):
                if isinstance(o.cls, ClsV):
                    m = o.cls.lookup("__iter__")
                    if isinstance(m, FuncV):
                        r = self.call(replace(m, selfv=v, cls=o.cls), [], {}, st, node, fr)
                        if not (isinstance(r, Ref) and r.addr == v.addr):
                            return self.iter_items(r, st, fr, node)
                        nx = o.cls.lookup("__next__")
                        if isinstance(nx, FuncV):
                            return None, self.call(replace(nx, selfv=v, cls=o.cls), [], {}, st, node, fr), False
                        return None, UNK, False
                    gi = o.cls.lookup("__getitem__")
                    if isinstance(gi, FuncV):
                        return None, self.call(replace(gi, selfv=v, cls=o.cls), [Unk(kind="int")], {}, st, node, fr), False
                    if set(o.cls.ext_bases()) - {"builtins.object"}:
                        return None, UNK, False
                    return None, None, False
                return None, UNK, False
        if isinstance(v, Unk):
            return ext.iter_unk(self, v, st, fr, node)
        if isinstance(v, (FuncV, ModV, PartialV)):
            return None, None, False
        return None, Unk(recs=recs_of(v)), False

    def describe(self, v, st):
        if isinstance(v, Ref):
            o = self.get_obj(st, v.addr)
            if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                return f"a {o.cls.name} object"
            if isinstance(o, HList):
                return f"a {o.typ}"
            if isinstance(o, HDict):
                return "a dict"
        if isinstance(v, Const):
            return f"constant {v.v!r}"
        return repr(v)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(st, fr)
        f = self.ev(e.func, st, fr)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                its, el, _ = self.iter_items(v, st, fr, a)
                if its is not None:
                    args += its
                else:
                    args.append(Star(el if el is not None else UNK))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                got = False
                for a in alts(v):
                    if isinstance(a, Ref):
                        o = self.get_obj(st, a.addr)
                        if isinstance(o, HDict):
                            for kk, vv in o.entries:
                                if isinstance(kk, Const) and isinstance(kk.v, str):
                                    kwargs[kk.v] = vv
                            if o.has_unknown():
                                kwargs["**"] = o.rest_v
                            got = True
                if not got:
                    kwargs["**"] = Unk(recs=recs_of(v))
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, e, fr)

    def make_super(self, st, fr):
        f = fr
        cls = fr.cls
        # defining class of the current function
        defcls = getattr(fr, "defcls", None)
        selfv = None
        node = fr.node
        if isinstance(node, (ast.FunctionDef,)) and node.args.args:
            selfv = self.env(st, fr.addr).get(node.args.args[0].arg)
        p = getattr(node, "_parent", None)
        base = None
        if isinstance(p, ast.ClassDef):
            cv = self.load_name(p.name, st, Frame(("mod", fr.mod.name), fr.mod, fr.mod.tree, (), 0, self), node)
            if isinstance(cv, ClsV):
                base = cv
        return SuperV(selfv, base)

    def call(self, f, args, kwargs, st, node, fr):
        if isinstance(f, Alt):
            outs = []
            res = []
            for a in alts(f):
                s2 = st.copy()
                try:
                    v = self.call(a, args, kwargs, s2, node, fr)
                    outs.append(v)
                    res.append(s2)
                except Dead:
                    pass
            if not outs:
                raise Dead()
            j = None
            for s2 in res:
                j = join_states(j, s2)
            st.assign(j)
            return join_all(outs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st, node, fr)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st, node, fr)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs, st, node, fr)
        if isinstance(f, Ref):
            o = self.get_obj(st, f.addr)
            if isinstance(o, HObj) and isinstance(o.cls, ClsV):
                m = o.cls.lookup("__call__")
                if isinstance(m, FuncV):
                    return self.call(replace(m, selfv=f, cls=o.cls), args, kwargs, st, node, fr)
            if isinstance(o, (HList, HDict)):
                self.event("typeerror", node, fr, what=f"{self.describe(f, st)} is not callable", v=f)
                self.raise_(st, fr, "TypeError", node)
            return Unk(recs=degrade(self.args_recs(args, kwargs, st)))
        if isinstance(f, Const):
            self.event("typeerror", node, fr, what=f"{self.describe(f, st)} is not callable", v=f)
            self.raise_(st, fr, "TypeError", node)
        args = [a.v if isinstance(a, Star) else a for a in args] if not isinstance(f, (Ext, Method)) else args
        return ext.call_ext(self, f, args, kwargs, st, node, fr)

    def args_recs(self, args, kwargs, st):
        r = frozenset()
        for a in list(args) + list(kwargs.values()):
            r |= ext.flat_recs(self, a.v if isinstance(a, Star) else a, st)
        return r

    def instantiate(self, cls, args, kwargs, st, node, fr):
        q = f"{cls.mod.name}.{cls.name}"
        h = self.hooks.get(q)
        if h is not None:
            return h(self, cls, args, kwargs, st, node, fr)
        exts = set(cls.ext_bases()) - {"builtins.object"}
        exc = [x for x in exts if x.rsplit(".", 1)[-1].endswith(("Exception", "Error"))]
        ref = self.alloc(st, HObj(cls), node, fr, ("inst", cls.name))
        init = cls.lookup("__init__")
        if isinstance(init, FuncV):
            self.call(replace(init, selfv=ref, cls=cls), args, kwargs, st, node, fr)
        else:
            # NamedTuple / dataclass style: bind annotated fields positionally
            fields = [b.target.id for b in cls.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
            o = self.get_obj(st, ref.addr)
            for n, a in zip(fields, args):
                o = o.set(n, a.v if isinstance(a, Star) else a)
            for k, v in kwargs.items():
                o = o.set(k, v)
            st.heap[ref.addr] = o
        return ref

    def call_func(self, f, args, kwargs, st, node, fr):
        fn = f.node
        q = f"{f.mod.name}.{qualname(fn)}" if not isinstance(fn, ast.Lambda) else None
        h = self.hooks.get(q) if q else None
        h = self.nodehooks.get(id(fn), h)
        if h is not None:
            return h(self, f, args, kwargs, st, node, fr)
        if f.selfv is not None:
            args = [f.selfv] + list(args)
        depth = len(self.stack)
        rec = sum(1 for x in self.stack if x is fn)
        me = (id(fn),) + tuple(a.addr for a in args if isinstance(a, Ref) and isinstance(st.heap.get(a.addr), HObj))
        if rec > 3 and len(me) > 1 and me not in self.selfstack:
            rec = rec - 6  # structural recursion over distinct objects
        if rec and fn is self.once:
            return Unk()
        if depth > MAX_DEPTH or rec > 3:
            self.degraded += 1
            return Unk(recs=degrade(self.args_recs(args, kwargs, st)))
        self.visited_funcs.add((f.mod.name, qualname(fn) if not isinstance(fn, ast.Lambda) else f"<lambda:{fn.lineno}>"))
        ctx = self.intern(("call", fr.ctx, fr.iter, id(node), id(fn)))
        addr = ("fr", ctx)
        env = Env()
        if not self.bind_args(f, args, kwargs, env, st, node, fr):
            self.event("argerror", node, fr, func=getattr(fn, "name", "<lambda>"), v=f)
            self.raise_(st, fr, "TypeError", node)
        saved_env = st.heap.get(addr)
        st.heap[addr] = env
        nf = Frame(addr, f.mod, fn, f.scope, ctx, self, f.cls)
        for pn, pv in list(env.items()):
            env[pn] = self.with_sym(pv, st, fn, nf, pn)
        nf.depth = depth
        self.stack.append(fn)
        self.selfstack.append(me)
        try:
            if isinstance(fn, ast.Lambda):
                try:
                    v = self.ev(fn.body, st, nf)
                    nf.returns.append((st, v))
                except Dead:
                    pass
            else:
                # declare globals
                out = self.exec_block(fn.body, st.copy(), nf)
                if out is not None:
                    nf.returns.append((out, NONE))
        finally:
            self.stack.pop()
            self.selfstack.pop()
        fr.raises += nf.raises
        if nf.yields is not None and not isinstance(fn, ast.Lambda):
            j = None
            for s2, _ in nf.returns:
                j = join_states(j, s2)
            if j is not None:
                st.assign(j)
            if "contextmanager" in f.decos:
                return self.alloc(st, HList(None, nf.yields, "cm"), node, fr, "cm")
            return self.alloc(st, HList(None, nf.yields, "list"), node, fr, "gen")
        if not nf.returns:
            raise Dead()
        j = None
        v = None
        for s2, rv in nf.returns:
            j = join_states(j, s2)
            v = join(v, rv)
        has_inner = getattr(fn, "_has_inner", None)
        if has_inner is None:
            has_inner = fn._has_inner = any(
                isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in ast.walk(fn) if n is not fn
            )
        if not has_inner and not any(x is fn for x in self.stack):
            j.heap.pop(addr, None)
        if j is not st:
            st.assign(j)
        return v

    def bind_args(self, f, args, kwargs, env, st, node, fr):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        ok = True
        rest = []
        i = 0
        star_val = None
        for x in args:
            if isinstance(x, Star):
                star_val = join(star_val, x.v)
                continue
            if i < len(pos):
                env[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        if star_val is not None:
            while i < len(pos) and pos[i] not in kwargs:
                env[pos[i]] = star_val
                i += 1
        if a.vararg:
            if star_val is not None:
                env[a.vararg.arg] = self.alloc(st, HList(None, star_val, "tuple"), node, fr, ("va", a.vararg.arg))
            else:
                env[a.vararg.arg] = self.alloc(st, HList(tuple(rest), None, "tuple"), node, fr, ("va", a.vararg.arg))
        elif rest:
            ok = False
        kwo = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in pos or k in kwo:
                if k in env and k in pos[: i if star_val is None else 0]:
                    ok = False
                env[k] = v
            else:
                extra.append((Const(k), v))
        if a.kwarg:
            unk = kwargs.get("**")
            env[a.kwarg.arg] = self.alloc(
                st, HDict(tuple(extra), Unk(kind="str") if unk is not None else None, unk), node, fr, ("kw", a.kwarg.arg)
            )
        elif extra:
            ok = False
        nd = len(f.defaults)
        for j, p in enumerate(pos):
            if p not in env:
                d = j - (len(pos) - nd)
                if d >= 0:
                    env[p] = f.defaults[d]
                elif "**" in kwargs:
                    env[p] = kwargs["**"]
                else:
                    ok = False
                    env[p] = UNK
        kd = dict(f.kwdefaults)
        for p in kwo:
            if p not in env:
                if p in kd:
                    env[p] = kd[p]
                elif "**" in kwargs:
                    env[p] = kwargs["**"]
                else:
                    ok = False
                    env[p] = UNK
        return ok

    # ------------------------------------------------------------------ entry
    def run(self, fv, args, kwargs=None, st=None, setup=None):
        """Interpret a repo function from outside. Returns (state|None, value|None, frame)."""
        st = st or State()
        root = ast.Constant(0)
        root._mod = fv.mod if isinstance(fv, (FuncV, ClsV)) else None
        fr = Frame(("root", 0), fv.mod, root, (), self.intern(("root",)), self)
        st.heap[fr.addr] = Env()
        try:
            v = self.call(fv, args, kwargs or {}, st, root, fr)
        except Dead:
            return None, None, fr
        return st, v, fr


class _KV:
    def __init__(self, k, v):
        self.k, self.v = k, v


class Star:
    def __init__(self, v):
        self.v = v


class SuperV(V):
    __slots__ = ("selfv", "base")

    def __init__(self, selfv, base):
        self.selfv, self.base = selfv, base

    def __eq__(self, o):
        return type(o) is SuperV and (o.selfv, o.base) == (self.selfv, self.base)

    def __hash__(self):
        return hash((self.selfv, self.base))
