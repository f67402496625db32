"""Typestate of file handles: every handle that is opened is closed on every path, with and without exceptions.

Statement-level flow analysis of one function at a time, with summaries for functions that return an open handle or close a parameter. A state is a set of disjuncts
(open handles with their aliases, facts about branch conditions); handles are identified by their creation site.
"""
import ast

from .loader import qualname

CREATORS = {("builtins", "open"), ("io", "open"), ("io", "FileIO"), ("codecs", "open"), ("gzip", "open"), ("gzip", "GzipFile"), ("bz2", "open"), ("bz2", "BZ2File"), ("lzma", "open"), ("lzma", "LZMAFile"),
            ("h5py", "File"), ("netCDF4", "Dataset"), ("tempfile", "TemporaryFile"), ("tempfile", "NamedTemporaryFile"), ("tempfile", "SpooledTemporaryFile"), ("zipfile", "ZipFile"), ("tarfile", "open"),
            ("os", "fdopen"), ("mmap", "mmap")}
OWNERS = {"TextIOWrapper", "BufferedReader", "BufferedWriter", "closing"}  # take over a handle
CLOSERS = {"close", "__exit__"}
MAXDIS = 48


class Fn:
    def __init__(self, mod, node, cls):
        self.mod, self.node, self.cls = mod, node, cls
        self.owner = cls  # the class whose `self` the function works on
        self.returns_handle = False
        self.closes = set()  # parameter positions closed on some path
        self.yields = set()  # parameter positions a context manager hands out
        self.cm = any("contextmanager" in ast.unparse(d) for d in node.decorator_list)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]

    @property
    def name(self):
        return self.mod.rel + ":" + qualname(self.node)


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        self.by_name = {}  # (module, name) -> Fn
        self.classes = {}  # id(ClassDef) -> {method: Fn}
        for m in prog.modules.values():
            self.scan(m, m.tree.body, None)
        self.imports = {m.name: self.imports_of(m) for m in prog.modules.values()}
        for _ in range(3):
            self.helpers()
        self.out = {}  # (fn name, rule, construct) -> (verdict, message)
        self.sites = {}

    def helpers(self):
        """Functions that methods of one class call with `self` work on that object as a method would."""
        given = {}
        for f in list(self.fns.values()):
            for e in ast.walk(f.node):
                c = self.callee(f, e) if isinstance(e, ast.Call) else None
                if c is not None and c.cls is None and c.owner is None:
                    ps = {c.params[i] for i, a in enumerate(e.args) if i < len(c.params) and isinstance(a, ast.Name) and a.id == "self"}
                    ps |= {k.arg for k in e.keywords if isinstance(k.value, ast.Name) and k.value.id == "self"}
                    given.setdefault(id(c.node), []).append((ps, f.owner))
        for k, calls in given.items():
            c = self.fns[k]
            names = {p for ps, _ in calls for p in ps}
            if len(names) == 1 and all(ps == names for ps, _ in calls) and len({id(o) for _, o in calls}) == 1 and calls[0][1] is not None:
                old = names.pop()
                if old != "self" and any(getattr(n, "id", getattr(n, "arg", "")) == "self" for n in ast.walk(c.node)):
                    continue
                c.owner = calls[0][1]
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Name) and n.id == old:
                        n.id = "self"
                    elif isinstance(n, ast.arg) and n.arg == old:
                        n.arg = "self"
                c.params = ["self" if p == old else p for p in c.params]

    def scan(self, m, body, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, n, cls)
                self.fns[id(n)] = f
                if cls is None:
                    self.by_name[(m.name, n.name)] = f
                else:
                    self.classes.setdefault(id(cls), {})[n.name] = f
                self.scan(m, n.body, None)
                for k in ast.walk(n):
                    if id(k) in self.fns and k is not n and cls is not None:
                        self.fns[id(k)].owner = cls
            elif isinstance(n, ast.ClassDef):
                self.classes.setdefault(id(n), {})
                self.scan(m, n.body, n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ("body", "orelse", "finalbody"):
                    self.scan(m, getattr(n, part, []), cls)
                for h in getattr(n, "handlers", []):
                    self.scan(m, h.body, cls)

    def imports_of(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[(a.asname or a.name.split(".")[0])] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.package.split(".")
                    pk = pk[: len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = ("from", base, a.name)
        return out

    def resolve(self, m, f):
        """(module, name) of a called function, or ("?", attribute name)"""
        imp = self.imports[m.name]
        if isinstance(f, ast.Name):
            i = imp.get(f.id)
            if i and i[0] == "from":
                return (i[1], i[2])
            if (m.name, f.id) in self.by_name:
                return (m.name, f.id)
            return ("builtins", f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                i = imp.get(f.value.id)
                if i and i[0] == "mod":
                    return (i[1], f.attr)
                if i and i[0] == "from":
                    full = i[1] + "." + i[2]
                    if full in self.prog.modules:
                        return (full, f.attr)
            return ("?", f.attr)
        return ("?", "")

    def callee(self, fn, call):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and fn.owner is not None:
            return self.classes.get(id(fn.owner), {}).get(f.attr)
        r = self.resolve(fn.mod, f)
        seen = set()
        while r not in self.by_name and r[0] in self.imports and r not in seen:
            seen.add(r)
            i = self.imports[r[0]].get(r[1])
            if not i or i[0] != "from":
                break
            r = (i[1], i[2])
        return self.by_name.get(r)

    def creates(self, fn, e):
        """Does evaluating this call deliver a newly opened handle?"""
        if not isinstance(e, ast.Call):
            return False
        r = self.resolve(fn.mod, e.func)
        if r in CREATORS:
            return True
        if r[0] == "?" and r[1] == "open" and isinstance(e.func, ast.Attribute):
            b = e.func.value
            return not (isinstance(b, ast.Name) and b.id in self.imports[fn.mod.name])  # path.open()
        c = self.callee(fn, e)
        return c is not None and c.returns_handle and not c.cm

    # ----------------------------------------------------------------- running
    def run(self):
        for _ in range(4):
            self.out, self.sites = {}, {}
            before = [(f.returns_handle, frozenset(f.closes), frozenset(f.yields)) for f in self.fns.values()]
            for f in self.fns.values():
                Flow(self, f).run()
            kept = dict(self.out)
            for f in self.fns.values():
                Params(self, f).run({(frozenset((("param", i), frozenset([p])) for i, p in enumerate(f.params) if p not in ("self", "cls")), frozenset())}, only=True)
            self.out = kept
            for m in self.prog.modules.values():
                Flow(self, ModuleFn(m)).run()
            if [(f.returns_handle, frozenset(f.closes), frozenset(f.yields)) for f in self.fns.values()] == before:
                break
        return self.out


class ModuleFn:
    cls = None
    cm = False
    params = ()
    closes = frozenset()
    yields = frozenset()

    def __init__(self, m):
        self.mod, self.returns_handle = m, False
        self.node = m.tree
        self.name = m.rel + ":<module>"


# a disjunct: (frozenset of (site, frozenset(aliases)), frozenset of (condition text, bool))
EMPTY = (frozenset(), frozenset())


def handle_of(dis, path):
    for site, al in dis[0]:
        if path in al:
            return site, al
    return None


def path_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = path_of(e.value)
        return b + "." + e.attr if b else None
    if isinstance(e, ast.Subscript):
        b = path_of(e.value)
        return b + "[]" if b else None
    return None


def quiet(s):
    """Statements that cannot raise."""
    if isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
        return True

    def simple(e):
        if e is None or safe_test(e):
            return True
        if isinstance(e, ast.IfExp):
            return simple(e.test) and simple(e.body) and simple(e.orelse)
        if isinstance(e, ast.Dict):
            return all(x is not None and simple(x) for x in e.keys) and all(map(simple, e.values))
        if isinstance(e, ast.Call) and not e.keywords:
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "items", "keys") and not e.args:
                return simple(e.func.value)
            if isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "list", "tuple", "dict", "hasattr", "bool", "id", "callable"):
                return all(map(simple, e.args)) and (e.func.id in ("isinstance", "hasattr", "bool", "id", "callable") or all(isinstance(a, ast.Call) for a in e.args))
        return False

    if isinstance(s, ast.Assign):
        return simple(s.value) and all(isinstance(t, (ast.Name, ast.Attribute)) or isinstance(t, ast.Subscript) and simple(t.value) and simple(t.slice) for t in s.targets)
    if isinstance(s, ast.AnnAssign):
        return simple(s.value)
    if isinstance(s, ast.Return):
        return simple(s.value)
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    return False


class Out:
    def __init__(self):
        self.norm, self.exc, self.ret, self.brk, self.cont = set(), set(), set(), set(), set()


class Flow:
    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        self.lossy = False
        self.depth = 0

    # ------------------------------------------------------------- entry
    def run(self, start=None, only=None):
        fn = self.fn
        body = fn.node.body
        out = self.block(body, set(start) if start else {EMPTY})
        self.ends = out
        if only is not None:
            return out
        me = fn.node.name if hasattr(fn.node, "name") else ""
        for kind, states in (("returns", out.norm | out.ret), ("fails", out.exc)):
            for d in states:
                for site, al in d[0]:
                    owned = [a for a in al if a.startswith("self.")]
                    if owned and kind == "returns" or owned and me not in ("__init__", "__enter__"):
                        self.attr_owner(site, owned[0], d)
                        continue
                    if "<returned>" in al and kind == "returns":
                        continue
                    if kind == "returns" and any(a.startswith("<escaped>") for a in al):
                        self.note(site, "skip", "handed to another object")
                        continue
                    self.note(site, "bad", "is not closed when the function " + ("raises after opening it" if kind == "fails" else "returns"))
        for site in self.A.sites:
            if site[0] == fn.name and site not in self.A.out:
                self.A.out[site] = ("ok", "closed on every path")
        return out

    def note(self, site, verdict, msg):
        if verdict == "bad" and self.lossy:
            verdict, msg = "skip", "too many paths"
        old = self.A.out.get(site)
        if old is None or old[0] != "bad":
            self.A.out[site] = (verdict, msg)

    def attr_owner(self, site, attr, d):
        """A handle kept in an attribute has to be closed by __exit__ or close() of the class."""
        cls = self.fn.owner
        ms = self.A.classes.get(id(cls), {}) if cls is not None else {}
        base = attr.rstrip("[]")
        ok = False
        for n in ("__exit__", "close", "__del__"):
            f = ms.get(n)
            if f is None:
                continue
            facts = frozenset(x for x in d[1] if "self." in x[0])
            fl = Flow(self.A, f)
            saved = dict(self.A.out)
            o = fl.run({(frozenset([(site, frozenset([attr]))]), facts)}, only=True)
            self.A.out = saved
            left = [k for k, states in (("returns", o.norm | o.ret), ("fails", o.exc)) for dd in states if any(s == site for s, _ in dd[0])]
            if not left:
                ok = True
                break
            if fl.lossy:
                self.note(site, "skip", f"{n} has too many paths")
                return
            if n == "__exit__":
                self.note(site, "bad", f"kept in {base} is not closed when __exit__ {left[0]}")
                return
        if ok:
            self.A.out.setdefault(site, ("ok", f"kept in {base}, closed by {n}"))
        else:
            self.note(site, "bad", f"kept in {base} is never closed")

    # ------------------------------------------------------------- statements
    def cap(self, s):
        if len(s) > MAXDIS:
            s2 = {(d[0], frozenset()) for d in s}
            if len(s2) != len(s):
                self.lossy = True
            s = s2
        return s

    def block(self, body, cur):
        out = Out()
        for s in body:
            if not cur:
                break
            o = self.stmt(s, cur)
            out.exc |= o.exc
            out.ret |= o.ret
            out.brk |= o.brk
            out.cont |= o.cont
            cur = self.cap(o.norm)
        out.norm = cur
        return out

    def stmt(self, s, cur):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, cur)
        out = Out()
        if not quiet(s):
            out.exc |= cur
        out.norm = self.effects(s, cur)
        return out

    # creation of handles inside an expression that is not a recognised owner
    def site(self, call):
        fn = self.fn
        r = ast.unparse(call.func)
        k = sum(1 for x in self.A.sites if x[0] == fn.name and x[2] == r and self.A.sites[x] is not call)
        for x, c in self.A.sites.items():
            if c is call:
                return x
        key = (fn.name, "open", r, k)
        self.A.sites[key] = call
        return key

    def effects(self, node, cur, skip=()):
        """Handles opened and closed by the expressions of a statement."""
        for e in walk_own(node):
            if isinstance(e, ast.Yield) and e.value is not None:
                self.on_yield(e.value, cur)
            if isinstance(e, ast.Call) and e not in skip:
                if self.A.creates(self.fn, e):
                    site = self.site(e)
                    p = getattr(e, "_parent", None)
                    if isinstance(p, ast.Call) and e in p.args and isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push"):
                        self.A.out.setdefault(site, ("ok", "closed by the exit stack"))
                        continue
                    if isinstance(p, ast.Call) and (isinstance(p.func, ast.Name) and p.func.id in OWNERS or isinstance(p.func, ast.Attribute) and p.func.attr in OWNERS):
                        continue  # handled with the owner
                    self.note(site, "bad", "is opened inside an expression and never closed")
                cur = self.call(e, cur)
        return cur

    def call(self, e, cur):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in CLOSERS:
            p = path_of(f.value)
            if p:
                cur = {self.closed(d, p) for d in cur}
        c = self.A.callee(self.fn, e)
        if c is not None and c.owner is not None and c.owner is self.fn.owner and self.depth < 3:
            cur = {self.inlined(c, d) for d in cur}
        if c is not None and c.closes:
            off = 1 if c.cls is not None and isinstance(f, ast.Attribute) else 0
            for i, a in enumerate(e.args):
                if i + off in c.closes and path_of(a):
                    cur = {self.closed(d, path_of(a)) for d in cur}
            for k in e.keywords:
                if k.arg in c.params and c.params.index(k.arg) in c.closes and path_of(k.value):
                    cur = {self.closed(d, path_of(k.value)) for d in cur}
        if isinstance(f, ast.Attribute) and f.attr in ("append", "add", "enter_context", "push", "callback", "setdefault", "extend", "update"):
            for a in e.args:
                p = path_of(a)
                b = path_of(f.value)
                if p:
                    if f.attr in ("enter_context", "push"):
                        cur = {self.closed(d, p) for d in cur}
                    elif f.attr == "callback" and isinstance(a, ast.Attribute) and a.attr == "close":
                        cur = {self.closed(d, path_of(a.value)) for d in cur}
                    elif b:
                        cur = {self.alias(d, p, b + "[]" if b.startswith("self.") else "<escaped>" + b) for d in cur}
        return cur

    def closed(self, d, p):
        self.on_close(d, p)
        return (frozenset((s, al) for s, al in d[0] if p not in al), d[1])

    def inlined(self, c, d, exc=False):
        """Handles kept in attributes may be closed by another method of the object."""
        mine = [(site, al) for site, al in d[0] if any(a.startswith("self.") for a in al)]
        if not mine:
            return d
        fl = type(self)(self.A, c)
        fl.depth = self.depth + 1
        saved = dict(self.A.out)
        o = fl.run({(frozenset((site, frozenset(a for a in al if a.startswith("self."))) for site, al in mine), frozenset(x for x in d[1] if "self." in x[0]))}, only=True)
        self.A.out = saved
        left = {site for dd in (o.exc if exc else o.norm | o.ret) for site, _ in dd[0]}
        if fl.lossy:
            self.lossy = True
        return (frozenset((site, al) for site, al in d[0] if site in left or (site, al) not in mine), d[1])

    def on_close(self, d, p):
        pass

    def on_yield(self, v, cur):
        pass

    def alias(self, d, p, q):
        return (frozenset((s, al | {q} if p in al else al) for s, al in d[0]), d[1])

    def rebind(self, d, name):
        facts = frozenset(x for x in d[1] if not mentions(x[0], name))
        return (frozenset((s, frozenset(a for a in al if a != name and not a.startswith(name + ".") and not a.startswith(name + "["))) for s, al in d[0]), facts)

    def add(self, d, site, path):
        return (frozenset(x for x in d[0] if x[0] != site) | {(site, frozenset([path]))}, d[1])

    def s_Assign(self, s, cur):
        return self.assign(s, s.targets, s.value, cur)

    def s_AnnAssign(self, s, cur):
        return self.assign(s, [s.target], s.value, cur) if s.value is not None else self.plain(cur)

    def plain(self, cur):
        o = Out()
        o.norm = cur
        return o

    def assign(self, s, targets, value, cur):
        if isinstance(value, ast.IfExp):
            cur0, cur = cur, self.effects(value.test, cur)
            yes, no = self.branch(value.test, cur)
            a, b = self.assign(s, targets, value.body, yes), self.assign(s, targets, value.orelse, no)
            a.norm |= b.norm
            a.exc |= b.exc | cur0
            return a
        out = Out()
        if not quiet(s):
            out.exc |= cur
        v = value
        opened = self.opened_in(v)
        cur = self.effects(v, cur, skip=[c for c, _ in opened])
        src = path_of(v)
        if isinstance(v, ast.IfExp):
            src = None
        new = set()
        for d in cur:
            first = d
            names = []
            for t in targets:
                for x in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    p = path_of(x)
                    if p and not isinstance(x, (ast.Tuple, ast.List)):
                        names.append((x, p))
            d2 = first
            keep = handle_of(first, src) if src else None
            for x, p in names:
                if isinstance(x, ast.Name) or not p.endswith("[]"):
                    d2 = self.rebind(d2, p) if p != src else d2
            if opened:
                for c, may in opened:
                    site = self.site(c)
                    if isinstance(v, (ast.Tuple, ast.List)) and isinstance(targets[0], (ast.Tuple, ast.List)) and len(v.elts) == len(targets[0].elts) and c in v.elts:
                        tp = path_of(targets[0].elts[v.elts.index(c)])
                    elif len(names) >= 1 and (v is c or isinstance(v, (ast.IfExp, ast.BoolOp)) or is_owner(v)):
                        tp = names[0][1]
                    else:
                        tp = None
                    if tp is None:
                        self.note(site, "skip", "kept in a structure")
                        continue
                    d3 = self.add(d2, site, tp)
                    for _, p in names[1:] if not isinstance(v, (ast.Tuple, ast.List)) else ():
                        d3 = self.alias(d3, tp, p)
                    if may:
                        new.add(d2)
                    d2 = d3
            elif keep is not None:
                d2 = (frozenset((st, al | {p for _, p in names} if st == keep[0] else al) for st, al in d2[0]), d2[1])
            new.add(d2)
        out.norm = new
        return out

    def opened_in(self, v):
        """[(creating call, conditional)] whose handle becomes the value of an expression."""
        if isinstance(v, ast.Call):
            if self.A.creates(self.fn, v):
                return [(v, False)]
            if is_owner(v) and v.args:
                return self.opened_in(v.args[0])
        if isinstance(v, ast.IfExp):
            a, b = self.opened_in(v.body), self.opened_in(v.orelse)
            return [(c, True) for c, _ in a + b]
        if isinstance(v, ast.BoolOp):
            return [(c, True) for x in v.values for c, _ in self.opened_in(x)]
        if isinstance(v, (ast.Tuple, ast.List)):
            return [x for e in v.elts for x in self.opened_in(e)]
        if isinstance(v, ast.NamedExpr):
            return []
        return []

    def s_Return(self, s, cur):
        out = Out()
        v = s.value
        if not quiet(s):
            out.exc |= cur
        if v is not None:
            opened = self.opened_in(v)
            cur = self.effects(v, cur, skip=[c for c, _ in opened])
            if opened and isinstance(self.fn, Fn):
                self.fn.returns_handle = True
                for c, _ in opened:
                    self.A.out.setdefault(self.site(c), ("ok", "returned to the caller"))
            p = path_of(v)
            parts = [path_of(x) for x in v.elts] if isinstance(v, (ast.Tuple, ast.List)) else [p]
            new = set()
            for d in cur:
                for q in parts:
                    h = handle_of(d, q) if q else None
                    if h and h[0][0] != "param" and isinstance(self.fn, Fn) and not any(a.startswith("self.") for a in h[1]):
                        if q == p:
                            self.fn.returns_handle = True
                        d = (frozenset((st, al | {"<returned>"} if st == h[0] else al) for st, al in d[0]), d[1])
                new.add(d)
            cur = new
        out.ret = cur
        return out

    def s_Raise(self, s, cur):
        out = Out()
        out.exc |= cur
        return out

    def s_Break(self, s, cur):
        o = Out()
        o.brk = cur
        return o

    def s_Continue(self, s, cur):
        o = Out()
        o.cont = cur
        return o

    def s_FunctionDef(self, s, cur):
        return self.plain(cur)

    s_ClassDef = s_AsyncFunctionDef = s_FunctionDef

    def s_Delete(self, s, cur):
        out = Out()
        for d in cur:
            for t in s.targets:
                p = path_of(t)
                if p and not p.endswith("[]"):
                    d = self.rebind(d, p)
            out.norm.add(d)
        return out

    def branch(self, test, cur):
        """(states where the test holds, states where it does not)"""
        yes, no = set(), set()
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or self.deref(t) is not t:
            if isinstance(t, ast.UnaryOp):
                neg, t = not neg, t.operand
            else:
                t = self.deref(t)
        known = None
        p = path_of(t)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and path_of(t.left):
            p = path_of(t.left)
            if isinstance(t.ops[0], ast.Is):
                neg = not neg
                known = "none"
            elif isinstance(t.ops[0], ast.IsNot):
                known = "none"
            else:
                p = None
        txt = (ast.unparse(t) if known is None else f"{p} is not None")
        stable = self.repeated(txt) and not any(isinstance(x, ast.Call) and not pure(x) for x in ast.walk(t))
        ident = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and path_of(t.left) and path_of(t.comparators[0]):
            ident = path_of(t.left), path_of(t.comparators[0]), isinstance(t.ops[0], ast.Is)
        for d in cur:
            h = handle_of(d, p) if p else None
            vals = {True, False}
            if ident:
                h1, h2 = handle_of(d, ident[0]), handle_of(d, ident[1])
                if (h1 or h2) is not None:
                    vals = {(h1 is not None and h2 is not None and h1[0] == h2[0]) == ident[2]}
            if h is not None and h[0][0] != "param":
                vals = {True}
            for k, b in d[1]:
                if k == txt and stable:
                    vals &= {b}
            for v in vals:
                f = d[1] | {(txt, v)} if stable else d[1]
                (yes if v != neg else no).add((d[0], f))
        return yes, no

    def deref(self, t):
        """The expression a temporary stands for: a name assigned once, from a comparison or negation."""
        if not isinstance(t, ast.Name) or t.id in self.fn.params:
            return t
        if not hasattr(self, "defs"):
            self.defs = {}
            for n in ast.walk(self.fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.defs.setdefault(n.id, []).append(None)
            for n in ast.walk(self.fn.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    self.defs[n.targets[0].id][0] = n.value
        d = self.defs.get(t.id, [])
        return d[0] if len(d) == 1 and isinstance(d[0], (ast.Compare, ast.UnaryOp, ast.BoolOp)) else t

    def repeated(self, txt):
        """Only conditions that are tested again (or on attributes, maybe in __exit__) can rule out paths."""
        if "self." in txt:
            return True
        if not hasattr(self, "texts"):
            self.texts = {}
            for n in ast.walk(self.fn.node):
                if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    for x in ast.walk(n.test):
                        if isinstance(x, ast.expr):
                            k = norm_test(self.deref(x))
                            self.texts[k] = self.texts.get(k, 0) + 1
        return self.texts.get(txt, 0) > 1

    def s_If(self, s, cur):
        out = Out()
        t = ast.Expr(s.test)
        if not quiet(ast.Return(s.test)) and not safe_test(s.test):
            out.exc |= cur
        cur = self.effects(s.test, cur)
        yes, no = self.branch(s.test, cur)
        a, b = self.block(s.body, yes), self.block(s.orelse, no)
        for x in (a, b):
            out.norm |= x.norm
            out.exc |= x.exc
            out.ret |= x.ret
            out.brk |= x.brk
            out.cont |= x.cont
        return out

    def loop(self, s, cur, test=None):
        out = Out()
        if test is not None or True:
            out.exc |= cur
        seen = set(cur)
        work = set(cur)
        done = set()
        for _ in range(12):
            if test is not None:
                work = self.effects(test, work)
            p = closes_all(s, self.A, self.fn)
            if p:
                work = {self.closed(d, p + "[]") for d in work}
                out.exc = {self.closed(d, p + "[]") for d in out.exc}
            if test is not None:
                yes, no = self.branch(test, work)
                if isinstance(test, ast.Constant) and test.value:
                    no = set()
            else:
                yes, no = work, work
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        yes = {self.rebind(d, x.id) for d in yes}
            done |= no
            b = self.block(s.body, yes)
            out.exc |= b.exc
            out.ret |= b.ret
            done |= b.brk
            nxt = self.cap(b.norm | b.cont)
            new = nxt - seen
            seen |= nxt
            if not new:
                break
            work = new
        else:
            self.lossy = True
        if test is None:
            e = self.block(s.orelse, done)
            out.norm = e.norm
        else:
            e = self.block(s.orelse, done)
            out.norm = e.norm
        out.exc |= e.exc
        out.ret |= e.ret
        out.brk |= e.brk
        out.cont |= e.cont
        return out

    def s_While(self, s, cur):
        return self.loop(s, cur, s.test)

    def s_For(self, s, cur):
        return self.loop(s, self.effects(s.iter, cur))

    s_AsyncFor = s_For

    def s_With(self, s, cur):
        return self.withs(s, list(s.items), cur)

    s_AsyncWith = s_With

    def withs(self, s, items, cur):
        if not items:
            return self.block(s.body, cur)
        out = Out()
        out.exc |= cur
        it = items[0]
        e = it.context_expr
        opened = self.opened_in(e)
        for c, _ in opened:
            self.A.out.setdefault(self.site(c), ("ok", "closed by the with statement"))
        cur = self.effects(e, cur, skip=[c for c, _ in opened])
        p = path_of(e)
        if isinstance(e, ast.Call) and is_owner(e) and e.args and path_of(e.args[0]):
            p = path_of(e.args[0])
        tgt = path_of(it.optional_vars) if it.optional_vars is not None else None
        inner = cur
        if p:
            inner = {self.closed(d, p) for d in cur}  # released on every way out
        if tgt:
            inner = {self.rebind(d, tgt) if tgt != p else d for d in inner}
            c = self.A.callee(self.fn, e) if isinstance(e, ast.Call) else None
            if c is not None and c.yields:
                for i, q in [(i, path_of(a)) for i, a in enumerate(e.args)] + [(c.params.index(k.arg), path_of(k.value)) for k in e.keywords if k.arg in c.params]:
                    if i in c.yields and q:
                        inner = {self.alias(d, q, tgt) for d in inner}
        o = self.withs(s, items[1:], inner)
        sup = isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "suppress"
        out.norm |= o.norm | (o.exc if sup else set())
        out.exc |= o.exc
        out.ret |= o.ret
        out.brk |= o.brk
        out.cont |= o.cont
        return out

    def s_Try(self, s, cur):
        b = self.block(s.body, cur)
        res = Out()
        catch_all = False
        hexc = set()
        for h in s.handlers:
            if h.type is None or ast.unparse(h.type) in ("Exception", "BaseException"):
                catch_all = True
            hexc |= b.exc
            o = self.block(h.body, b.exc) if b.exc else Out()
            res.norm |= o.norm
            res.exc |= o.exc
            res.ret |= o.ret
            res.brk |= o.brk
            res.cont |= o.cont
        if not catch_all:
            res.exc |= b.exc
        e = self.block(s.orelse, b.norm)
        res.norm |= e.norm
        res.exc |= e.exc
        res.ret |= b.ret | e.ret
        res.brk |= b.brk | e.brk
        res.cont |= b.cont | e.cont
        if not s.finalbody:
            return res
        fin = Out()
        for k in ("norm", "exc", "ret", "brk", "cont"):
            st = getattr(res, k)
            if not st:
                continue
            o = self.block(s.finalbody, st)
            getattr(fin, k).update(o.norm)
            fin.exc |= o.exc
            fin.ret |= o.ret
            fin.brk |= o.brk
            fin.cont |= o.cont
        return fin

    s_TryStar = s_Try

    def s_Expr(self, s, cur):
        out = Out()
        v = s.value
        closing = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "close"
        if not quiet(s):
            c = self.A.callee(self.fn, v) if isinstance(v, ast.Call) else None
            if closing and path_of(v.func.value):
                out.exc |= {self.closed(d, path_of(v.func.value)) for d in cur}
            elif c is not None and c.owner is not None and c.owner is self.fn.owner and self.depth < 3 and all(path_of(a) for a in v.args):
                out.exc |= {self.inlined(c, d, True) for d in cur}
            elif c is not None and c.closes and all(path_of(a) for a in v.args):
                out.exc |= self.effects(s, cur)
            else:
                out.exc |= cur
        out.norm = self.effects(s, cur)
        return out


class Params(Flow):
    """Which parameters does a function close, which ones does a context manager hand out?"""

    def on_close(self, d, p):
        for site, al in d[0]:
            if p in al and site[0] == "param":
                self.fn.closes.add(site[1])

    def on_yield(self, v, cur):
        p = path_of(v)
        if p and self.fn.cm:
            for d in cur:
                for site, al in d[0]:
                    if p in al and site[0] == "param":
                        self.fn.yields.add(site[1])


def closes_all(s, A, fn):
    """The container whose handles a loop closes one by one, or None."""
    if isinstance(s, ast.While):
        e = s.test
        if isinstance(e, ast.Compare):
            e = e.left
        if isinstance(e, ast.Call) and e.args:
            e = e.args[0]
        names = set()
    else:
        e = s.iter
        names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        while isinstance(e, (ast.Call, ast.Name)):
            if isinstance(e, ast.Name):
                # a temporary
                defs = [n.value for n in ast.walk(fn.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                if len(defs) != 1 or not isinstance(defs[0], (ast.Call, ast.Attribute)) or e.id in fn.params:
                    break
                e = defs[0]
            elif isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "items", "keys", "copy"):
                e = e.func.value
            elif isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "reversed", "sorted", "enumerate", "set") and e.args:
                e = e.args[0]
            else:
                return None
    p = path_of(e)
    if not p:
        return None
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Assign) and (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("pop", "popitem", "popleft") and path_of(n.value.func.value) == p
                                              or isinstance(n.value, ast.Subscript) and path_of(n.value.value) == p):
                names |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                return None
            if isinstance(n, ast.If) and not (path_of(n.test) in names or isinstance(n.test, ast.Compare) and path_of(n.test.left) in names and isinstance(n.test.ops[0], ast.IsNot)):
                return None

    def each(x):
        if path_of(x) in names or path_of(x) == p + "[]":
            return True
        return isinstance(x, ast.Subscript) and each(x.value) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "popitem", "popleft", "get") and path_of(x.func.value) == p

    for b in s.body:
        for n in walk_own(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and each(n.func.value):
                return p
            c = A.callee(fn, n) if isinstance(n, ast.Call) else None
            if c is not None and c.closes:
                off = 1 if c.cls is not None and isinstance(n.func, ast.Attribute) else 0
                if any(i + off in c.closes and each(a) for i, a in enumerate(n.args)) or any(k.arg in c.params and c.params.index(k.arg) in c.closes and each(k.value) for k in n.keywords):
                    return p
    return None


def norm_test(t):
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and path_of(t.left) and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
        return f"{path_of(t.left)} is not None"
    return ast.unparse(t)


def is_owner(e):
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in OWNERS or isinstance(e.func, ast.Attribute) and e.func.attr in OWNERS)


def mentions(txt, name):
    try:
        t = ast.parse(txt, mode="eval")
    except SyntaxError:
        return True
    for x in ast.walk(t):
        p = path_of(x)
        if p and (p == name or p.startswith(name + ".") or p.startswith(name + "[")):
            return True
    return False


def pure(c):
    f = c.func
    return isinstance(f, ast.Name) and f.id in ("isinstance", "hasattr", "len", "is_buffer", "callable", "bool", "str") or isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith", "exists", "lower", "upper", "keys")


def safe_test(t):
    """Comparisons of names, attributes and constants do not raise."""
    if isinstance(t, ast.UnaryOp):
        return safe_test(t.operand)
    if isinstance(t, ast.BoolOp):
        return all(safe_test(v) for v in t.values)
    if isinstance(t, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in t.ops) and all(safe_test(x) for x in [t.left] + t.comparators)
    if isinstance(t, (ast.List, ast.Tuple, ast.Set)):
        return all(safe_test(x) for x in t.elts)
    return isinstance(t, (ast.Name, ast.Constant)) or isinstance(t, ast.Attribute) and safe_test(t.value)


def walk_own(node):
    """Nodes of a statement or expression in evaluation order, without nested functions."""
    for ch in ast.iter_child_nodes(node):
        if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            yield from walk_own(ch)
    yield node
