"""Which functions change state that outlives a call: module-level objects, default arguments, class-wide containers, caches, process-wide settings.

Flow-sensitive alias analysis per function with summaries. A value is a set of (root, level, depth): `root` is the shared object it comes from, `level` how many levels of mutable objects are below,
`depth` how many element accesses away the shared object is (0: the value is the shared object itself).
"""
import ast

from .handles import Analysis
from .values import Const, Ref, Unk, HDict, HList

BIG = 9
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "fill", "resize", "put", "itemset", "setflags", "partition", "byteswap!",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "rotate", "move_to_end", "subtract", "__setitem__", "__delitem__"}
ADDERS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft", "push"}
ELEM = {"get", "pop", "popleft", "setdefault", "popitem", "__getitem__"}
VIEWS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "T", "flat", "real", "imag", "values", "items", "keys", "newbyteorder"}
SHALLOW = {"list", "dict", "set", "tuple", "sorted", "frozenset", "OrderedDict", "Counter", "deque"}
SAME = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ascontiguousarray", "asfortranarray", "ravel", "reshape", "squeeze", "transpose", "reversed", "iter", "memoryview", "MappingProxyType"}
SETTINGS = {("os", "chdir"), ("os", "fchdir"), ("os", "putenv"), ("os", "unsetenv"), ("os", "umask"), ("os", "setuid"), ("numpy", "seterr"), ("numpy", "set_printoptions"), ("numpy.random", "seed"), ("random", "seed"),
            ("locale", "setlocale"), ("warnings", "simplefilter"), ("warnings", "filterwarnings"), ("sys", "setrecursionlimit"), ("sys", "settrace"), ("signal", "signal"), ("gc", "disable"), ("socket", "setdefaulttimeout"),
            ("decimal", "setcontext"), ("tempfile", "tempdir"), ("numpy", "setbufsize"), ("faulthandler", "enable"), ("threading", "setprofile"), ("csv", "field_size_limit")}
IO_NAMES = {"open", "open_file", "fromfile", "loadtxt", "genfromtxt", "read", "readline", "readlines", "File", "Dataset", "parse", "iterparse", "stat", "exists", "getsize", "getmtime", "listdir", "iterdir", "glob", "is_file", "time",
            "now", "today", "random", "rand", "getcwd", "cwd", "resolve", "absolute"}
MUTABLE_CALLS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "array", "zeros", "ones", "empty", "arange", "full"}


class Fun:
    def __init__(self, f):
        self.f = f
        self.mutates = {}  # (parameter index, number of element accesses) -> description
        self.returns = set()
        self.stores = set()  # parameter indices kept in self


class Shared:
    def __init__(self, prog, interp):
        self.prog, self.I = prog, interp
        self.H = Analysis(prog)
        self.sum = {k: Fun(f) for k, f in self.H.fns.items()}
        self.level_cache = {}
        self.events = {}
        self.cls_by_name = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.cls_by_name[(m.name, n.name)] = n
        self.io_cache = {}
        self.sites = 0
        self.vis = {}
        self.attr_roots = {}

    # ----------------------------------------------------------- facts about globals
    def global_of(self, m, name, seen=()):
        """(module, name) of the module-level object a name refers to, or None"""
        imp = self.H.imports[m].get(name)
        env = self.I.module_env(m)
        if env is not None and name in env and not (imp and imp[0] == "from" and imp[1] in self.prog.modules):
            if imp:
                return None
            return (m, name)
        if imp and imp[0] == "from" and imp[1] in self.prog.modules and (imp[1], imp[2]) not in seen:
            if imp[1] + "." + imp[2] in self.prog.modules and not (self.I.module_env(imp[1]) or {}).get(imp[2]):
                return None
            return self.global_of(imp[1], imp[2], seen + ((imp[1], imp[2]),)) or None
        return None

    def level(self, g):
        if g not in self.level_cache:
            env = self.I.module_env(g[0])
            self.level_cache[g] = self.depth_of(env.get(g[1]), 0) if env is not None else 0
        return self.level_cache[g]

    def depth_of(self, v, d):
        if d > 5:
            return BIG
        if isinstance(v, Ref):
            o = self.I.base.get(v.addr)
            if isinstance(o, HDict):
                if o.has_unknown() or not o.entries:
                    return BIG
                return 1 + max([self.depth_of(x, d + 1) for _, x in o.entries], default=0)
            if isinstance(o, HList):
                if o.items is None or not o.items:
                    return BIG if o.typ != "tuple" else 1
                sub = max([self.depth_of(x, d + 1) for x in o.items], default=0)
                if o.typ in ("tuple", "frozenset"):
                    return 1 + sub if sub else 0
                return 1 + sub
            return BIG
        if isinstance(v, Const):
            return 0
        if isinstance(v, Unk):
            if v.kind == "ndarray":
                return 2
            if v.kind in ("str", "int", "float", "bool", "bytes", "num", "none"):
                return 0
            return BIG
        return 0  # functions, classes, modules

    def visible_classes(self, m):
        if m not in self.vis:
            self.vis[m] = [k for k in self.cls_by_name if k[0] == m] + [(i[1], i[2]) for i in self.H.imports[m].values() if i[0] == "from" and (i[1], i[2]) in self.cls_by_name]
        return self.vis[m]

    # ----------------------------------------------------------- I/O
    def does_io(self, f, depth=0):
        k = id(f.node)
        if k in self.io_cache:
            return self.io_cache[k]
        self.io_cache[k] = False
        res = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                if nm in IO_NAMES:
                    res = True
                c = self.H.callee(f, n)
                if c is not None and depth < 8 and self.does_io(c, depth + 1):
                    res = True
        self.io_cache[k] = res
        return res

    # ----------------------------------------------------------- run
    def run(self):
        for _ in range(6):
            before = repr([(sorted(s.mutates), sorted(map(str, s.returns)), sorted(s.stores)) for s in self.sum.values()])
            self.events, self.sites = {}, 0
            for s in self.sum.values():
                Walk(self, s).run()
            if repr([(sorted(s.mutates), sorted(map(str, s.returns)), sorted(s.stores)) for s in self.sum.values()]) == before:
                break
        return self.events

    def event(self, fn, node, root, what):
        key = (fn.name, what.split(" ")[0], root_name(root))
        self.events.setdefault(key, (what, ast.unparse(node).split("\n")[0][:100]))


def root_name(r):
    return ".".join(str(x) for x in r[1:])


def down(vals, array_idx=None):
    """Element of a value."""
    out = set()
    for r, lv, d in vals:
        if d > 0:
            out.add((r, lv, d - 1))
        elif r[0] == "param":
            out.add((r, max(lv - 1, 1), 0))
        elif lv - 1 > 0:
            out.add((r, lv - 1 if lv < BIG else BIG, 0))
    return out


def downs(vals, k):
    """Element after k accesses."""
    for _ in range(k):
        vals = down(vals)
    return vals


def up(vals):
    return {(r, lv, d + 1) for r, lv, d in vals if d < 4}


def shallow(vals):
    """A new container with the same elements."""
    return up(down(vals))


class Walk:
    def __init__(self, S, s):
        self.S, self.s, self.fn = S, s, s.f
        self.node = s.f.node
        a = self.node.args
        self.locals = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        self.globals = set()
        self.rebound = set()
        for n in own_nodes(self.node):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
        self.locals -= self.globals

    def run(self):
        env = {}
        a = self.node.args
        pos = a.posonlyargs + a.args
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for i, (p, d) in enumerate(zip(pos, defaults)):
            env[p.arg] = {(("param", i), BIG, 0)}
            if d is not None:
                env[p.arg] |= self.default_root(p.arg, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            env[p.arg] = {(("param", "k:" + p.arg), BIG, 0)} | (self.default_root(p.arg, d) if d is not None else set())
        if self.fn.cls is not None and pos and not any("staticmethod" in ast.unparse(d) for d in self.node.decorator_list):
            env[pos[0].arg] = set()
        self.block(self.node.body, env)

    def default_root(self, name, d):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(d, ast.Call) and call_name(d) in MUTABLE_CALLS:
            return {(("default", self.fn.name, name), BIG, 0)}
        if isinstance(d, ast.Name):
            g = self.S.global_of(self.fn.mod.name, d.id)
            if g and self.S.level(g):
                return {(("global",) + g, self.S.level(g), 0)}
        return set()

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, set()) | b.get(k, set()) for k in set(a) | set(b)}

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # nested functions see the enclosing names
            return env
        if isinstance(s, ast.ClassDef):
            return env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                env = self.store(t, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            return self.store(s.target, self.ev(s.value, env), env, s) if s.value is not None else env
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.ev(ast.Name(t.id, ast.Load()), env)
                self.mutation(s, cur, "changes", env)
                if t.id in self.globals:
                    self.glob_assign(s, t.id, s.value)
                env = dict(env)
                env[t.id] = cur | shallow(v)
            else:
                self.store(t, v, env, s)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutation(s, self.ev(t.value, env), "deletes from", env)
            return env
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else set()
            self.s.returns |= {x for x in v if x[0][0] != "param" or isinstance(x[0][1], int)}
            for r, lv, d in v:
                if r[0] == "default":
                    self.S.event(self.fn, s, r, "hands out its default value of")
            return None
        if isinstance(s, (ast.Raise,)):
            self.ev(s.exc, env)
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return self.after_add(s.value, env)
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.iter(s.iter, env)
            cur = dict(env)
            for _ in range(2):
                e2 = self.store(s.target, it, dict(cur), s)
                out = self.block(s.body, e2)
                cur = self.join(cur, out)
            return self.block(s.orelse, cur)
        if isinstance(s, ast.While):
            cur = dict(env)
            for _ in range(2):
                self.ev(s.test, cur)
                cur = self.join(cur, self.block(s.body, dict(cur)))
            return self.block(s.orelse, cur)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.store(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            b = self.block(s.body, dict(env))
            mid = self.join(env, b)
            out = self.block(s.orelse, b) if b is not None else None
            for h in s.handlers:
                out = self.join(out, self.block(h.body, dict(mid)))
            if s.finalbody:
                f = self.block(s.finalbody, out if out is not None else dict(mid))
                return f if out is not None else None
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            return env
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
        return env

    def after_add(self, e, env):
        """x.append(y): x now holds y"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ADDERS and isinstance(e.func.value, ast.Name) and e.func.value.id in self.locals:
            v = set()
            for a in e.args:
                x = self.ev(a, env)
                v |= x if e.func.attr in ("extend", "update") else up(x)
            if v:
                env = dict(env)
                env[e.func.value.id] = env.get(e.func.value.id, set()) | v
        return env

    def store(self, t, v, env, s):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.glob_assign(s, t.id, getattr(s, "value", None))
                return env
            env = dict(env)
            env[t.id] = v
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            val = getattr(s, "value", None)
            if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + val.elts):
                vs = [self.ev(x, env) for x in val.elts]
            else:
                vs = [down(v)] * len(t.elts)
            for x, y in zip(t.elts, vs):
                env = self.store(x, y, env, ast.Pass())
            return env
        if isinstance(t, ast.Starred):
            return self.store(t.value, up(v), env, s)
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            if not self.memo(t, getattr(s, "value", None), s):
                self.mutation(s, base, "stores into", env)
            b = t.value
            if isinstance(b, ast.Name) and b.id in self.locals and v:
                env = dict(env)
                env[b.id] = env.get(b.id, set()) | up(v)
            return env
        if isinstance(t, ast.Attribute):
            self.S.sites += 1
            b = t.value
            if isinstance(b, ast.Name):
                if b.id == "self" and self.fn.cls is not None:
                    for r, lv, d in v:
                        if r[0] not in ("param", "default"):
                            self.S.attr_roots.setdefault((id(self.fn.cls), t.attr), set()).add((r, lv, d))
                        if r[0] == "default":
                            self.S.event(self.fn, s, r, "keeps its default value of")
                        if r[0] == "param" and isinstance(r[1], int):
                            self.s.stores.add(r[1])
                        if r[0] in ("global", "cache") and self.node.name == "__init__" and self.fn.cls.name in ("Mesh", "CellBlock"):
                            self.S.event(self.fn, s, r, "keeps the shared object")
                    return env
                if b.id == "cls" and self.fn.cls is not None and any("classmethod" in ast.unparse(d) for d in self.node.decorator_list):
                    self.S.event(self.fn, s, ("class", self.fn.cls.name, t.attr), "assigns the class attribute")
                    return env
                if b.id not in self.locals:
                    imp = self.S.H.imports[self.fn.mod.name].get(b.id)
                    if (self.fn.mod.name, b.id) in self.S.cls_by_name or imp and imp[0] == "from" and (imp[1], imp[2]) in self.S.cls_by_name:
                        self.S.event(self.fn, s, ("class", b.id, t.attr), "assigns the class attribute")
                        return env
                    if imp:
                        self.S.event(self.fn, s, ("module", b.id, t.attr), "assigns the module attribute")
                        return env
            if isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Call) and call_name(b) == "type":
                self.S.event(self.fn, s, ("class", ast.unparse(b), t.attr), "assigns the class attribute")
                return env
            base = self.ev(b, env)
            self.mutation(s, base, "assigns an attribute of", env)
            for r, lv, d in v:
                if r[0] == "default":
                    self.S.event(self.fn, s, r, "keeps its default value of")
            return env
        return env

    def deps(self, e, seen=None):
        """Parameters an expression depends on (through local assignments)."""
        seen = set() if seen is None else seen
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in self.locals and n.id not in seen:
                seen.add(n.id)
                out.add(n.id)
                for s in own_nodes(self.node):
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.id for t in s.targets for x in ast.walk(t)):
                        out |= self.deps(s.value, seen)
                    elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(s.target)):
                        out |= self.deps(s.iter, seen)
        return out

    def pure(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if call_name(n) in IO_NAMES:
                    return False
                c = self.S.H.callee(self.fn, n)
                if c is not None and self.S.does_io(c):
                    return False
        return True

    def params(self):
        a = self.node.args
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    def memo(self, t, value, s):
        """cache[key] = f(key) with a pure f: later calls cannot tell."""
        if value is None or not isinstance(s, ast.Assign) or not isinstance(t.value, ast.Name) or t.value.id in self.locals:
            return False
        if not self.pure(value) or not all(self.pure(x) for x in self.sources(value)):
            return False
        return self.deps(value) & self.params() <= self.deps(t.slice) & self.params() and bool(self.deps(t.slice))

    def sources(self, e):
        names = self.deps(e)
        return [s.value for s in own_nodes(self.node) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names for t in s.targets for x in ast.walk(t))]

    def glob_assign(self, s, name, value):
        if value is not None and isinstance(s, ast.Assign) and not self.deps(value) & self.params() and self.pure(value) and all(self.pure(x) for x in self.sources(value)) and not any(
                isinstance(n, ast.Name) and n.id == name for n in ast.walk(value)):
            return  # computed from nothing that differs between calls
        self.S.event(self.fn, s, ("global", self.fn.mod.name, name), "assigns the module-level name")

    def mutation(self, node, vals, what, env):
        self.S.sites += 1
        for r, lv, d in vals:
            if d != 0:
                continue
            if r[0] == "param":
                if isinstance(r[1], int):
                    self.s.mutates.setdefault((r[1], BIG - lv), what)
            else:
                self.S.event(self.fn, node, r, what)

    # ------------------------------------------------------------------ expressions
    def name(self, id, env):
        if id in env:
            return env[id]
        if id in self.locals:
            return set()
        # enclosing function's names
        p = getattr(self.node, "_parent", None)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(n, ast.Name) and n.id == id and isinstance(n.ctx, ast.Store) or isinstance(n, ast.arg) and n.arg == id for n in ast.walk(p)):
                return set()
            p = getattr(p, "_parent", None)
        g = self.S.global_of(self.fn.mod.name, id)
        if g is None:
            return set()
        lv = self.S.level(g)
        return {(("global",) + g, lv, 0)} if lv else set()

    def class_attr(self, cls, attr):
        """Mutable object in the class body, shared by all instances, unless __init__ gives each instance its own."""
        for n in cls.body:
            tg = [x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)] if isinstance(n, ast.Assign) else [n.target.id] if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name) else []
            if attr in tg:
                v = n.value
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(v, ast.Call) and call_name(v) in MUTABLE_CALLS:
                    for f in cls.body:
                        if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                            for x in f.body:
                                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == attr:
                                            return None
                    return ("class", cls.name, attr)
        return None

    def iter(self, e, env):
        """Elements of an iterable."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("zip", "product"):
            out = set()
            for a in e.args:
                out |= up(self.iter(a, env))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate":
            return up(self.iter(e.args[0], env)) if e.args else set()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "items" and not e.args:
            return up(down(self.ev(e.func.value, env)))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "keys":
            return set()
        return down(self.ev(e, env))

    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return set()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch, env)
        return set()

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        b = e.value
        if isinstance(b, ast.Name) and b.id not in env.keys() - {"self", "cls"}:
            if b.id in ("self", "cls") and self.fn.cls is not None:
                r = self.class_attr(self.fn.cls, e.attr)
                return ({(r, BIG, 0)} if r else set()) | self.S.attr_roots.get((id(self.fn.cls), e.attr), set())
            imp = self.S.H.imports[self.fn.mod.name].get(b.id)
            full = imp and (imp[1] if imp[0] == "mod" else imp[1] + "." + imp[2])
            if full in self.S.prog.modules:
                g = self.S.global_of(full, e.attr)
                if g and self.S.level(g):
                    return {(("global",) + g, self.S.level(g), 0)}
                return set()
            c = self.S.cls_by_name.get((self.fn.mod.name, b.id)) or (imp and imp[0] == "from" and self.S.cls_by_name.get((imp[1], imp[2])))
            if c:
                r = self.class_attr(c, e.attr)
                return {(r, BIG, 0)} if r else set()
            if imp and full == "os" and e.attr == "environ":
                return {(("process", "os.environ"), BIG, 0)}
            if imp and full == "sys" and e.attr in ("path", "modules", "argv", "meta_path"):
                return {(("process", "sys." + e.attr), BIG, 0)}
        v = self.ev(b, env)
        for cm, cn in self.S.visible_classes(self.fn.mod.name):
            r = self.class_attr(self.S.cls_by_name[(cm, cn)], e.attr)
            if r:
                v = v | {(r, BIG, 0)}
        return {(r, lv, d - 1 if d else 0) for r, lv, d in v} | {x for x in v if x[2] == 0}

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            # a list slice is a copy, an array slice a view
            return {x for x in v if x[0][0] == "param"} | shallow({x for x in v if x[0][0] != "param"})
        return down(v)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        out = set()
        for x in e.values:
            out |= self.ev(x, env)
        return out

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return shallow(a | b) if isinstance(e.op, (ast.Add, ast.BitOr)) else set()

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        return down(self.ev(e.value, env))

    def e_List(self, e, env):
        out = set()
        for x in e.elts:
            out |= up(self.ev(x, env))
        return out

    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env):
        out = set()
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            out |= up(v) if k is not None else shallow(v)
        return out

    def comp(self, e, elts, env):
        env = dict(env)
        for g in e.generators:
            env = self.store(g.target, self.iter(g.iter, env), env, ast.Pass())
            for c in g.ifs:
                self.ev(c, env)
        out = set()
        for x in elts:
            out |= up(self.ev(x, env))
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, [e.elt], env)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        self.comp(e, [e.key], env)
        return self.comp(e, [e.value], env)

    def e_Lambda(self, e, env):
        return set()

    def e_Yield(self, e, env):
        return self.ev(e.value, env) and set()

    def e_Call(self, e, env):
        f = e.func
        nm = call_name(e)
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        for k in e.keywords:
            if k.arg == "out":
                self.mutation(e, kws["out"], "stores into", env)
        r = self.S.H.resolve(self.fn.mod, f)
        full = r
        if r[0] == "?" and isinstance(f, ast.Attribute):
            full = (ast.unparse(f.value).replace("np.", "numpy."), f.attr)
        if full[0] == "np":
            full = ("numpy", full[1])
        if full in SETTINGS and not self.restored(e):
            self.S.event(self.fn, e, ("process", ".".join(full)), "changes the process-wide setting")
        recv = self.ev(f.value, env) if isinstance(f, ast.Attribute) else set()
        if nm in ("put", "copyto", "place", "putmask", "fill_diagonal", "shuffle", "heappush", "heappop", "heapify", "insort") and args and r[0] != "?":
            self.mutation(e, args[0], "stores into", env)
        if nm == "at" and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and args:
            self.mutation(e, args[0], "stores into", env)
        if nm == "next" and args and isinstance(f, ast.Name):
            self.mutation(e, {x for x in args[0] if x[0][0] != "param"}, "advances", env)
            return down(args[0])
        if nm in ("setattr", "delattr") and args and isinstance(f, ast.Name):
            self.mutation(e, args[0], "assigns an attribute of", env)
        c = self.S.H.callee(self.fn, e)
        if isinstance(f, ast.Attribute) and c is None:
            if nm in MUTATORS and not (nm == "update" and not recv):
                if not (nm == "setdefault" and isinstance(f.value, ast.Name) and len(e.args) == 2 and self.memo(ast.Subscript(f.value, e.args[0]), e.args[1], ast.Assign([], e.args[1]))):
                    self.mutation(e, recv, "calls " + nm + "() on", env)
            if nm in ELEM:
                return down(recv) | (args[1] if len(args) > 1 else set())
            if nm == "copy":
                if r == ("copy", "copy"):
                    return shallow(args[0]) if args else set()
                return shallow(recv)
            if nm == "deepcopy":
                return set()
            if nm in VIEWS:
                return recv
            if nm == "astype" and "copy" in kws:
                return recv
            if nm in SAME and args:
                return args[0]
            if nm in SHALLOW and args:
                return shallow(args[0])
        if isinstance(f, ast.Name) and c is None:
            if nm in SHALLOW and args:
                return shallow(args[0])
            if nm in SAME and args:
                return args[0]
            if nm in ("zip", "enumerate", "map", "filter"):
                return up(self.iter(e, env)) if nm in ("zip", "enumerate") else set()
        cls = None
        if c is None:
            t = r if r in self.S.cls_by_name else None
            if t is None and isinstance(f, ast.Name):
                imp = self.S.H.imports[self.fn.mod.name].get(f.id)
                t = (imp[1], imp[2]) if imp and imp[0] == "from" and (imp[1], imp[2]) in self.S.cls_by_name else (self.fn.mod.name, f.id) if (self.fn.mod.name, f.id) in self.S.cls_by_name else None
            if t is None and nm in ("Mesh", "CellBlock"):
                t = next((k for k in self.S.cls_by_name if k[1] == nm), None)
            if t is not None:
                cls = self.S.cls_by_name[t]
                c = self.S.H.classes.get(id(cls), {}).get("__init__")
        if c is None:
            return set()
        sm = self.S.sum.get(id(c.node))
        off = 1 if c.cls is not None and (cls is not None or isinstance(f, ast.Attribute)) else 0
        by = {i + off: v for i, v in enumerate(args)}
        for k, v in kws.items():
            if k in c.params:
                by[c.params.index(k)] = v
        for (i, k), what in sm.mutates.items():
            if i in by:
                self.mutation(e, downs(by[i], k), what, env)
        if cls is not None:
            out = set()
            for i in sm.stores:
                out |= up(by.get(i, set()))
                for rr, lv, d in by.get(i, set()):
                    if rr[0] == "default":
                        self.S.event(self.fn, e, rr, "keeps its default value of")
                    if rr[0] in ("global", "cache", "class") and cls.name in ("Mesh", "CellBlock"):
                        self.S.event(self.fn, e, rr, "hands to a mesh the shared object")
            return out
        out = set()
        cached = any("cache" in ast.unparse(d) for d in c.node.decorator_list)
        if cached:
            return {(("cache", c.name), BIG, 0)}
        for rr, lv, d in sm.returns:
            if rr[0] == "param":
                for r2, lv2, d2 in downs(by.get(rr[1], set()), BIG - lv):
                    out.add((r2, lv2, min(d + d2, 4)))
            else:
                out.add((rr, lv, d))
        return out

    def restored(self, e):
        """The setting is put back in a finally block, or inside catch_warnings."""
        nm = call_name(e)
        p = e
        while p is not None and p is not self.node:
            q = getattr(p, "_parent", None)
            if isinstance(q, ast.With) and any("catch_warnings" in ast.unparse(i) or "printoptions" in ast.unparse(i) or "errstate" in ast.unparse(i) for i in q.items):
                return True
            p = q
        for n in own_nodes(self.node):
            if isinstance(n, ast.Try) and any(isinstance(x, ast.Call) and call_name(x) == nm for b in n.finalbody for x in ast.walk(b)):
                return True
        return False


def call_name(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
