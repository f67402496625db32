"""Structured grids: polynomial evaluation of the code that turns grid dimensions into points and cells.

Numbers are polynomials over the cells per axis (n0, n1, n2), the indices of the current row (i0 < n0, ...; for points j0 <= n0, ...),
origins and spacings.  An array is the function "row index -> value"; `//` and `%` are decided from 0 <= i0 < n0, 0 <= i0 + n0*i1 < n0*n1.
Anything outside this fragment raises Unclear: nothing is concluded then.
"""
import ast
from fractions import Fraction


class Unclear(Exception):
    pass


class Raised(Exception):
    pass


class Broken(Exception):
    """numpy or Python certainly raises here."""


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class P:
    """Polynomial: {sorted tuple of symbols: coefficient}."""

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, bool):
            return P({(): int(x)})
        if isinstance(x, (int, Fraction)):
            return P({(): x})
        if isinstance(x, float) and x == int(x):
            return P({(): int(x)})
        raise Unclear(f"number {x!r}")

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __neg__(self):
        return P({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return P(r)

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def monomial(self):
        return next(iter(self.t.items())) if len(self.t) == 1 else None

    def syms(self):
        return {s for k in self.t for s in k}

    def __repr__(self):
        def term(k, v):
            m = "*".join(k)
            return m if v == 1 and m else f"{v}*{m}" if m else str(v)
        return " + ".join(term(k, v) for k, v in sorted(self.t.items())) or "0"


def S(x):
    return P({(x,): 1})


def divmod_poly(p, d):
    """(p // d, p % d) for a monomial d with positive symbols."""
    m = d.monomial()
    if m is None:
        raise Unclear("divisor")
    mon, c = m
    if not mon:
        if isinstance(c, int) and c == 1:
            return p, P()
        raise Unclear("division by a constant")
    if c != 1:
        raise Unclear("divisor")
    q, r = {}, {}
    for k, v in p.t.items():
        rest = list(k)
        ok = isinstance(v, int)
        for s in mon:
            if s in rest:
                rest.remove(s)
            else:
                ok = False
        if ok:
            q[tuple(rest)] = v
        else:
            r[k] = v
    q, r = P(q), P(r)
    if not below(r, mon):
        raise Unclear(f"{r} against {d}")
    return q, r


def below(r, mon):
    """0 <= r < product of mon, from 0 <= i < n."""
    if not r.t:
        return True
    ns = sorted(mon)
    # mixed radix: r = i_a + n_a*(i_b + n_b*...) over distinct axes whose n are in mon
    if any(v != 1 for v in r.t.values()):
        return False
    terms = sorted(r.t, key=len)
    radix = []
    for k in terms:
        idx = [s for s in k if s[0] == "i"]
        fac = sorted(s for s in k if s[0] != "i")
        if len(idx) != 1 or fac != sorted(radix) and not set(map(str, fac)) >= set(radix):
            return False
        if sorted(radix) != fac:
            return False
        radix.append("n" + idx[0][1:])
    left = list(ns)
    for s in radix:
        if s in left:
            left.remove(s)
        else:
            return False
    return True


class Arr:
    """One value per row: kind 'cells' (rows e), 'points' (rows q), or axis a (index t)."""

    def __init__(self, space, val, data=None):
        self.space, self.val, self.data = space, val, data  # val: P, or None; data: name of the axis array it is taken from


class Table:
    def __init__(self, space, cols, dt=None):
        self.space, self.cols, self.dt = space, cols, dt


class Flat:
    """Rows of a table one after another."""

    def __init__(self, table):
        self.table = table


class Axis:
    """Coordinates along axis a: value as polynomial of t, or the given array."""

    def __init__(self, n, val):
        self.n, self.val = n, val  # n: P length; val: P in symbol "t" or name


class Grid3:
    """Index arrays of np.mgrid / meshgrid: axis a of a (d0, d1, d2) array."""

    def __init__(self, a, shape, lo=None):
        self.a, self.shape, self.lo = a, shape, lo or P()


class Opaque:
    def __init__(self, name):
        self.name = name


class Obj:
    def __init__(self, **k):
        self.__dict__["d"] = k


class Func:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class Lib:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, o, name):
        self.o, self.name = o, name


class Ev:
    def __init__(self, mods, active):
        self.mods = mods  # rel module name -> ast.Module
        self.active = active  # axes with more than one point
        self.n = {a: S(f"n{a}") for a in active}
        self.ncells = P.of(1)
        self.e = P()
        st = P.of(1)
        for a in active:
            self.e = self.e + st * S(f"i{a}")
            st = st * self.n[a]
        self.ncells = st
        self.dim = [self.n[a] + P.of(1) if a in active else P.of(1) for a in range(3)]
        self.npoints = self.dim[0] * self.dim[1] * self.dim[2]
        self.q = P()
        st = P.of(1)
        for a in range(3):
            if a in active:
                self.q = self.q + st * S(f"j{a}")
            st = st * self.dim[a]
        self.steps = 0
        self.terms = {}
        self.garbage = 0

    def unset(self):
        self.garbage += 1
        return S(f"?{self.garbage}")

    def differs(self, p, want):
        """True: another number for some grid; False: the same number; None: not known."""
        if p is None:
            return True
        if p == want:
            return False
        if any(s[0] == "?" for s in p.syms()):
            return True
        if not any(s[0] == "#" for s in self.reach(p)):
            return True
        if any(s[0] not in "nijos#" or s == "row" for s in self.reach(p)):
            return None
        for sizes in ((2, 3, 4), (3, 5, 2), (5, 2, 3), (1, 2, 2)):
            env = {f"n{a}": sizes[a] for a in range(3)}
            for k in range(8):
                for a in range(3):
                    env[f"i{a}"] = (sizes[a] - 1) * (k >> a & 1)
                    env[f"j{a}"] = sizes[a] * (k >> a & 1)
                    env[f"o{a}"], env[f"s{a}"] = 7 + a, 3 + a
                if self.at(p, env) != self.at(want, env):
                    return True
        return None

    def reach(self, p):
        out = set()
        for s in p.syms():
            out.add(s)
            if s in self.terms:
                out |= self.reach(self.terms[s][1]) | self.reach(self.terms[s][2])
        return out

    def at(self, p, env):
        r = 0
        for k, v in p.t.items():
            for s in k:
                if s in self.terms:
                    m, x, y = self.terms[s]
                    d = self.at(y, env)
                    if not d:
                        return None
                    v *= self.at(x, env) % d if m else self.at(x, env) // d
                else:
                    v *= env[s]
            r += v
        return r

    # --- expressions
    def call_function(self, f, args, kw):
        self.steps += 1
        if self.steps > 400:
            raise Unclear("too many calls")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) or a.vararg or a.kwarg:
            raise Unclear("arguments")
        env.update(zip(names, args))
        for d, x in zip(reversed(a.defaults), reversed(names)):
            if x not in env and x not in kw:
                env[x] = self.ev(d, {}, f.mod)
        for d, x in zip(a.kw_defaults, a.kwonlyargs):
            if x.arg not in kw and d is not None:
                env[x.arg] = self.ev(d, {}, f.mod)
        env.update(kw)
        try:
            self.block(f.node.body, env, f.mod)
        except Ret as r:
            return r.args[0]
        return None

    def num(self, v):
        if isinstance(v, (P, int, float, Fraction)) and not isinstance(v, bool):
            return P.of(v)
        raise Unclear("not a number")

    def name(self, n, env, mod):
        if n in env:
            return env[n]
        if n in ("np", "numpy"):
            return Lib("np")
        if n in ("len", "int", "float", "range", "list", "tuple", "zip", "enumerate", "sum", "reversed", "max", "min", "any", "all", "isinstance", "sorted", "map", "ValueError"):
            return Lib(n)
        for s in mod.body:
            if isinstance(s, ast.FunctionDef) and s.name == n:
                return Func(s, mod)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n:
                return self.ev(s.value, {}, mod)
            if isinstance(s, ast.ImportFrom):
                for al in s.names:
                    if (al.asname or al.name) == n:
                        m = self.find(s, mod)
                        if m is not None:
                            return self.name(al.name, {}, m)
                        if al.name == "prod" and s.module == "math":
                            return Lib("np.prod")
                        raise Unclear(n)
            if isinstance(s, ast.Import):
                for al in s.names:
                    if (al.asname or al.name) == n:
                        return Lib(al.name if al.name != "numpy" else "np")
        raise Unclear(f"name {n}")

    def find(self, s, mod):
        base = mod._rel.rsplit("/", 1)[0]
        for _ in range((s.level or 1) - 1):
            base = base.rsplit("/", 1)[0]
        if not s.level:
            return None
        return self.mods.get(f"{base}/{(s.module or '').replace('.', '/')}.py")

    def ev(self, e, env, mod):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unclear(type(e).__name__)
        return f(e, env, mod)

    def e_Constant(self, e, env, mod):
        return P.of(e.value) if type(e.value) in (int, float) else e.value

    def e_Name(self, e, env, mod):
        return self.name(e.id, env, mod)

    def e_Tuple(self, e, env, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.seq(self.ev(x.value, env, mod))
            else:
                out.append(self.ev(x, env, mod))
        return tuple(out)

    def e_List(self, e, env, mod):
        return list(self.e_Tuple(e, env, mod))

    def e_JoinedStr(self, e, env, mod):
        try:
            parts = [x.value if isinstance(x, ast.Constant) else self.ev(x.value, env, mod) for x in e.values]
        except (Unclear, KeyError):
            return Opaque("text")
        return "".join(parts) if all(isinstance(x, str) for x in parts) else Opaque("text")

    def e_Dict(self, e, env, mod):
        return {self.key(self.ev(k, env, mod)): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)}

    def key(self, v):
        if isinstance(v, P):
            c = v.const()
            if c is None:
                raise Unclear("key")
            return c
        return v

    def e_Attribute(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        if isinstance(o, Obj):
            if e.attr in o.d:
                return o.d[e.attr]
            raise Unclear(f".{e.attr}")
        if isinstance(o, Lib):
            return Lib(f"{o.name}.{e.attr}")
        if e.attr == "dtype":
            return Opaque(f"dtype of {o.val}" if isinstance(o, Axis) and isinstance(o.val, str) else "dtype")
        if e.attr == "size" and isinstance(o, (Arr, Axis)):
            return self.length(o)
        if e.attr == "T" and isinstance(o, list):
            return Bound(o, "T")
        if e.attr == "shape":
            if isinstance(o, Table):
                return (self.length(o), P.of(len(o.cols)))
            if isinstance(o, (Arr, Axis)):
                return (self.length(o),)
            if isinstance(o, Grid3):
                return tuple(o.shape)
        return Bound(o, e.attr)

    def length(self, v):
        if isinstance(v, (list, tuple, dict, str)):
            return P.of(len(v))
        if isinstance(v, Axis):
            return v.n
        if isinstance(v, (Arr, Table)):
            return self.size(v.space)
        raise Unclear("len")

    def size(self, space):
        return self.ncells if space == "cells" else self.npoints if space == "points" else space

    def fit(self, a, b):
        """Arrays of these lengths in one operation."""
        if a != b:
            x, y = self.size(a), self.size(b)
            if x.const() is None and y.const() is None:
                raise Broken(f"an array of length {x} meets one of length {y}")
            raise Unclear("lengths differ")

    def seq(self, v):
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Table):
            raise Unclear("iterating rows")
        raise Unclear("iteration")

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, list) and isinstance(b, P) and b.const() is not None:
            return a * b.const()
        if isinstance(a, Axis) or isinstance(b, Axis):
            return self.axis_op(op, a, b)
        if isinstance(a, Table) or isinstance(b, Table):
            return self.table_op(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            sp = (a if isinstance(a, Arr) else b).space
            if isinstance(a, Arr) and isinstance(b, Arr):
                self.fit(a.space, b.space)
            x = a.val if isinstance(a, Arr) else self.num(a)
            y = b.val if isinstance(b, Arr) else self.num(b)
            if x is None or y is None:
                raise Unclear("arithmetic on given data")
            return Arr(sp, self.arith(op, x, y))
        return self.arith(op, self.num(a), self.num(b))

    def table_op(self, op, a, b):
        t = a if isinstance(a, Table) else b
        o = b if t is a else a
        cols = []
        for k, c in enumerate(t.cols):
            y = o.cols[k] if isinstance(o, Table) else o[k] if isinstance(o, (list, tuple)) and len(o) == len(t.cols) else o
            cols.append(self.binop(op, *((c, y) if t is a else (y, c))))
        return Table(t.space, cols)

    def axis_op(self, op, a, b):
        x = a if isinstance(a, Axis) else b
        if isinstance(a, Axis) and isinstance(b, Axis) and a.n != b.n:
            raise Unclear("axes differ")
        u = a.val if isinstance(a, Axis) else self.num(a)
        v = b.val if isinstance(b, Axis) else self.num(b)
        if not isinstance(u, P) or not isinstance(v, P):
            raise Unclear("arithmetic on given coordinates")
        return Axis(x.n, self.arith(op, u, v))

    def arith(self, op, x, y):
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            try:
                return divmod_poly(x, y)[isinstance(op, ast.Mod)]
            except Unclear:
                # kept as it is: only to be refuted by a grid for which it is wrong
                k = f"#{len(self.terms)}"
                self.terms[k] = (isinstance(op, ast.Mod), x, y)
                return S(k)
        if isinstance(op, ast.Pow) and y.const() in (0, 1, 2, 3):
            r = P.of(1)
            for _ in range(y.const()):
                r = r * x
            return r
        if isinstance(op, ast.LShift) and x.const() is not None and y.const() is not None:
            return P.of(x.const() << y.const())
        raise Unclear("operator")

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.USub):
            return self.binop(ast.Sub(), P.of(0), v)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        raise Unclear("operator")

    def truth(self, v):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (list, tuple, dict, str)):
            return bool(v)
        if isinstance(v, P):
            c = self.sign(v)
            return c != 0
        raise Unclear("condition")

    def sign(self, p):
        """Sign of a polynomial; every n is at least 1."""
        c = p.const()
        if c is not None:
            return (c > 0) - (c < 0)
        q = P()
        for k, v in p.t.items():  # substitute n = 1 + m
            t = P.of(v)
            for s in k:
                if s[0] != "n":
                    raise Unclear("comparison")
                t = t * (P.of(1) + S("m" + s[1:]))
            q = q + t
        vs = list(q.t.values())
        if all(v >= 0 for v in vs) and q.t.get((), 0) > 0:
            return 1
        if all(v <= 0 for v in vs) and q.t.get((), 0) < 0:
            return -1
        raise Unclear("comparison")

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            if not self.compare(op, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (dict, list, tuple, set)):
                r = self.key(a) in [self.key(x) if isinstance(x, P) else x for x in b] if not isinstance(b, dict) else self.key(a) in b
            else:
                raise Unclear("in")
            return r == isinstance(op, ast.In)
        if isinstance(op, (ast.Is, ast.IsNot)):
            return (a is b) == isinstance(op, ast.Is)
        if isinstance(a, P) and isinstance(b, P):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                s = 0 if a == b else self.sign(a - b)
                return (s == 0) == isinstance(op, ast.Eq)
            s = self.sign(a - b)
            return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]
        if isinstance(a, (str, bool, type(None))) and isinstance(b, (str, bool, type(None))) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (a == b) == isinstance(op, ast.Eq)
        raise Unclear("comparison")

    def e_BoolOp(self, e, env, mod):
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def comp(self, e, env, mod, emit):
        def go(gs, env):
            if not gs:
                emit(env)
                return
            g = gs[0]
            for x in self.seq(self.ev(g.iter, env, mod)):
                en = dict(env)
                self.assign(g.target, x, en, mod)
                if all(self.truth(self.ev(c, en, mod)) for c in g.ifs):
                    go(gs[1:], en)
        go(e.generators, env)

    def e_ListComp(self, e, env, mod):
        out = []
        self.comp(e, env, mod, lambda en: out.append(self.ev(e.elt, en, mod)))
        return out

    e_GeneratorExp = e_ListComp

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def idx(self, v, n):
        c = v.const() if isinstance(v, P) else None
        if c is None:
            raise Unclear("index")
        if not -n <= c < n:
            raise Broken(f"index {c} of {n} items")
        return int(c) % n

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        s = e.slice
        if isinstance(o, Lib) and o.name in ("np.mgrid", "np.ogrid"):
            if o.name == "np.ogrid" or not isinstance(s, ast.Tuple) or len(s.elts) != 3:
                raise Unclear("grid")
            shape, lo = [], []
            for x in s.elts:
                if not isinstance(x, ast.Slice) or x.step is not None:
                    raise Unclear("grid")
                lo.append(P() if x.lower is None else self.num(self.ev(x.lower, env, mod)))
                shape.append(self.num(self.ev(x.upper, env, mod)) - lo[-1])
            return [Grid3(a, shape, lo[a]) for a in range(3)]
        if isinstance(o, Lib) and o.name in ("np.c_",):
            return self.stack(list(self.ev(s, env, mod)))
        if isinstance(o, (list, tuple, str)):
            if isinstance(s, ast.Slice):
                b = [None if x is None else self.num(self.ev(x, env, mod)).const() for x in (s.lower, s.upper, s.step)]
                return o[slice(*b)]
            v = self.ev(s, env, mod)
            return o[self.idx(v, len(o))]
        if isinstance(o, dict):
            k = self.key(self.ev(s, env, mod))
            if k not in o:
                raise Unclear("missing key")
            return o[k]
        if isinstance(o, Table):
            cols = self.columns(o, s, env, mod)
            if isinstance(cols, int):
                return o.cols[cols]
            return Table(o.space, [o.cols[c] for c in cols])
        if isinstance(o, Axis):
            v = self.ev(s, env, mod)
            if isinstance(v, Arr):
                if isinstance(o.val, P):
                    return Arr(v.space, subst(o.val, "t", v.val))
                return Arr(v.space, v.val, o.val)
            raise Unclear("coordinates")
        raise Unclear("subscript")

    def columns(self, o, s, env, mod):
        if isinstance(s, ast.Tuple) and len(s.elts) == 2 and isinstance(s.elts[0], ast.Slice) and s.elts[0].lower is None and s.elts[0].upper is None and s.elts[0].step is None:
            c = s.elts[1]
            if isinstance(c, ast.Slice):
                b = [None if x is None else self.num(self.ev(x, env, mod)).const() for x in (c.lower, c.upper, c.step)]
                return list(range(len(o.cols)))[slice(*b)]
            v = self.ev(c, env, mod)
            if isinstance(v, (list, tuple)):
                return [self.idx(x, len(o.cols)) for x in v]
            return self.idx(v, len(o.cols))
        if isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None:
            return list(range(len(o.cols)))
        raise Unclear("rows")

    def rows(self, n):
        if isinstance(n, P) and n == self.ncells:
            return "cells"
        if isinstance(n, P) and n == self.npoints:
            return "points"
        if isinstance(n, P):
            return n
        raise Unclear("length")

    def as_arr(self, v, space=None):
        if isinstance(v, Arr):
            if space is not None:
                self.fit(space, v.space)
            return v
        if isinstance(v, P) and space:
            return Arr(space, v)
        raise Unclear("column")

    def stack(self, parts):
        cols = []
        sp = next((x.space for x in parts if isinstance(x, (Arr, Table))), None)
        for x in parts:
            if isinstance(x, Table):
                cols += x.cols
            else:
                cols.append(self.as_arr(x, sp))
        if sp is None:
            raise Unclear("columns")
        return Table(sp, cols)

    def e_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.seq(self.ev(a.value, env, mod))
            else:
                args.append(self.ev(a, env, mod))
        kw, dt = {}, None
        for k in e.keywords:
            if k.arg is None:
                raise Unclear("**")
            if k.arg == "dtype":
                try:
                    dt = self.ev(k.value, env, mod)
                except Unclear:
                    dt = None
                continue
            kw[k.arg] = self.ev(k.value, env, mod)
        if isinstance(f, Func):
            return self.call_function(f, args, kw)
        if isinstance(f, Bound):
            return self.method(f.o, f.name, args, kw)
        if isinstance(f, Lib):
            r = self.lib(f.name, args, kw)
            if isinstance(r, Table) and isinstance(dt, Opaque):
                r.dt = dt.name
            return r
        raise Unclear("call")

    def flat(self, o, order):
        if isinstance(o, Grid3):
            if list(o.shape) != self.dim:
                n = o.shape[0] * o.shape[1] * o.shape[2]
                if n == self.npoints:
                    return Arr("points", S(f"c{o.a}"))
                return Arr(self.rows(n), S("row"))
            ax = S(f"j{o.a}") if o.a in self.active else P()
            if order == "F" or len(self.active) < 2:
                return Arr("points", ax + o.lo)
            return Arr("points", (S(f"c{o.a}") if o.a in self.active else P()) + o.lo)  # another numbering of the points
        if isinstance(o, Table):
            if order == "F" and len(o.cols) > 1:
                raise Unclear("column order")
            return Flat(o)
        if isinstance(o, (Arr, Flat)):
            return o
        raise Unclear("flatten")

    def method(self, o, name, args, kw):
        if name in ("reshape", "ravel", "flatten"):
            order = kw.get("order", args[-1] if args and isinstance(args[-1], str) else "C")
            if name == "reshape":
                if not args or not isinstance(args[0], P) or args[0].const() != -1 or len([a for a in args if not isinstance(a, str)]) != 1:
                    raise Unclear("reshape")
            return self.flat(o, order)
        if name in ("copy", "astype") and isinstance(o, (Arr, Table, Axis, Flat)):
            return o if name == "astype" else Table(o.space, list(o.cols)) if isinstance(o, Table) else o
        if name == "append" and isinstance(o, list):
            o.append(args[0])
            return None
        if name == "extend" and isinstance(o, list):
            o.extend(self.seq(args[0]))
            return None
        if name == "get" and isinstance(o, dict):
            return o.get(self.key(args[0]), args[1] if len(args) > 1 else None)
        if name in ("values", "keys", "items") and isinstance(o, dict):
            return list(getattr(o, name)())
        if name in ("upper", "lower", "strip") and isinstance(o, str):
            return getattr(o, name)()
        raise Unclear(f".{name}()")

    def lib(self, name, args, kw):
        if name in ("int", "float", "list", "tuple", "np.asarray", "np.array", "np.ascontiguousarray", "np.int64"):
            v = args[0] if args else []
            if name in ("list", "tuple"):
                return list(self.seq(v)) if name == "list" else tuple(self.seq(v))
            return v
        if name == "len":
            return self.length(args[0])
        if name == "range":
            c = [self.num(a).const() for a in args]
            if None in c:
                raise Unclear("range")
            return [P.of(i) for i in range(*map(int, c))]
        if name == "zip":
            return [tuple(x) for x in zip(*map(self.seq, args))]
        if name == "enumerate":
            st = self.num(args[1] if len(args) > 1 else kw.get("start", P.of(0))).const()
            return [(P.of(i + st), x) for i, x in enumerate(self.seq(args[0]))]
        if name == "reversed":
            return list(reversed(self.seq(args[0])))
        if name in ("sum", "np.sum"):
            r = P()
            for x in self.seq(args[0]):
                r = self.binop(ast.Add(), r, x)
            return r
        if name in ("any", "all"):
            return {"any": any, "all": all}[name](self.truth(x) for x in self.seq(args[0]))
        if name in ("np.prod", "math.prod"):
            r = P.of(1)
            for x in self.seq(args[0]):
                r = r * self.num(x)
            return r
        if name == "np.arange":
            c = [self.num(a) for a in args]
            if len(c) == 1:
                lo, hi, st = P(), c[0], P.of(1)
            else:
                lo, hi, st = c[0], c[1], c[2] if len(c) > 2 else P.of(1)
            if st.const() != 1:
                raise Unclear("arange")
            n = hi - lo
            if n == self.ncells:
                return Arr("cells", lo + self.e)
            if n == self.npoints:
                return Arr("points", lo + self.q)
            if n in self.dim:
                return Axis(n, lo + S("t"))
            return Arr(n, lo + S("row"))
        if name == "np.linspace":
            a, b = self.num(args[0]), self.num(args[1])
            n = self.num(args[2] if len(args) > 2 else kw["num"])
            d = b - a
            if not d.t:
                return Axis(n, a)
            step = (n - P.of(1)).monomial()
            if step is None or n.const() == 1:
                raise Unclear("linspace")
            q = {}
            for k, v in d.t.items():
                rest = list(k)
                for s in step[0]:
                    if s not in rest:
                        return Axis(n, a + S("t") * P({("?",): 1}))
                    rest.remove(s)
                q[tuple(rest)] = Fraction(v) / step[1] if v % step[1] else v // step[1]
            return Axis(n, a + S("t") * P(q))
        if name in ("np.empty", "np.zeros", "np.ones"):
            s = args[0] if args else kw["shape"]
            new = {"np.empty": self.unset, "np.zeros": P, "np.ones": lambda: P.of(1)}[name]
            if isinstance(s, (list, tuple)) and len(s) == 2:
                k = self.num(s[1]).const()
                if k is None:
                    raise Unclear("shape")
                sp = self.rows(s[0])
                return Table(sp, [Arr(sp, new()) for _ in range(k)])
            s = s[0] if isinstance(s, (list, tuple)) and len(s) == 1 else s
            return Arr(self.rows(s), new())
        if name in ("np.full", "np.repeat") and isinstance(args[1 if name == "np.full" else 0], P):
            n, v = (args[0], args[1]) if name == "np.full" else (args[1], args[0])
            n = n[0] if isinstance(n, (list, tuple)) and len(n) == 1 else n
            return Arr(self.rows(n), v)
        if name in ("np.full_like", "np.zeros_like", "np.ones_like", "np.empty_like"):
            if isinstance(args[0], Arr):
                return Arr(args[0].space, {"np.full_like": args[1] if len(args) > 1 else None, "np.zeros_like": P(), "np.ones_like": P.of(1), "np.empty_like": self.unset()}[name])
            raise Unclear(name)
        if name in ("np.column_stack", "np.hstack", "np.concatenate", "np.stack", "np.transpose"):
            ax = kw.get("axis", args[1] if len(args) > 1 else None)
            axis = ax.const() if isinstance(ax, P) else None
            parts = self.seq(args[0])
            if name in ("np.hstack", "np.concatenate") and not (all(isinstance(x, Table) for x in parts) and (name == "np.hstack" or axis in (1, -1))):
                raise Unclear(name)
            if name == "np.stack" and axis not in (1, -1):
                raise Unclear(name)
            return self.stack(parts)
        if name == "np.meshgrid":
            if kw.get("indexing") != "ij" or len(args) != 3 or not all(isinstance(x, Axis) and x.val == S("t") for x in args):
                raise Unclear(name)
            return [Grid3(a, [x.n for x in args]) for a in range(3)]
        if name == "np.indices":
            return [Grid3(a, list(args[0])) for a in range(3)]
        if name in ("np.unravel_index",):
            n = args[0]
            if isinstance(n, Arr) and n.space == "points" and n.val == self.q and kw.get("order", args[2] if len(args) > 2 else "C") == "F" and list(args[1]) == self.dim:
                return [Arr("points", S(f"j{a}") if a in self.active else P()) for a in range(3)]
            raise Unclear(name)
        if name in ("np.divmod", "divmod"):
            return (self.binop(ast.FloorDiv(), *args), self.binop(ast.Mod(), *args))
        if name in ("np.ravel",):
            return self.flat(args[0], kw.get("order", "C"))
        if name in ("np.ndarray.reshape", "np.reshape"):
            return self.method(args[0], "reshape", args[1:], kw)
        raise Unclear(name)

    # --- statements
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.seq(v)
            if len(xs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unclear("unpacking")
            for x, y in zip(t.elts, xs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if not isinstance(o, Obj):
                raise Unclear("attribute")
            o.d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Table):
                c = self.columns(o, t.slice, env, mod)
                if isinstance(c, int):
                    o.cols[c] = copied(self.as_arr(v, o.space))
                else:
                    vs = v.cols if isinstance(v, Table) else list(v) if isinstance(v, (list, tuple)) else [v] * len(c) if isinstance(v, P) else None
                    if vs is None or len(vs) != len(c):
                        raise Unclear("columns")
                    for k, x in zip(c, vs):
                        o.cols[k] = copied(self.as_arr(x, o.space))
            elif isinstance(o, Arr) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                n = self.as_arr(v, o.space)
                o.val, o.data = n.val, n.data
            elif isinstance(o, dict):
                o[self.key(self.ev(t.slice, env, mod))] = v
            elif isinstance(o, list):
                o[self.idx(self.ev(t.slice, env, mod), len(o))] = v
            else:
                raise Unclear("store")
        else:
            raise Unclear("target")

    def block(self, body, env, mod):
        for s in body:
            self.steps += 1
            if self.steps > 5000:
                raise Unclear("too long")
            if isinstance(s, ast.Expr):
                if not isinstance(s.value, ast.Constant):
                    self.ev(s.value, env, mod)
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, env, mod)
                for t in s.targets:
                    self.assign(t, v, env, mod)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.assign(s.target, self.ev(s.value, env, mod), env, mod)
            elif isinstance(s, ast.AugAssign):
                cur = self.ev(ast.copy_location(_load(s.target), s), env, mod)
                v = self.binop(s.op, cur, self.ev(s.value, env, mod))
                if isinstance(s.target, ast.Name) and isinstance(cur, Arr) and isinstance(v, Arr):
                    cur.val, cur.data = v.val, v.data  # in place
                else:
                    self.assign(s.target, v, env, mod)
            elif isinstance(s, ast.If):
                self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
            elif isinstance(s, ast.For):
                try:
                    for x in self.seq(self.ev(s.iter, env, mod)):
                        self.assign(s.target, x, env, mod)
                        try:
                            self.block(s.body, env, mod)
                        except Cnt:
                            pass
                except Brk:
                    continue
                self.block(s.orelse, env, mod)
            elif isinstance(s, ast.Return):
                raise Ret(self.ev(s.value, env, mod) if s.value is not None else None)
            elif isinstance(s, ast.Raise):
                raise Raised()
            elif isinstance(s, ast.Assert):
                pass
            elif isinstance(s, ast.Break):
                raise Brk()
            elif isinstance(s, ast.Continue):
                raise Cnt()
            elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
                if isinstance(s, ast.ImportFrom):
                    for al in s.names:
                        m = self.find(s, mod)
                        if m is not None:
                            env[al.asname or al.name] = self.name(al.name, {}, m)
            elif isinstance(s, ast.FunctionDef):
                env[s.name] = Func(s, mod)
            else:
                raise Unclear(type(s).__name__)


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def subst(p, s, v):
    r = P()
    for k, c in p.t.items():
        t = P.of(c)
        for x in k:
            t = t * (v if x == s else S(x))
        r = r + t
    return r


def copied(a):
    return Arr(a.space, a.val, a.data)
