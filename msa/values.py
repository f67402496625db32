"""Abstract values, heap objects and the join of the abstract interpreter."""
from __future__ import annotations

from dataclasses import dataclass, field, replace
from typing import Any, NamedTuple, Optional

# --------------------------------------------------------------------------- columns
# A column list describes which columns (last axis) of the origin array a value holds, in
# order.  Pieces: int k, or (a, None) = a, a+1, a+2, ... (open tail, only as last piece).
ID = ((0, None),)
MAXCOLS = 80


def cols_range(n):
    return tuple(range(n)) if n <= MAXCOLS else ID


def cols_finite(c):
    return c is not None and all(isinstance(p, int) for p in c)


def cols_item(c, i):
    if c is None:
        return None
    if i < 0:
        if cols_finite(c) and -i <= len(c):
            return (c[i],)
        return None
    k = 0
    for p in c:
        if isinstance(p, int):
            if k == i:
                return (p,)
            k += 1
        else:
            return (p[0] + (i - k),)
    return None


def cols_slice(c, a, b, s):
    if c is None:
        return None
    if s not in (None, 1):
        if cols_finite(c):
            return tuple(c[slice(a, b, s)])
        return None
    a = 0 if a is None else a
    if cols_finite(c):
        return tuple(c[slice(a, b)])
    if a < 0 and b is None and -a <= MAXCOLS and len(c) == 1:
        return tuple(range(a, 0))  # counted from the end of a row of unknown length
    if a >= 0 and b is not None and b < 0:
        return cols_slice(c, a, None, None)
    if a < 0 or (b is not None and b < 0):
        return None
    head = [p for p in c if isinstance(p, int)]
    tail = c[-1][0]
    if b is None:
        if a <= len(head):
            return tuple(head[a:]) + ((tail, None),)
        return ((tail + a - len(head), None),)
    out = []
    for i in range(a, b):
        if len(out) > MAXCOLS:
            return None
        out.append(head[i] if i < len(head) else tail + i - len(head))
    return tuple(out)


def cols_select(c, idx):
    out = []
    for i in idx:
        x = cols_item(c, i)
        if x is None:
            return None
        out.append(x[0])
    return tuple(out)


class Rec(NamedTuple):
    origin: str
    cols: Any = ID  # column list or None (unknown)
    off: Optional[int] = 0  # additive shift, None = unknown
    prec: Any = None  # None = no text conversion; int digits; "x" exact
    scaled: bool = False  # went through arithmetic other than an integer shift
    alt: Any = None  # tag of an element-wise run-time choice between alternatives
    rows: Any = None  # "part" (proper slice of the rows) or "rev" (rows reversed)
    nar: Any = None  # narrowest lossy number type the values went through


def degrade(recs, how="u"):
    """Values that went through something not modelled ("u") or through arithmetic (True)."""
    return frozenset(Rec(r.origin, None, None, r.prec, True if r.scaled is True else how, None, r.rows, r.nar) for r in recs)


def recs_map(recs, f):
    return frozenset(f(r) for r in recs)


def recs_concat(parts):
    """Ordered concatenation (string/list building). Parts are rec sets."""
    parts = [p for p in parts if p]
    if not parts:
        return frozenset()
    if len(parts) == 1:
        return parts[0]
    out = {}
    order = []
    for p in parts:
        for r in p:
            key = (r.origin, r.off, r.prec, r.scaled, r.alt, r.rows, r.nar)
            if key not in out:
                out[key] = [[]]
                order.append(key)
    for p in parts:
        by = {}
        for r in p:
            by.setdefault((r.origin, r.off, r.prec, r.scaled, r.alt, r.rows, r.nar), []).append(r)
        for key, rs in by.items():
            out[key].append(rs)
    res = set()
    for key in order:
        lists = out[key][1:]
        alts_ = [()]
        for rs in lists:
            nxt = []
            for cols in alts_:
                for r in rs:
                    c = r.cols
                    if c is None or cols is None or (cols and not cols_finite(cols)) or len(cols) + len(c) > 2 * MAXCOLS:
                        nxt.append(None)  # unknown, or an open tail followed by more
                    else:
                        nxt.append(cols + c)
            alts_ = list(dict.fromkeys(nxt))
            if len(alts_) > 8:
                alts_ = [None]
        if sum(len(rs) > 1 for rs in lists) > 1:
            alts_ = [None]  # uncorrelated alternatives
        o, off, prec, sc, alt, rows, nar = key
        for cols in alts_:
            res.add(Rec(o, cols, off, prec, sc, alt, rows, nar))
    return frozenset(res)


# --------------------------------------------------------------------------- values
class V:
    __slots__ = ()


class DT(NamedTuple):
    """A numpy dtype constant."""

    name: str  # canonical e.g. "float64"
    order: str = "="


class StructArr(str):
    """Class marker of structured arrays that remembers the field types."""

    dt = None

    @classmethod
    def of(cls, dt):
        s = cls("structarr")
        s.dt = dt
        return s


class NInt(int):
    """A constant integer of a numpy type; behaves as the plain number everywhere else."""

    def __new__(cls, v, dt):
        x = super().__new__(cls, v)
        x.dt = dt
        return x


class Sl(NamedTuple):
    a: Any
    b: Any
    c: Any


class Const(V):
    __slots__ = ("v", "recs", "_h")

    def __init__(self, v, recs=frozenset()):
        self.v, self.recs = v, recs
        self._h = hash((type(v), v, recs))

    def __eq__(self, o):
        return (
            type(o) is Const
            and type(self.v) is type(o.v)
            and (self.v == o.v or (self.v != self.v and o.v != o.v))
            and self.recs == o.recs
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"C({self.v!r}{'*' if self.recs else ''})"


class Ref(V):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return type(o) is Ref and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return f"&{self.addr}"


@dataclass(frozen=True)
class Unk(V):
    recs: frozenset = frozenset()
    own: frozenset = frozenset()  # caller-owned storage this value may alias
    kind: Optional[str] = None
    shape: Optional[tuple] = None
    dtype: Any = None  # DT or None
    sym: Any = None
    extra: Any = None  # kind specific (file mode, index columns, ...)

    def __hash__(self):
        return hash((self.recs, self.own, self.kind, self.shape, self.sym))

    def __repr__(self):
        s = f"U({self.kind or ''}"
        if self.recs:
            s += " " + ",".join(
                f"{r.origin}{'' if r.cols == ID else list(r.cols) if r.cols else '?'}"
                f"{'' if r.off == 0 else '%+d' % r.off if r.off is not None else '+?'}"
                f"{'' if r.prec is None else '~' + str(r.prec)}"
                for r in sorted(self.recs, key=str)
            )
        if self.own:
            s += " own=" + ",".join(sorted(self.own))
        if self.shape is not None:
            s += f" shape={self.shape}"
        return s + ")"


@dataclass(frozen=True)
class Ext(V):
    name: str
    recs: frozenset = frozenset()


@dataclass(frozen=True, eq=False)
class FuncV(V):
    node: Any
    mod: Any
    scope: tuple  # enclosing frame addresses, innermost last
    defaults: tuple = ()
    kwdefaults: tuple = ()
    selfv: Any = None
    cls: Any = None
    decos: tuple = ()
    mode: Any = None  # "generator"/"contextmanager" marker resolved at call

    def __eq__(self, o):
        return (
            type(o) is FuncV
            and o.node is self.node
            and o.scope == self.scope
            and o.selfv == self.selfv
        )

    def __hash__(self):
        return hash((id(self.node), self.scope, self.selfv))

    def __repr__(self):
        return f"F({getattr(self.node, 'name', '<lambda>')})"


@dataclass(frozen=True, eq=False)
class ClsV(V):
    node: Any
    mod: Any
    bases: tuple
    ns: tuple  # ((name, V), ...)

    def __eq__(self, o):
        return type(o) is ClsV and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    @property
    def name(self):
        return self.node.name

    def lookup(self, name):
        for k, v in self.ns:
            if k == name:
                return v
        for b in self.bases:
            if isinstance(b, ClsV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def isa(self, other):
        if self == other:
            return True
        return any(isinstance(b, ClsV) and b.isa(other) for b in self.bases)

    def ext_bases(self):
        out = []
        for b in self.bases:
            if isinstance(b, Ext):
                out.append(b.name)
            elif isinstance(b, ClsV):
                out += b.ext_bases()
        return out

    def __repr__(self):
        return f"Cls({self.name})"


@dataclass(frozen=True)
class ModV(V):
    name: str


@dataclass(frozen=True)
class Method(V):
    """Bound method of a non-repo value."""

    recv: V
    attr: str


@dataclass(frozen=True)
class PartialV(V):
    func: V
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class Alt(V):
    alts: frozenset

    def __repr__(self):
        return "{" + " | ".join(sorted(map(repr, self.alts))) + "}"


ALT_MAX = 10
UNK = Unk()
NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def alts(v):
    return sorted(v.alts, key=_altkey) if isinstance(v, Alt) else [v]


def _altkey(v):
    return repr(v)


def recs_of(v):
    if isinstance(v, (Const, Unk, Ext)):
        return v.recs
    if isinstance(v, Alt):
        r = frozenset()
        for a in v.alts:
            r |= recs_of(a)
        return r
    if isinstance(v, Method):
        return recs_of(v.recv)
    return frozenset()


def own_of(v):
    if isinstance(v, Unk):
        return v.own
    if isinstance(v, Alt):
        r = frozenset()
        for a in v.alts:
            r |= own_of(a)
        return r
    return frozenset()


def kind_of_const(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    return None


def join_shape(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x == y else None for x, y in zip(a, b))


def join_unk(a, b):
    if a == b and a.dtype == b.dtype and a.extra == b.extra:
        return a
    return Unk(
        a.recs | b.recs,
        a.own | b.own,
        a.kind if a.kind == b.kind else None,
        join_shape(a.shape, b.shape),
        a.dtype if a.dtype == b.dtype else None,
        a.sym if a.sym == b.sym else None,
        a.extra if a.extra == b.extra else None,
    )


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b or (a == b and not isinstance(a, Unk)):
        return a
    if isinstance(a, Unk) and isinstance(b, Unk):
        if a.kind == b.kind or a.kind is None or b.kind is None:
            return join_unk(a, b)
    sa = set(a.alts) if isinstance(a, Alt) else {a}
    sb = set(b.alts) if isinstance(b, Alt) else {b}
    s = sa | sb
    # merge Unks of the same kind
    unks = {}
    rest = set()
    for x in s:
        if isinstance(x, Unk):
            k = x.kind
            unks[k] = join_unk(unks[k], x) if k in unks else x
        else:
            rest.add(x)
    if None in unks:
        # generic unknown absorbs scalars and other unknowns, but keep refs/functions
        u = unks.pop(None)
        for x in unks.values():
            u = join_unk(u, x)
        keep = set()
        for x in rest:
            if isinstance(x, Const):
                if x.v is None or x.recs <= u.recs and False:
                    keep.add(x)
                else:
                    u = replace(u, recs=u.recs | x.recs, shape=None, dtype=None)
            else:
                keep.add(x)
        rest = keep
        unks = {None: u}
    # too many constants -> unknown of that kind
    consts = [x for x in rest if isinstance(x, Const)]
    if len(consts) > ALT_MAX:
        r = frozenset()
        kinds = set()
        for x in consts:
            rest.discard(x)
            r |= x.recs
            kinds.add(kind_of_const(x.v))
        k = kinds.pop() if len(kinds) == 1 else None
        u = Unk(recs=r, kind=k)
        unks[k] = join_unk(unks[k], u) if k in unks else u
    s = rest | set(unks.values())
    if len(s) == 1:
        return next(iter(s))
    if len(s) > 3 * ALT_MAX:
        r = frozenset()
        o = frozenset()
        for x in s:
            r |= recs_of(x)
            o |= own_of(x)
        return Unk(recs=degrade(r), own=o)
    return Alt(frozenset(s))


def join_all(vs):
    r = None
    for v in vs:
        r = join(r, v)
    return UNK if r is None else r


# --------------------------------------------------------------------------- heap objects
@dataclass(frozen=True)
class HList:
    items: Optional[tuple] = ()  # exact contents or None
    elem: Any = None  # join of the elements when items is None
    typ: str = "list"  # list | tuple | set | nd | deque
    own: Optional[str] = None
    nonempty: bool = False
    dtype: Any = None
    tagrec: frozenset = frozenset()  # recs of the container itself (e.g. a whole row)
    sym: Any = None  # symbolic length
    lead: tuple = ()  # (known first items, join of the rest) of a list that is not known completely

    def element(self):
        if self.items is not None:
            return join_all(self.items) if self.items else UNK
        return self.elem if self.elem is not None else UNK


@dataclass(frozen=True)
class HDict:
    entries: tuple = ()  # ((keyV, valV), ...) insertion order, exact keys
    rest_k: Any = None  # unknown keys (join), None = no unknown entries
    rest_v: Any = None
    own: Optional[str] = None
    default: Any = None  # defaultdict factory
    weak: bool = False  # entries may be absent

    def get(self, k):
        for kk, vv in self.entries:
            if keq(kk, k):
                return vv
        return None

    def has_unknown(self):
        return self.rest_k is not None

    def values_join(self):
        r = self.rest_v
        for _, v in self.entries:
            r = join(r, v)
        return r if r is not None else UNK

    def keys_join(self):
        r = self.rest_k
        for k, _ in self.entries:
            r = join(r, k)
        return r if r is not None else UNK


@dataclass(frozen=True)
class HObj:
    cls: Any
    attrs: tuple = ()
    own: Optional[str] = None

    def get(self, k):
        for kk, vv in self.attrs:
            if kk == k:
                return vv
        return None

    def set(self, k, v):
        out = []
        done = False
        for kk, vv in self.attrs:
            if kk == k:
                out.append((k, v))
                done = True
            else:
                out.append((kk, vv))
        if not done:
            out.append((k, v))
        return replace(self, attrs=tuple(out))

    def delete(self, k):
        return replace(self, attrs=tuple((a, b) for a, b in self.attrs if a != k))


def keq(a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            if isinstance(a.v, DT) and isinstance(b.v, DT):
                o = {"=" if x in ("<", "|") else x for x in (a.v.order, b.v.order) if x != "?" and isinstance(x, str)}
                return a.v.name == b.v.name and (len(o) < 2 or a.v.name in ("int8", "uint8", "bool", "bytes1"))
            return a.v == b.v and (isinstance(a.v, (str, bytes)) == isinstance(b.v, (str, bytes)))
        except Exception:
            return False
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    return a == b


def is_exact_key(v):
    return isinstance(v, (Const, Ext, ClsV)) or (isinstance(v, FuncV))


def join_obj(a, b):
    if a is b or a == b:
        return a
    if type(a) is not type(b):
        return None
    own = a.own or b.own
    if isinstance(a, HList):
        typ = a.typ if a.typ == b.typ else "list"
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return HList(
                tuple(join(x, y) for x, y in zip(a.items, b.items)), None, typ, own,
                a.nonempty and b.nonempty, a.dtype if a.dtype == b.dtype else None,
                a.tagrec | b.tagrec, a.sym if a.sym == b.sym else None,
            )
        ea = a.element() if (a.items or a.items is None) else None
        eb = b.element() if (b.items or b.items is None) else None
        ne = (a.nonempty or bool(a.items)) and (b.nonempty or bool(b.items))
        return HList(None, join(ea, eb), typ, own, ne,
                     a.dtype if a.dtype == b.dtype else None, a.tagrec | b.tagrec,
                     a.sym if a.sym == b.sym else None)
    if isinstance(a, HDict):
        ents = []
        rk, rv = join(a.rest_k, b.rest_k) if (a.rest_k or b.rest_k) else None, None
        if a.rest_v is not None or b.rest_v is not None:
            rv = join(a.rest_v, b.rest_v)
        weak = a.weak or b.weak
        seen = []
        for k, v in a.entries:
            w = b.get(k)
            if w is None:
                weak = True
                ents.append((k, v))
            else:
                ents.append((k, join(v, w)))
            seen.append(k)
        for k, v in b.entries:
            if a.get(k) is None:
                weak = True
                ents.append((k, v))
        return HDict(tuple(ents), rk, rv, own, a.default or b.default, weak)
    if isinstance(a, HObj):
        attrs = []
        names = [k for k, _ in a.attrs] + [k for k, _ in b.attrs if a.get(k) is None]
        for k in names:
            attrs.append((k, join(a.get(k), b.get(k))))
        return HObj(a.cls if a.cls == b.cls else a.cls, tuple(attrs), own)
    return None


class Env(dict):
    """Local variables of a frame (treated as immutable; copied on write)."""


class State:
    __slots__ = ("heap", "facts", "may", "refine")

    def __init__(self, heap=None, facts=frozenset(), may=frozenset(), refine=None):
        self.heap = heap if heap is not None else {}
        self.facts, self.may = facts, may
        self.refine = refine if refine is not None else {}

    def copy(self):
        return State(dict(self.heap), self.facts, self.may, dict(self.refine))

    def assign(self, o):
        self.heap, self.facts, self.may, self.refine = o.heap, o.facts, o.may, o.refine


def join_env(a, b):
    if a is b:
        return a
    out = Env()
    for k in a:
        out[k] = join(a[k], b[k]) if k in b else join(a[k], Const(_Undef))
    for k in b:
        if k not in a:
            out[k] = join(b[k], Const(_Undef))
    return out


class _UndefT:
    def __repr__(self):
        return "<undef>"

    def __hash__(self):
        return 77


_Undef = _UndefT()


def join_states(s1, s2):
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    if s1 is s2:
        return s1
    heap = dict(s1.heap)
    for k, o2 in s2.heap.items():
        o1 = heap.get(k)
        if o1 is None:
            heap[k] = o2
        elif o1 is not o2:
            if isinstance(o1, Env):
                heap[k] = join_env(o1, o2)
            else:
                j = join_obj(o1, o2)
                heap[k] = j if j is not None else HObj(None)
    ref = {k: v for k, v in s1.refine.items() if s2.refine.get(k) == v}
    return State(heap, s1.facts & s2.facts, s1.may | s2.may, ref)


def same_state(a, b):
    if a.facts != b.facts or a.may != b.may:
        return False
    if len(a.heap) != len(b.heap):
        return False
    for k, o in a.heap.items():
        p = b.heap.get(k)
        if p is o:
            continue
        if p is None or p != o:
            return False
    return True


def set_of(items):
    """The set of some values: equal constants count once; values that may be equal make the size unknown."""
    out = []
    for z in items:
        for i, y in enumerate(out):
            if y == z or isinstance(y, Const) and isinstance(z, Const) and type(y.v) is type(z.v) and y.v == z.v:
                out[i] = y if y == z else Const(y.v, y.recs | z.recs)
                break
        else:
            out.append(z)
    if len(out) > 1 and not all(isinstance(z, Const) for z in out):
        return HList(None, join_all(out), "set", nonempty=True)
    return HList(tuple(out), None, "set")
