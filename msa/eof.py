"""End-of-file stall analysis of ``while`` loops.

A loop is followed by constant propagation and value numbering under the assumption that the input is exhausted: every read on a file delivers an
empty result.  Everything that is not understood counts as a possible exit (it may raise or return), so a loop is only reported when no path of
any later iteration can leave it.
"""
from __future__ import annotations

import ast

from .values import Const

EMPTY = ("e",)  # empty text or bytes
L0 = ("lst", ())
MAX_ENVS = 48
ROUNDS = 5
SAME_TEXT = {"strip", "lstrip", "rstrip", "lower", "upper", "decode", "encode", "casefold", "title", "capitalize", "expandtabs", "swapcase", "replace", "removeprefix", "removesuffix"}
FALSE_TEXT = {"isdigit", "isspace", "isalpha", "isnumeric", "isalnum", "isdecimal", "isupper", "islower"}


def C(v):
    if isinstance(v, (str, bytes)) and len(v) == 0:
        return EMPTY
    if isinstance(v, tuple):
        return ("lst", tuple(C(x) for x in v))
    return ("c", v)


class Raised(Exception):
    """evaluation definitely raises the named exception"""

    def __init__(self, name):
        self.name = name


class Stop(Exception):
    """the analysis gives up: treat as a possible exit"""


def truth(v):
    if v == EMPTY:
        return False
    if v[0] == "c":
        return bool(v[1])
    if v[0] == "lst":
        return len(v[1]) > 0
    return None


class EOF:
    def __init__(self, I, mod, depth=0, stack=()):
        self.I, self.mod, self.depth, self.stack = I, mod, depth, stack
        self.exit = False
        self.reads = 0

    # ---- expressions -------------------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.exit = True
            return ("s", ("?", id(e), env["#"]))
        return m(e, env)

    def e_Constant(self, e, env):
        return C(e.value)

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in ("True", "False", "None"):
            return C({"True": True, "False": False, "None": None}[e.id])
        v = self.I.module_env(self.mod).get(e.id)
        if isinstance(v, Const) and isinstance(v.v, (str, bytes, int, float, bool, type(None))):
            return C(v.v)
        return ("s", ("v", e.id))

    def e_JoinedStr(self, e, env):
        return ("s", ("f", tuple(self.ev(v.value, env) for v in e.values if isinstance(v, ast.FormattedValue))))

    def e_Tuple(self, e, env):
        return ("lst", tuple(self.ev(x, env) for x in e.elts))

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, e, env):
        return ("s", ("dict", id(e), env["#"]))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if v[0] == "lst" and e.attr == "size":
            return ("c", len(v[1]))
        return ("s", ("attr", v, e.attr, env["#"]))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        t = truth(v)
        if isinstance(e.op, ast.Not):
            return ("c", not t) if t is not None else ("s", ("not", v))
        if v[0] == "c" and isinstance(v[1], (int, float)) and isinstance(e.op, ast.USub):
            return ("c", -v[1])
        return ("s", ("u", type(e.op).__name__, v))

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        terms = []
        saved = self.exit
        for x in e.values:
            v = self.ev(x, env)
            t = truth(v)
            if t is None:
                terms.append(v)
            elif t != is_and:
                if not terms:
                    return v
                return ("c", t) if v[0] == "c" or v == EMPTY else v
        if not terms:
            return v
        return ("s", ("bool", is_and, tuple(terms)))

    def e_IfExp(self, e, env):
        t = truth(self.ev(e.test, env))
        if t is not None:
            return self.ev(e.body if t else e.orelse, env)
        a, b = self.ev(e.body, env), self.ev(e.orelse, env)
        return a if a == b else ("s", ("if", a, b))

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if b == EMPTY or b == L0:
                return a
            if a == EMPTY and b[0] != "lst" or a == L0:
                return b
            if a[0] == "lst" and b[0] == "lst":
                return ("lst", a[1] + b[1])
        if a[0] == "c" and b[0] == "c":
            try:
                f = {ast.Add: lambda: a[1] + b[1], ast.Sub: lambda: a[1] - b[1], ast.Mult: lambda: a[1] * b[1], ast.FloorDiv: lambda: a[1] // b[1], ast.Mod: lambda: a[1] % b[1]}.get(type(op))
                if f is not None:
                    return C(f())
            except Exception:
                self.exit = True
        if b == ("c", 0) and isinstance(op, (ast.Add, ast.Sub)):
            return a
        if a == ("c", 0) and isinstance(op, ast.Add):
            return b
        if isinstance(op, (ast.Mod, ast.Div, ast.FloorDiv)):
            self.exit = True
        return ("s", ("b", type(op).__name__, a, b))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.cmp(op, left, right)
            t = truth(v)
            if t is False:
                return v if out is None or True else out
            if t is None:
                out = v if out is None else ("s", ("and", out, v))
            left = right
        return out if out is not None else ("c", True)

    def concrete(self, v):
        """python value of an abstract one, or raises Stop"""
        if v == EMPTY:
            return ""
        if v[0] == "c":
            return v[1]
        if v[0] == "lst":
            return [self.concrete(x) for x in v[1]]
        raise Stop()

    def cmp(self, op, a, b):
        n = type(op).__name__
        try:
            if n in ("In", "NotIn"):
                r = None
                if b == EMPTY:
                    if a == EMPTY:
                        r = True
                    elif a[0] == "c" and isinstance(a[1], (str, bytes)):
                        r = False
                elif b[0] == "lst":
                    if all(x[0] != "s" for x in b[1]) and a[0] != "s":
                        r = any(x == a for x in b[1])
                    elif a[0] == "s" and not b[1]:
                        r = False
                    elif a in b[1]:
                        r = True
                elif b[0] == "c" and isinstance(b[1], (str, bytes)) and a == EMPTY:
                    r = True
                elif a == EMPTY and b[0] == "s" and isinstance(b[1], tuple) and b[1][0] == "nonempty":
                    r = False
                if r is None:
                    return ("s", ("cmp", n, a, b))
                return ("c", r == (n == "In"))
            if n in ("Is", "IsNot"):
                if a[0] != "s" and b[0] != "s" and (a == ("c", None) or b == ("c", None)):
                    return ("c", (a == b) == (n == "Is"))
                return ("s", ("cmp", n, a, b))
            if n in ("Eq", "NotEq"):
                if a[0] != "s" and b[0] != "s":
                    if a[0] == "lst" and b[0] == "lst" and (any(x[0] == "s" for x in a[1]) or any(x[0] == "s" for x in b[1])):
                        if len(a[1]) != len(b[1]):
                            return ("c", n == "NotEq")
                        return ("s", ("cmp", n, a, b))
                    return ("c", (a == b) == (n == "Eq"))
                if a == b:
                    return ("c", n == "Eq")
                return ("s", ("cmp", n, a, b))
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                return ("c", {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n])
        except (Stop, TypeError, KeyError):
            pass
        return ("s", ("cmp", n, a, b))

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, env)
            if v == EMPTY or v == L0:
                return v
            if v[0] == "lst":
                try:
                    s = [self.concrete(self.ev(x, env)) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    return ("lst", v[1][slice(*s)])
                except Stop:
                    pass
            return ("s", ("slice", v, ast.dump(e.slice), env["#"]))
        k = self.ev(e.slice, env)
        if v == EMPTY or v == L0:
            raise Raised("IndexError")
        if v[0] == "lst" and k[0] == "c" and isinstance(k[1], int):
            try:
                return v[1][k[1]]
            except IndexError:
                raise Raised("IndexError")
        if v[0] == "s" and k[0] != "s":
            # table look-ups with what was read: KeyError; others: may raise
            pass
        self.exit = True
        return ("s", ("sub", v, k, env["#"]))

    def comp(self, e, env):
        it = self.ev(e.generators[0].iter, env)
        if it == L0 or it == EMPTY:
            return L0
        self.exit = True
        return ("s", ("comp", id(e), env["#"]))

    e_ListComp = e_GeneratorExp = e_SetComp = e_DictComp = comp

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return ("s", ("lambda", id(e)))

    def bump(self, env):
        env["#"] = env["#"] + 1

    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            return self.method(e, f, env)
        if isinstance(f, ast.Name):
            n = f.id
            args = [self.ev(a, env) for a in e.args]
            if n in env and n not in self.I.module_env(self.mod):
                self.exit = True
                return ("s", ("?", id(e), env["#"]))
            if n in ("int", "float"):
                if args and args[0] == EMPTY:
                    raise Raised("ValueError")
                if args and args[0][0] == "c":
                    try:
                        return C(int(args[0][1]) if n == "int" else float(args[0][1]))
                    except Exception:
                        raise Raised("ValueError")
                self.exit = True
                return ("s", (n, tuple(args)))
            if n == "len":
                v = args[0]
                if v == EMPTY:
                    return ("c", 0)
                if v[0] == "lst":
                    return ("c", len(v[1]))
                if v[0] == "c" and isinstance(v[1], (str, bytes)):
                    return ("c", len(v[1]))
                return ("s", ("len", v, env["#"]))
            if n in ("list", "tuple", "sorted", "set", "reversed", "iter", "map", "filter", "zip", "enumerate"):
                last = args[-1] if args else L0
                if any(a in (L0, EMPTY) for a in args):
                    return L0
                if n in ("list", "tuple") and last[0] == "lst":
                    return last
                if n == "map":
                    self.exit = True
                return ("s", (n, tuple(args), env["#"]))
            if n == "next":
                if len(args) == 1:
                    self.reads += 1
                    raise Raised("StopIteration")
                return args[1]
            if n in ("any", "all"):
                if args[0] == L0:
                    return ("c", n == "all")
                return ("s", (n, tuple(args), env["#"]))
            if n in ("str", "bool", "isinstance", "print", "min", "max", "abs", "repr", "range", "sum", "bytes", "type", "id"):
                if n == "bool" and truth(args[0]) is not None:
                    return ("c", truth(args[0]))
                if n == "str" and args and args[0] == EMPTY:
                    return EMPTY
                if n in ("min", "max") and args and args[0] == L0:
                    raise Raised("ValueError")
                if n == "sum" and args and args[0] == L0:
                    return ("c", 0)
                return ("s", (n, tuple(args), env["#"]))
            fv = self.I.module_env(self.mod).get(n)
            if n in ("warn", "info", "error") and getattr(getattr(fv, "node", None), "_mod", None) is not None and fv.node._mod.name.endswith("._common"):
                return ("c", None)  # prints a message
            return self.call_func(fv, e, args, env)
        self.exit = True
        for a in e.args:
            self.ev(a, env)
        return ("s", ("?", id(e), env["#"]))

    def method(self, e, f, env):
        n = f.attr
        # module functions
        if isinstance(f.value, ast.Name) and f.value.id not in env:
            mod = f.value.id
            if mod in ("np", "numpy"):
                return self.numpy(n, e, env)
            if mod == "struct" and n in ("unpack", "unpack_from"):
                args = [self.ev(a, env) for a in e.args]
                if len(args) > 1 and args[1] == EMPTY:
                    raise Raised("struct.error")
                self.exit = True
                return ("s", ("?", id(e), env["#"]))
            if mod == "re" and n in ("match", "search", "fullmatch", "compile", "split", "findall", "sub"):
                args = [self.ev(a, env) for a in e.args]
                try:
                    if len(args) >= 2 and n in ("match", "search", "fullmatch") and args[1] == EMPTY:
                        import re

                        p = self.concrete(args[0])
                        if getattr(re, n)(p, "" if isinstance(p, str) else b"") is None:
                            return ("c", None)
                except (Stop, re.error):
                    pass
                return ("s", ("re", n, tuple(args)))
            if mod in ("logging", "log", "warnings"):
                return ("c", None)
        # plain reads: name.readline() etc.
        if n in ("readline", "read", "read1", "peek") and not (isinstance(f.value, ast.Name) and f.value.id in ("h5py",)):
            for a in e.args:
                self.ev(a, env)
            self.ev(f.value, env)
            self.reads += 1
            return EMPTY
        if n == "readlines":
            self.reads += 1
            return L0
        if n == "__next__":
            self.reads += 1
            raise Raised("StopIteration")
        v = self.ev(f.value, env)
        args = [self.ev(a, env) for a in e.args]
        for k in e.keywords:
            self.ev(k.value, env)
        if n in ("tell", "fileno", "readable"):
            return ("s", ("tell", v))
        if v == EMPTY:
            if n in SAME_TEXT:
                return EMPTY
            if n in FALSE_TEXT:
                return ("c", False)
            if n in ("startswith", "endswith"):
                a = args[0]
                if a == EMPTY or a[0] == "lst" and EMPTY in a[1]:
                    return ("c", True)
                if a[0] == "c" or a[0] == "lst" and all(x[0] == "c" for x in a[1]):
                    return ("c", False)
                return ("s", ("sw", a))
            if n in ("split", "rsplit"):
                sep = args[0] if args else next((self.ev(k.value, env) for k in e.keywords if k.arg == "sep"), ("c", None))
                return L0 if sep == ("c", None) else ("lst", (EMPTY,))
            if n == "splitlines":
                return L0
            if n in ("partition", "rpartition"):
                return ("lst", (EMPTY, EMPTY, EMPTY))
            if n in ("find", "rfind"):
                return ("c", -1)
            if n == "count":
                return ("c", 0)
            if n in ("index", "rindex"):
                raise Raised("ValueError")
            if n == "join":
                return EMPTY if args and args[0] == L0 else ("s", ("join", tuple(args)))
        if v[0] == "c" and isinstance(v[1], (str, bytes)):
            if n in SAME_TEXT | FALSE_TEXT | {"startswith", "endswith", "split", "rsplit", "partition", "find", "count", "splitlines"}:
                try:
                    r = getattr(v[1], n)(*[self.concrete(a) for a in args])
                    return ("lst", tuple(C(x) for x in r)) if isinstance(r, (list, tuple)) else C(r)
                except Exception:
                    self.exit = True
                    return ("s", ("?", id(e), env["#"]))
            if n == "join":
                if args and args[0] == L0:
                    return EMPTY
                return ("s", ("join", v, tuple(args)))
            if n == "format":
                return ("s", ("format", v, tuple(args)))
        if v[0] == "s" and n in SAME_TEXT | FALSE_TEXT | {"startswith", "endswith", "split", "rsplit", "partition", "splitlines", "find", "count", "tolist", "copy", "keys", "values", "items", "ravel", "flatten"}:
            return ("s", ("m", v, n, tuple(args), env["#"]))
        if n == "get" and args:
            return ("s", ("get", v, tuple(args), env["#"]))
        if n in ("append", "add", "extend", "update", "insert", "setdefault", "clear", "remove"):
            if n == "extend" and args and args[0] in (L0, EMPTY):
                return ("c", None)
            self.bump(env)
            if isinstance(f.value, ast.Name) and v[0] == "lst":
                env[f.value.id] = ("s", ("mut", f.value.id, env["#"]))
            if n == "remove":
                self.exit = True
            return ("c", None)
        self.exit = True
        self.bump(env)
        return ("s", ("?", id(e), env["#"]))

    def numpy(self, n, e, env):
        args = [self.ev(a, env) for a in e.args]
        for k in e.keywords:
            self.ev(k.value, env)
        if n == "fromfile":
            self.reads += 1
            return L0
        if n in ("array", "asarray") and args and args[0] in (L0, EMPTY):
            return L0
        if n == "fromstring" and args and args[0] == EMPTY:
            return L0
        self.exit = True
        return ("s", ("?", id(e), env["#"]))

    def call_func(self, fv, e, args, env):
        node = getattr(fv, "node", None)
        if not isinstance(node, ast.FunctionDef) or self.depth > 6 or node in self.stack or any(isinstance(a, ast.Starred) for a in e.args):
            self.exit = True
            self.bump(env)
            return ("s", ("?", id(e), env["#"]))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            self.exit = True
            return ("s", ("?", id(e), env["#"]))
        a = node.args
        new = {"#": env["#"]}
        names = [p.arg for p in a.posonlyargs + a.args]
        for p, v in zip(names, args):
            new[p] = v
        for k in e.keywords:
            if k.arg:
                new[k.arg] = self.ev(k.value, env)
        for p, d in zip(reversed(names), reversed(a.defaults)):
            if p not in new:
                new[p] = self.ev(d, {"#": 0})
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in new and d is not None:
                new[p.arg] = self.ev(d, {"#": 0})
        sub = EOF(self.I, node._mod.name, self.depth + 1, self.stack + (node,))
        ends = sub.block(node.body, [new])
        self.reads += sub.reads
        self.exit = self.exit or sub.exit
        rets = [env_["$ret"] for env_ in sub.returns] + [("c", None)] * len(ends)
        raised = sub.raised
        self.bump(env)
        if not rets:
            if raised:
                for r in raised[1:]:
                    self.escape(r)
                raise Raised(raised[0])
            raise Raised("?stall")  # the callee never comes back
        for r in raised:
            self.escape(r)
        if all(r == rets[0] for r in rets):
            return rets[0]
        return ("s", ("call", id(e), env["#"]))

    def escape(self, name):
        """an exception that some path raises: remembered for an enclosing try, else an exit"""
        if name == "?stall":
            return
        if self.tries:
            self.tries[-1].append(name)
        else:
            self.raised.append(name)

    # ---- statements --------------------------------------------------------------------
    returns = None

    def block(self, body, envs, loop=None):
        if self.returns is None:
            self.returns, self.raised, self.tries = [], [], []
        for s in body:
            if not envs:
                return []
            out = []
            for env in envs:
                try:
                    out += self.stmt(s, env, loop)
                except Raised as r:
                    self.escape(r.name)
            seen = []
            for x in out:
                if x not in seen:
                    seen.append(x)
            if len(seen) > MAX_ENVS:
                raise Stop()
            envs = seen
        return envs

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            if v == EMPTY:
                v = L0
            if v[0] == "lst" and not star:
                if len(v[1]) != len(t.elts):
                    raise Raised("ValueError")
                for x, y in zip(t.elts, v[1]):
                    self.assign(x, y, env)
                return
            if v[0] != "lst":
                self.exit = self.exit or not (v[0] == "s")
                self.exit = True
            for k, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, ("s", ("item", v, k)), env)
        else:
            if isinstance(t, ast.Subscript):
                self.ev(t.value, env)
                k = self.ev(t.slice, env) if not isinstance(t.slice, ast.Slice) else None
                self.exit = True if isinstance(t.slice, ast.Slice) else self.exit
            self.bump(env)

    def stmt(self, s, env, loop):
        env = dict(env)
        k = type(s).__name__
        if k in ("Pass", "Import", "ImportFrom", "FunctionDef", "Global", "Nonlocal"):
            return [env]
        if k == "Expr":
            self.ev(s.value, env)
            return [env]
        if k == "Assign":
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return [env]
        if k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            return [env]
        if k == "AugAssign":
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.binop(s.op, self.ev(s.target, env), self.ev(s.value, env))
            else:
                self.ev(s.value, env)
                self.bump(env)
            return [env]
        if k == "Return":
            env["$ret"] = self.ev(s.value, env) if s.value is not None else ("c", None)
            self.returns.append(env)
            return []
        if k == "Raise":
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise Raised(n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?")
        if k == "Break":
            loop["breaks"].append(env)
            return []
        if k == "Continue":
            loop["conts"].append(env)
            return []
        if k == "If":
            v = self.ev(s.test, env)
            t = truth(v)
            facts = env.get("$facts", frozenset())
            if t is None and "'tell'" in repr(v):
                return self.block(s.body, [dict(env)], loop) + self.block(s.orelse, [dict(env)], loop)
            if t is None:
                for k, b in facts:
                    if k == v:
                        t = b
            out = []
            if t is not False:
                out += self.block(s.body, [dict(env) if t else dict(env, **{"$facts": facts | {(v, True)}})], loop)
            if t is not True:
                out += self.block(s.orelse, [dict(env) if t is False else dict(env, **{"$facts": facts | {(v, False)}})], loop)
            return out
        if k == "Assert":
            t = truth(self.ev(s.test, env))
            if t is False:
                raise Raised("AssertionError")
            if t is None:
                self.escape("AssertionError")
            return [env]
        if k == "With":
            for w in s.items:
                self.ev(w.context_expr, env)
            return self.block(s.body, [env], loop)
        if k == "Try":
            return self.try_(s, env, loop)
        if k == "For":
            return self.for_(s, env, loop)
        if k == "While":
            return self.inner(s, env)
        if k == "Delete":
            self.bump(env)
            return [env]
        raise Stop()

    PARENT = {"IndexError": {"LookupError"}, "KeyError": {"LookupError"}, "ReadError": set(), "UnicodeDecodeError": {"ValueError"}}

    def try_(self, s, env, loop):
        self.tries.append([])
        saved = self.exit
        self.exit = False
        try:
            ends = self.block(s.body, [dict(env)], loop)
        finally:
            names = self.tries.pop()
        body_exit = self.exit
        self.exit = saved or body_exit
        out = self.block(s.orelse, ends, loop) if s.orelse else ends
        for n in dict.fromkeys(names):
            h = next((h for h in s.handlers if self.catches(h, n)), None)
            if h is None:
                if not s.handlers or n != "?stall":
                    self.escape(n)
                continue
            e = dict(env)
            if h.name:
                e[h.name] = ("s", ("exc", id(h)))
            for t in [x.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]:
                e[t] = ("s", ("mid", t, id(s), env["#"]))
            self.bump(e)
            out = out + self.block(h.body, [e], loop)
        if s.finalbody:
            out = self.block(s.finalbody, out, loop)
        return out

    def catches(self, h, n):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            nm = t.id if isinstance(t, ast.Name) else ast.unparse(t)
            if nm in ("Exception", "BaseException") or nm == n or nm in self.PARENT.get(n, ()):
                return True
        return False

    def for_(self, s, env, loop):
        it = self.ev(s.iter, env)
        sub = {"breaks": [], "conts": []}
        if it in (L0, EMPTY):
            return self.block(s.orelse, [env], loop) if s.orelse else [env]
        if it[0] == "lst" and len(it[1]) <= 4:
            cur = [env]
            for x in it[1]:
                cur2 = []
                for c in cur:
                    c = dict(c)
                    self.assign(s.target, x, c)
                    sub["conts"] = []
                    cur2 += self.block(s.body, [c], sub) + sub["conts"]
                cur = cur2
            if s.orelse:
                cur = self.block(s.orelse, cur, loop)
            return cur + sub["breaks"]
        # unknown number of rounds: none, one, or two
        cur = [env]
        total = [env]
        for r in range(2):
            nxt = []
            for c in cur:
                c = dict(c)
                self.assign(s.target, ("s", ("elem", id(s), r)), c)
                sub["conts"] = []
                nxt += self.block(s.body, [c], sub) + sub["conts"]
            total += nxt
            cur = nxt
        if s.orelse:
            total = self.block(s.orelse, total, loop)
        if len(total) > MAX_ENVS:
            raise Stop()
        return total + sub["breaks"]

    def inner(self, s, env):
        """a loop inside the analysed one: the states in which it is left"""
        out, cur = [], [env]
        for r in range(ROUNDS):
            sub = {"breaks": [], "conts": []}
            nxt = []
            for c in cur:
                c = dict(c)
                t = truth(self.ev(s.test, c))
                if t is not True:
                    out.append(dict(c))
                if t is not False:
                    nxt += self.block(s.body, [c], sub)
            out += sub["breaks"]
            nxt += sub["conts"]
            cur = []
            for x in nxt:
                if x not in cur and x not in out:
                    cur.append(x)
            if not cur:
                break
            if len(cur) + len(out) > MAX_ENVS:
                raise Stop()
        if cur and out:
            out.append(cur[0])
        if s.orelse:
            out = self.block(s.orelse, out, None)
        return out


def enclosing_tries(loop_node):
    return ()


def stalls(I, loop, env0):
    """None if the loop may end (or is not understood) once the input is exhausted; otherwise the reason why it cannot."""
    mod = loop._mod.name
    cur = [dict(env0, **{"#": 0})]
    assumed = set()
    reads = 0
    try:
        for r in range(ROUNDS):
            a = EOF(I, mod)
            a.returns, a.raised, a.tries = [], [], []
            sub = {"breaks": [], "conts": []}
            nxt, left = [], False
            for c in cur:
                c = dict(c)
                try:
                    v = a.ev(loop.test, c)
                except Raised as x:
                    a.escape(x.name)
                    continue
                t = truth(v)
                if t is None and r > 0 and v in assumed:
                    t = True
                if t is not True:
                    if r > 0:
                        left = True
                    assumed.add(v)
                if t is not False:
                    nxt += a.block(loop.body, [c], sub)
            reads += a.reads
            left = left or a.exit or bool(a.returns) or bool(sub["breaks"]) or any(x != "?stall" for x in a.raised)
            if r > 0 and left:
                return None
            cur = []
            for x in nxt + sub["conts"]:
                if x not in cur:
                    cur.append(x)
            if not cur:
                return None
            if len(cur) > MAX_ENVS:
                return None
        return (reads, "no path of a later iteration leaves the loop once the input is exhausted")
    except Stop:
        return None
