"""Hand-written loop counters are read as the enumerate() or range() loops they stand for."""
import ast


def names(nodes, ctx):
    out = set()
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ctx):
                out.add(n.id)
    return out


def one_more(s, name=None):
    """Name of the counter when the statement is `i += 1` or `i = i + 1`."""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and s.value.value == 1 and type(s.value.value) is int:
        return s.target.id
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        i = s.targets[0].id
        for a, b in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
            if isinstance(a, ast.Name) and a.id == i and isinstance(b, ast.Constant) and b.value == 1 and type(b.value) is int:
                return i
    return None


def own_continue(body):
    """Does a continue in these statements belong to the loop around them?"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.AsyncFor)):
            if own_continue(s.orelse if isinstance(s, (ast.For, ast.While)) else []):
                return True
            continue
        for f in ("body", "orelse", "finalbody", "handlers"):
            b = getattr(s, f, None) or []
            if own_continue([y for h in b for y in h.body] if f == "handlers" else b):
                return True
    return False


def read_later(fn, loop, name, block, at):
    """May the counter be read after the loop, before it is set again?"""
    for s in block[at + 1:]:
        if isinstance(s, ast.Assign) and name not in names([s.value], ast.Load) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return False
        if isinstance(s, ast.For) and name in names([s.target], ast.Store) and name not in names([s.iter], ast.Load) | names(s.orelse, ast.Load):
            # set by a loop that may run zero times: only its body reads it
            if name in names(block[block.index(s) + 1:], ast.Load):
                return True
            break
        if name in names([s], ast.Load) or any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name for n in ast.walk(s)):
            return True
    # what follows the enclosing blocks, or precedes it in an enclosing loop, starts with its own initialisation only when this block does
    inside = {id(n) for n in ast.walk(loop)}
    blk = {id(n) for s in block for n in ast.walk(s)}
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside and id(n) not in blk for n in ast.walk(fn))


def bound_ok(e, body):
    """The bound does not change while the loop runs."""
    st = names(body, ast.Store)
    if isinstance(e, ast.Constant):
        return type(e.value) is int
    if isinstance(e, ast.Name):
        return e.id not in st
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords:
        x = e.args[0]
        t = ast.unparse(x)
        if names([x], ast.Load) & st or not isinstance(x, (ast.Name, ast.Attribute)):
            return False
        return not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == t for s in body for n in ast.walk(s)) and not any(
            isinstance(n, (ast.AugAssign, ast.Delete)) and t in ast.unparse(n) for s in body for n in ast.walk(s))
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
        return not names([e], ast.Load) & st
    return False


def block(fn, b):
    out = list(b)
    for j, s in enumerate(b):
        if not isinstance(s, (ast.For, ast.While)) or s.orelse or not s.body:
            continue
        i = one_more(s.body[-1])
        if i is None or len(s.body) < 2 or own_continue(s.body) or i in names(s.body[:-1], (ast.Store, ast.Del)):
            continue
        # initialised before, in the same block, and untouched in between
        k = next((k for k in range(j - 1, -1, -1) if i in names([b[k]], (ast.Store, ast.Del))), None)
        if k is None or not (isinstance(b[k], ast.Assign) and len(b[k].targets) == 1 and isinstance(b[k].targets[0], ast.Name) and isinstance(b[k].value, ast.Constant) and type(b[k].value.value) is int):
            continue
        start = b[k].value
        if any(i in names([x], ast.Load) for x in b[k + 1:j]) or read_later(fn, s, i, b, j):
            continue
        if isinstance(s, ast.For):
            if i in names([s.target], ast.Store) or i in names([s.iter], ast.Load):
                continue
            call = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter] + ([start] if start.value else []), [])
            new = ast.For(ast.Tuple([ast.Name(i, ast.Store()), s.target], ast.Store()), call, s.body[:-1], [])
        else:
            t = s.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                continue
            a, o, c = t.left, t.ops[0], t.comparators[0]
            if isinstance(o, ast.Gt):
                a, o, c = c, ast.Lt(), a
            if not (isinstance(o, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name) and a.id == i and bound_ok(c, s.body[:-1])) or isinstance(o, ast.NotEq):
                continue
            args = [c] if not start.value else [start, c]
            new = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), s.body[:-1], [])
        ast.copy_location(new, s)
        for n in ast.walk(new):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, s)
        out[j] = new
        b = list(out)
    return out


def case_test(p, subj):
    """The pattern as a test; True for a pattern that always matches, None if it is not a plain one."""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchOr):
        ts = [case_test(x, subj) for x in p.patterns]
        if any(t is None or t is True for t in ts):
            return None
        if all(isinstance(t.ops[0], ast.Eq) for t in ts):
            return ast.Compare(subj, [ast.In()], [ast.Tuple([t.comparators[0] for t in ts], ast.Load())])
        return ast.BoolOp(ast.Or(), ts)
    if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
        return True
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])
    return None


class MatchIf(ast.NodeTransformer):
    """`match` over plain patterns is an if chain."""

    def visit_Match(self, s):
        self.generic_visit(s)
        pre = []
        subj = s.subject
        if not isinstance(subj, (ast.Name, ast.Attribute, ast.Constant)):
            name = f"_match{s.lineno}"
            pre.append(ast.Assign([ast.Name(name, ast.Store())], subj))
            subj = ast.Name(name, ast.Load())
        chain = []
        for c in s.cases:
            t = case_test(c.pattern, subj)
            if t is None:
                return s
            if c.guard is not None:
                t = c.guard if t is True else ast.BoolOp(ast.And(), [t, c.guard])
            chain.append((t, c.body))
            if t is True:
                break
        out = []
        for t, body in reversed(chain):
            out = body if t is True else [ast.If(t, body, out)]
        new = pre + out
        for x in new:
            for n in ast.walk(x):
                if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, "lineno"):
                    ast.copy_location(n, s)
            ast.fix_missing_locations(x)
        return new


def desugar(tree):
    tree = MatchIf().visit(tree)
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
            continue
        # innermost blocks first
        for n in reversed(list(ast.walk(fn))):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and any(isinstance(x, (ast.For, ast.While)) for x in b):
                    setattr(n, f, block(fn, b))
    return tree
