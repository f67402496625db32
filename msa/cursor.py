"""Consecutive pieces of flat arrays: a position that is carried from one round of a loop to the next must advance by exactly what the round has taken.

A round of each loop is followed once with linear forms over the values at its start.  For a carried position c and an array read at
c + a .. c + b, the next round's first piece must begin where this round's last piece ended: step + a == b.
"""
import ast


def lin_add(x, y, k=1):
    if x is None or y is None:
        return None
    r = dict(x)
    for a, c in y.items():
        r[a] = r.get(a, 0) + k * c
        if not r[a]:
            del r[a]
    return r


def lin_mul(x, y):
    if x is None or y is None:
        return None
    r = {}
    for a, c in x.items():
        for b, d in y.items():
            r = lin_add(r, {TIMES.join(sorted([*a.split(TIMES), *b.split(TIMES)] if a and b else (a or b).split(TIMES))): c * d})
    return r


TIMES = "\u2297"


def shifted(f, at, new):
    """f with the position ``at`` replaced by the form ``new``; None when it is not followed."""
    r = {}
    for k, c in f.items():
        parts = k.split(TIMES)
        t = {"": c}
        for p in parts:
            t = lin_mul(t, new if p == at else {p: 1})
        r = lin_add(r, t)
    return r


class Round:
    def __init__(self):
        self.env = {}
        self.reads = []  # (base text, lower, upper, is slice, node)
        self.cond = set()  # names assigned under a condition or in an inner loop
        self.n = 0

    def fresh(self):
        self.n += 1
        return {f"?{self.n}": 1}

    def name(self, n):
        return self.env.get(n) if n in self.env else {f"{n}@0": 1}

    def lin(self, e):
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return {"": e.value} if e.value else {}
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return lin_add({}, self.lin(e.operand), -1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            return lin_add(self.lin(e.left), self.lin(e.right), 1 if isinstance(e.op, ast.Add) else -1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            return lin_mul(self.lin(e.left), self.lin(e.right))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and len(e.args) == 1 and not e.keywords:
            return self.lin(e.args[0])
        # anything else: the same text over the same values is the same number
        names = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)})
        return {ast.unparse(e) + "|" + ",".join(f"{n}={sorted(self.name(n).items())}" for n in names): 1}

    def expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                s = n.slice
                b = ast.unparse(n.value)
                if isinstance(s, ast.Slice):
                    if s.step is None and s.lower is not None and s.upper is not None:
                        self.reads.append((b, self.lin(s.lower), self.lin(s.upper), True, n))
                elif not isinstance(s, ast.Tuple):
                    lo = self.lin(s)
                    self.reads.append((b, lo, lin_add(lo, {"": 1}), False, n))

    def block(self, body, inner=False):
        """Follow the statements; False when a path leaves the round early (then what follows is conditional)."""
        for s in body:
            if isinstance(s, ast.Assign):
                self.expr(s.value)
                for t in s.targets:
                    self.store(t, s.value)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.expr(s.value)
                    self.store(s.target, s.value)
            elif isinstance(s, ast.AugAssign):
                self.expr(s.value)
                if isinstance(s.target, ast.Name):
                    k = 1 if isinstance(s.op, ast.Add) else -1 if isinstance(s.op, ast.Sub) else None
                    self.env[s.target.id] = lin_add(self.name(s.target.id), self.lin(s.value), k) if k else self.fresh()
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                for e in (getattr(s, "test", None), getattr(s, "iter", None)):
                    if e is not None:
                        self.expr(e)
                parts = [getattr(s, f, []) for f in ("body", "orelse", "finalbody")] + [h.body for h in getattr(s, "handlers", [])]
                before, touched = dict(self.env), set()
                if isinstance(s, ast.For):
                    touched |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                if isinstance(s, ast.With):
                    for i in s.items:
                        self.expr(i.context_expr)
                        if i.optional_vars is not None:
                            touched |= {x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
                if isinstance(s, (ast.For, ast.While)):
                    touched |= {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    for t in touched:
                        before[t] = self.fresh()
                else:
                    for t in touched:
                        before[t] = self.fresh()
                ends = []
                for p in parts:
                    self.env = dict(before)
                    self.block(p, True)
                    if not (p and isinstance(p[-1], (ast.Raise, ast.Return, ast.Break))):
                        ends.append(self.env)
                self.env = dict(before)
                keys = {k for e in ends for k in e}
                for k in keys:
                    vs = [e.get(k, {f"{k}@0": 1}) for e in ends]
                    old = before.get(k, {f"{k}@0": 1})
                    if isinstance(s, (ast.For, ast.While)) or any(v != vs[0] for v in vs[1:]):
                        if any(v != old for v in vs):
                            self.env[k] = self.fresh()
                    elif vs:
                        self.env[k] = vs[0]
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal)):
                if isinstance(s, ast.Continue):
                    self.cond.add("continue")
            else:
                self.expr(s)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        self.env[x.id] = self.fresh()

    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = self.lin(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                vals = [self.lin(x) for x in v.elts]
                for x, y in zip(t.elts, vals):
                    if isinstance(x, ast.Name):
                        self.env[x.id] = y
            else:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.env[x.id] = self.fresh()


def show(f):
    t = " + ".join(([k.split("|")[0].replace("@0", "") if c == 1 else f"{c}*{k.split('|')[0].replace('@0', '')}" for k, c in f.items() if k] + ([str(f[""])] if f.get("") else [])))
    return t or "0"


def counted(t, it):
    """The names that count the rounds of ``for t in it`` up by one."""
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == "range" and len(it.args) <= 2 and isinstance(t, ast.Name):
            return [t.id]
        if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
            return [t.elts[0].id]
    return []


def scaled(R, c, new, at=None):
    """Pieces of fixed length: the k-th round takes b[lower(k) : upper(k)] with bounds that are products of k."""
    at = at or f"{c}@0"
    step = lin_add(new, {at: 1}, -1)
    if set(step) != {""}:
        return
    seen = set()
    for b, lo, hi, sl, n in R.reads:
        if not sl or lo is None or hi is None or any(k.startswith("?") for f in (lo, hi) for k in f):
            continue
        mine = [k for k in lo if TIMES in k and at in k.split(TIMES)]
        if not mine or b in seen or any("|" in k and f"'{at}'" in k for f in (lo, hi) for k in f):
            continue
        seen.add(b)
        gap = lin_add(shifted(lo, at, new), hi, -1)
        if not gap:
            yield True, n.lineno, f"{b}: the piece of the next {c} begins where this one ends"
        elif set(gap) == {""}:
            yield False, n.lineno, f"each round takes {b} up to {show(hi)}, the next one from {show(shifted(lo, at, new))} on"
        else:
            yield None, n.lineno, f"{b}[{show(lo)} : {show(hi)}]"


def pairs(L):
    """Pieces between given boundaries: for start, end in ...; what is end - start long must begin at start."""
    t = L.target
    if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Tuple):
        t = t.elts[1]
    if not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts)):
        return
    s, e = (x.id for x in t.elts)
    body = [x for b in L.body for x in ast.walk(b)]
    if any(isinstance(x, ast.Name) and x.id in (s, e) and isinstance(x.ctx, ast.Store) for x in body):
        return
    kept = {x.id for x in body if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    changed = kept - {y.id for x in body if isinstance(x, ast.For) and not ({z.id for z in ast.walk(x.iter) if isinstance(z, ast.Name)} & kept) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    filled = {x.value.id for x in body if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
    R = Round()
    cuts = []
    for x in body:
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Slice) and x.slice.step is None and x.slice.upper is not None:
            names = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
            cuts.append((x, {} if x.slice.lower is None else R.lin(x.slice.lower), R.lin(x.slice.upper), not names & (changed | filled)))
    S, E = {f"{s}@0": 1}, {f"{e}@0": 1}
    if not any(lo == S and hi == E for _, lo, hi, _ in cuts):
        return
    for x, lo, hi, same in cuts:
        if same and lin_add(hi, lo, -1) == lin_add(E, S, -1):
            b = ast.unparse(x.value)
            yield (True, x.lineno, f"{b}: cut at the given boundaries") if lo == S else (False, x.lineno, f"{b} is cut from {show(lo)} to {show(hi)}, the piece lies between {s} and {e}")


JOIN = {"concatenate", "vstack", "hstack", "row_stack", "r_"}


def joined(fn):
    """Pieces are put together completely and in the order in which they were collected."""
    grown = {x.func.value.id for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name)}
    once = {}
    for x in ast.walk(fn):
        for t, v in ([(x.targets[0], x.value)] if isinstance(x, ast.Assign) and len(x.targets) == 1 else []):
            if isinstance(t, ast.Name):
                once.setdefault(t.id, []).append(v)
    for x in ast.walk(fn):
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in JOIN and isinstance(x.func.value, ast.Name) and x.func.value.id in ("np", "numpy") and x.args):
            continue
        a = x.args[0]
        for _ in range(4):
            if isinstance(a, ast.Name) and a.id not in grown and len(once.get(a.id, [])) == 1:
                a = once[a.id][0]
            elif isinstance(a, (ast.ListComp, ast.GeneratorExp)) and len(a.generators) == 1 and not a.generators[0].ifs:
                a = a.generators[0].iter
            elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("list", "tuple") and len(a.args) == 1:
                a = a.args[0]
            else:
                break
        if isinstance(a, (ast.List, ast.Tuple)):
            continue
        src = ast.unparse(a)
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("reversed", "sorted"):
            yield False, x.lineno, f"the pieces are joined in another order than they were collected in ({src})"
        elif isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
            sl = a.slice
            neg = isinstance(sl.step, ast.UnaryOp) and isinstance(sl.step.op, ast.USub)
            listy = isinstance(a.value, ast.Name) and a.value.id in grown or isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == "list"
            if listy and neg:
                yield False, x.lineno, f"the pieces are joined in another order than they were collected in ({src})"
            elif listy and sl.step is None and sl.lower is None and sl.upper is not None:
                yield False, x.lineno, f"only some of the collected pieces are joined ({src})"
        elif isinstance(a, ast.Name) and a.id in grown:
            yield True, x.lineno, f"all pieces of {a.id} are joined in order"


def elsewhere(L, c):
    """Is the position used other than to select pieces and to advance?"""
    own = set()
    for n in ast.walk(L):
        if isinstance(n, ast.Subscript):
            own |= {id(x) for x in ast.walk(n.slice)}
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.value, (ast.BinOp, ast.Name)):
            own |= {id(x) for x in ast.walk(n.value)} - {id(y) for x in ast.walk(n.value) if isinstance(x, ast.Call) for y in ast.walk(x)}
        elif isinstance(n, (ast.While, ast.If)):
            own |= {id(x) for x in ast.walk(n.test)}
    return any(isinstance(n, ast.Name) and n.id == c and isinstance(n.ctx, ast.Load) and id(n) not in own for n in ast.walk(L))


def loops(fn):
    """(verdict, line, message) for every carried position in the loops of a function."""
    for L in ast.walk(fn):
        if isinstance(L, (ast.ListComp, ast.GeneratorExp)) and len(L.generators) == 1:
            for c in counted(L.generators[0].target, L.generators[0].iter):
                R = Round()
                R.env[c] = {f"{c}*": 1}
                R.expr(L.elt)
                yield from scaled(R, c, {f"{c}*": 1, "": 1}, f"{c}*")
        if not isinstance(L, (ast.For, ast.While)):
            continue
        R = Round()
        if isinstance(L, ast.While):
            R.expr(L.test)
        if isinstance(L, ast.For):
            for x in ast.walk(L.target):
                if isinstance(x, ast.Name):
                    R.env[x.id] = {f"{x.id}*": 1}
        R.block(L.body)
        target = {x.id for x in ast.walk(L.target) if isinstance(x, ast.Name)} if isinstance(L, ast.For) else set()
        if isinstance(L, ast.For):
            yield from pairs(L)
            for c in counted(L.target, L.iter):
                yield from scaled(R, c, {f"{c}*": 1, "": 1}, f"{c}*")
        stored = {x.id for b in L.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for c in sorted(stored - target):
            new, at = R.env.get(c), f"{c}@0"
            if new is None or new == {at: 1}:
                continue
            yield from scaled(R, c, new)
            by = {}
            for b, lo, hi, sl, n in R.reads:
                if lo is not None and hi is not None and lo.get(at) == 1 and hi.get(at) == 1:
                    by.setdefault(b, []).append((lin_add(lo, {at: 1}, -1), lin_add(hi, {at: 1}, -1), sl, n))
            for b, rs in by.items():
                if not any(sl for _, _, sl, _ in rs):
                    continue
                line = rs[0][3].lineno
                uppers = [hi for _, hi, sl, _ in rs if sl]
                lowers = [lo for lo, _, _, _ in rs]
                if "continue" in R.cond:
                    yield None, line, f"{b}[{c}...]: rounds may end early"
                    continue
                if any(k.startswith("?") for k in new):
                    yield None, line, f"{b}[{c}...]: the next {c} is not followed"
                    continue
                others = {k for k in new if k.endswith("@0") and k != at and k[:-2] in stored} | {k for k in new if k and not k.endswith("@0") and any(f"'{s}@0'" in k for s in stored)}
                if new.get(at, 0) != 1:
                    if any(new == lin_add(hi, {at: 1}) for hi in uppers):
                        yield True, line, f"{b}: the next piece begins where the last ended"
                    elif new.get(at, 0) == 0 and not others and new and set(new) != {""}:
                        yield False, line, f"the pieces of {b} are taken from {c} on, but {c} is set to {show(new)} instead of advancing"
                    else:
                        yield None, line, f"{b}[{c}...]: {c} becomes {show(new)}"
                    continue
                step = lin_add(new, {at: 1}, -1)
                diffs = [lin_add(lin_add(step, lo), hi, -1) for lo in lowers for hi in uppers]
                if any(not d for d in diffs):
                    yield True, line, f"{b}: each piece begins where the last ended (step {show(step)})"
                elif elsewhere(L, c):
                    yield None, line, f"{b}[{c}...]: {c} is handed on"
                elif all(set(d) == {""} for d in diffs):
                    yield False, line, f"each round takes {b} up to {c} + {show(uppers[-1])}, but {c} advances by {show(step)}"
                else:
                    yield None, line, f"{b}[{c}...]: step {show(step)}"
