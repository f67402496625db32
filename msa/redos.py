"""Exponential ambiguity of regular expressions (EDA): some text can be matched in exponentially many ways, so a failing match never ends in practice."""
from __future__ import annotations

import re
import warnings

try:
    from re import _constants as sc
    from re import _parser as sp
except ImportError:  # older Python
    import sre_constants as sc
    import sre_parse as sp

FULL = (1 << 256) - 1


class GiveUp(Exception):
    pass


def charset(op, av):
    if op is sc.LITERAL:
        return 1 << av if av < 256 else 1 << 255
    if op is sc.NOT_LITERAL:
        return FULL & ~(1 << av)
    if op is sc.ANY:
        return FULL & ~(1 << 10)
    if op is sc.IN:
        neg, out = False, 0
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out |= 1 << min(a, 255)
            elif o is sc.RANGE:
                for c in range(a[0], min(a[1], 255) + 1):
                    out |= 1 << c
            elif o is sc.CATEGORY:
                out |= category(a)
            else:
                raise GiveUp(str(o))
        return FULL & ~out if neg else out
    raise GiveUp(str(op))


def category(a):
    n = str(a)
    pat = {"DIGIT": r"\d", "SPACE": r"\s", "WORD": r"\w"}
    for k, p in pat.items():
        if n.endswith("NOT_" + k):
            p = p.upper()
        elif not n.endswith(k):
            continue
        return sum(1 << c for c in range(256) if re.match(p, chr(c)))
    raise GiveUp(n)


class NFA:
    def __init__(self, pattern):
        self.eps, self.chars = [], []
        self.start = self.new()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.end = self.seq(sp.parse(pattern), self.start)

    def new(self):
        self.eps.append([])
        self.chars.append(None)
        if len(self.eps) > 4000:
            raise GiveUp("too large")
        return len(self.eps) - 1

    def seq(self, items, s):
        for op, av in items:
            s = self.item(op, av, s)
        return s

    def item(self, op, av, s):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            a, b = self.new(), self.new()
            self.eps[s].append(a)
            self.chars[a] = (charset(op, av), b)
            return b
        if op is sc.SUBPATTERN:
            return self.seq(av[-1], s)
        if op is sc.BRANCH:
            out = self.new()
            for alt in av[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.seq(alt, a)].append(out)
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            for _ in range(min(lo, 30)):
                s = self.seq(body, s)
            if hi is sc.MAXREPEAT:
                head, out = self.new(), self.new()
                self.eps[s].append(head)
                self.eps[head].append(out)
                a = self.new()
                self.eps[head].append(a)
                self.eps[self.seq(body, a)].append(head)
                return out
            out = self.new()
            for _ in range(min(hi - lo, 30)):
                self.eps[s].append(out)
                a = self.new()
                self.eps[s].append(a)
                s = self.seq(body, a)
            self.eps[s].append(out)
            return out
        if op is sc.AT:
            return s
        raise GiveUp(str(op))

    def paths(self, s):
        """{char state: number of simple epsilon paths, at most 2}"""
        out = {}

        def walk(n, seen):
            if self.chars[n] is not None:
                out[n] = min(2, out.get(n, 0) + 1)
            for m in self.eps[n]:
                if (n, m) not in seen and not (m in out and out[m] > 1):
                    walk(m, seen | {(n, m)})

        walk(s, frozenset())
        return out


def scc(succ, roots):
    """iterative Tarjan; {node: component}"""
    index, low, comp, stack, onst = {}, {}, {}, [], set()
    n = 0
    for r in roots:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = len(index)
        stack.append(r)
        onst.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp[w] = n
                        if w == v:
                            break
                    n += 1
        if len(index) > 400000:
            raise GiveUp("too large")
    return comp


def exponential(pattern):
    """True/False, or None when the pattern is not understood."""
    if isinstance(pattern, bytes):
        pattern = pattern.decode("latin-1")
    try:
        a = NFA(pattern)
        nxt = {}
        todo = list(a.paths(a.start))
        while todo:
            q = todo.pop()
            if q in nxt:
                continue
            nxt[q] = a.paths(a.chars[q][1])
            todo += list(nxt[q])
        comp1 = scc(lambda q: nxt[q], list(nxt))
        for q, m in nxt.items():
            for r, k in m.items():
                if k > 1 and comp1[r] == comp1[q]:
                    return True

        def succ(pq):
            p, q = pq
            if not a.chars[p][0] & a.chars[q][0]:
                return []
            return [(x, y) for x in nxt[p] for y in nxt[q] if a.chars[x][0] & a.chars[y][0]]

        loops = [q for q in nxt if any(comp1[r] == comp1[q] for r in nxt[q])]
        comp = scc(succ, [(q, q) for q in loops])
        diag = {comp[v] for v in comp if v[0] == v[1]}
        return any(v[0] != v[1] and c in diag for v, c in comp.items())
    except (GiveUp, RecursionError, re.error, AttributeError):
        return None
