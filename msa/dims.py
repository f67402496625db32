"""Symbolic sizes: polynomials with integer coefficients over the caller's sizes (np points, nc<k> cells of block k, ...).

A size is an int or a canonical string such as "nc0+3*nc1+2".
"""
from __future__ import annotations

import functools
import re

POSITIVE = re.compile(r"(np|nc\d+|nn\d+)\Z")


@functools.lru_cache(maxsize=None)
def parse(d):
    """frozenset of (monomial, coefficient) items as a dict; None when not a size."""
    if isinstance(d, bool):
        return None
    if isinstance(d, int):
        return {(): d} if d else {}
    if not isinstance(d, str) or not d:
        return None
    out = {}
    for t in d.split("+"):
        c, mono = 1, []
        for f in t.split("*"):
            if re.fullmatch(r"-?\d+", f):
                c *= int(f)
            else:
                mono.append(f)
        m = tuple(sorted(mono))
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def fmt(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    if len(p) > 16 or any(len(m) > 3 for m in p):
        return None
    out = []
    for m in sorted(p, key=lambda m: (not m, m)):
        c = p[m]
        out.append(str(c) if not m else "*".join(([] if c == 1 else [str(c)]) + list(m)))
    return "+".join(out)


def add(a, b, sign=1):
    x, y = parse(a), parse(b)
    if x is None or y is None:
        return None
    r = dict(x)
    for m, c in y.items():
        r[m] = r.get(m, 0) + sign * c
    return fmt(r)


def mul(a, b):
    x, y = parse(a), parse(b)
    if x is None or y is None:
        return None
    r = {}
    for m, c in x.items():
        for n, d in y.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return fmt(r)


def floordiv(a, b):
    """Exact quotient by a positive integer only."""
    x = parse(a)
    if x is None or type(b) is not int or b <= 0 or any(c % b for c in x.values()):
        return None
    return fmt({m: c // b for m, c in x.items()})


def total(ds):
    r = 0
    for d in ds:
        r = add(r, d)
        if r is None:
            return None
    return r


def product(ds):
    r = 1
    for d in ds:
        r = mul(r, d) if d is not None else None
        if r is None:
            return None
    return r


@functools.lru_cache(maxsize=None)
def positive(d):
    """At least 1 whenever every point array and cell block is non-empty."""
    p = parse(d)
    if not p or any(c < 0 for c in p.values()):
        return False
    return any(all(POSITIVE.match(a) for a in m) for m in p)
