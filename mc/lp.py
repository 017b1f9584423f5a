"""Sparse Laurent polynomials with exact rational coefficients.

A ring is a list of symbol names.  An element is a dict ``packed exponent ->
Fraction`` where the packed exponent stores one signed field per symbol, so
that multiplying monomials is adding integers.  Used as the value domain of
the reference models: two elements are equal iff they are the same function
(the symbols are algebraically independent), so equality decides an identity
for *every* value of the parameters.
"""
from fractions import Fraction as F

BITS = 16
HALF = 1 << (BITS - 1)


class Ring:
    def __init__(self, names):
        self.names = list(names)
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.unit = {n: 1 << (BITS * i) for i, n in enumerate(self.names)}

    def one(self):
        return {0: F(1)}

    def const(self, c):
        c = F(c)
        return {0: c} if c else {}

    def sym(self, name, power=1):
        return {self.unit[name] * power: F(1)}

    def mono(self, **kw):
        return {sum(self.unit[n] * p for n, p in kw.items()): F(1)}

    def unpack(self, e):
        out = []
        for _ in self.names:
            r = ((e + HALF) & ((1 << BITS) - 1)) - HALF
            out.append(r)
            e = (e - r) >> BITS
        return tuple(out)

    def show(self, p, limit=6):
        parts = []
        for e in sorted(p)[:limit]:
            ex = self.unpack(e)
            m = '*'.join(f"{n}^{x}" if x != 1 else n
                         for n, x in zip(self.names, ex) if x)
            parts.append(f"{p[e]}" + (f"*{m}" if m else ''))
        if len(p) > limit:
            parts.append(f"... ({len(p)} terms)")
        return ' + '.join(parts) if parts else '0'


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    iadd(r, q)
    return r


def iadd(r, q, c=1):
    for e, v in q.items():
        if c != 1:
            v = v * c
        w = r.get(e)
        if w is None:
            r[e] = v
        else:
            w = w + v
            if w:
                r[e] = w
            else:
                del r[e]
    return r


def sub(p, q):
    r = dict(p)
    iadd(r, q, -1)
    return r


def scale(p, c):
    c = F(c)
    if not c:
        return {}
    return {e: v * c for e, v in p.items()}


def mul(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = {}
    get = r.get
    for e2, v2 in q.items():
        for e1, v1 in p.items():
            e = e1 + e2
            w = get(e)
            r[e] = v1 * v2 if w is None else w + v1 * v2
    return {e: v for e, v in r.items() if v}


def power(p, n):
    r = {0: F(1)}
    for _ in range(n):
        r = mul(r, p)
    return r


def shift(p, e):
    return {k + e: v for k, v in p.items()}
