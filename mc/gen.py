"""Reference model: polynomial (jump-)diffusions explored as a transition system.

A *state* is a monomial in the process variables; the *transitions* out of a
state are the monomials its infinitesimal generator maps it to, each with an
exact coefficient.  For every model of the package this graph is finite below
any target monomial and triangular, so a depth-first exploration solves the
moment ODE  d/dt E[m] = sum_edges c E[m']  exactly, in closed form, over
Laurent polynomials in the model parameters, t and e^{kt}.
"""
from fractions import Fraction as F
from math import comb, factorial

from lp import Ring, add, iadd, mul, scale, power, shift, sub, BITS, HALF


def normal_moment(R, n, mu, sig):
    """E[N(mu, sig^2)^n]; mu, sig ring elements."""
    r = {}
    for i in range(0, n + 1, 2):
        c = comb(n, i) * factorial(i) // (2 ** (i // 2) * factorial(i // 2))
        iadd(r, scale(mul(power(mu, n - i), power(sig, i)), c))
    return r


class Clock:
    """Time symbols of a ring: t and one exponential symbol per rate.

    rates: {symbol name: rate}, rate is the name of a ring symbol (symbolic
    decay rate) or a Fraction (numeric decay rate)."""

    def __init__(self, R, tname, rates):
        self.R, self.tname, self.rates = R, tname, dict(rates)
        self.tu = R.unit[tname]
        self.symbolic = [r for r in self.rates.values() if isinstance(r, str)]
        self._ints = {}

    def split(self, e):
        """exponent -> (exponents of exponentials, power of t, rest)"""
        R = self.R
        ex = R.unpack(e)
        j = ex[R.idx[self.tname]]
        rest = e - j * self.tu
        es = []
        for s in self.rates:
            a = ex[R.idx[s]]
            es.append(a)
            rest -= a * R.unit[s]
        return tuple(es), j, rest

    def integral(self, es, j):
        """int_0^t s^j prod exp(es_i rate_i s) ds, as a ring element"""
        key = (es, j)
        if key in self._ints:
            return self._ints[key]
        R = self.R
        if not any(es):
            r = {self.tu * (j + 1): F(1, j + 1)}
        else:
            rs = list(self.rates.items())
            eexp = sum(R.unit[s] * a for (s, _), a in zip(rs, es))
            if self.symbolic:
                (s, rate), a = rs[0], es[0]
                inv, c = -R.unit[rate], F(1, a)
            else:
                c = sum(a * r for (_, r), a in zip(rs, es))
                inv = 0
                if c == 0:      # resonant rates: the exponential is constant 1
                    r = {eexp + self.tu * (j + 1): F(1, j + 1)}
                    self._ints[key] = r
                    return r
                c = 1 / c
            # e^{cs} s^j/c - j/c int e^{cs}s^{j-1}
            r = {}
            coef, ip = c, inv
            for i in range(j + 1):
                r[eexp + self.tu * (j - i) + ip] = coef
                if i < j:
                    coef = -coef * (j - i) * c
                    ip += inv
            # minus value at s = 0
            iadd(r, {ip: -coef})
        self._ints[key] = r
        return r

    def integrate(self, p):
        out = {}
        for e, v in p.items():
            es, j, rest = self.split(e)
            for e2, v2 in self.integral(es, j).items():
                k = rest + e2
                w = out.get(k)
                out[k] = v * v2 if w is None else w + v * v2
        return {e: v for e, v in out.items() if v}


class System:
    """gen(mono) -> (rate exponents tuple, [(coef ring element, mono)])"""

    def __init__(self, R, clock, gen, init):
        self.R, self.clock, self.gen, self.init = R, clock, gen, init
        self.memo = {}
        self.transitions = 0

    def moment(self, m):
        if m in self.memo:
            return self.memo[m]
        R = self.R
        rate, edges = self.gen(m)
        self.transitions += len(edges)
        eu = sum(R.unit[s] * a for s, a in zip(self.clock.rates, rate))
        force = {}
        for c, m2 in edges:
            if c:
                iadd(force, mul(c, self.moment(m2)))
        val = self.clock.integrate(shift(force, -eu))
        val = shift(add(val, self.init(m)), eu)
        self.memo[m] = val
        return val

    @property
    def states(self):
        return len(self.memo)


class Edges:
    """accumulator of generator edges"""

    def __init__(self):
        self.d = {}

    def add(self, coef, mono):
        if not coef or min(mono) < 0:
            return
        if mono in self.d:
            iadd(self.d[mono], coef)
        else:
            self.d[mono] = dict(coef)

    def items(self):
        return [(c, m) for m, c in self.d.items()]


def evaluate_time(R, p, tname, enames, t_to, e_to):
    """substitute t -> ring element, each exponential symbol -> monomial
    (packed exponent); used to chain intervals."""
    out = {}
    pows = {}
    for e, v in p.items():
        ex = R.unpack(e)
        j = ex[R.idx[tname]]
        rest = e - j * R.unit[tname]
        for s in enames:
            a = ex[R.idx[s]]
            rest += a * (e_to[s] - R.unit[s])
        if j not in pows:
            pows[j] = power(t_to, j)
        for e2, v2 in pows[j].items():
            k = rest + e2
            w = out.get(k)
            out[k] = v * v2 if w is None else w + v * v2
    return {e: v for e, v in out.items() if v}
