"""Reference models: two-factor volatility (numeric k1, k2; rest symbolic)."""
from fractions import Fraction as F
from math import comb

from lp import Ring, add, iadd, mul, scale, power, shift, sub
from gen import Clock, System, Edges, normal_moment

RING2 = ['h', 'E1', 'E2', 'mu', 'th1', 'sg1', 'th2', 'sg2', 'v1', 'v2',
         'lam', 'mj', 'sj', 'B1', 'B2']


class TwoFactor:
    """y: dy=(mu-(v1+v2)/2)dt+sqrt(v1+v2)dw + dz ; dv_i CIR, all independent"""

    def __init__(self, k1, k2, jumps=False, ring=None):
        self.R = R = ring or Ring(RING2)
        self.k = (F(k1), F(k2))
        s = self.s = {n: R.sym(n) for n in R.names}
        self.clock = Clock(R, 'h', {'E1': self.k[0], 'E2': self.k[1]})
        self.kth = [scale(s['th1'], self.k[0]), scale(s['th2'], self.k[1])]
        self.sg2 = [power(s['sg1'], 2), power(s['sg2'], 2)]
        self.jumps = jumps
        self.sys = System(R, self.clock, self.gen, self.init)
        self.isys = System(R, self.clock, self.gen_i, self.init)
        self._stat, self._unc, self._jm = {}, {}, {}

    def init(self, m):
        if any(m[2:]):
            return {}
        return {self.R.unit['v1'] * m[0] + self.R.unit['v2'] * m[1]: F(1)}

    def cir_edges(self, e, m):
        for i in (0, 1):
            b = m[i]
            if b:
                d = list(m)
                d[i] -= 1
                d = tuple(d)
                e.add(scale(self.kth[i], b), d)
                e.add(scale(self.sg2[i], F(b * (b - 1), 2)), d)

    def gen(self, m):
        b1, b2, c = m
        s, R, e = self.s, self.R, Edges()
        self.cir_edges(e, m)
        if c:
            e.add(scale(s['mu'], c), (b1, b2, c - 1))
            for d in ((b1 + 1, b2), (b1, b2 + 1)):
                e.add(R.const(F(-c, 2)), d + (c - 1,))
                e.add(R.const(F(c * (c - 1), 2)), d + (c - 2,))
            if self.jumps:
                for j in range(1, c + 1):
                    if j not in self._jm:
                        self._jm[j] = mul(s['lam'], normal_moment(R, j, s['mj'], s['sj']))
                    e.add(scale(self._jm[j], comb(c, j)), (b1, b2, c - j))
        return (-b1, -b2), e.items()

    def gen_i(self, m):
        """functionals (v1, v2, IE1, I1, IE2, I2, I*)"""
        b = m[:2]
        s, R, e = self.s, self.R, Edges()
        self.cir_edges(e, m)
        one = R.one()

        def mv(*d):
            return tuple(x + y for x, y in zip(m, d))
        for i in (0, 1):
            Eu = R.unit[f'E{i+1}']
            nE, nI = m[2 + 2 * i], m[3 + 2 * i]

            def d(dv, dE, dI):
                z = [0] * 7
                z[i], z[2 + 2 * i], z[3 + 2 * i] = dv, dE, dI
                return mv(*z)
            if b[i]:
                sg = s[f'sg{i+1}']
                if nE:
                    e.add(shift(scale(sg, b[i] * nE), Eu), d(0, -1, 0))
                if nI:
                    e.add(scale(sg, b[i] * nI), d(0, 0, -1))
            if nE > 1:
                e.add(shift(scale(one, nE * (nE - 1) // 2), 2 * Eu), d(1, -2, 0))
            if nI > 1:
                e.add(scale(one, nI * (nI - 1) // 2), d(1, 0, -2))
            if nE and nI:
                e.add(shift(scale(one, nE * nI), Eu), d(1, -1, -1))
        n = m[6]
        if n > 1:
            c = scale(one, n * (n - 1) // 2)
            e.add(c, mv(1, 0, 0, 0, 0, 0, -2))
            e.add(c, mv(0, 1, 0, 0, 0, 0, -2))
        return (-b[0], -b[1]), e.items()

    def functional(self, n4, n5, n6, n7, n8):
        return self.isys.moment((0, 0, n4, n5, n6, n7, n8))

    def stat(self, i, b):
        if (i, b) not in self._stat:
            if b == 0:
                r = self.R.one()
            else:
                r = add(self.kth[i], scale(self.sg2[i], F(b - 1, 2)))
                r = scale(mul(r, self.stat(i, b - 1)), 1 / self.k[i])
            self._stat[i, b] = r
        return self._stat[i, b]

    def uncond(self, p, extra=(0, 0)):
        out = {}
        for (b1, b2), q in self.group_v(p).items():
            iadd(out, mul(q, mul(self.stat(0, b1), self.stat(1, b2))))
        return out

    def group_v(self, p):
        R = self.R
        i1, i2, u1, u2 = R.idx['v1'], R.idx['v2'], R.unit['v1'], R.unit['v2']
        g = {}
        for e, v in p.items():
            ex = R.unpack(e)
            b1, b2 = ex[i1], ex[i2]
            g.setdefault((b1, b2), {})[e - b1 * u1 - b2 * u2] = v
        return g

    def mom(self, b1, b2, c):
        if (b1, b2, c) not in self._unc:
            self._unc[b1, b2, c] = self.uncond(self.sys.moment((b1, b2, c)))
        return self._unc[b1, b2, c]

    def cmom_y(self, n):
        m1 = self.mom(0, 0, 1)
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(m1, i), (-1) ** i * comb(n, i)),
                          self.mom(0, 0, n - i)))
        return out

    def yy(self, a, b):
        out = {}
        for (b1, b2), q in self.group_v(self.sys.moment((0, 0, b))).items():
            iadd(out, mul(q, self.mom(b1, b2, a)))
        return out

    def cov(self, a, b):
        return sub(self.yy(a, b), mul(self.mom(0, 0, a), self.mom(0, 0, b)))

    @property
    def states(self):
        return self.sys.states + self.isys.states

    @property
    def transitions(self):
        return self.sys.transitions + self.isys.transitions


def map2(O):
    """keyfor name -> interpretation, for the numeric k1, k2 of O"""
    R, u, (k1, k2) = O.R, O.R.unit, O.k

    def kk(x):
        c = F(1)
        for n1, n2, i in x:
            if i:
                c /= (n1 * k1 + n2 * k2) ** i
        return {0: c}

    def pair(a, b, sgn=1):
        return lambda x: {sgn * (a * x[0] + b * x[1]): F(1)}
    return {
        '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}': kk,
        'e^{(m_4*k1+m_6*k2)(n-1)h}': pair(u['B1'], u['B2']),
        'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}': pair(u['E1'], u['E2']),
        '[t-(n-1)h]': u['h'], 'h': u['h'],
        'e^{-(j_1*k1+j_2*k2)h}': pair(u['E1'], u['E2'], -1),
        'e^{-(n1*k1+n2*k2)h}': pair(u['E1'], u['E2'], -1),
        'v_{1,n-1}': u['v1'], 'v_{2,n-1}': u['v2'], 'mu': u['mu'],
        'theta1': u['th1'], 'sigma_v1': u['sg1'],
        'theta2': u['th2'], 'sigma_v2': u['sg2'],
        'lambda': u['lam'], 'mu_j': u['mj'], 'sigma_j': u['sj'],
    }
