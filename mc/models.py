"""Reference models of every process in the package, as generator graphs."""
from fractions import Fraction as F
from math import comb, factorial
from numbers import Rational

from lp import Ring, add, iadd, mul, scale, power, shift, sub
from gen import Clock, System, Edges, normal_moment, evaluate_time

RING1 = ['k', 'h', 'E', 'mu', 'theta', 'sigma', 'rho', 'sq', 'x', 'v0',
         'lam', 'mj', 'sj', 'muv', 'rhoJ', 'ev']


class OneFactor:
    """dv = k(theta-v)dt + sigma sqrt(v)dw + dz^v ;
       dy = (mu - v/2)dt + sqrt(v)(rho dw + sqrt(1-rho^2)dw') + dz^s.

    jumps: None | 'price' (N(mj,sj^2), rate lam) | 'var' (exp(muv), rate lam)
           | 'joint' (J^v~exp(muv), J^s|J^v ~ N(mj + rhoJ J^v, sj^2), rate lam)
    """

    def __init__(self, jumps=None, ring=None, v0='v0'):
        self.R = R = ring or Ring(RING1)
        self.jumps = jumps
        s = self.s = {n: R.sym(n) for n in R.names}
        self.clock = Clock(R, 'h', {'E': 'k'})
        self.v0 = s['v0'] if v0 == 'v0' else add(s['x'], s['theta'])
        self.k_theta = mul(s['k'], s['theta'])
        self.sig2 = power(s['sigma'], 2)
        self.rs = mul(s['rho'], s['sigma'])
        self._stat = {}
        self._jm = {}
        self.sys = System(R, self.clock, self.gen, self.init)
        self._unc = {}

    def init(self, m):
        b, c = m
        return {} if c else power(self.v0, b)

    def jmom(self, i, j):
        """E[J^v^i J^s^j] of one jump times the rate"""
        if (i, j) in self._jm:
            return self._jm[i, j]
        s = self.s
        if self.jumps is None:
            r = {}
        elif self.jumps == 'price':
            r = normal_moment(self.R, j, s['mj'], s['sj']) if i == 0 else {}
        elif self.jumps == 'var':
            r = scale(power(s['muv'], i), factorial(i)) if j == 0 else {}
        else:
            r = {}
            for a in range(j + 1):   # (mj + sj Z)^(j-a) (rhoJ J)^a
                t = mul(normal_moment(self.R, j - a, s['mj'], s['sj']),
                        power(s['rhoJ'], a))
                t = mul(t, scale(power(s['muv'], i + a), factorial(i + a)))
                iadd(r, scale(t, comb(j, a)))
        r = mul(r, s['lam'])
        self._jm[i, j] = r
        return r

    def gen(self, m):
        b, c = m
        s, e = self.s, Edges()
        if b:
            e.add(scale(self.k_theta, b), (b - 1, c))
            e.add(scale(self.sig2, F(b * (b - 1), 2)), (b - 1, c))
        if c:
            e.add(scale(s['mu'], c), (b, c - 1))
            e.add(self.R.const(F(-c, 2)), (b + 1, c - 1))
            e.add(self.R.const(F(c * (c - 1), 2)), (b + 1, c - 2))
            if b:
                e.add(scale(self.rs, b * c), (b, c - 1))
        if self.jumps:
            for i in range(b + 1):
                for j in range(c + 1):
                    if i or j:
                        e.add(scale(self.jmom(i, j), comb(b, i) * comb(c, j)),
                              (b - i, c - j))
        return (-b,), e.items()

    # -- conditional on v0
    def cond(self, b, c):
        return self.sys.moment((b, c))

    # -- stationary v
    def stat(self, b):
        if b in self._stat:
            return self._stat[b]
        if b == 0:
            r = self.R.one()
        else:
            r = scale(self.k_theta, b)
            iadd(r, scale(self.sig2, F(b * (b - 1), 2)))
            r = mul(r, self.stat(b - 1))
            if self.jumps in ('var', 'joint'):
                for i in range(1, b + 1):
                    iadd(r, scale(mul(self.jmom(i, 0), self.stat(b - i)),
                                  comb(b, i)))
            r = shift(scale(r, F(1, b)), -self.R.unit['k'])
        self._stat[b] = r
        return r

    def uncond(self, p):
        """integrate out v0 under the stationary law"""
        R, out = self.R, {}
        u, i = R.unit['v0'], R.idx['v0']
        groups = {}
        for e, v in p.items():
            b = R.unpack(e)[i]
            groups.setdefault(b, {})[e - b * u] = v
        for b, q in groups.items():
            iadd(out, mul(q, self.stat(b)))
        return out

    def mom(self, b, c):
        if (b, c) not in self._unc:
            self._unc[b, c] = self.uncond(self.cond(b, c))
        return self._unc[b, c]

    def central(self, n, m1, momf):
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(m1, i), (-1) ** i * comb(n, i)),
                          momf(n - i)))
        return out

    @property
    def states(self):
        return self.sys.states + len(self._stat)

    @property
    def transitions(self):
        return self.sys.transitions + sum(b if self.jumps in ('var', 'joint') else min(b, 1)
                                          for b in self._stat)

    def cmom_y(self, n):
        return self.central(n, self.mom(0, 1), lambda j: self.mom(0, j))

    def cond_cmom_y(self, n):
        return self.central(n, self.cond(0, 1), lambda j: self.cond(0, j))

    def yy(self, a, b):
        """E[y_n^a y_{n+1}^b]"""
        R, out = self.R, {}
        u, i = R.unit['v0'], R.idx['v0']
        groups = {}
        for e, v in self.cond(0, b).items():
            j = R.unpack(e)[i]
            groups.setdefault(j, {})[e - j * u] = v
        for j, q in groups.items():
            iadd(out, mul(q, self.mom(j, a)))
        return out

    def cov(self, a, b):
        return sub(self.yy(a, b), mul(self.mom(0, a), self.mom(0, b)))


def poly2lp(R, poly, mapping):
    """value of a package Poly as a ring element; components are interpreted
    through the names the Poly itself publishes in ``keyfor``.

    mapping[name]: packed monomial (int) or callable exponent -> element"""
    kf = tuple(poly.keyfor)
    fs = []
    for n in kf:
        if n not in mapping:
            raise KeyError(f"unexpected keyfor component {n!r} in {kf!r}")
        fs.append(mapping[n])
    memo = [dict() for _ in kf]
    out = {}
    for key, val in poly.items():
        if len(key) != len(kf):
            raise ValueError(f"key {key!r} has {len(key)} components, "
                             f"keyfor {kf!r} has {len(kf)}")
        if not isinstance(val, Rational):
            raise ValueError(f"the coefficient of {key!r} is not an exact rational: {val!r}")
        if not val:
            continue
        e = 0
        fac = None
        for f, x, mm in zip(fs, key, memo):
            if isinstance(f, int):
                e += f * x
            elif x or callable(f):
                y = mm.get(x)
                if y is None:
                    y = mm[x] = f(x)
                if y == {0: 1}:
                    continue
                fac = y if fac is None else mul(fac, y)
        v = F(val)
        if fac is None:
            w = out.get(e)
            out[e] = v if w is None else w + v
        else:
            for e2, v2 in fac.items():
                kk = e + e2
                w = out.get(kk)
                out[kk] = v * v2 if w is None else w + v * v2
    return {e: v for e, v in out.items() if v}


def map1(R, **extra):
    u = R.unit
    one_m_rho2 = sub(R.one(), R.sym('rho', 2))

    def sq(x):
        r = power(one_m_rho2, x // 2)
        return shift(r, u['sq']) if x % 2 else r
    half = F(1, 2)

    def powf(p):
        return lambda x: power(p, x)
    m = {'e^{-kh}': -u['E'], 'h': u['h'], 'k^{-}': -u['k'], 'mu': u['mu'],
         'e^{kt}': u['E'], 'e^{-kt}': -u['E'], 't': u['h'],
         'theta': u['theta'], 'sigma_v': u['sigma'], 'sigma': u['sigma'],
         'rho': u['rho'], 'sqrt(1-rho^2)': sq, 'v0-theta': u['x'],
         'lambda': u['lam'], 'mu_j': u['mj'], 'sigma_j': u['sj'],
         'lmbd': u['lam'], 'lmbd_s': u['lam'], 'rho_J': u['rhoJ'], 'mu_v': u['muv'], 'rhoJ': u['rhoJ'],
         'mu_s': u['mj'], 'sigma_s': u['sj'],
         'beta_t': powf(scale(sub(R.sym('k', -1),
                                  R.mono(k=-1, E=-1)), half)),
         'mu-theta/2': powf(sub(R.sym('mu'), scale(R.sym('theta'), half))),
         'sigma/2k': powf(scale(R.mono(sigma=1, k=-1), half)),
         'rho-sigma/2k': powf(sub(R.sym('rho'),
                                  scale(R.mono(sigma=1, k=-1), half))),
         }
    m.update(extra)
    return m
