"""Reference models: Ito/CPP functionals, and everything given realised jumps."""
from fractions import Fraction as F
from math import comb, factorial
from itertools import product

from lp import Ring, add, iadd, mul, scale, power, shift, sub
from gen import Clock, System, Edges, normal_moment, evaluate_time
from models import RING1


class Functionals:
    """variables (v, IE, I, I*, IEZ, IZ, IZ*) on [0, t] given v0, where
    dIE=e^{kt}sqrt(v)dw, dI=sqrt(v)dw, dI*=sqrt(v)dw*, dIEZ=e^{kt}dz,
    dIZ=dz, dIZ*=dz*; z exp(muv)-jumps, z* N(mj, sj^2)-jumps at the same
    times (rate lam, 0 if jumps is False)."""

    states = property(lambda self: self.sys.states)
    transitions = property(lambda self: self.sys.transitions)

    def __init__(self, jumps=True, ring=None, v0='x'):
        self.R = R = ring or Ring(RING1)
        s = self.s = {n: R.sym(n) for n in R.names}
        self.jumps = jumps
        self.clock = Clock(R, 'h', {'E': 'k'})
        self.v0 = s['v0'] if v0 == 'v0' else add(s['x'], s['theta'])
        self.k_theta = mul(s['k'], s['theta'])
        self.sig2 = power(s['sigma'], 2)
        self.Eu = R.unit['E']
        self.sys = System(R, self.clock, self.gen, self.init)
        self._jm = {}

    def init(self, m):
        return {} if any(m[1:]) else power(self.v0, m[0])

    def jm(self, i, j):
        if (i, j) not in self._jm:
            r = scale(power(self.s['muv'], i), factorial(i))
            r = mul(r, normal_moment(self.R, j, self.s['mj'], self.s['sj']))
            self._jm[i, j] = mul(r, self.s['lam'])
        return self._jm[i, j]

    def gen(self, m):
        b, n1, n2, n3, n4, n5, n6 = m
        s, e, R, Eu = self.s, Edges(), self.R, self.Eu
        one = R.one()
        z = m[4:]
        if b:
            e.add(scale(self.k_theta, b), (b - 1, n1, n2, n3) + z)
            e.add(scale(self.sig2, F(b * (b - 1), 2)), (b - 1, n1, n2, n3) + z)
            if n1:
                e.add(shift(scale(s['sigma'], b * n1), Eu), (b, n1 - 1, n2, n3) + z)
            if n2:
                e.add(scale(s['sigma'], b * n2), (b, n1, n2 - 1, n3) + z)
        if n1 > 1:
            e.add(shift(scale(one, n1 * (n1 - 1) // 2), 2 * Eu), (b + 1, n1 - 2, n2, n3) + z)
        if n2 > 1:
            e.add(scale(one, n2 * (n2 - 1) // 2), (b + 1, n1, n2 - 2, n3) + z)
        if n3 > 1:
            e.add(scale(one, n3 * (n3 - 1) // 2), (b + 1, n1, n2, n3 - 2) + z)
        if n1 and n2:
            e.add(shift(scale(one, n1 * n2), Eu), (b + 1, n1 - 1, n2 - 1, n3) + z)
        if self.jumps:
            for i in range(b + 1):
                for j4 in range(n4 + 1):
                    for j5 in range(n5 + 1):
                        for j6 in range(n6 + 1):
                            if i or j4 or j5 or j6:
                                c = comb(b, i) * comb(n4, j4) * comb(n5, j5) * comb(n6, j6)
                                e.add(shift(scale(self.jm(i + j4 + j5, j6), c), j4 * Eu),
                                      (b - i, n1, n2, n3, n4 - j4, n5 - j5, n6 - j6))
        return (-b,), e.items()

    def moment(self, *ns):
        """E[IE^n1 I^n2 I*^n3 IEZ^n4 IZ^n5 IZ*^n6 | v0]"""
        return self.sys.moment((0,) + tuple(ns))

    def v_moment(self, b):
        return self.sys.moment((b,) + (0,) * 6)


def jump_ring(N):
    names = ['k', 'h', 'E', 'mu', 'theta', 'sigma', 'rho', 'sq', 'x', 'v0',
             'lam', 'mj', 'sj', 'rhoJ', 'muv', 'ev']
    for i in range(1, N + 1):
        names += [f's{i}', f'X{i}', f'J{i}']
    return Ring(names)


class GivenJumps:
    """moments given v0 and the N realised variance jumps (s_i, J_i),
    s_1 < ... < s_N, everything symbolic (X_i = e^{k s_i}).

    kind 'y':  variables (v, y); price jumps: None | 'indep' (CPP rate lam,
               N(mj, sj^2)) | 'joint' (N(mj + rhoJ J_i, sj^2) at s_i)
    kind 'ie': variables (v, IE, I, I*)
    """

    def __init__(self, N, kind='y', price=None, v0='x', ring=None):
        self.N, self.kind, self.price = N, kind, price
        self.R = R = ring or jump_ring(N)
        s = self.s = {n: R.sym(n) for n in R.names}
        self.clock = Clock(R, 'h', {'E': 'k'})
        self.v0 = s['v0'] if v0 == 'v0' else add(s['x'], s['theta'])
        self.k_theta = mul(s['k'], s['theta'])
        self.sig2 = power(s['sigma'], 2)
        self.rs = mul(s['rho'], s['sigma'])
        self.Eu = R.unit['E']
        self.sys = [System(R, self.clock, self._gen(i), self._init(i))
                    for i in range(N + 1)]
        self._end = [dict() for _ in range(N + 1)]
        self._lam = {}

    def _gen(self, i):
        f = self.gen_y if self.kind == 'y' else self.gen_ie
        return lambda m: f(i, m)

    def _init(self, i):
        if i == 0:
            return lambda m: {} if any(m[1:]) else power(self.v0, m[0])
        return lambda m: self.after(i, m)

    def end(self, i, m):
        """value of m at the end of interval i (i < N: just before s_{i+1};
        i = N: at h)"""
        d = self._end[i]
        if m not in d:
            p = self.sys[i].moment(m)
            R, s = self.R, self.s
            lo = s[f's{i}'] if i else {}
            xlo = R.unit[f'X{i}'] if i else 0
            if i < self.N:
                hi, xhi = s[f's{i+1}'], R.unit[f'X{i+1}']
            else:
                hi, xhi = s['h'], R.unit['E']
            d[m] = evaluate_time(R, p, 'h', ['E'], sub(hi, lo), {'E': xhi - xlo})
        return d[m]

    def after(self, i, m):
        """moment m just after jump i"""
        R, s = self.R, self.s
        out = {}
        J = s[f'J{i}']
        if self.kind == 'y' and self.price == 'joint':
            mean = add(s['mj'], mul(s['rhoJ'], J))
            for a in range(m[0] + 1):
                for c in range(m[1] + 1):
                    t = mul(power(J, a), normal_moment(R, c, mean, s['sj']))
                    t = mul(t, self.end(i - 1, (m[0] - a, m[1] - c)))
                    iadd(out, t, comb(m[0], a) * comb(m[1], c))
        else:
            for a in range(m[0] + 1):
                t = mul(power(J, a), self.end(i - 1, (m[0] - a,) + m[1:]))
                iadd(out, t, comb(m[0], a))
        return out

    def gen_y(self, i, m):
        b, c = m
        s, e = self.s, Edges()
        if b:
            e.add(scale(self.k_theta, b), (b - 1, c))
            e.add(scale(self.sig2, F(b * (b - 1), 2)), (b - 1, c))
        if c:
            e.add(scale(s['mu'], c), (b, c - 1))
            e.add(self.R.const(F(-c, 2)), (b + 1, c - 1))
            e.add(self.R.const(F(c * (c - 1), 2)), (b + 1, c - 2))
            if b:
                e.add(scale(self.rs, b * c), (b, c - 1))
            if self.price == 'indep':
                for j in range(1, c + 1):
                    if j not in self._lam:
                        self._lam[j] = mul(s['lam'], normal_moment(self.R, j, s['mj'], s['sj']))
                    e.add(scale(self._lam[j], comb(c, j)), (b, c - j))
        return (-b,), e.items()

    def gen_ie(self, i, m):
        b, n1, n2, n3 = m
        s, e, R = self.s, Edges(), self.R
        Eu = self.Eu + (R.unit[f'X{i}'] if i else 0)   # absolute e^{kt}
        one = R.one()
        if b:
            e.add(scale(self.k_theta, b), (b - 1, n1, n2, n3))
            e.add(scale(self.sig2, F(b * (b - 1), 2)), (b - 1, n1, n2, n3))
            if n1:
                e.add(shift(scale(s['sigma'], b * n1), Eu), (b, n1 - 1, n2, n3))
            if n2:
                e.add(scale(s['sigma'], b * n2), (b, n1, n2 - 1, n3))
        if n1 > 1:
            e.add(shift(scale(one, n1 * (n1 - 1) // 2), 2 * Eu), (b + 1, n1 - 2, n2, n3))
        if n2 > 1:
            e.add(scale(one, n2 * (n2 - 1) // 2), (b + 1, n1, n2 - 2, n3))
        if n3 > 1:
            e.add(scale(one, n3 * (n3 - 1) // 2), (b + 1, n1, n2, n3 - 2))
        if n1 and n2:
            e.add(shift(scale(one, n1 * n2), Eu), (b + 1, n1 - 1, n2 - 1, n3))
        return (-b,), e.items()

    def moment(self, *m):
        return self.end(self.N, tuple(m))

    def cmom_y(self, n):
        m1 = self.moment(0, 1)
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(m1, i), (-1) ** i * comb(n, i)),
                          self.moment(0, n - i)))
        return out

    def cmom_v(self, n):
        m1 = self.moment(1, 0)
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(m1, i), (-1) ** i * comb(n, i)),
                          self.moment(n - i, 0)))
        return out

    @property
    def states(self):
        return sum(s.states for s in self.sys)

    @property
    def transitions(self):
        return sum(s.transitions for s in self.sys)


class FZ:
    """documented meaning of a key (l, o, p, q) for N jumps: the sum over all
    index tuples (i_1..i_n) in {1..N}^n of
      prod_j e^{l_j k s_ij} J_ij s_ij^{o_j}
      prod_{m>=2} e^{p_m k max(s_i1..s_im)} max(s_i1..s_im)^{q_m}."""

    def __init__(self, R, N):
        self.R, self.N, self.memo = R, N, {}

    def __call__(self, l, o, p, q):
        key = (l, o, p, q)
        if key in self.memo:
            return self.memo[key]
        n = len(l)
        if not (len(o) == n and len(p) == len(q) == max(n - 1, 0)):
            raise ValueError(f"ill-formed jump index l={l} o={o} p={p} q={q}")
        u = self.R.unit
        out = {}
        for idx in product(range(1, self.N + 1), repeat=n):
            e, mx = 0, 0
            for j, i in enumerate(idx):
                e += u[f'X{i}'] * l[j] + u[f'J{i}'] + u[f's{i}'] * o[j]
                mx = max(mx, i)
                if j:
                    e += u[f'X{mx}'] * p[j - 1] + u[f's{mx}'] * q[j - 1]
            out[e] = out.get(e, 0) + F(1)
        self.memo[key] = out
        return out


def jumppoly2lp(R, N, poly, mapping, names=('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}'),
                fz=None):
    """like poly2lp for polys whose keys contain jump index tuples"""
    from models import poly2lp
    kf = tuple(poly.keyfor)
    fz = fz or FZ(R, N)
    pos = [kf.index(n) for n in names]
    extra = kf.index('J_{1:n}') if 'J_{1:n}' in kf else None
    groups = {}
    skip = set(pos) | ({extra} if extra is not None else set())
    keep = [i for i in range(len(kf)) if i not in skip]
    for key, val in poly.items():
        if len(key) != len(kf):
            raise ValueError(f"key {key!r} has {len(key)} components, "
                             f"keyfor {kf!r} has {len(kf)}")
        if not val:
            continue
        jk = tuple(key[i] for i in pos) + ((key[extra],) if extra is not None else ())
        g = groups.setdefault(jk, {})
        kk = tuple(key[i] for i in keep)
        g[kk] = g.get(kk, 0) + val
    out = {}

    class P(dict):
        pass
    for jk, g in groups.items():
        p = P(g)
        p.keyfor = tuple(kf[i] for i in keep)
        q = poly2lp(R, p, mapping)
        if len(names) == 4:
            f = fz(*jk[:4])
        else:   # (l, o): no powers of s
            l, o = jk[:2]
            f = fz(l, (0,) * len(l), o, (0,) * len(o))
        if extra is not None:
            Jp = jk[-1]
            e = 0
            if any(Jp):
                if len(Jp) != N:
                    raise ValueError(f"J exponents {Jp} for {N} jumps")
                e = sum(R.unit[f'J{i+1}'] * x for i, x in enumerate(Jp))
            f = shift(f, e)
        iadd(out, mul(q, f))
    return out
