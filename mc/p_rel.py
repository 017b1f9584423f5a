"""C22: theorems that relate the package's own formulas.

No process model is used here: only formulas of the package, read through their published column
names, and exact ring arithmetic (equality for all parameter values at once).  Every instance of
every relation up to the bound is enumerated."""
from fractions import Fraction as F
from math import comb

from core import Task
from lp import Ring, add, iadd, mul, scale, power, shift, sub
from models import RING1, poly2lp, map1
from models2 import jump_ring, jumppoly2lp, FZ
from models3 import RING2, map2
from p_formula import impl, normal_moment, KS

ME = 'p_rel'
R1 = Ring(RING1)
M1 = map1(R1)
EV = add(R1.sym('theta'), R1.mono(lam=1, muv=1, k=-1))


class Two:
    def __init__(self, k1, k2):
        self.R, self.k = Ring(RING2), (F(k1), F(k2))


def subst(R, p, name, elem):
    """replace a symbol by a ring element"""
    i, u = R.idx[name], R.unit[name]
    groups, out, pw = {}, {}, {0: R.one()}
    for e, v in p.items():
        n = R.unpack(e)[i]
        groups.setdefault(n, {})[e - n * u] = v
    for n in sorted(groups):
        if n < 0:
            raise ValueError(f'negative power of {name}')
        if n not in pw:
            pw[n] = power(elem, n)
        iadd(out, mul(groups[n], pw[n]))
    return out


def coefs(R, p, name):
    i, u, out = R.idx[name], R.unit[name], {}
    for e, v in p.items():
        n = R.unpack(e)[i]
        out.setdefault(n, {})[e - n * u] = v
    return out


def rename(p, R, S, names, nums=()):
    """ring element of R as one of S; names: old -> new, nums: old -> number"""
    nums = dict(nums)
    out = {}
    for e, v in p.items():
        k = 0
        for n, x in zip(R.names, R.unpack(e)):
            if x:
                if n in nums:
                    v = v * F(nums[n]) ** x
                else:
                    k += S.unit[names[n]] * x
        if v:
            w = out.get(k, 0) + v
            out[k] = w
    return {e: v for e, v in out.items() if v}


# ---------------------------------------------------------------- reading the formulas
class Read:
    cache = {}

    def __init__(self, res):
        self.res = res

    def one(self, fn, *a, **kw):
        key = (fn, a, tuple(kw.items()))
        if key not in self.cache:
            M = dict(M1)
            if 'mdl_srjd' in fn or 'mdl_svcj' in fn:
                M['E[v]'] = lambda n: power(EV, n)
                d = sub(add(R1.sym('x'), R1.sym('theta')), EV)
                M['v0-E[v]'] = lambda n: power(d, n)
                u = R1.unit
                M.update({'e^{kt}': u['E'], 'e^{ks}': u['ev'], 't-s': u['h']})
            if fn == 'ito_mom.moment_v':
                M['sigma_v^2/k'] = 2 * R1.unit['sigma'] - R1.unit['k']
            if fn == 'ito_mom.moment_IEII':
                u = R1.unit
                M.update({'v_{n-1}': u['v0'], 'e^{k[t-(n-1)h]}': u['E'], '[t-(n-1)h]': u['h'], 'e^{k(n-1)h}': u['ev']})
            if fn.startswith('cpp_mom'):
                u = R1.unit
                M.update({'mu': u['mj'], 'sigma': u['sj'], 'sigma^2': 2 * u['sj'], 'lambda*h': u['lam'] + u['h']})
            self.cache[key] = poly2lp(R1, impl(fn)(*a, **kw), M)
            self.res.states += 1
        return self.cache[key]

    def two(self, ks, fn, *a):
        key = (ks, fn, a)
        if key not in self.cache:
            O = Two(*ks)
            self.cache[key] = poly2lp(O.R, impl(fn)(*a), map2_(O))
            self.res.states += 1
        return self.cache[key]

    def given(self, N, fn, n, i=None):
        """formula given N jumps (i: entry of a list function)"""
        key = (N, fn, n, i)
        if key not in self.cache:
            R = jump_ring(N)
            M = map1(R)
            M['v_0'] = R.unit['v0']
            J = (tuple(0.25 + i for i in range(N)),) if 'svcj' in fn else ()
            p = impl(fn)(n, *J)
            p = p if i is None else list(p)[i]
            names = ('l_{1:n}', 'o_{2:n}') if 'mdl_srjd' in fn and 'moment_v' in fn else \
                ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
            if 'mdl_srjd' in fn:
                names = ('l_{1:n}', 'o_{2:n}')
            self.cache[key] = jumppoly2lp(R, N, p, M, names, FZ(R, N))
            self.res.states += 1
        return self.cache[key]


def map2_(O):
    return map2(O)


def same(res, R, key, got, want):
    res.transitions += 1
    res.evaluations += 1
    if got != want:
        d = sub(got, want)
        res.violation(key, f'{key} does not hold; difference: {R.show(d, 4)}', difference=R.show(d, 12))
        return
    res.traces += 1
    if len(want) > 1:
        res.nontrivial += 1
    res.sample({'relation': key, 'terms': len(want), 'value': R.show(want, 3)})


def recentre(n, mom):
    out = {}
    for i in range(n + 1):
        iadd(out, mul(scale(power(mom(1), i), (-1) ** i * comb(n, i)), mom(n - i)))
    return out


def convolve(n, f, g):
    out = {}
    for i in range(n + 1):
        iadd(out, scale(mul(f(i), g(n - i)), comb(n, i)))
    return out


R2 = Ring(RING2)
K = [KS[0], KS[2]]


# --------------------------------------------------------------------------- relations
def central_1(res, m, c, ns):
    r = Read(res)
    for n in ns:
        same(res, R1, f'{c}({n}) = recentred {m}', r.one(c, n), recentre(n, lambda j: r.one(m, j)))


def central_2(res, model, ns):
    r = Read(res)
    for n in ns:
        for ks in K[:1 if n > 3 else 2]:
            same(res, R2, f'{model}.cmom({n}) = recentred mom, k={ks}', r.two(ks, f'{model}.cmom.cmoment_y', n),
                 recentre(n, lambda j: r.two(ks, f'{model}.mom.moment_y', j)))


def lagged(res, model, two, top):
    """cov = yy - product; yy with a zero order; aggregation of two intervals into one of length 2h"""
    r = Read(res)
    R = R2 if two else R1
    for ks in (K if two else (None,)):
        def f(fn, *a):
            return r.two(ks, f'{model}.{fn}', *a) if two else r.one(f'{model}.{fn}', *a)
        for n in range(0, top + 1):
            for l in range(0, n + 1):
                yy = f('cov.moment_yy', l, n - l)
                # a covariance of order zero is zero
                same(res, R, f'{model}.cov({l},{n - l}) = yy - mom*mom {ks or ""}', f('cov.cov_yy', l, n - l),
                     sub(yy, mul(f('mom.moment_y', l), f('mom.moment_y', n - l))))
                if l == 0 or l == n:
                    same(res, R, f'{model}.yy({l},{n - l}) = mom({n}) {ks or ""}', yy, f('mom.moment_y', n))
            agg = {}
            for l in range(0, n + 1):
                iadd(agg, f('cov.moment_yy', l, n - l), comb(n, l))
            # horizon 2h: h -> 2h, e^{-kh} -> its square
            dbl = {}
            for e, v in f('mom.moment_y', n).items():
                ex = R.unpack(e)
                k = e
                for nm in (('E1', 'E2') if two else ('E',)):
                    k += ex[R.idx[nm]] * R.unit[nm]
                dbl[k] = v * 2 ** ex[R.idx['h']]
            same(res, R, f'{model}: moments of y_n + y_(n+1) of order {n} = moments over 2h {ks or ""}', agg, dbl)


def jump_models(res, two, top, toplag):
    """a zero intensity, or zero jumps, recover the model without jumps; convolution with the jump sum"""
    r = Read(res)
    R = R2 if two else R1
    a, b = ('mdl_2fsv', 'mdl_2fsvj') if two else ('mdl_1fsv', 'mdl_1fsvj')
    for ks in (K if two else (None,)):
        def f(fn, *x):
            return r.two(ks, fn, *x) if two else r.one(fn, *x)

        def cpp(n):
            p = r.one('cpp_mom.mcpp', n)
            return rename(p, R1, R, {x: x for x in ('lam', 'h', 'mj', 'sj')})
        calls = [(fn, (n,)) for fn in ('mom.moment_y', 'cmom.cmoment_y') for n in range(top + 1)]
        calls += [(fn, (l, m)) for fn in ('cov.cov_yy', 'cov.moment_yy') for l in range(toplag + 1) for m in range(toplag + 1 - l)]
        for fn, x in calls:
            p, q = f(f'{b}.{fn}', *x), f(f'{a}.{fn}', *x)
            same(res, R, f'{b}.{fn}{x} with lambda=0 = {a} {ks or ""}', subst(R, p, 'lam', {}), q)
            same(res, R, f'{b}.{fn}{x} with zero jumps = {a} {ks or ""}', subst(R, subst(R, p, 'mj', {}), 'sj', {}), q)
        for n in range(top + 1):
            same(res, R, f'{b}.mom({n}) = {a}.mom * jump sum {ks or ""}', f(f'{b}.mom.moment_y', n),
                 convolve(n, lambda i: f(f'{a}.mom.moment_y', i), cpp))


def two_one(res, top, toplag):
    """the second variance switched off: one factor with zero correlation; exchange of the factors"""
    r = Read(res)
    for j in ('', 'j'):
        a, b = 'mdl_1fsv' + j, 'mdl_2fsv' + j
        calls = [(fn, (n,)) for fn in ('mom.moment_y', 'cmom.cmoment_y') for n in range(top + 1)]
        calls += [(fn, (l, m)) for fn in ('cov.cov_yy', 'cov.moment_yy') for l in range(toplag + 1) for m in range(toplag + 1 - l)]
        ks = K[0]
        for fn, x in calls:
            p2 = r.two(ks, f'{b}.{fn}', *x)
            p1 = r.one(f'{a}.{fn}', *x)
            p1 = subst(R1, subst(R1, p1, 'rho', {}), 'sq', R1.one())
            nm = {'h': 'h', 'mu': 'mu', 'lam': 'lam', 'mj': 'mj', 'sj': 'sj'}
            same(res, R2, f'{b}.{fn}{x} with theta2=0 = {a} with rho=0', subst(R2, p2, 'th2', {}),
                 rename(p1, R1, R2, dict(nm, theta='th1', sigma='sg1', E='E1'), {'k': ks[0]}))
            same(res, R2, f'{b}.{fn}{x} with theta1=0 = {a} with rho=0', subst(R2, p2, 'th1', {}),
                 rename(p1, R1, R2, dict(nm, theta='th2', sigma='sg2', E='E2'), {'k': ks[1]}))
            sw = {n: n for n in RING2}
            for n in ('E', 'th', 'sg', 'v', 'B'):
                sw.update({n + '1': n + '2', n + '2': n + '1'})
            same(res, R2, f'{b}.{fn}{x} with the factors exchanged', rename(r.two(ks[::-1], f'{b}.{fn}', *x), R2, R2, sw), p2)


def two_sum(res, j, ns, lags):
    """the return of two factors is the sum of two independent one-factor returns with rho=0"""
    r = Read(res)
    m1, m2 = 'mdl_1fsv' + j, 'mdl_2fsv' + j
    nm = {'h': 'h', 'mu': 'mu', 'lam': 'lam', 'mj': 'mj', 'sj': 'sj'}
    for ks in K:
        def factor(i, model, fn, *a):
            p = r.one(f'{model}.{fn}', *a)
            p = subst(R1, subst(R1, p, 'rho', {}), 'sq', R1.one())
            if i == 2:      # the drift and the jumps belong to the first summand
                p = subst(R1, p, 'mu', {})
            return rename(p, R1, R2, dict(nm, **{'theta': f'th{i}', 'sigma': f'sg{i}', 'E': f'E{i}'}), {'k': ks[i - 1]})
        for fn in ('mom.moment_y', 'cmom.cmoment_y'):
            for n in ns[:-1] if ks != K[0] else ns:
                same(res, R2, f'{m2}.{fn}({n}) = sum of two independent factors, k={ks}', r.two(ks, f'{m2}.{fn}', n),
                     convolve(n, lambda i: factor(1, m1, fn, i), lambda i: factor(2, 'mdl_1fsv', fn, i)))
        for l, m in lags:
            fn = 'cov.moment_yy'
            want = {}
            for a in range(l + 1):
                for b in range(m + 1):
                    iadd(want, mul(factor(1, m1, fn, a, b), factor(2, 'mdl_1fsv', fn, l - a, m - b)), comb(l, a) * comb(m, b))
            same(res, R2, f'{m2}.yy({l},{m}) = sum of two independent factors, k={ks}', r.two(ks, f'{m2}.{fn}', l, m), want)


def to_v0(p, R=R1):
    """x = v0 - theta"""
    return subst(R, p, 'x', sub(R.sym('v0'), R.sym('theta')))


def stationary(p, stat):
    """integrate v0 out of p (a polynomial in x = v0 - theta)"""
    out = {}
    for n, q in coefs(R1, to_v0(p), 'v0').items():
        iadd(out, mul(q, stat(n)))
    return out


def srjd_v(res, top):
    r = Read(res)
    S, C = 'mdl_srjd.mom.moment_v', 'mdl_srjd.cond_mom.moment_v'

    def about_theta(n, m):
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(R1.sym('theta'), n - i), (-1) ** (n - i) * comb(n, i)), m(i)))
        return out
    for n in range(top + 1):
        m = r.one(S, n)
        same(res, R1, f'{S}({n}) with lambda=0 = ito_mom.moment_v', subst(R1, m, 'lam', {}), r.one('ito_mom.moment_v', n))
        same(res, R1, f'{S}({n}) expanded', r.one(S, n, simplify=False), m)
        same(res, R1, f'{C}({n}) averaged over the stationary law = {S}', stationary(r.one(C, n), lambda j: r.one(S, j)), m)
        same(res, R1, f'mdl_svcj.mom.moment_v_theta({n}) = recentred {S}', r.one('mdl_svcj.mom.moment_v_theta', n),
             about_theta(n, lambda j: r.one(S, j)))
        same(res, R1, f'mdl_srjd.cmom.cmoment_v({n}) = recentred {S}', r.one('mdl_srjd.cmom.cmoment_v', n), recentre(n, lambda j: r.one(S, j)))
        # mdl_srjd.cmom.cond_cmoment_v is E[(v_t - E[v])^n | v0]
        out = {}
        for i in range(n + 1):
            iadd(out, mul(scale(power(EV, n - i), (-1) ** (n - i) * comb(n, i)), r.one(C, i)))
        same(res, R1, f'mdl_srjd.cmom.cond_cmoment_v({n}) = recentred {C}', r.one('mdl_srjd.cmom.cond_cmoment_v', n), out)
        # two intervals in succession (transition e^{-kt1}, then e^{-kt2})
        E, G = R1.unit['E'], R1.unit['ev']

        def q(j):
            return about_theta(j, lambda i: r.one(C, i))
        both = {e + R1.unpack(e)[R1.idx['E']] * G: v for e, v in q(n).items()}
        chain = {}
        for j, c in coefs(R1, q(n), 'x').items():
            c = {e + R1.unpack(e)[R1.idx['E']] * (G - E): v for e, v in c.items()}
            iadd(chain, mul(c, q(j)))
        same(res, R1, f'{C}({n}): two intervals in succession = one of the total length', chain, both)
        # at time zero
        now = {}
        for e, v in q(n).items():
            iadd(now, {e - R1.unpack(e)[R1.idx['E']] * E: v})
        same(res, R1, f'{C}({n}) at horizon zero', now, R1.sym('x', n))


def srjd_joint(res, top):
    r = Read(res)
    f, g = 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez'
    z = 'mdl_srjd.iez_mom.moment_IEZ'
    for n in range(top + 1):
        same(res, R1, f'{f}({n},0) = moment_ie', r.one(f, n, 0), r.one('mdl_srjd.cond_ie_iez_mom.moment_ie', n))
        same(res, R1, f'{g}({n},0) = moment_ie', r.one(g, n, 0), r.one('mdl_srjd.cond_ie_iez_cmom.moment_ie', n))
        zz = {}
        for e, v in r.one(z, n).items():        # [s,t] = [0,t]
            iadd(zz, {e - R1.unpack(e)[R1.idx['ev']] * R1.unit['ev']: v})
        same(res, R1, f'{f}(0,{n}) = {z} from 0', r.one(f, 0, n), zz)
        same(res, R1, f'mdl_svcj moment_ieziziz({n},0,0) = {z}', r.one('mdl_svcj.ieziziz_mom.moment_ieziziz', n, 0, 0), r.one(z, n))
        same(res, R1, f'mdl_srjd.iez_cmom({n}) = recentred {z}', r.one('mdl_srjd.iez_cmom.cmoment_IEZ', n), recentre(n, lambda j: r.one(z, j)))
        # disjoint intervals: [0,s] and [s,t]; read with E = e^{k(t-s)}, ev = e^{ks}
        a = {}
        for e, v in r.one(z, n).items():        # over [0, s+h]: e^{kt} -> E*ev, length -> h + v0 (v0 used as the symbol s)
            ex = R1.unpack(e)
            iadd(a, mul({e - ex[R1.idx['ev']] * R1.unit['ev'] - ex[R1.idx['h']] * R1.unit['h']
                         + ex[R1.idx['E']] * R1.unit['ev']: v}, power(add(R1.sym('h'), R1.sym('v0')), ex[R1.idx['h']])))

        def left(j):
            out = {}
            for e, v in r.one(z, j).items():
                ex = R1.unpack(e)
                iadd(out, {e - ex[R1.idx['ev']] * R1.unit['ev'] - ex[R1.idx['h']] * (R1.unit['h'] - R1.unit['v0'])
                           + ex[R1.idx['E']] * (R1.unit['ev'] - R1.unit['E']): v})
            return out

        def right(j):                           # e^{kt} = E*ev
            return {e + R1.unpack(e)[R1.idx['E']] * R1.unit['ev']: v for e, v in r.one(z, j).items()}
        same(res, R1, f'{z}({n}): disjoint intervals', convolve(n, left, right), a)
        for m in range(0, top + 1 - n):
            # recentre the jump integral only
            m1 = r.one(f, 0, 1)
            w = {}
            for i in range(m + 1):
                iadd(w, mul(scale(power(m1, i), (-1) ** i * comb(m, i)), r.one(f, n, m - i)))
            same(res, R1, f'{g}({n},{m}) = recentred {f}', r.one(g, n, m), w)
            same(res, R1, f'{f}({n},{m}) with lambda=0', subst(R1, r.one(f, n, m), 'lam', {}),
                 {} if m else rename(to_x(r.one('ito_mom.moment_IEII', n, 0, 0)), R1, R1, {x: x for x in RING1}))
            six = 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz'
            if n + m <= 6:
                same(res, R1, f'{six}({n},0,0,{m},0,0) = {f}', r.one(six, n, 0, 0, m, 0, 0), r.one(f, n, m))


def to_x(p):
    """ito_mom (v_{n-1}, started at time 0) in terms of x"""
    out = {}
    for e, v in p.items():
        iadd(out, {e - R1.unpack(e)[R1.idx['ev']] * R1.unit['ev']: v})
    return subst(R1, out, 'v0', add(R1.sym('x'), R1.sym('theta')))


def svcj(res, top):
    r = Read(res)
    U, C = 'mdl_svcj.mom.moment_y', 'mdl_svcj.cond_mom.moment_y'
    for n in range(top + 1):
        same(res, R1, f'{C}({n}) averaged over the stationary variance = {U}',
             stationary(r.one(C, n), lambda j: r.one('mdl_srjd.mom.moment_v', j)), r.one(U, n))
        same(res, R1, f'{U}({n}) with lambda=0 = mdl_1fsv', subst(R1, r.one(U, n), 'lam', {}), r.one('mdl_1fsv.mom.moment_y', n))
        z = subst(R1, subst(R1, r.one(U, n), 'muv', {}), 'rhoJ', {})
        same(res, R1, f'{U}({n}) without variance jumps = mdl_1fsvj', z, r.one('mdl_1fsvj.mom.moment_y', n))
        z = subst(R1, r.one(C, n), 'lam', {})
        same(res, R1, f'{C}({n}) with lambda=0, averaged = mdl_1fsv', stationary(z, lambda j: r.one('ito_mom.moment_v', j)),
             r.one('mdl_1fsv.mom.moment_y', n))
        R0 = jump_ring(0)
        same(res, R1, f'{C}({n}) with lambda=0 = mdl_svvj given no jump', z, back(r.given(0, 'mdl_svvj.cond2_mom.moment_y', n), R0))


def back(p, R):
    return rename(p, R, R1, {x: x for x in RING1})


def ito(res, top):
    """no jump given, no jump possible, no jump model"""
    r = Read(res)
    six = 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz'
    for a in range(top + 1):
        for b in range(top + 1 - a):
            for c in range(top + 1 - a - b):
                w = to_x(r.one('ito_mom.moment_IEII', a, b, c))
                same(res, R1, f'{six}({a},{b},{c},0,0,0) with lambda=0 = ito_mom', subst(R1, r.one(six, a, b, c, 0, 0, 0), 'lam', {}), w)
                R = jump_ring(0)
                p = poly_c(r, a, b, c)
                same(res, R1, f'ito_cond_mom.moment_IEII({a},{b},{c}) given no jump = ito_mom', back(p, R), w)


def poly_c(r, a, b, c):
    R = jump_ring(0)
    r.res.states += 1
    return jumppoly2lp(R, 0, impl('ito_cond_mom.moment_IEII')(a, b, c), map1(R), fz=FZ(R, 0))


def given_jumps(res, n, Ns):
    r = Read(res)
    vv, ij, cj = 'mdl_svvj', 'mdl_svij', 'mdl_svcj'
    m, c, ms, cs = 'cond2_mom.moment_y', 'cond2_cmom.cmoment_y', 'cond2_mom.moments_y_to', 'cond2_cmom.cmoments_y_to'
    for N in Ns:
        R = jump_ring(N)
        g = r.given
        for mod in (vv, ij, cj):
            same(res, R, f'{mod}.{ms}[{n}] = {m}({n}), {N} jumps', g(N, f'{mod}.{ms}', n, n), g(N, f'{mod}.{m}', n))
            same(res, R, f'{mod}.{cs}[{n}] = {c}({n}), {N} jumps', g(N, f'{mod}.{cs}', n, n), g(N, f'{mod}.{c}', n))
            same(res, R, f'{mod}.{c}({n}) = recentred {m}, {N} jumps', g(N, f'{mod}.{c}', n),
                 recentre(n, lambda j: g(N, f'{mod}.{m}', j)))
        for f in (m, c):
            base = g(N, f'{vv}.{f}', n)
            p = g(N, f'{ij}.{f}', n)
            same(res, R, f'{ij}.{f}({n}) without price jumps = {vv}, {N} jumps', subst(R, p, 'lam', {}), base)
            same(res, R, f'{ij}.{f}({n}) with zero price jumps = {vv}, {N} jumps', subst(R, subst(R, p, 'mj', {}), 'sj', {}), base)
            p = g(N, f'{cj}.{f}', n)
            same(res, R, f'{cj}.{f}({n}) with zero price jumps = {vv}, {N} jumps',
                 subst(R, subst(R, subst(R, p, 'mj', {}), 'sj', {}), 'rhoJ', {}), base)
            # a jump of size zero in the variance is no jump
            if N:
                R_ = jump_ring(N - 1)
                less = rename(g(N - 1, f'{vv}.{f}', n), R_, R, {x: x for x in R_.names})
                same(res, R, f'{vv}.{f}({n}): the last of {N} jumps of size zero', subst(R, base, f'J{N}', {}), less)
                less = rename(g(N - 1, f'{ij}.{f}', n), R_, R, {x: x for x in R_.names})
                same(res, R, f'{ij}.{f}({n}): the last of {N} jumps of size zero', subst(R, g(N, f'{ij}.{f}', n), f'J{N}', {}), less)
            else:
                z = back(base, R)
                if f == m:
                    same(res, R1, f'{vv}.{f}({n}) given no jump, averaged = mdl_1fsv', stationary(z, lambda j: r.one('ito_mom.moment_v', j)),
                         r.one('mdl_1fsv.mom.moment_y', n))
                else:
                    L = impl('mdl_1fsv.cond_cmom.cmoments_y_to')(n)
                    M = dict(M1)
                    M['v_0-theta'] = M['v0-theta']
                    same(res, R1, f'{vv}.{f}({n}) given no jump = mdl_1fsv.cond_cmom', z, poly2lp(R1, list(L)[n], M))


def definite(R, p, s, X, upper, ux):
    """integral over s in (0, upper): s^b e^{aks}; upper: name of the bound, ux: packed e^{k upper}"""
    iS, iX, k, out, memo = R.idx[s], R.idx[X], R.unit['k'], {}, {}

    def I(a, b):
        if (a, b) not in memo:
            if a == 0:
                w = {R.unit[upper] * (b + 1): F(1, b + 1)}
            else:
                w = {ux * a + R.unit[upper] * b - k: F(1, a)}
                if b:
                    iadd(w, shift(I(a, b - 1), -k), F(-b, a))
                else:
                    iadd(w, {-k: F(-1, a)})
            memo[a, b] = w
        return memo[a, b]
    groups = {}
    for e, v in p.items():
        ex = R.unpack(e)
        groups.setdefault((ex[iX], ex[iS]), {})[e - ex[iX] * R.unit[X] - ex[iS] * R.unit[s]] = v
    for (a, b), q in groups.items():
        iadd(out, mul(q, I(a, b)))
    return out


def jumps_out(R, N, p):
    """integrate the sizes (exponential, mean muv) and times of N ordered jumps"""
    from math import factorial
    for i in range(1, N + 1):
        out = {}
        for j, q in coefs(R, p, f'J{i}').items():
            iadd(out, shift(scale(q, factorial(j)), R.unit['muv'] * j))
        p = out
        up = (f's{i + 1}', R.unit[f'X{i + 1}']) if i < N else ('h', R.unit['E'])
        p = definite(R, p, f's{i}', f'X{i}', *up)
    return p


def poisson(res, model, n, top):
    """the formula given v0 is the average of the formula given the jumps, power by power of the intensity:
    coefficient of lambda^j = sum_i (-h)^(j-i)/(j-i)! * (integral over i ordered jumps)"""
    from math import factorial
    r = Read(res)
    if model == 'svcj':
        C, G = r.one('mdl_svcj.cond_mom.moment_y', n), 'mdl_svcj.cond2_mom.moment_y'
    else:
        C, G = to_v0(r.one('mdl_srjd.cond_mom.moment_v', n)), 'mdl_srjd.cond2_mom.moment_v'
    lam = coefs(R1, C, 'lam')
    for j in range(top + 1):
        want = {}
        for i in range(j + 1):
            R = jump_ring(i)
            p = rename(jumps_out(R, i, r.given(i, G, n)), R, R1, {x: x for x in RING1})
            iadd(want, mul(p, scale(R1.sym('h', j - i), F((-1) ** (j - i), factorial(j - i)))))
        same(res, R1, f'{model}: order {n} given v0, intensity^{j}, = average over up to {j} jumps', lam.get(j, {}), want)


def cpp(res, top):
    r = Read(res)
    for n in range(top + 1):
        p = r.one('cpp_mom.mcpp', n)
        same(res, R1, f'cpp_mom.mcpp({n}) = mcpp_original', r.one('cpp_mom.mcpp_original', n), p)
        same(res, R1, f'cpp_mom.cmcpp({n}) = recentred', r.one('cpp_mom.cmcpp', n), recentre(n, lambda j: r.one('cpp_mom.mcpp', j)))
        same(res, R1, f'utils.cmnorm({n}) = recentred mnorm', poly2lp(R1, impl('utils.cmnorm')(n), {'sigma': R1.unit['sj']}),
             recentre(n, lambda j: r.one('cpp_mom.mnorm', j)))
        # two disjoint horizons h and t (symbol v0)
        sm = {}
        for e, v in p.items():
            x = R1.unpack(e)[R1.idx['h']]
            iadd(sm, mul({e - x * R1.unit['h']: v}, power(add(R1.sym('h'), R1.sym('v0')), x)))
        same(res, R1, f'cpp_mom.mcpp({n}): disjoint horizons', convolve(n, lambda j: r.one('cpp_mom.mcpp', j), lambda j: subst(
            R1, r.one('cpp_mom.mcpp', j), 'h', R1.sym('v0'))), sm)
        # first order in the intensity is the jump itself
        same(res, R1, f'cpp_mom.mcpp({n}): first power of the intensity', coefs(R1, p, 'lam').get(1, {}),
             shift(r.one('cpp_mom.mnorm', n), R1.unit['h']) if n else {})


def tasks(tier):
    q = tier == 'quick'
    T = []

    def t(func, cost=2, deep=False, **kw):
        T.append(Task(ME, func, kw, cost, deep))
    t1 = 6 if q else 8
    for m in ('mdl_1fsv', 'mdl_1fsvj'):
        t('central_1', 8, m=m + '.mom.moment_y', c=m + '.cmom.cmoment_y', ns=list(range(t1 + 1)))
        t('lagged', 20, model=m, two=False, top=5 if q else 7)
    for m in ('mdl_svcj.mom.moment_y mdl_svcj.cmom.cmoment_y', 'mdl_svcj.cond_mom.moment_y mdl_svcj.cond_cmom.cmoment_y'):
        m, c = m.split()
        t('central_1', 20, m=m, c=c, ns=list(range(5 if q else 6)))
    for m in ('mdl_srjd.cond_mom.moment_x mdl_srjd.cond_cmom.cmoment_x', 'mdl_srjd.cond_mom.moment_v mdl_srjd.cond_cmom.cmoment_v'):
        m, c = m.split()
        t('central_1', 4, m=m, c=c, ns=list(range(8 if q else 11)))
    for m in ('mdl_2fsv', 'mdl_2fsvj'):
        t('central_2', 10, model=m, ns=list(range(5)))
        t('lagged', 20, model=m, two=True, top=4)
    t('jump_models', 10, two=False, top=t1, toplag=5)
    t('jump_models', 20, two=True, top=4, toplag=3 if q else 4)
    t('two_one', 20, top=4, toplag=3 if q else 4)
    for j in ('', 'j'):
        t('two_sum', 60, j=j, ns=list(range(6)), lags=[])
        t('two_sum', 30, j=j, ns=[], lags=[(l, n - l) for n in range(0, 5 if q else 6) for l in range(n + 1)])
    t('srjd_v', 5, top=8 if q else 12)
    t('srjd_joint', 5, top=6 if q else 9)
    t('svcj', 20, top=4 if q else 5)
    t('ito', 5, top=5 if q else 7)
    for n in range(0, 5 if q else 6):
        t('given_jumps', 3 ** n / 5, n=n, Ns=list(range(0, (4 if n < 4 else 3) + (0 if q else 1))))
    for n in range(0, 6 if q else 8):
        t('poisson', 2 ** n / 5, model='srjd', n=n, top=(3 if n < 5 else 2) + (0 if q else 1))
    for n in range(0, 5 if q else 6):
        t('poisson', 3 ** n / 5, model='svcj', n=n, top=(3 if n < 3 else 2 if n < 5 else 1) + (0 if q else 1))
    t('cpp', 1, top=10 if q else 14)
    return T
