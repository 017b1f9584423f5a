"""C14: derivatives.

(a) the differentiation operators are run on every monomial (and every pair of
    colliding monomials) over a bounded exponent box and compared with exact
    differentiation of the published meaning of the exponents;
(b) on every formula up to an order, against the derivative of the explored
    reference model (one factor) or of the published meaning (two factors);
(c) the numeric derivative functions at every point of a parameter grid."""
from decimal import Decimal, getcontext
from fractions import Fraction as F
from itertools import combinations, product

from core import Task
from lp import Ring, add, iadd, mul, scale, power, shift, sub
from models import RING1, poly2lp, map1
from models3 import map2
from p_formula import impl, one, two, KS, pairs
from numeric import value, dec, close, terms_abs

getcontext().prec = 60
ME = 'p_deriv'

SYM1 = {'mu': 'mu', 'theta': 'theta', 'sigma_v': 'sigma', 'lambda': 'lam', 'mu_j': 'mj', 'sigma_j': 'sj'}
WRT1 = ['k', 'mu', 'theta', 'sigma_v', 'rho']
WRTJ = ['lambda', 'mu_j', 'sigma_j']
WRT2 = ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
SYM2 = {'mu': 'mu', 'theta1': 'th1', 'sigma_v1': 'sg1', 'theta2': 'th2', 'sigma_v2': 'sg2',
        'lambda': 'lam', 'mu_j': 'mj', 'sigma_j': 'sj'}


def partial(R, p, name):
    i, u = R.idx[name], R.unit[name]
    out = {}
    for e, v in p.items():
        x = R.unpack(e)[i]
        if x:
            iadd(out, {e - u: v * x})
    return out


def D1(R, p, wrt):
    """exact derivative in the one-factor ring (E = exp(kh), sq^2 = 1 - rho^2)"""
    if wrt == 'k':
        out = partial(R, p, 'k')
        i, u = R.idx['E'], R.unit['h']
        for e, v in p.items():
            x = R.unpack(e)[i]
            if x:
                iadd(out, {e + u: v * x})
        return out
    if wrt == 'rho':
        out = partial(R, p, 'rho')
        i = R.idx['sq']
        for e, v in p.items():
            x = R.unpack(e)[i]
            if x:
                iadd(out, {e + R.unit['rho'] - 2 * R.unit['sq']: -v * x})
        return out
    return partial(R, p, SYM1[wrt])


def canon(R, p, lift):
    """multiply by sq^lift (lift even, enough to clear negatives), reduce sq^2"""
    i, u = R.idx['sq'], R.unit['sq']
    w = sub(R.one(), R.sym('rho', 2))
    out = {}
    for e, v in p.items():
        x = R.unpack(e)[i] + lift
        t = shift({e - (x - lift) * u: v}, u * (x % 2))
        iadd(out, mul(t, power(w, x // 2)))
    return out


def same1(R, a, b):
    i = R.idx['sq']
    lo = min([0] + [R.unpack(e)[i] for e in list(a) + list(b)])
    lift = -lo + (lo % 2)
    return canon(R, a, lift) == canon(R, b, lift)


def free(R):
    M = map1(R)
    M['sqrt(1-rho^2)'] = R.unit['sq']
    return M


KF1 = {'mom': ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)'],
       'cmom': ['e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)']}
KFJ = ['lambda', 'mu_j', 'sigma_j']
KF2 = {'mom': ['(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu',
               'theta1', 'sigma_v1', 'theta2', 'sigma_v2']}
KF2['cmom'] = [x for x in KF2['mom'] if x != 'mu']


def mkpoly(kf, terms):
    from ajdmom.poly import Poly
    p = Poly()
    p.set_keyfor(tuple(kf))
    for k, v in terms:
        p.add_keyval(k, v)
    return p


def dcheck(res, key, call, conv, want, same, show):
    res.evaluations += 1
    try:
        d = call()
        got = conv(d)
    except Exception as e:
        res.violation(key, f"{key}: {type(e).__name__}: {e}")
        return
    if not same(got, want):
        res.violation(key, f"{key}: derivative is {show(got)}, exact derivative is {show(want)}")
        return
    res.traces += 1
    if want:
        res.nontrivial += 1


def boxes(n, maxnz, vals):
    for nz in range(maxnz + 1):
        for pos in combinations(range(n), nz):
            for v in product(vals, repeat=nz):
                k = [0] * n
                for i, x in zip(pos, v):
                    k[i] = x
                yield tuple(k)


def d_terms1(res, model, kind, maxnz, vals):
    kf = KF1[kind] + (KFJ if model.endswith('j') else [])
    dpoly = impl(f'{model}.{kind}.dpoly')
    R = Ring(RING1)
    M = free(R)
    wrts = WRT1 + (WRTJ if model.endswith('j') else [])
    same = lambda a, b: same1(R, a, b)
    show = lambda p: R.show(p, 4)

    def go(terms):
        p = mkpoly(kf, terms)
        x = poly2lp(R, p, M)
        for w in wrts:
            dcheck(res, f'{model}.{kind}.dpoly({dict(terms)}, {w!r})', lambda: dpoly(p, w),
                   lambda d: poly2lp(R, d, M), D1(R, x, w), same, show)
    for k in boxes(len(kf), maxnz, vals):
        go([(k, F(3, 7))])
        res.states += 1
    # colliding terms
    res.sample({'monomial': dict(zip(kf, k))})
    small = [k + (0,) * (len(kf) - 3) for k in product((0, 1, 2), repeat=3)]
    ir = kf.index('rho')
    for a in product((0, 1, 2, 3, 4), repeat=2):
        k = [0] * len(kf)
        k[ir], k[ir + 1] = a
        small.append(tuple(k))
    small = list(dict.fromkeys(small))
    for a, b in combinations(small, 2):
        go([(a, F(2)), (b, F(-5, 3))])
        res.states += 1
    res.transitions += res.evaluations


def d_form1(res, model, kind, a):
    jumps = 'price' if model.endswith('j') else None
    O, _ = one(jumps)
    R = O.R
    M = free(R)
    name = {'mom': 'moment_y', 'cmom': 'cmoment_y', 'cov': 'cov_yy'}[kind]
    try:
        p = impl(f'{model}.{kind}.{name}')(*a)
    except Exception as e:
        res.violation(f'{model}.{kind}{tuple(a)}', f'raises {type(e).__name__}: {e}')
        return
    dpoly = impl(f"{model}.{'cmom' if kind == 'cmom' else 'mom'}.dpoly")
    x = {'mom': lambda n: O.mom(0, n), 'cmom': O.cmom_y, 'cov': O.cov}[kind](*a)
    for w in WRT1 + (WRTJ if jumps else []):
        dcheck(res, f'{model}.{kind}.dpoly({name}{tuple(a)}, {w!r})', lambda: dpoly(p, w),
               lambda d: poly2lp(R, d, M), D1(R, x, w), lambda a, b: same1(R, a, b), lambda p: R.show(p, 4))
    res.sample({'formula': f'{model}.{kind}.{name}{tuple(a)}', 'terms': len(x)})
    res.add(O)


# ---------------------------------------------------------------- two factors
def D2(O, p, wrt):
    """exact derivative of a poly's published meaning, at the rates of O"""
    R, (k1, k2), M = O.R, O.k, map2(O)
    kf = tuple(p.keyfor)
    if wrt not in ('k1', 'k2'):
        return partial(R, poly2lp(R, p, M), SYM2[wrt])
    w = 0 if wrt == 'k1' else 1
    it, ie = kf.index(KF2['mom'][0]), kf.index(KF2['mom'][1])
    out = {}

    class P(dict):
        keyfor = kf
    for key, v in p.items():
        x = poly2lp(R, P({key: v}), M)
        c = sum((F(-t[2] * t[w]) / (t[0] * k1 + t[1] * k2) for t in key[it] if t[2]), F(0))
        if c:
            iadd(out, x, c)
        if key[ie][w]:
            iadd(out, shift(x, R.unit['h']), -key[ie][w])
    return out


T0 = [(), ((1, 0, 1),), ((0, 1, 2),), ((1, 1, 1),), ((2, 1, 3),), ((1, -1, 1),), ((1, 0, 2), (0, 1, 1)),
      ((2, 0, 1), (1, 0, 1)), ((1, 2, 1), (2, 1, 2)), ((3, 1, 1), (1, 0, 1), (0, 1, 1)), ((1, -2, 2), (1, 0, 1))]


def d_terms2(res, model, kind):
    J = model.endswith('j')
    kf = KF2[kind] + (KFJ if J else [])
    dpoly = impl(f'{model}.{kind}.dpoly')
    wrts = WRT2 + (WRTJ if J else [])
    n = len(kf) - 2
    for ks in (0, 1):
        O, M = two(ks, J)
        R = O.R

        def go(terms):
            p = mkpoly(kf, terms)
            for w in wrts:
                dcheck(res, f'{model}.{kind}.dpoly({dict(terms)}, {w!r})', lambda: dpoly(p, w),
                       lambda d: poly2lp(R, d, M), D2(O, p, w), lambda a, b: a == b, lambda p: R.show(p, 4))
        for t0 in T0:
            for t1 in ((0, 0), (1, 0), (0, 2), (2, 1)):
                for rest in boxes(n, 1, (1, 2, 3)):
                    go([((t0, t1) + rest, F(3, 7))])
                    res.states += 1
        z = (0,) * n
        for t0 in T0[:3]:
            for rest in boxes(n, 3, (1, 2)):
                go([((t0, (1, 1)) + rest, F(3, 7))])
                res.states += 1
        mons = [(t0, t1) + z for t0 in T0[:7] for t1 in ((0, 0), (1, 0), (0, 1))] + \
               [(t0, (1, 0), 1) + z[1:] for t0 in T0[:7]]
        for a, b in combinations(mons, 2):
            go([(a, F(2)), (b, F(-5, 3))])
            res.states += 1
    res.sample({'monomial': dict(zip(kf, (T0[8], (2, 1)) + (1,) * n))})
    res.transitions += res.evaluations


def d_form2(res, model, kind, a, ks=0):
    J = model.endswith('j')
    O, M = two(ks, J)
    R = O.R
    name = {'mom': 'moment_y', 'cmom': 'cmoment_y', 'cov': 'cov_yy'}[kind]
    try:
        p = impl(f'{model}.{kind}.{name}')(*a)
        poly2lp(R, p, M)
    except Exception as e:
        res.violation(f'{model}.{kind}{tuple(a)}', f'raises {type(e).__name__}: {e}')
        return
    dpoly = impl(f"{model}.{'cmom' if kind == 'cmom' else 'mom'}.dpoly")
    for w in WRT2 + (WRTJ if J else []):
        dcheck(res, f'{model}.{kind}.dpoly({name}{tuple(a)}, {w!r})', lambda: dpoly(p, w),
               lambda d: poly2lp(R, d, M), D2(O, p, w), lambda a, b: a == b, lambda p: R.show(p, 4))
    res.sample({'formula': f'{model}.{kind}.{name}{tuple(a)}', 'terms': len(p)})
    # the graph behind the value itself
    want = {'mom': lambda n: O.mom(0, 0, n), 'cmom': O.cmom_y, 'cov': O.cov}[kind](*a)
    res.add(O)


# ------------------------------------------------------- numeric derivatives
G1 = [dict(k=F(1, 2), h=1, mu=F(1, 8), theta=F(1, 4), sigma_v=F(1, 10), rho=F(-7, 10)),
      dict(k=1, h=F(1, 2), mu=0, theta=1, sigma_v=F(3, 4), rho=0),
      dict(k=2, h=2, mu=F(-1, 3), theta=F(1, 3), sigma_v=F(1, 2), rho=F(1, 2)),
      dict(k=F(346, 100), h=F(1, 250), mu=F(319, 10000), theta=F(1, 125), sigma_v=F(14, 100), rho=F(-41, 50)),
      dict(k=F(1, 20), h=10, mu=20, theta=F(9, 4), sigma_v=F(1, 50), rho=-1),
      dict(k=12, h=3, mu=F(-1, 50), theta=F(1, 50), sigma_v=F(3, 2), rho=1)]
GJ = [dict(**{'lambda': F(1, 2)}, mu_j=F(-1, 5), sigma_j=F(1, 3)), dict(**{'lambda': F(3, 2)}, mu_j=0, sigma_j=F(1, 10)),
      dict(**{'lambda': 0}, mu_j=-3, sigma_j=2)]
G2 = [dict(k1=F(1, 2), k2=F(5, 4), h=1, mu=F(1, 8), theta1=F(1, 4), theta2=F(1, 5), sigma_v1=F(1, 10), sigma_v2=F(1, 3)),
      dict(k1=2, k2=F(3, 4), h=F(1, 2), mu=0, theta1=F(1, 2), theta2=1, sigma_v1=1, sigma_v2=F(1, 2)),
      dict(k1=F(346, 100), k2=F(1, 4), h=F(1, 250), mu=F(319, 10000), theta1=F(1, 125), theta2=F(1, 50), sigma_v1=F(14, 100), sigma_v2=F(1, 10)),
      dict(k1=1, k2=1, h=3, mu=F(-1, 50), theta1=F(1, 50), theta2=2, sigma_v1=F(3, 2), sigma_v2=1)]


def as_par(g):
    """python numbers as a user would write them (ints stay ints)"""
    return {k: (int(v) if v == int(v) else float(v)) for k, v in g.items()}


def point1(g):
    d = {k: dec(v) for k, v in g.items()}
    v = dict(k=d['k'], h=d['h'], E=(d['k'] * d['h']).exp(), mu=d['mu'], theta=d['theta'], sigma=d['sigma_v'],
             rho=d['rho'], sq=(1 - d['rho'] ** 2).sqrt(), lam=d.get('lambda', dec(0)), mj=d.get('mu_j', dec(0)),
             sj=d.get('sigma_j', dec(0)))
    return v


def point2(g):
    d = {k: dec(v) for k, v in g.items()}
    return dict(h=d['h'], E1=(d['k1'] * d['h']).exp(), E2=(d['k2'] * d['h']).exp(), mu=d['mu'], th1=d['theta1'],
                th2=d['theta2'], sg1=d['sigma_v1'], sg2=d['sigma_v2'], lam=d.get('lambda', dec(0)),
                mj=d.get('mu_j', dec(0)), sj=d.get('sigma_j', dec(0)))


def exactify(g):
    """the exact rationals of the floats passed"""
    return {k: F(x) for k, x in as_par(g).items()}


def ncheck(res, key, call, want, mag):
    res.evaluations += 1
    try:
        got = call()
    except Exception as e:
        res.violation(key, f"{key} raises {type(e).__name__}: {e}")
        return
    if not close(got, want, mag):
        res.violation(key, f"{key} = {got!r}, exact value {float(want)!r}")
        return
    res.traces += 1
    if want:
        res.nontrivial += 1


def d_num1(res, model, kind, a):
    J = model.endswith('j')
    O, _ = one('price' if J else None)
    R = O.R
    x = {'mom': lambda n: O.mom(0, n), 'cmom': O.cmom_y, 'cov': O.cov}[kind](*a)
    f = impl(f'{model}.{kind}.' + {'mom': 'dm', 'cmom': 'dcm', 'cov': 'dcov'}[kind])
    for i, g in enumerate(G1):
        for gj in (GJ if J else [{}]):
            gg = dict(g, **gj)
            par, ex = as_par(gg), point1(exactify(gg))
            for w in WRT1 + (WRTJ if J else []):
                dx = D1(R, x, w)
                ncheck(res, f'{model}.{kind}.d{tuple(a)} wrt {w} at {par}', lambda: f(*a, dict(par), w),
                       value(R, dx, ex), terms_abs(R, dx, ex))
    res.sample({'call': f'{model}.{kind} d{tuple(a)}', 'par': str(par)})
    res.add(O)


def d_num2(res, model, kind, a):
    J = model.endswith('j')
    f = impl(f'{model}.{kind}.' + {'mom': 'dm', 'cmom': 'dcm', 'cov': 'dcov'}[kind])
    name = {'mom': 'moment_y', 'cmom': 'cmoment_y', 'cov': 'cov_yy'}[kind]
    p = impl(f'{model}.{kind}.{name}')(*a)
    from models3 import TwoFactor
    for g in G2:
        ge = exactify(g)
        O = TwoFactor(ge['k1'], ge['k2'], J)
        for gj in (GJ if J else [{}]):
            gg = dict(g, **gj)
            par, ex = as_par(gg), point2(exactify(gg))
            for w in WRT2 + (WRTJ if J else []):
                if w in ('k1', 'k2'):
                    dx = D2(O, p, w)
                else:
                    dx = partial(O.R, {'mom': lambda n: O.mom(0, 0, n), 'cmom': O.cmom_y, 'cov': O.cov}[kind](*a), SYM2[w])
                ncheck(res, f'{model}.{kind}.d{tuple(a)} wrt {w} at {par}', lambda: f(*a, dict(par), w),
                       value(O.R, dx, ex), terms_abs(O.R, dx, ex))
        res.add(O)
    res.sample({'call': f'{model}.{kind} d{tuple(a)}', 'par': str(par)})


def T(func, cost=1.0, deep=False, **kw):
    return Task(ME, func, kw, cost, deep)


def tasks(tier):
    q = tier == 'quick'
    L = []
    for m in ('mdl_1fsv', 'mdl_1fsvj'):
        for kind in ('mom', 'cmom'):
            L.append(T('d_terms1', 8, model=m, kind=kind, maxnz=2 if q else 3, vals=(1, 2, 3) if q else (1, 2, 3, 4)))
            for n in range(0, 6 if q else 8):
                L.append(T('d_form1', 3 ** (n - 3), n > 6, model=m, kind=kind, a=[n]))
            for n in range(0, 5 if q else 7):
                L.append(T('d_num1', 3 ** (n - 3), n > 5, model=m, kind=kind, a=[n]))
        for a in pairs(4 if q else 6, zero=not q):
            L.append(T('d_form1', 3 ** (sum(a) - 3), sum(a) > 5, model=m, kind='cov', a=list(a)))
        for a in pairs(3 if q else 5):
            L.append(T('d_num1', 3 ** (sum(a) - 3), sum(a) > 4, model=m, kind='cov', a=list(a)))
    for m in ('mdl_2fsv', 'mdl_2fsvj'):
        for kind in ('mom', 'cmom'):
            L.append(T('d_terms2', 8, model=m, kind=kind))
            for n in range(0, 4 if q else 6):
                L.append(T('d_form2', 6 ** (n - 2), n > 4, model=m, kind=kind, a=[n]))
            for n in range(0, 4 if q else 5):
                L.append(T('d_num2', 6 ** (n - 2), n > 3, model=m, kind=kind, a=[n]))
        for a in pairs(3 if q else 5):
            L.append(T('d_form2', 6 ** (sum(a) - 2), sum(a) > 3, model=m, kind='cov', a=list(a)))
            if sum(a) <= (3 if q else 4):
                L.append(T('d_num2', 6 ** (sum(a) - 2), sum(a) > 3, model=m, kind='cov', a=list(a)))
    return L
