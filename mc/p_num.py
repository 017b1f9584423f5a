"""C15: numeric evaluators against the explored reference model, evaluated in
high precision at every point of a parameter grid (full product of small
alphabets for low orders, base points for higher ones, every jump
configuration of a small set)."""
from fractions import Fraction as F
from itertools import product

from core import Task
from lp import mul, shift
from models3 import TwoFactor
from numeric import value, dec, terms_abs
from p_deriv import as_par, exactify, ncheck, point1, point2
from p_formula import impl, one, srjd, given, Lazy, pairs, tuples, mean_v_maps, f_srjd_cond, Fn_central_iez
from models2 import Functionals

ME = 'p_num'
H = F(1, 2)
BASE = [
    dict(k=H, h=1, mu=F(1, 8), theta=F(1, 4), sigma=F(1, 10), rho=F(-7, 10), v0=F(2, 5), lmbd=F(3, 4), mu_v=F(3, 10),
         mu_s=F(-1, 5), sigma_s=F(1, 3), rhoJ=F(-1, 2)),
    dict(k=1, h=H, mu=0, theta=1, sigma=F(3, 4), rho=0, v0=0, lmbd=0, mu_v=H, mu_s=0, sigma_s=F(1, 4), rhoJ=0),
    dict(k=2, h=2, mu=F(-1, 3), theta=F(1, 3), sigma=1, rho=1, v0=F(1, 3), lmbd=F(3, 2), mu_v=1, mu_s=F(1, 5), sigma_s=1, rhoJ=1),
    dict(k=F(3, 4), h=F(5, 4), mu=H, theta=1, sigma=F(9, 10), rho=F(3, 5), v0=1, lmbd=2, mu_v=F(1, 5), mu_s=1, sigma_s=H, rhoJ=F(1, 4)),
    dict(k=F(3, 2), h=1, mu=1, theta=F(1, 5), sigma=H, rho=-1, v0=2, lmbd=F(1, 4), mu_v=F(7, 10), mu_s=F(-1, 2), sigma_s=F(1, 10), rhoJ=-1),
    # a day of an equity index; a decade of a slow process; a fast process
    dict(k=F(346, 100), h=F(1, 250), mu=F(319, 10000), theta=F(1, 125), sigma=F(14, 100), rho=F(-41, 50), v0=F(1, 130), lmbd=F(47, 100), mu_v=F(1, 20),
         mu_s=F(-87, 1000), sigma_s=F(1, 10000), rhoJ=F(-19, 50)),
    dict(k=F(1, 20), h=10, mu=F(-1, 50), theta=F(9, 4), sigma=F(1, 50), rho=F(1, 100), v0=F(1, 1000), lmbd=F(1, 50), mu_v=F(1, 100),
         mu_s=3, sigma_s=2, rhoJ=-3),
    dict(k=12, h=3, mu=20, theta=F(1, 50), sigma=F(3, 2), rho=F(-99, 100), v0=5, lmbd=30, mu_v=F(1, 10), mu_s=F(-1, 100), sigma_s=F(1, 50), rhoJ=F(1, 1000)),
]
JUMPS = [((), ()), ((F(1, 3),), (H,)), ((1,), (1,)), ((F(1, 4), F(3, 4)), (F(1, 5), 1)), ((F(3, 4), F(1, 4)), (2, F(1, 5))),
         ((H, H), (F(1, 3), 1)), ((0, 1), (F(1, 4), H))]
JUMPS3 = [((F(1, 5), H, F(9, 10)), (H, F(1, 4), 1)), ((F(9, 10), F(1, 5), H), (1, H, F(1, 4)))]
JUMPS6 = [((F(3, 4), F(1, 8), H, F(1, 4)), (H, F(1, 4), 1, F(1, 8))),
          ((F(1, 8), F(1, 4), F(1, 4), H, F(3, 4), 1), (1, H, F(1, 4), 2, F(1, 8), F(1, 3)))]
# names of the shared symbols in the parameter dictionaries of each family
NAMES = {
    '1f': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma_v', rho='rho'),
    '1fj': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma_v', rho='rho', lmbd='lambda', mu_s='mu_j', sigma_s='sigma_j'),
    '1fc': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma_v', rho='rho', v0='v0'),
    'srjd': dict(k='k', h='h', theta='theta', sigma='sigma', v0='v0', lmbd='lmbd', mu_v='mu_v'),
    'srjd2': dict(k='k', h='h', theta='theta', sigma='sigma', v0='v0'),
    'svvj': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma', rho='rho', v0='v0'),
    'svij': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma', rho='rho', v0='v0', lmbd='lmbd_s', mu_s='mu_s', sigma_s='sigma_s'),
    'svcj2': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma', rho='rho', v0='v0', mu_s='mu_s', sigma_s='sigma_s', rhoJ='rho_J'),
    'svcj': dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma', rho='rho', v0='v0', lmbd='lmbd', mu_v='mu_v', mu_s='mu_s',
                 sigma_s='sigma_s', rhoJ='rhoJ'),
    'fun': dict(k='k', h='h', theta='theta', sigma='sigma', v0='v0', lmbd='lmbd', mu_v='mu_v', mu_s='mu_s', sigma_s='sigma_s'),
}
SYM = dict(k='k', h='h', mu='mu', theta='theta', sigma='sigma', rho='rho', v0='v0', lmbd='lam', mu_v='muv', mu_s='mj', sigma_s='sj',
           rhoJ='rhoJ')


def oracle(fam, what, a):
    """(ring, element) of the quantity"""
    if fam in ('1f', '1fj'):
        O, _ = one('price' if fam == '1fj' else None)
        return O, {'mom': lambda n: O.mom(0, n), 'cmom': O.cmom_y, 'cov': O.cov}[what](*a)
    if fam == '1fc':
        O, _ = one(None, 'x')
        return O, O.cond_cmom_y(*a)
    if fam == 'srjd':
        O = srjd('x')
        n = a[0]
        if what == 'm':
            return O, O.cond(n, 0)
        if what == 'cm':
            return O, O.central(n, O.cond(1, 0), lambda j: O.cond(j, 0))
        from math import comb
        from lp import iadd

        def x_mom(j):
            out = {}
            for i in range(j + 1):
                for l in range(j - i + 1):
                    t = mul(O.cond(j - i - l, 0), O.R.mono(theta=l, x=i, E=j - i))
                    iadd(out, t, comb(j, i) * comb(j - i, l) * (-1) ** (i + l))
            return out
        if what == 'm_x':
            return O, x_mom(n)
        if what == 'cm_x':
            return O, O.central(n, x_mom(1), x_mom)
    if fam == 'svcj':
        if what in ('cond', 'ccond'):
            O, _ = one('joint', 'x')
            return O, (O.cond(0, a[0]) if what == 'cond' else O.cond_cmom_y(a[0]))
        O, _ = one('joint', 'v0')
        return O, (O.mom(0, a[0]) if what == 'mom' else O.cmom_y(a[0]))
    Fn = Lazy.get('fn_x', lambda: Functionals(True, v0='x'))
    if what == 'ie':
        return Fn, Fn.moment(a[0], 0, 0, 0, 0, 0)
    if what == 'ie_iez':
        return Fn, Fn.moment(a[0], 0, 0, a[1], 0, 0)
    if what == 'c_ie_iez':
        return Fn, Fn_central_iez(Fn, *a)
    if what == 'six':
        return Fn, Fn.moment(*a[0])
    if what == 'three':
        return Fn, Fn.moment(0, 0, 0, *a[0])
    raise KeyError((fam, what))


def at_point(fam, ex):
    """ex: exact rationals by shared name -> Decimal values of ring symbols"""
    d = {SYM[n]: dec(v) for n, v in ex.items()}
    z = dec(0)
    d['E'] = (d['k'] * d['h']).exp()
    for n in ('x', 'v0', 'lam', 'mj', 'sj', 'muv', 'rhoJ', 'mu', 'rho'):
        d.setdefault(n, z)
    if 'v0' in ex:
        d['x'] = dec(ex['v0'] - ex['theta'])
    d['ev'] = dec(1)
    return d


SPECIAL = dict(k=(1,), h=(H, 2), mu=(0, F(-1, 3)), theta=(1,), sigma=(0, 1), rho=(0, 1, -1), v0=(0, F(1, 4)), lmbd=(0, 1),
               mu_v=(1,), mu_s=(0, F(1, 5)), sigma_s=(0, 1), rhoJ=(0, 1, -1))


def grid(names, full):
    """full = 0: the base points; 1: and every single special value from the first base
    point; 2: and every pair of special values"""
    for b in BASE:
        yield {n: b[n] for n in names}
    g = {n: BASE[0][n] for n in names}
    one = [(n, v) for n in names for v in SPECIAL[n]]
    if full:
        for n, v in one:
            yield dict(g, **{n: v})
    if full > 1:
        for i, (n, v) in enumerate(one):
            for m, w in one[:i]:
                if m != n:
                    yield dict(g, **{n: v, m: w})


def num(res, fn, fam, what, a, full=0):
    O, x = oracle(fam, what, a)
    f = impl(fn)
    names = NAMES[fam]
    n = 0
    for g in grid(list(names), full):
        ex = exactify(g)
        par = {names[k]: v for k, v in as_par(g).items()}
        at = at_point(fam, ex)
        mag = terms_abs(O.R, x, at) + (terms_abs(O.R, O.yy(*a), at) if what == 'cov' else 0)
        ncheck(res, f'{fn}({",".join(map(str, a))}) at {par}', lambda: f(*a, dict(par)), value(O.R, x, at), mag)
        n += 1
        if len(res.violations) > 5:
            break
    res.sample({'call': f'{fn}{tuple(a)}', 'points': n, 'par': str(par)})
    res.add(O)


def num_iez(res, fn, n):
    """jump integral over [s, t]"""
    Fn = Lazy.get('fn_x', lambda: Functionals(True, v0='x'))
    R = Fn.R
    x = Fn.moment(0, 0, 0, n, 0, 0) if fn.endswith('.m') else Fn_central_iez(Fn, 0, n)
    x = shift(x, n * R.unit['ev'])
    f = impl(fn)
    for k, lm, mv, (s, t) in product((H, 1, 2), (0, F(3, 4)), (F(3, 10), 1), ((0, 1), (H, 1), (1, F(5, 2)))):
        e = {a: F(float(b)) for a, b in dict(k=k, l=lm, m=mv, s=s, t=t).items()}
        at = at_point('srjd', dict(k=e['k'], h=e['t'] - e['s'], theta=F(1), lmbd=e['l'], mu_v=e['m']))
        at['ev'] = (dec(e['k']) * dec(e['s'])).exp()
        par = as_par(dict(k=k, lmbd=lm, mu_v=mv, lb=s, ub=t))
        ncheck(res, f'{fn}({n}) at {par}', lambda: f(n, dict(par)), value(R, x, at), terms_abs(R, x, at))
    res.sample({'call': f'{fn}({n})', 'par': str(par)})
    res.add(Fn)


def num_jumps(res, fn, fam, what, n, jumps, as_type='tuple', full=0):
    price = {'svvj': None, 'srjd2': None, 'svij': 'indep', 'svcj2': 'joint'}[fam]
    f = impl(fn)
    names = NAMES[fam]
    for times, sizes in jumps:
        N = len(times)
        G = given(N, 'y', price)
        if fam == 'srjd2':
            x = G.moment(n, 0) if what == 'm' else G.cmom_v(n)
        else:
            x = G.moment(0, n) if what == 'm' else G.cmom_y(n)
        res.add(G)
        for g in grid(list(names), full):
            h = F(g['h'])
            ts = [float(h * F(t)) for t in times]      # times are fractions of the horizon
            js = [float(j) for j in sizes]
            par = {names[k]: v for k, v in as_par(g).items()}
            con = tuple if as_type == 'tuple' else list
            par['jumptime'], par['jumpsize'] = con(ts), con(js)
            ex = exactify(g)
            at = at_point(fam, ex)
            for i, (t, j) in enumerate(sorted(zip(ts, js))):
                at[f's{i+1}'], at[f'J{i+1}'] = dec(F(t)), dec(F(j))
                at[f'X{i+1}'] = (at['k'] * dec(F(t))).exp()
            ncheck(res, f'{fn}({n}) at {par}', lambda: f(n, dict(par)), value(G.R, x, at), terms_abs(G.R, x, at))
            if len(res.violations) > 5:
                return
    res.sample({'call': f'{fn}({n})', 'par': str(par)})


G2 = [dict(k1=H, k2=F(5, 4), h=1, mu=F(1, 8), theta1=F(1, 4), theta2=F(1, 5), sigma_v1=F(1, 10), sigma_v2=F(1, 3),
           **{'lambda': H}, mu_j=F(-1, 5), sigma_j=F(1, 3)),
      dict(k1=2, k2=F(3, 4), h=H, mu=0, theta1=H, theta2=1, sigma_v1=1, sigma_v2=H, **{'lambda': 0}, mu_j=0, sigma_j=1),
      dict(k1=1, k2=2, h=2, mu=F(-1, 3), theta1=1, theta2=F(1, 4), sigma_v1=F(1, 2), sigma_v2=F(3, 4), **{'lambda': 2}, mu_j=1, sigma_j=F(1, 10)),
      dict(k1=1, k2=1, h=1, mu=F(1, 4), theta1=F(1, 3), theta2=F(1, 4), sigma_v1=F(1, 2), sigma_v2=F(1, 4), **{'lambda': 1}, mu_j=0, sigma_j=H),
      dict(k1=F(346, 100), k2=F(1, 4), h=F(1, 250), mu=F(319, 10000), theta1=F(1, 125), theta2=F(1, 50), sigma_v1=F(14, 100), sigma_v2=F(1, 10),
           **{'lambda': F(47, 100)}, mu_j=F(-87, 1000), sigma_j=F(1, 10000)),
      dict(k1=F(3, 2), k2=F(3, 4), h=1, mu=F(1, 9), theta1=F(1, 4), theta2=F(1, 7), sigma_v1=F(3, 10), sigma_v2=F(2, 5), **{'lambda': F(1, 4)},
           mu_j=F(1, 8), sigma_j=F(1, 4)),
      dict(k1=F(1, 20), k2=12, h=10, mu=20, theta1=F(9, 4), theta2=F(1, 50), sigma_v1=F(1, 50), sigma_v2=F(3, 2), **{'lambda': 30}, mu_j=3, sigma_j=2)]


S2 = {'k1': (2,), 'k2': (2,), 'h': (H, 2), 'mu': (0, F(-1, 3)), 'theta1': (1,), 'theta2': (1,), 'sigma_v1': (0, 1), 'sigma_v2': (0, 1),
      'lambda': (0, 1), 'mu_j': (0, F(1, 5)), 'sigma_j': (0, 1)}


def resonance(k1, k2):
    """the rates for which n1*k1 = n2*k2 with small n1, n2 (None if there are none)"""
    return next((f'{n1}*k1=={n2}*k2' for n1, n2 in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (3, 2), (2, 3)) if n1 * k1 == n2 * k2), None)


def num2(res, model, kind, a):
    J = model.endswith('j')
    f = impl(f'{model}.{kind}.' + {'mom': 'm', 'cmom': 'cm', 'cov': 'cov'}[kind])
    made = {}
    points = G2 + [dict(G2[0], **{n: v}) for n in S2 for v in S2[n]] if sum(a) <= 3 else G2
    if sum(a) > 4:      # every call derives the formula anew
        points = [g for i, g in enumerate(G2) if i == 0 or resonance(g['k1'], g['k2'])]
    for g in points:
        g = {k: v for k, v in g.items() if J or k not in ('lambda', 'mu_j', 'sigma_j')}
        ge = exactify(g)
        kk = (ge['k1'], ge['k2'])
        if kk not in made:
            O = TwoFactor(*kk, J)
            made[kk] = O, {'mom': lambda n: O.mom(0, 0, n), 'cmom': O.cmom_y, 'cov': O.cov}[kind](*a)
        O, x = made[kk]
        par, at = as_par(g), point2(ge)
        mag = terms_abs(O.R, x, at) + (terms_abs(O.R, O.yy(*a), at) if kind == 'cov' else 0)
        rate = resonance(*kk)
        if rate:
            # the published formula has removable poles n1*k1 = n2*k2; a call that stops there
            # is one violation per function and resonance, whatever the other parameters are
            try:
                f(*a, dict(par))
            except ZeroDivisionError as e:
                key = f'{model}.{kind}{tuple(a)} with {rate} raises ZeroDivisionError'
                res.violation(key, f'{model}.{kind}{tuple(a)} at {par} raises ZeroDivisionError: {e}')
                continue
        ncheck(res, f'{model}.{kind}{tuple(a)} at {par}', lambda: f(*a, dict(par)), value(O.R, x, at), mag)
        res.add(O)
    res.sample({'call': f'{model}.{kind}{tuple(a)}', 'par': str(par)})


def T(func, cost=1.0, deep=False, **kw):
    return Task(ME, func, kw, cost, deep)


def tasks(tier):
    q = tier == 'quick'
    L = []
    for fam, m in (('1f', 'mdl_1fsv'), ('1fj', 'mdl_1fsvj')):
        for kind, ev in (('mom', 'm'), ('cmom', 'cm')):
            for n in range(0, 6 if q else 8):
                L.append(T('num', 4, n > 6, fn=f'{m}.{kind}.{ev}', fam=fam, what=kind, a=[n], full=(2 if n <= 2 else n == 3)))
        for a in pairs(4 if q else 6, zero=True):
            L.append(T('num', 4, sum(a) > 4, fn=f'{m}.cov.cov', fam=fam, what='cov', a=list(a), full=(2 if sum(a) <= 2 else sum(a) == 3)))
    for n in range(0, 6 if q else 9):
        L.append(T('num', 3, n > 6, fn='mdl_1fsv.cond_cmom.cond_cm', fam='1fc', what='cmom', a=[n], full=(2 if n <= 2 else n == 3)))
    for fn, what in (('cond_mom.m', 'm'), ('cond_mom.m_x', 'm_x'), ('cond_cmom.cm', 'cm'), ('cond_cmom.cm_x', 'cm_x')):
        for n in range(0, 6 if q else 9):
            L.append(T('num', 2, False, fn='mdl_srjd.' + fn, fam='srjd', what=what, a=[n], full=(2 if n <= 2 else n == 3)))
    for fn, what in (('cond_ie_iez_mom.m_ie', 'ie'), ('cond_ie_iez_cmom.m_ie', 'ie')):
        for n in range(0, 6):
            L.append(T('num', 2, False, fn='mdl_srjd.' + fn, fam='srjd', what=what, a=[n], full=(2 if n <= 2 else n == 3)))
    for fn, what in (('cond_ie_iez_mom.m_ie_iez', 'ie_iez'), ('cond_ie_iez_cmom.cm_ie_iez', 'c_ie_iez')):
        for a in pairs(5, zero=True):
            L.append(T('num', 2, False, fn='mdl_srjd.' + fn, fam='srjd', what=what, a=list(a), full=(2 if sum(a) <= 2 else sum(a) == 3)))
    for fn in ('mdl_srjd.iez_mom.m', 'mdl_srjd.iez_cmom.cm'):
        for n in range(0, 7 if q else 10):
            L.append(T('num_iez', 1, False, fn=fn, n=n))
    JJ = JUMPS + JUMPS3
    for fam, m in (('srjd2', 'mdl_srjd'), ('svvj', 'mdl_svvj'), ('svij', 'mdl_svij'), ('svcj2', 'mdl_svcj')):
        for fn, what in (('cond2_mom.m', 'm'), ('cond2_cmom.cm', 'cm')):
            fn = f'{m}.{fn}'
            for n in range(0, 4):
                L.append(T('num_jumps', 5, False, fn=fn, fam=fam, what=what, n=n, jumps=JJ if n <= 3 else JUMPS))
            L.append(T('num_jumps', 8, True, fn=fn, fam=fam, what=what, n=4, jumps=JUMPS[:5], as_type='list'))
            for n in (1, 2):
                L.append(T('num_jumps', 5, False, fn=fn, fam=fam, what=what, n=n, jumps=JUMPS6))
            L.append(T('num_jumps', 5, False, fn=fn, fam=fam, what=what, n=2, jumps=JUMPS[:1] + JUMPS[3:4], as_type='list', full=2))
            if not q:
                L.append(T('num_jumps', 50, True, fn=fn, fam=fam, what=what, n=5, jumps=JUMPS[:5]))
                L.append(T('num_jumps', 50, True, fn=fn, fam=fam, what=what, n=3, jumps=JJ, full=1))
    for fn, what in (('cond_mom.m_y', 'cond'), ('cond_cmom.cm_y', 'ccond'), ('mom.unm_y', 'mom'), ('cmom.cm_y', 'cmom')):
        for n in range(0, 5 if q else 6):
            L.append(T('num', 8, n > 4, fn='mdl_svcj.' + fn, fam='svcj', what=what, a=[n], full=(2 if n <= 2 else n == 3)))
    six = [t for n in range(0, 4) for t in tuples(n, 6)]
    for part in (six[:40], six[40:]):
        for t in part:
            L.append(T('num', 0.2, False, fn='mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz', fam='fun', what='six', a=[list(t)]))
    for t in [t for n in range(0, 5) for t in tuples(n, 3)]:
        L.append(T('num', 0.2, False, fn='mdl_svcj.ieziziz_mom.m_ieziziz', fam='fun', what='three', a=[list(t)]))
    for m in ('mdl_2fsv', 'mdl_2fsvj'):
        for kind in ('mom', 'cmom'):
            for n in range(0, 6):
                L.append(T('num2', 5 ** (n - 2), n > 5, model=m, kind=kind, a=[n]))
        for a in pairs(3 if q else 5, zero=True):
            L.append(T('num2', 5 ** (sum(a) - 2), sum(a) > 4, model=m, kind='cov', a=list(a)))
    return L
