"""C19: rewriting helpers preserve the value of a formula; combinatorial helpers
return what they name.  Every input of a bounded space is enumerated; values are
compared exactly (rational points at which rho and sqrt(1-rho^2) are both rational)."""
import math
from fractions import Fraction as F
from itertools import combinations, product

import core
from core import Task
from p_formula import impl
from p_exp import content

ME = 'p_help'


def Poly(d, kf):
    from ajdmom.poly import Poly
    p = Poly(d)
    p.set_keyfor(list(kf))
    return p


# three generic rational points
PRIMES = (F(7, 3), F(11, 5), F(13, 17), F(19, 23), F(29, 31), F(37, 41), F(43, 47), F(53, 59), F(61, 67), F(71, 73))
NAMES = ('h', 't', 'v0', 'theta', 'sigma', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s', 'mu', 'EV')
RHO = ((F(3, 5), F(4, 5)), (F(-5, 13), F(12, 13)), (F(8, 17), F(-15, 17)))


def points():
    for i, (r, q) in enumerate(RHO):
        d = {n: PRIMES[(j * (i + 1) + i) % 10] + j for j, n in enumerate(NAMES)}
        d.update(k=F(5 + i, 3), E=F(17 + 2 * i, 4 + i), rho=r, sq=q)
        yield d


POINTS = list(points())
COLS = {
    'e^{kt}': lambda d: d['E'], 'e^{-kt}': lambda d: 1 / d['E'], 'k^{-}': lambda d: 1 / d['k'], 'v0-theta': lambda d: d['v0'] - d['theta'],
    'v_0-theta': lambda d: d['v0'] - d['theta'], 'v_0': lambda d: d['v0'], 'sqrt(1-rho^2)': lambda d: d['sq'],
    'sigma/2k': lambda d: d['sigma'] / (2 * d['k']), 'rho-sigma/2k': lambda d: d['rho'] - d['sigma'] / (2 * d['k']),
    'E[v]': lambda d: d['EV'],
}
OPAQUE = ('l_{1:n}', 'o_{1:n}', 'o_{2:n}', 'p_{2:n}', 'q_{2:n}')


def value(poly, pt, cols={}):
    """tuple-valued exponents -> exact value of their coefficient"""
    kf = tuple(poly.keyfor)
    base = [None if c in OPAQUE else (cols.get(c) or COLS.get(c) or (lambda d, c=c: d[c]))(pt) for c in kf]
    out = {}
    for k, v in poly.items():
        if len(k) != len(kf):
            raise ValueError(f'exponents {k} under columns {kf}')
        x, o = F(v), []
        for b, e in zip(base, k):
            if b is None:
                o.append(e)
            else:
                x *= b ** e
        o = tuple(o)
        out[o] = out.get(o, 0) + x
    return {o: x for o, x in out.items() if x}


def preserved(res, label, f, poly, kf, cols={}, incols={}):
    before = content(poly)
    want = [value(poly, p, incols) for p in POINTS]
    res.states += 1
    res.traces += 1
    try:
        q = f(poly)
    except Exception as e:
        res.violation(label, f'{label} raises {type(e).__name__}: {e}')
        return
    bad = ''
    if tuple(q.keyfor) != tuple(kf):
        bad = f'columns {q.keyfor}, expected {kf}'
    else:
        try:
            if [value(q, p, cols) for p in POINTS] != want:
                bad = f'value changed: {dict(q)}'
        except Exception as e:
            bad = f'result cannot be evaluated: {e}'
    if not bad and ({k: v for k, v in poly.items() if v} != {k: v for k, v in before[1].items() if v} or tuple(poly.keyfor) != before[0]):
        bad = 'the argument is modified'
    if bad:
        res.violation(label, f'{label}: {bad}')


def spaces(alph, maxnz, base=None):
    """exponent vectors with at most maxnz columns off the first letter of the alphabet"""
    n = len(alph)
    base = base or tuple(a[0] for a in alph)
    seen = set()
    for r in range(maxnz + 1):
        for cs in combinations(range(n), r):
            for vs in product(*[alph[c][1:] for c in cs]):
                k = list(base)
                for c, v in zip(cs, vs):
                    k[c] = v
                k = tuple(k)
                if k not in seen:
                    seen.add(k)
                    yield k


KCM = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KSV = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KSJ = ('e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
KSU = ('e^{kt}', 't', 'k^{-}', 'mu', 'E[v]', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
KEV = ('k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v')


def ev_def(d):
    return d['theta'] + d['lmbd'] * d['mu_v'] / d['k']


def rewriters():
    """name -> (function of poly, result columns, alphabets of exponents, columns in)"""
    out = {}
    for tp in (1, 2, 3):
        kf = {1: ('e^{-kt}',) + KCM[1:], 2: ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho'),
              3: ('e^{-kt}', 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho')}[tp]
        out[f'mdl_1fsv.cond_cmom.simplify(tp={tp})'] = (
            lambda p, tp=tp: impl('mdl_1fsv.cond_cmom.simplify')(p, tp), kf,
            [(0, -2, 3), (0, 2), (0, 3), (0, 1, 2, 3), (0, 1, 2), (0, 2), (0, 1, 2, 3), (0, 1, 2, 3), (0, 2, 4, 6)], KCM)
    jj = [((), (1,), (2, 0), (0, 1, 1)), ((), (0,), (1, 0), (0, 2, 1)), ((), (1,), (0, 3)), ((), (2,), (1, 0))]
    for kin in (KSV,):
        for tp in (0, 1):
            kf = ('e^{-kt}',) + kin[1:10] + (('rho',) + kin[13:] if tp else kin[10:])
            out[f'mdl_svvj.cond2_cmom.simplify(tp={tp}) on {len(kin)} columns'] = (
                lambda p, tp=tp: impl('mdl_svvj.cond2_cmom.simplify')(p, tp), kf,
                [(0, -2, 3), (0, 2), (0, 3), (0, 1, 2), (0, 1), (0, 2)] + jj + [(0, 1, 2, 3), (0, 1, 2, 3), (0, 2, 4, 6)] + [(0, 2)] * (len(kin) - 13), kin)
    out['mdl_srjd.mom.expand'] = (lambda p: impl('mdl_srjd.mom.expand')(p), ('k^{-}', 'theta', 'sigma', 'lmbd', 'mu_v'),
                                  [(0, 1, 3), (0, 1, 2, 3, 4, 5), (0, 2), (0, 1, 2), (0, 1, 3)], KEV)
    out['mdl_svcj.cond_mom.expand_sqrt'] = (lambda p: impl('mdl_svcj.cond_mom.expand_sqrt')(p), KSJ[:8] + KSJ[9:],
                                            [(0, -1), (0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 3), (0, 1, 2), (0, 2, 4, 6, 8), (0, 1), (0, 2), (0, 1), (0, 1), (0, 2)], KSJ)
    out['mdl_svcj.cmom.remove_mu_column'] = (lambda p: impl('mdl_svcj.cmom.remove_mu_column')(p), ('e^{-kt}',) + KSU[1:3] + KSU[4:],
                                             [(0, -1, 2), (0, 1), (0, 2), (0,), (0, 1, 2), (0, 1), (0, 3), (0, 1), (0, 1), (0, 2), (0, 1), (0, 1), (0, 2)], KSU)
    for n in (1, 2, 3):
        kin = ('theta', 't', 'sigma', 'h')[:n - 1] + ('rho', 'sqrt(1-rho^2)') + ('k^{-}', 'mu')
        out[f'utils.simplify_rho(n={n})'] = (lambda p, n=n: impl('utils.simplify_rho')(p, n), kin[:n] + kin[n + 1:],
                                             [(0, 2)] * (n - 1) + [(0, 1, 2, 3), (0, 2, 4, 6, 8)] + [(0, 1), (0, 2)], kin)
    out["utils.simplify_rho(n=1, last column)"] = (lambda p: impl('utils.simplify_rho')(p, 1), ('rho',), [(0, 1, 2, 3, 4), (0, 2, 4, 6, 8, 10)], ('rho', 'sqrt(1-rho^2)'))
    new = KSJ
    for kin in (('e^{kt}', 'k^{-}', 'theta'), ('theta', 'e^{kt}', 'sigma_s', 'k^{-}'), ('sigma_s',)):
        out[f'mdl_svcj.cond_mom.enlarge({",".join(kin)})'] = (lambda p: impl('mdl_svcj.cond_mom.enlarge')(p, list(new)), new, [(0, 1, 2)] * len(kin), kin)
    return out


def special_cols(name):
    return {'E[v]': ev_def} if 'srjd' in name else {}


def mono(res, name, nz, pairs):
    """every monomial, and every pair of monomials of a smaller space (collisions)"""
    f, kf, alph, kin = rewriters()[name]
    cols = special_cols(name)
    n = 0
    for k in spaces(alph, nz):
        preserved(res, f'{name} {k}', f, Poly({k: F(3, 7)}, kin), kf, cols, cols)
        n += 1
        if len(res.violations) > 5:
            return
    small = list(spaces([a[:3] for a in alph], pairs))
    cf = (F(-2, 5), F(3, 7))
    for a, b in combinations(small, 2):
        preserved(res, f'{name} {a} {b}', f, Poly(dict(zip((a, b), cf)), kin), kf, cols, cols)
        n += 1
        if len(res.violations) > 5:
            return
    preserved(res, f'{name} empty', f, Poly({}, kin), kf, cols, cols)
    preserved(res, f'{name} zero', f, Poly({small[0]: F(0)}, kin), kf, cols, cols)
    res.transitions += n
    res.sample({'rewriting': name, 'formulas': n})


def real(res, name, fn, args, pick=None):
    """on the formulas the package itself produces"""
    f, kf, alph, kin = rewriters()[name]
    cols = special_cols(name)
    x = impl(fn)(*args)
    L = x if isinstance(x, list) else [x]
    for i, p in enumerate(L):
        if tuple(p.keyfor) != tuple(kin):
            res.violation(f'{name} {fn}{args}', f'{fn}{args} has columns {p.keyfor}, {name} takes {kin}')
            return
        preserved(res, f'{name} of {fn}{tuple(args)}#{i}', f, p, kf, cols, cols)
    res.sample({'rewriting': name, 'of': f'{fn}{tuple(args)}', 'terms': len(p)})


# ------------------------------------------------------- combinatorial helpers
def equal(res, label, call, want):
    res.states += 1
    res.traces += 1
    try:
        got = call()
    except core.Missing:
        return
    except Exception as e:
        res.violation(label, f'{label} raises {type(e).__name__}: {e}')
        return
    if got != want:
        res.violation(label, f'{label} = {str(got)[:200]}, expected {str(want)[:200]}')


def compositions(n, m):
    if n == 1:
        return [(m,)]
    return [(i,) + r for i in range(m + 1) for r in compositions(n - 1, m - i)]


def as_set(L):
    return sorted(tuple(x) for x in L)


def combinat(res, top):
    U = 'utils.'
    for n in range(1, 6):
        for m in range(1, 6 if n < 4 else 4):
            equal(res, f'multilevel_index({n},{m})', lambda: as_set(impl(U + 'multilevel_index')(n, m)), sorted(product(range(m), repeat=n)))
    for n in range(1, 6):
        for m in range(0, top if n < 4 else 5):
            equal(res, f'multilevel_comb({n},{m})', lambda: as_set(impl(U + 'multilevel_comb')(n, m)), sorted(compositions(n, m)))
    for n in range(0, top + 2):
        for parts in range(1, 5):
            for ns in compositions(parts, n):
                w = math.factorial(n)
                for x in ns:
                    w //= math.factorial(x)
                equal(res, f'comb({n},{ns})', lambda: impl(U + 'comb')(n, list(ns)), w)
                equal(res, f'comb({n},{ns}) unchanged', lambda: keep(ns), list(ns))
    for n in range(0, 40):
        equal(res, f'dbfactorial({n})', lambda: impl(U + 'dbfactorial')(n), math.prod(range(n, 0, -2)))
    for n in range(0, 25):
        w = {} if n % 2 else {(n,): F(math.prod(range(n - 1, 0, -2)))}
        equal(res, f'cmnorm({n})', lambda: (lambda p: ({k: v for k, v in p.items() if v}, tuple(p.keyfor)))(impl(U + 'cmnorm')(n)), (w, ('sigma',)))
    # conditional normal moments E[(mu_s + rho_J*J + sigma_s*Z)^n]
    for n in range(0, 10):
        w = {}
        for i in range(0, n + 1, 2):
            for a in range(n - i + 1):
                key = (a, n - i - a, i, n - i - a)
                w[key] = F(math.comb(n, i) * math.prod(range(i - 1, 0, -2)) * math.comb(n - i, a))
        equal(res, f'mdl_svcj.cond2_mom.mnorm_cond({n})', lambda: dict(impl('mdl_svcj.cond2_mom.mnorm_cond')(n)), w)
    for parts in range(0, 4):
        for ns in product(range(4), repeat=parts):
            w = {(0, 0, 0, ()): F(1)}
            for n in ns:
                x = {}
                for (a, b, c, J), v in w.items():
                    for i in range(0, n + 1, 2):
                        for e in range(n - i + 1):
                            k = (a + e, b + n - i - e, c + i, J + (n - i - e,))
                            x[k] = x.get(k, 0) + v * math.comb(n, i) * math.prod(range(i - 1, 0, -2)) * math.comb(n - i, e)
                w = x
            equal(res, f'mdl_svcj.cond2_mom.comb_poly({ns})', lambda: dict(impl('mdl_svcj.cond2_mom.comb_poly')(list(ns))), w)
    res.sample({'helpers': 'multilevel_index, multilevel_comb, comb, dbfactorial, cmnorm, mnorm_cond, comb_poly'})


def keep(ns):
    L = list(ns)
    impl('utils.comb')(sum(ns), L)
    return L


# ------------------------------------------------------------- jump functions
JUMPS = [((), ()), ((0.25,), (0.5,)), ((0.25, 1.0), (0.5, 0.2)), ((1.0, 0.25), (0.5, 0.2)), ((0.5, 0.5), (0.3, 0.7)), ((0.0, 1.5), (0.4, 0.0)),
         ((0.25, 0.75, 1.5), (0.5, 0.2, 0.9)), ((0.75, 1.5, 0.25), (0.5, 0.2, 0.9)), ((1.5, 0.75, 0.25), (1.0, 0.4, 0.1)), ((0.5, 1.0, 0.5), (0.3, 0.6, 0.8))]


def fz_ref(l, o, p, q, k, s, J, index=None):
    tot = mag = 0.0
    for idx in ([index] if index is not None else product(range(len(J)), repeat=len(l))):
        f = 1.0
        for i, j in enumerate(idx):
            f *= math.exp(l[i] * k * s[j]) * J[j] * s[j] ** o[i]
            if i:
                m = max(s[x] for x in idx[:i + 1])
                f *= math.exp(p[i - 1] * k * m) * m ** q[i - 1]
        tot += f
        mag += abs(f)
    return tot, mag


def close(res, label, call, want):
    res.states += 1
    res.traces += 1
    try:
        got = float(call())
    except core.Missing:
        return
    except Exception as e:
        res.violation(label, f'{label} raises {type(e).__name__}: {e}')
        return
    if not abs(got - want[0]) <= 1e-9 * want[1] + 1e-14:
        res.violation(label, f'{label} = {got}, expected {want[0]}')


def fz(res, n, part, parts, which):
    """every level n, every exponent tuple, every jump configuration"""
    A = (0, -1, 2) if n < 3 else (0, 2)
    B = (0, 1) if n < 3 else (0, 1)
    c = 0
    for l in product(A, repeat=n):
        for p in product(A, repeat=max(n - 1, 0)):
            if which == 'srjd':
                oq = [((0,) * n, (0,) * max(n - 1, 0))]
            else:
                oq = list(product(product(B, repeat=n), product(B, repeat=max(n - 1, 0))))
            for o, q in oq:
                c += 1
                if c % parts != part:
                    continue
                for k in (0.5, 2):
                    for s, J in JUMPS:
                        for con in (tuple, list):
                            if con is list and (k == 2 or n > 2):
                                continue
                            ss, JJ = con(s), con(J)
                            if n == 0:
                                w = (1.0, 1.0)
                            else:
                                w = fz_ref(l, o, p, q, k, s, J)
                            if which == 'srjd':
                                close(res, f'mdl_srjd.cond2_mom.fZ{(l, p, k, ss, JJ)}', lambda: impl('mdl_srjd.cond2_mom.fZ')(l, p, k, ss, JJ), w)
                            else:
                                close(res, f'fZ{(l, o, p, q, k, ss, JJ)}', lambda: impl('utils.fZ')(l, o, p, q, k, ss, JJ), w)
                            if len(res.violations) > 5:
                                return
                        if which == 'each' and n:
                            for idx in product(range(len(J)), repeat=n):
                                close(res, f'fZ_each_index{(l, o, p, q, k, s, J, idx)}', lambda: impl('utils.fZ_each_index')(l, o, p, q, k, s, J, list(idx)),
                                      fz_ref(l, o, p, q, k, s, J, idx))
    res.sample({'fZ': f'{n} nested sums', 'exponents': c, 'jump configurations': len(JUMPS)})


# ----------------------------------------------------------------- integrals
def deriv(d, rate):
    """derivative in t of {(exp, power of t, rest): coef}, rate(exp) the exponent's rate"""
    out = {}
    for (e, m, r), v in d.items():
        x = rate(e) * v
        if x:
            out[(e, m, r)] = out.get((e, m, r), 0) + x
        if m:
            out[(e, m - 1, r)] = out.get((e, m - 1, r), 0) + m * v
    return {k: v for k, v in out.items() if v}


def integrals(res, top):
    """int_et, int_et_fZ: the derivative is the integrand and the value at the lower bound is 0"""
    def ok(label, bad):
        res.states += 1
        res.traces += 1
        if bad:
            res.violation(label, f'{label}: {bad}')
    for n, m in product(range(-5, 6), range(0, top)):
        for i in range(0, m + 1):
            if n:
                w = F((-1) ** i * math.perm(m, i), n ** (i + 1))
                ok(f'c_nmi({n},{m},{i})', '' if impl('ito_mom.c_nmi')(n, m, i) == w else 'wrong coefficient')
        # k is a plain number here: the powers of 1/k are checked at three values of k
        for k in (F(2), F(3, 5), F(7)):
            p = impl('ito_mom.int_et')(n, m)
            d = {}
            for (e, t, kk), v in p.items():
                d[(e, t, ())] = d.get((e, t, ()), 0) + v / k ** kk
            low = sum((v for (e, t, r), v in d.items() if t == 0), F(0))
            ok(f'int_et({n},{m})', '' if deriv(d, lambda e: e * k) == {(n, m, ()): 1} and low == 0 else f'{dict(p)} is not the integral')
            for N in (0, 1, 2):
                p = impl('ito_cond_mom.int_et_fZ')(n, m, N)
                d, at = {}, {}
                for (e, t, kk, es, s), v in p.items():
                    v = v / k ** kk
                    d[(e, t, (es, s))] = d.get((e, t, (es, s)), 0) + v
                    a = (e + es, t + s) if N else (0 if t == 0 else None)
                    if a is not None:
                        at[a] = at.get(a, 0) + v
                bad = ''
                if deriv(d, lambda e: e * k) != {(n, m, (0, 0)): 1} or any(at.values()) or (N == 0 and any(x[2] != (0, 0) for x in d)):
                    bad = f'{dict(p)} is not the integral'
                ok(f'int_et_fZ({n},{m},{N})', bad)
    for n1, n2, m in product(range(-3, 4), range(-3, 4), range(0, top)):
        for k1, k2 in ((F(2), F(7, 3)), (F(3, 5), F(11))):
            r = n1 * k1 + n2 * k2
            if (n1 or n2) and not r:
                continue
            p = impl('itos_mom.int_et')(n1, n2, m)
            d = {}
            for (den, e, t), v in p.items():
                x = F(v) / ((den[0] * k1 + den[1] * k2) ** den[2] if den[2] else 1)
                d[(e, t, ())] = d.get((e, t, ()), 0) + x
            low = sum((v for (e, t, _), v in d.items() if t == 0), F(0))
            ok(f'itos_mom.int_et({n1},{n2},{m})', '' if deriv(d, lambda e: e[0] * k1 + e[1] * k2) == {((n1, n2), m, ()): 1} and low == 0
               else f'{dict(p)} is not the integral')
            for i in range(m + 1):
                if r:
                    kk, v = impl('itos_mom.c')(n1, n2, m, i)
                    ok(f'itos_mom.c({n1},{n2},{m},{i})', '' if F(v) / (kk[0] * k1 + kk[1] * k2) ** kk[2] == (-1) ** i * F(math.perm(m, i)) / r ** (i + 1) else 'wrong')
    # products of denominators
    dens = [(a, b, i) for a in (-1, 0, 1, 2) for b in (0, 1, -2) for i in (1, 2) if (a, b) != (0, 0)]

    def dv(t0, k1, k2):
        x = F(1)
        for a, b, i in t0:
            if i:
                x /= (a * k1 + b * k2) ** i
        return x
    one = ((0, 0, 0),)
    for t in dens + [(0, 0, 0)]:
        for t0 in [one] + [(d,) for d in dens] + [(d, e) for d in dens for e in dens if d[:2] != e[:2]]:
            for k1, k2 in ((F(2), F(7, 3)), (F(3, 5), F(11))):
                got = impl('itos_mom.t_mul_t0')(t, t0)
                ok(f't_mul_t0({t},{t0})', '' if dv(got, k1, k2) == dv((t,), k1, k2) * dv(t0, k1, k2) else f'= {got}')
    res.sample({'integrals': f'powers 0..{top - 1}, rates -5..5'})


def tasks(tier):
    q = tier == 'quick'
    L = []
    for name in rewriters():
        L.append(Task(ME, 'mono', dict(name=name, nz=3 if q else 4, pairs=2), 20))
    for tp in (1, 2, 3):
        L.append(Task(ME, 'real', dict(name=f'mdl_1fsv.cond_cmom.simplify(tp={tp})', fn='mdl_1fsv.cond_cmom.cmoments_y_to', args=[6 if q else 8]), 10))
    for tp in (0, 1):
        for m, c in (('mdl_svvj', 13), ):
            L.append(Task(ME, 'real', dict(name=f'mdl_svvj.cond2_cmom.simplify(tp={tp}) on {c} columns', fn=f'{m}.cond2_cmom.cmoments_y_to', args=[4 if q else 5]), 10))
    for n in range(0, 6):
        L.append(Task(ME, 'real', dict(name='mdl_srjd.mom.expand', fn='mdl_srjd.cmom.cmoment_v', args=[n])))
    for n in range(0, 5 if q else 6):
        L.append(Task(ME, 'real', dict(name='mdl_svcj.cmom.remove_mu_column', fn='mdl_svcj.cmom.cmoment_y', args=[n]), 5))
    L.append(Task(ME, 'combinat', dict(top=7 if q else 10), 5))
    for n in range(0, 4):
        P = {2: 4, 3: 8}.get(n, 1)
        for which in ('each', 'srjd'):
            L += [Task(ME, 'fz', dict(n=n, part=i, parts=P, which=which), 10) for i in range(P)]
    L.append(Task(ME, 'integrals', dict(top=7 if q else 12), 5))
    return L
