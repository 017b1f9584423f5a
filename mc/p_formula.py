"""C01-C13: every published formula equals the moment of the process.

The reference is a transition system: states are monomials of the process
variables, transitions are given by the infinitesimal generator, and the
finite graph below each target is explored exhaustively and solved exactly.
The package's own result is read through the names it publishes in ``keyfor``
and compared as a function of *all* parameters (exact Laurent polynomials), so
one comparison decides one order for every parameter value."""
import importlib
from fractions import Fraction as F
from math import comb, factorial

import core
from core import Task
from lp import Ring, add, iadd, mul, scale, power, shift, sub
from gen import normal_moment, System, Clock, Edges
from models import OneFactor, poly2lp, map1, RING1
from models2 import Functionals, GivenJumps, FZ, jumppoly2lp
from models3 import TwoFactor, map2


def impl(path):
    return core.need(path)


def compare(res, key, call, conv, want, R, n_sample=None):
    """call(): the package's result; conv(poly) -> ring element; want: ring element"""
    res.evaluations += 1
    try:
        p = call()
    except Exception as e:
        res.violation(key, f"{key} raises {type(e).__name__}: {e}")
        return
    try:
        got = conv(p)
    except Exception as e:
        res.violation(key, f"{key} is not a well-formed polynomial over its keyfor: "
                      f"{type(e).__name__}: {e}", keyfor=getattr(p, 'keyfor', None))
        return
    if got != want:
        d = sub(got, want)
        res.violation(key, f"{key} differs from the exact value; difference: {R.show(d, 4)}",
                      got_terms=len(got), want_terms=len(want), difference=R.show(d, 12))
        return
    res.traces += 1
    if want and len(want) > 1:
        res.nontrivial += 1
    res.sample({'call': key, 'terms': len(want), 'value': R.show(want, 3)})


# ---------------------------------------------------------------- one factor
class Lazy:
    """the oracle for one (model, mode), built once per task"""
    cache = {}

    @classmethod
    def get(cls, key, make):
        if key not in cls.cache:
            cls.cache[key] = make()
        return cls.cache[key]


def one(jumps, v0='v0'):
    def make():
        O = OneFactor(jumps, v0=v0)
        return O, map1(O.R)
    return Lazy.get(('one', jumps, v0), make)


def mean_v_maps(R, M, v0):
    """E[v] = theta + lmbd mu_v / k ; v0 - E[v]"""
    ev = add(R.sym('theta'), R.mono(lam=1, muv=1, k=-1))
    d = sub(v0, ev)
    M = dict(M)
    M['E[v]'] = lambda x: power(ev, x)
    M['v0-E[v]'] = lambda x: power(d, x)
    return M, ev


def f_1f(res, fn, a, jumps=None):
    """unconditional: mom / cmom / cov / yy"""
    O, M = one(jumps)
    want = {'moment_y': lambda n: O.mom(0, n), 'cmoment_y': O.cmom_y,
            'cov_yy': O.cov, 'moment_yy': O.yy}[fn.rsplit('.', 1)[1]](*a)
    compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a),
            lambda p: poly2lp(O.R, p, M), want, O.R)
    res.add(O)


def f_1f_cond(res, n):
    """mdl_1fsv.cond_cmom: list of polys for orders 0..n, and the simplified forms"""
    O, M = one(None, 'x')
    M = dict(M)
    M['v_0-theta'] = M['v0-theta']
    v0 = add(O.R.sym('x'), O.R.sym('theta'))
    M['v_0'] = lambda x: power(v0, x)
    fn = 'mdl_1fsv.cond_cmom.cmoments_y_to'
    try:
        L = impl(fn)(n)
        L = list(L)
    except Exception as e:
        res.violation(f'{fn}({n})', f'{fn}({n}) raises {type(e).__name__}: {e}')
        return
    if len(L) < n + 1:
        res.violation(f'{fn}({n})', f'{fn}({n}) returns {len(L)} entries, orders 0..{n} expected')
    for i, p in enumerate(L[:n + 1]):
        compare(res, f'{fn}({n})[{i}]', lambda: p, lambda p: poly2lp(O.R, p, M), O.cond_cmom_y(i), O.R)
        for tp in (1, 2, 3):
            compare(res, f'mdl_1fsv.cond_cmom.simplify({fn}({n})[{i}], {tp})', lambda: impl('mdl_1fsv.cond_cmom.simplify')(p, tp),
                    lambda p: poly2lp(O.R, p, M), O.cond_cmom_y(i), O.R)
    res.add(O)


# ---------------------------------------------------------------- two factor
KS = [(F(3, 7), F(19, 11)), (F(23, 13), F(5, 17)), (F(101, 103), F(89, 37))]


def two(ks, jumps):
    def make():
        O = TwoFactor(*KS[ks], jumps=jumps)
        return O, map2(O)
    return Lazy.get(('two', ks, jumps), make)


def f_2f(res, fn, a, jumps=False, ks=(0,)):
    for i in ks:
        O, M = two(i, jumps)
        want = {'moment_y': lambda n: O.mom(0, 0, n), 'cmoment_y': O.cmom_y,
                'cov_yy': O.cov, 'moment_yy': O.yy}[fn.rsplit('.', 1)[1]](*a)
        compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a),
                lambda p: poly2lp(O.R, p, M), want, O.R)
    for i in ks:
        res.add(two(i, jumps)[0])


# ---------------------------------------------------------------------- SRJD
def srjd(v0='x'):
    def make():
        O = OneFactor('var', v0=v0)
        return O
    return Lazy.get(('srjd', v0), make)


def f_srjd_unc(res, fn, a, kw=None):
    O = srjd('v0')
    M, ev = mean_v_maps(O.R, map1(O.R), O.s['v0'])
    n = a[0]
    if fn.endswith('cmoment_v'):
        want = O.central(n, ev, O.stat)
        if O.stat(1) != ev:
            raise AssertionError('reference model: mean')
    elif fn.endswith('moment_v_theta'):
        want = O.central(n, O.s['theta'], O.stat)
    else:
        want = O.stat(n)
    kw = kw or {}
    compare(res, f"{fn}{tuple(a)}{kw or ''}", lambda: impl(fn)(*a, **kw),
            lambda p: poly2lp(O.R, p, M), want, O.R)
    res.add(O)


def f_srjd_cond(res, fn, a):
    """given v0"""
    name = fn.split('.')[-2] + '.' + fn.split('.')[-1]
    if name == 'cmom.cond_cmoment_v':
        O = srjd('v0')
        M, ev = mean_v_maps(O.R, map1(O.R), O.s['v0'])
        want = O.central(a[0], ev, lambda j: O.cond(j, 0))
    elif name.startswith('cond_ie_iez'):
        Fn = Lazy.get('fn_v0', lambda: Functionals(True, v0='v0'))
        O = Fn
        M, ev = mean_v_maps(Fn.R, map1(Fn.R), Fn.s['v0'])
        v0t = sub(Fn.s['v0'], Fn.s['theta'])
        M['v0-theta'] = lambda x: power(v0t, x)
        if name.endswith('moment_ie'):
            want = Fn.moment(a[0], 0, 0, 0, 0, 0)
        elif name.endswith('.cmoment_ie_iez'):
            want = Fn_central_iez(Fn, *a)
        else:
            want = Fn.moment(a[0], 0, 0, a[1], 0, 0)
    else:
        O = srjd('x')
        M = map1(O.R)
        n = a[0]
        R, s = O.R, O.s

        def x_mom(j):   # x_t = e^{kt}(v_t - theta) - (v0 - theta)
            out = {}
            for i in range(j + 1):
                for l in range(j - i + 1):
                    c = comb(j, i) * comb(j - i, l) * (-1) ** (i + l)
                    # e^{(j-i)kt} v^{j-i-l} theta^l (v0-theta)^i
                    t = mul(O.cond(j - i - l, 0), R.mono(theta=l, x=i, E=j - i))
                    iadd(out, t, c)
            return out
        if name == 'cond_mom.moment_x':
            want = x_mom(n)
        elif name == 'cond_cmom.cmoment_x':
            want = O.central(n, x_mom(1), x_mom)
        elif name == 'cond_mom.moment_v':
            want = O.cond(n, 0)
        elif name == 'cond_cmom.cmoment_v':
            want = O.central(n, O.cond(1, 0), lambda j: O.cond(j, 0))
        else:
            raise ValueError(name)
    compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a),
            lambda p: poly2lp(O.R, p, M), want, O.R)
    res.add(O)


def Fn_central_iez(Fn, n1, n2):
    m1 = Fn.moment(0, 0, 0, 1, 0, 0)
    out = {}
    for i in range(n2 + 1):
        iadd(out, mul(scale(power(m1, i), (-1) ** i * comb(n2, i)),
                      Fn.moment(n1, 0, 0, n2 - i, 0, 0)))
    return out


def f_interval(res, fn, a):
    """functionals over [s,t]: IEZ, (IEZ, IZ, IZ*), and their single-jump moments"""
    Fn = Lazy.get('fn_x', lambda: Functionals(True, v0='x'))
    R, u = Fn.R, Fn.R.unit
    M = map1(R)
    M.update({'e^{kt}': u['ev'] + u['E'], 'e^{ks}': u['ev'], 't-s': u['h']})
    name = fn.rsplit('.', 1)[1]
    if name in ('moment_IEZ', 'cmoment_IEZ'):
        n = a[0]
        w = Fn.moment(0, 0, 0, n, 0, 0) if name == 'moment_IEZ' else Fn_central_iez(Fn, 0, n)
        want = shift(w, n * u['ev'])
    elif name == 'moment_ieziziz':
        want = shift(Fn.moment(0, 0, 0, *a), a[0] * u['ev'])
    else:
        n1, n2, n3 = (a[0], 0, 0) if name == 'moment_EJ' else a
        want = scale(R.mono(muv=n1 + n2), factorial(n1 + n2))
        want = mul(want, normal_moment(R, n3, R.sym('mj'), R.sym('sj')))
        if n1:
            g = scale(sub(R.mono(E=n1, ev=n1, k=-1, h=-1), R.mono(ev=n1, k=-1, h=-1)), F(1, n1))
            want = mul(want, g)
        res.states += 1
    compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a), lambda p: poly2lp(R, p, M), want, R)
    res.add(Fn)


# ----------------------------------------------------------- given the jumps
def given(N, kind, price, v0='x'):
    return Lazy.get((N, kind, price, v0), lambda: GivenJumps(N, kind, price, v0))


def fzr(G):
    return Lazy.get(('fz', id(G)), lambda: FZ(G.R, G.N))


def f_srjd_cond2(res, fn, n, Ns):
    name = fn.rsplit('.', 1)[1]
    for N in Ns:
        G = given(N, 'ie' if name == 'moment_IE' else 'y', None, 'v0')
        M = map1(G.R)
        M['v_0'] = G.R.unit['v0']
        want = {'moment_v': lambda: G.moment(n, 0), 'cmoment_v': lambda: G.cmom_v(n),
                'moment_IE': lambda: G.moment(0, n, 0, 0)}[name]()
        compare(res, f'{fn}({n}) with {N} jumps', lambda: impl(fn)(n),
                lambda p: jumppoly2lp(G.R, N, p, M, ('l_{1:n}', 'o_{2:n}'), fzr(G)), want, G.R)
        res.add(G)


def f_sv_cond2(res, fn, n, Ns, price, takes_J=False):
    """svvj / svij / svcj given the variance jumps; list functions return orders 0..n"""
    name = fn.rsplit('.', 1)[1]
    for N in Ns:
        G = given(N, 'y', price)
        M = map1(G.R)

        def conv(p):
            return jumppoly2lp(G.R, N, p, M, fz=fzr(G))

        def parts(L):
            out = {}
            for p in L:
                iadd(out, conv(p) if 'l_{1:n}' in p.keyfor else poly2lp(G.R, p, M))
            return out
        J = (tuple(0.25 + i for i in range(N)),) if takes_J else ()
        if name.endswith('s_y_to'):
            key = f'{fn}({n}) with {N} jumps'
            try:
                L = list(impl(fn)(n, *J))
            except Exception as e:
                res.violation(key, f'{key} raises {type(e).__name__}: {e}')
                continue
            if len(L) < n + 1:
                res.violation(key, f'{key} returns {len(L)} entries, orders 0..{n} expected')
            for i, p in enumerate(L[:n + 1]):
                want = G.cmom_y(i) if name[0] == 'c' else G.moment(0, i)
                compare(res, f'{fn}({n})[{i}] with {N} jumps', lambda: p, conv, want, G.R)
                if fn == 'mdl_svvj.cond2_cmom.cmoments_y_to':
                    sm = impl('mdl_svvj.cond2_cmom.simplify')
                    for tp in (0, 1):
                        compare(res, f'mdl_svvj.cond2_cmom.simplify({fn}({n})[{i}], {tp}) with {N} jumps', lambda: sm(p, tp), conv, want, G.R)
                        compare(res, f'mdl_svvj.cond2_cmom.classify(simplify({fn}({n})[{i}], {tp})) with {N} jumps',
                                lambda: impl('mdl_svvj.cond2_cmom.classify')(sm(p, tp)), parts, want, G.R)
        else:
            want = G.cmom_y(n) if name[0] == 'c' else G.moment(0, n)
            compare(res, f'{fn}({n}) with {N} jumps', lambda: impl(fn)(n, *J), conv, want, G.R)
        res.add(G)


# ---------------------------------------------------------------------- SVCJ
def f_svcj(res, fn, a):
    name = '.'.join(fn.split('.')[-2:])
    if name == 'cond_ieii_ieziziz_mom.moment_ieii_ieziziz':
        Fn = Lazy.get('fn_x', lambda: Functionals(True, v0='x'))
        compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a),
                lambda p: poly2lp(Fn.R, p, map1(Fn.R)), Fn.moment(*a), Fn.R)
        res.add(Fn)
        return
    n = a[0]
    if name.startswith('cond_'):
        O, M = one('joint', 'x')
        want = O.cond(0, n) if name == 'cond_mom.moment_y' else O.cond_cmom_y(n)
    else:
        O, M = one('joint', 'v0')
        M, ev = mean_v_maps(O.R, M, O.s['v0'])
        want = O.mom(0, n) if name == 'mom.moment_y' else O.cmom_y(n)
    compare(res, f'{fn}{tuple(a)}', lambda: impl(fn)(*a), lambda p: poly2lp(O.R, p, M), want, O.R)
    res.add(O)


# --------------------------------------------------------------- Ito engines
def f_ito1(res, n):
    Fn = Functionals(False, v0='v0')
    u = Fn.R.unit
    M = map1(Fn.R)
    M.update({'v_{n-1}': u['v0'], 'e^{k[t-(n-1)h]}': u['E'], '[t-(n-1)h]': u['h'],
              'e^{k(n-1)h}': u['ev']})
    f = impl('ito_mom.moment_IEII')
    for a in range(n + 1):
        for b in range(n - a + 1):
            t = (a, b, n - a - b)
            compare(res, f'ito_mom.moment_IEII{t}', lambda: f(*t),
                    lambda p: poly2lp(Fn.R, p, M), shift(Fn.moment(*t, 0, 0, 0), a * u['ev']), Fn.R)
    res.add(Fn)


def f_ito1_v(res, n):
    O, M = one(None)
    M = dict(M)
    M['sigma_v^2/k'] = 2 * O.R.unit['sigma'] - O.R.unit['k']
    compare(res, f'ito_mom.moment_v({n})', lambda: impl('ito_mom.moment_v')(n),
            lambda p: poly2lp(O.R, p, M), O.stat(n), O.R)
    res.add(O)


def f_itoc(res, n, N):
    G = GivenJumps(N, 'ie')
    M = map1(G.R)
    f = impl('ito_cond_mom.moment_IEII')
    fz = FZ(G.R, N)
    for a in range(n + 1):
        for b in range(n - a + 1):
            t = (a, b, n - a - b)
            compare(res, f'ito_cond_mom.moment_IEII{t} with {N} jumps', lambda: f(*t),
                    lambda p: jumppoly2lp(G.R, N, p, M, fz=fz), G.moment(0, *t), G.R)
    res.add(G)


def f_itos(res, tuples, ks, all_=False):
    O, M = two(ks, False)
    u = O.R.unit
    f = impl('itos_mom.moment_IEI_IEII')
    for t in tuples:
        t = tuple(t)
        sh = t[0] * u['B1'] + t[2] * u['B2']
        if all_:
            try:
                d = f(*t, return_all=True)
            except Exception as e:
                res.violation(f'itos_mom.moment_IEI_IEII{t} all', f'raises {type(e).__name__}: {e}')
                continue
            for k, p in d.items():
                sh = k[0] * u['B1'] + k[2] * u['B2']
                compare(res, f'itos_mom.moment_IEI_IEII{t} all {k}', lambda: p,
                        lambda p: poly2lp(O.R, p, M), shift(O.functional(*k), sh), O.R)
            continue
        compare(res, f'itos_mom.moment_IEI_IEII{t}', lambda: f(*t),
                lambda p: poly2lp(O.R, p, M), shift(O.functional(*t), sh), O.R)
    res.add(O)


# ------------------------------------------------------------- CPP and normal
def f_cpp(res, fn, a):
    n = a[0]
    R = Ring(RING1)
    s, u = {x: R.sym(x) for x in R.names}, R.unit
    M = {'mu': u['mj'], 'sigma': u['sj'], 'sigma^2': 2 * u['sj'], 'lambda*h': u['lam'] + u['h']}
    name = fn.rsplit('.', 1)[1]

    def gen(m):
        e = Edges()
        for j in range(1, m[0] + 1):
            e.add(scale(mul(s['lam'], normal_moment(R, j, s['mj'], s['sj'])), comb(m[0], j)), (m[0] - j,))
        return (0,), e.items()
    S = System(R, Clock(R, 'h', {'E': 'k'}), gen, lambda m: {} if m[0] else R.one())
    if name == 'mnorm':
        want = normal_moment(R, n, s['mj'], s['sj'])
    elif name == 'cmnorm':
        want = normal_moment(R, n, {}, s['sj'])
    elif name == 'cmcpp':
        want = {}
        for i in range(n + 1):
            iadd(want, mul(scale(power(S.moment((1,)), i), (-1) ** i * comb(n, i)), S.moment((n - i,))))
    else:
        want = S.moment((n,))
    compare(res, f'{fn}({n})', lambda: impl(fn)(n), lambda p: poly2lp(R, p, M), want, R)
    res.add(S)


# ---------------------------------------------------------------- task lists
ME = 'p_formula'


def T(func, cost=1.0, deep=False, **kw):
    return Task(ME, func, kw, cost, deep)


def pairs(maxsum, maxeach=99, zero=False):
    lo = 0 if zero else 1
    return [(i, j) for i in range(lo, maxsum + 1) for j in range(lo, maxsum + 1)
            if i + j <= maxsum and max(i, j) <= maxeach]


def tuples(n, k):
    if k == 1:
        return [(n,)]
    return [(i,) + t for i in range(n, -1, -1) for t in tuples(n - i, k - 1)]


def split(lst, size):
    return [lst[i:i + size] for i in range(0, len(lst), size)]


def batch(res, calls):
    """several calls in one process, sharing the reference model"""
    for func, kw in calls:
        globals()[func](res, **kw)


def B(func, kws, size=8, cost=1.0, deep=False):
    return [T('batch', cost, deep, calls=[(func, kw) for kw in part]) for part in split(kws, size)]


def tasks_1f(model, jumps, q):
    L = []
    top = 8 if q else 9
    for f in ('mom.moment_y', 'cmom.cmoment_y'):
        L += B('f_1f', [dict(fn=f'{model}.{f}', a=[n], jumps=jumps) for n in range(0, 6)], 6, 4)
        L += [T('f_1f', 3 ** (n - 4), n > 7, fn=f'{model}.{f}', a=[n], jumps=jumps) for n in range(6, top + 1)]
    P = pairs(6, zero=True) + [(4, 3), (3, 4)] if q else pairs(8, zero=True)
    for f in ('cov.cov_yy', 'cov.moment_yy'):
        small = [a for a in P if sum(a) <= 4]
        L += B('f_1f', [dict(fn=f'{model}.{f}', a=a, jumps=jumps) for a in small], 8, 2)
        L += [T('f_1f', 3 ** (sum(a) - 4), sum(a) > 6, fn=f'{model}.{f}', a=a, jumps=jumps)
              for a in P if sum(a) > 4]
    return L


def t_c01(tier):
    return tasks_1f('mdl_1fsv', None, tier == 'quick')


def t_c03(tier):
    return tasks_1f('mdl_1fsvj', 'price', tier == 'quick')


def t_c02(tier):
    top = 10 if tier == 'quick' else 14
    return B('f_1f_cond', [dict(n=n) for n in range(0, 6)], 6) + \
        [T('f_1f_cond', 2 ** (n - 8), n > 10, n=n) for n in range(6, top + 1)]


def tasks_2f(model, jumps, q):
    L = []
    for f in ('mom.moment_y', 'cmom.cmoment_y'):
        L += B('f_2f', [dict(fn=f'{model}.{f}', a=[n], jumps=jumps, ks=(0, 1, 2)) for n in range(0, 4)], 4, 3)
        L += [T('f_2f', 10, False, fn=f'{model}.{f}', a=[4], jumps=jumps, ks=(0, 1))]
        L += [T('f_2f', 20, True, fn=f'{model}.{f}', a=[5], jumps=jumps)]
        if not q:
            L += [T('f_2f', 260, True, fn=f'{model}.{f}', a=[6], jumps=jumps)]
    P = pairs(4, zero=True) + [(3, 2), (2, 3), (1, 4), (4, 1)] if q else pairs(6, zero=True)
    for f in ('cov.cov_yy', 'cov.moment_yy'):
        L += B('f_2f', [dict(fn=f'{model}.{f}', a=a, jumps=jumps, ks=(0, 1)) for a in P if sum(a) <= 3], 5, 3)
        L += [T('f_2f', 8 * 10 ** (sum(a) - 4), sum(a) > 4, fn=f'{model}.{f}', a=a, jumps=jumps)
              for a in P if sum(a) > 3]
    return L


def t_c04(tier):
    return tasks_2f('mdl_2fsv', False, tier == 'quick')


def t_c05(tier):
    return tasks_2f('mdl_2fsvj', True, tier == 'quick')


def t_c06(tier):
    top = 10 if tier == 'quick' else 14
    L = []
    for f, kw in (('mdl_srjd.mom.moment_v', None), ('mdl_srjd.mom.moment_v', {'simplify': False}),
                  ('mdl_srjd.cmom.cmoment_v', None), ('mdl_svcj.mom.moment_v_theta', None)):
        L += B('f_srjd_unc', [dict(fn=f, a=[n], kw=kw) for n in range(0, 7)], 7)
        L += [T('f_srjd_unc', 2 ** (n - 6), n > 9, fn=f, a=[n], kw=kw) for n in range(7, top + 1)]
    return L


COND_V = ('cond_mom.moment_x', 'cond_mom.moment_v', 'cond_cmom.cmoment_x', 'cond_cmom.cmoment_v',
          'cmom.cond_cmoment_v', 'cond_ie_iez_mom.moment_ie', 'cond_ie_iez_cmom.moment_ie')


def t_c07(tier):
    q = tier == 'quick'
    L = []
    for f in COND_V:
        L += B('f_srjd_cond', [dict(fn='mdl_srjd.' + f, a=[n]) for n in range(0, 7)], 7, 2)
        L += [T('f_srjd_cond', 2 ** (n - 5), n > 8, fn='mdl_srjd.' + f, a=[n]) for n in range(7, 10 if q else 13)]
    for f in ('iez_mom.moment_IEZ', 'iez_cmom.cmoment_IEZ', 'iez_mom.moment_EJ'):
        L += B('f_interval', [dict(fn='mdl_srjd.' + f, a=[n]) for n in range(0, 11 if q else 15)], 9, 2)
    for f in ('cond_ie_iez_mom.moment_ie_iez', 'cond_ie_iez_cmom.cmoment_ie_iez'):
        L += B('f_srjd_cond', [dict(fn='mdl_srjd.' + f, a=a) for a in pairs(7 if q else 9, zero=True)], 12, 4)
    return L


def t_c08(tier):
    L = []
    q = tier == 'quick'
    for f in ('cond2_mom.moment_v', 'cond2_cmom.cmoment_v', 'cond2_mom.moment_IE'):
        L += B('f_srjd_cond2', [dict(fn='mdl_srjd.' + f, n=n, Ns=range(0, 4)) for n in range(0, 4)], 4, 3)
        L += [T('f_srjd_cond2', 10, False, fn='mdl_srjd.' + f, n=4, Ns=[0, 1, 2, 3])]
        L += [T('f_srjd_cond2', 10, n > 5, fn='mdl_srjd.' + f, n=n, Ns=Ns)
              for n, Ns in (((2, [4, 5]), (3, [4]), (4, [4]), (5, [0, 1, 2]), (5, [3]), (6, [0, 1]), (6, [2, 3]), (5, [4]), (7, [0, 1, 2]), (8, [0, 1]), (2, [6])) if q else
                            ((2, [4, 5, 6, 7, 8]), (3, [4, 5, 6]), (4, [4, 5]), (5, [0, 1, 2, 3]), (5, [4, 5]),
                             (6, [0, 1, 2]), (6, [3, 4]), (7, [0, 1]), (7, [2, 3]), (8, [0, 1]), (8, [2]), (9, [0, 1])))]
    return L


def tasks_sv(model, price, J, q):
    L = []
    fs = ('cond2_cmom.cmoment_y', 'cond2_cmom.cmoments_y_to', 'cond2_mom.moment_y', 'cond2_mom.moments_y_to')
    for f in fs:
        fn = f'mdl_{model}.{f}'
        L += B('f_sv_cond2', [dict(fn=fn, n=n, Ns=[0, 1, 2, 3], price=price, takes_J=J) for n in range(0, 4)], 4, 4)
        L += [T('f_sv_cond2', 6, False, fn=fn, n=4, Ns=[0, 1, 2], price=price, takes_J=J)]
    for f in fs[1::2]:
        fn = f'mdl_{model}.{f}'
        for n, Ns in (((2, [4, 5]), (3, [4, 5]), (4, [3]), (4, [4]), (5, [0, 1]), (5, [2]), (5, [3]), (6, [0, 1]), (6, [2]), (7, [0])) if q else
                      ((2, [4, 5, 6]), (3, [4, 5, 6]), (4, [3, 4]), (4, [5]), (5, [0, 1, 2]), (5, [3]), (5, [4]), (6, [0, 1]), (6, [2]), (6, [3]), (7, [0, 1]), (7, [2]), (8, [0]))):
            L.append(T('f_sv_cond2', 10, n > 4, fn=fn, n=n, Ns=Ns, price=price, takes_J=J))
    return L


def t_c09(tier):
    q = tier == 'quick'
    return tasks_sv('svvj', None, False, q) + tasks_sv('svij', 'indep', False, q)


def t_c10(tier):
    return tasks_sv('svcj', 'joint', True, tier == 'quick')


def t_c11(tier):
    q = tier == 'quick'
    L = []
    for f in ('mom.moment_y', 'cmom.cmoment_y', 'cond_mom.moment_y', 'cond_cmom.cmoment_y'):
        fn = 'mdl_svcj.' + f
        L += B('f_svcj', [dict(fn=fn, a=[n]) for n in range(0, 4)], 4, 3)
        L += [T('f_svcj', 8, False, fn=fn, a=[4]), T('f_svcj', 60, True, fn=fn, a=[5])]
        if not q:
            L += [T('f_svcj', 500, True, fn=fn, a=[6])]
    tt = [t for n in range(0, 6 if q else 7) for t in tuples(n, 6)]
    tt += [t for t in tuples(6, 6) if max(t) <= 2] if q else []
    L += B('f_svcj', [dict(fn='mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', a=t) for t in tt], 60, 5)
    for f in ('ieziziz_mom.moment_ejjj', 'ieziziz_mom.moment_ieziziz'):
        tt = [t for n in range(0, 8 if q else 10) for t in tuples(n, 3)]
        L += B('f_interval', [dict(fn='mdl_svcj.' + f, a=t) for t in tt], 60, 3)
    return L


def t_c12(tier):
    q = tier == 'quick'
    L = [T('f_ito1', 2 ** max(0, n - 3), n > 8, n=n) for n in range(0, 10 if q else 11)]
    L += B('f_ito1_v', [dict(n=n) for n in range(0, 13)], 13)
    for N in range(0, 5 if q else 6):
        for n in range(0, (8 if N < 4 else 7) + (0 if q else 1)):
            L.append(T('f_itoc', 3 ** max(0, n - 4), n > 6, n=n, N=N))
    for n in range(0, 7 if q else 8):
        for part in split(tuples(n, 5), 30):
            L.append(T('f_itos', 3 ** max(0, n - 3), n > 5, tuples=part, ks=n % 3))
    L += [T('f_itos', 5, False, tuples=[t], ks=1, all_=True)
          for t in ((1, 1, 1, 1, 0), (2, 2, 0, 0, 0), (0, 0, 2, 1, 1), (1, 0, 1, 0, 2))]
    return L


def t_c13(tier):
    top = 20 if tier == 'quick' else 30
    L = []
    for f in ('cpp_mom.mnorm', 'cpp_mom.mcpp', 'cpp_mom.cmcpp', 'cpp_mom.mcpp_original', 'utils.cmnorm'):
        cap = top if f != 'cpp_mom.mcpp_original' else min(top, 16)
        L += B('f_cpp', [dict(fn=f, a=[n]) for n in range(0, cap + 1)], 8)
    return L
