"""C20: invalid requests.  Every invalid argument of every validating entry point
(enumerated), each in a pristine process: alone, twice, after a valid call, and
before every valid call of the modules it involves."""
import os
from fractions import Fraction as F
from itertools import permutations, product

import p_hist as H
import core
from core import Task
from p_exp import Scratch, Poly, content, KPQ, KLO
from p_help import KCM, KSJ, KSU

ME = 'p_err'
V, N, X = ValueError, NotImplementedError, Exception


# --- an invalid request: (label, exception, function building (call, arguments to watch))
def call(fn, *args, exc=V, **kw):
    def build():
        a = [H.argument(x) if isinstance(x, H.Ref) else x for x in args]
        return (lambda: H.fun(fn)(*a, **kw)), [x for x in a if hasattr(x, 'keyfor')] + [x for x in a if isinstance(x, dict) and not hasattr(x, 'keyfor')]
    lab = f'{fn}({",".join("par" if isinstance(x, dict) else repr(x) for x in args)}{"".join(f",{k}={v}" for k, v in kw.items())})'
    return lab, exc, build, fn


def on_poly(lab, exc, fn, kf, terms, *more):
    def build():
        p = Poly({k: F(i + 1, 2) for i, k in enumerate(terms)}, kf)
        return (lambda: H.fun(fn)(p, *more)), [p]
    return f'{lab} {terms}', exc, build, fn


NEG = (-1, -2, -5)
PARC, PARS, PARZ = H.PC, H.PS, H.PZ


def orders():
    L = []
    for n in NEG:
        for fn in ('cpp_mom.mnorm', 'cpp_mom.mcpp', 'cpp_mom.mcpp_original', 'cpp_mom.cmcpp', 'mdl_srjd.mom.moment_v', 'mdl_srjd.cmom.cmoment_v',
                   'mdl_srjd.cond_ie_iez_mom.moment_ie', 'mdl_srjd.cond_ie_iez_cmom.moment_ie', 'mdl_srjd.iez_mom.moment_EJ', 'mdl_srjd.iez_mom.moment_IEZ',
                   'mdl_srjd.iez_cmom.cmoment_IEZ', 'mdl_svcj.cond_mom.moment_y', 'mdl_svcj.cond_cmom.cmoment_y', 'mdl_svcj.cmom.cmoment_y'):
            L.append(call(fn, n))
        L.append(call('mdl_srjd.mom.moment_v', n, simplify=False))
        for fn, p in (('mdl_srjd.cond_ie_iez_mom.m_ie', PARS), ('mdl_srjd.cond_ie_iez_cmom.m_ie', PARS), ('mdl_srjd.iez_mom.m', PARZ), ('mdl_srjd.iez_cmom.cm', PARZ),
                      ('mdl_svcj.cond_mom.m_y', PARC), ('mdl_svcj.cond_cmom.cm_y', PARC), ('mdl_svcj.cmom.cm_y', PARC)):
            L.append(call(fn, n, p))
        for i in (-2, 0, 1):
            L.append(call('ito_mom.int_et', i, n))
            for z in (0, 1, 2):
                L.append(call('ito_cond_mom.int_et_fZ', i, n, z))
            for j in (-1, 0, 2):
                L.append(call('itos_mom.int_et', i, j, n))
    return L


def tuples():
    L = []
    A = (-2, -1, 0, 1)
    for t in product(A, repeat=3):
        if sum(t) < 0:
            L += [call('ito_mom.moment_IEII', *t), call('ito_cond_mom.moment_IEII', *t)]
        if min(t) < 0:
            L += [call('mdl_svcj.ieziziz_mom.moment_ieziziz', *t), call('mdl_svcj.ieziziz_mom.moment_ejjj', *t)]
    for t in product((-3, -1, 0, 1, 2), repeat=2):
        if min(t) < 0:
            L += [call('mdl_srjd.cond_ie_iez_mom.moment_ie_iez', *t), call('mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', *t),
                  call('mdl_srjd.cond_ie_iez_mom.m_ie_iez', *t, PARS), call('mdl_srjd.cond_ie_iez_cmom.cm_ie_iez', *t, PARS)]
    for t in product((-1, 0, 1), repeat=5):
        if sum(t) < 0:
            L.append(call('itos_mom.moment_IEI_IEII', *t))
            if sum(t) < -3:
                L.append(call('itos_mom.moment_IEI_IEII', *t, return_all=True))
    return L


def tuples6():
    return [call('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', *t) for t in product((-1, 0, 1), repeat=6) if min(t) < 0] + \
           [call('mdl_svcj.ieziziz_mom.m_ieziziz', t, PARC) for t in product((-1, 0, 1), repeat=3) if min(t) < 0] + \
           [call('mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz', t, PARC) for t in sorted(set(permutations((-1, 0, 0, 0, 1, 1))))]


BADW = ('', 'K', 'h', 'v0', 'sigma', 'kappa', 'k ', 'lmbd', 'mu_s', 'rho_j', 'Theta', None)


def wrts():
    L = []
    known = {'mdl_1fsv': {'k', 'theta', 'sigma_v', 'rho', 'mu'}, 'mdl_1fsvj': {'k', 'theta', 'sigma_v', 'rho', 'mu', 'lambda', 'mu_j', 'sigma_j'},
             'mdl_2fsv': {'k1', 'k2', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2', 'mu'},
             'mdl_2fsvj': {'k1', 'k2', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2', 'mu', 'lambda', 'mu_j', 'sigma_j'}}
    pars = {'mdl_1fsv': H.P1, 'mdl_1fsvj': H.P1J, 'mdl_2fsv': H.P2, 'mdl_2fsvj': H.P2J}
    every = sorted(set().union(*known.values()))
    for m in known:
        for w in list(BADW) + [w for w in every if w not in known[m]]:
            for n in (0, 1, 2):
                L += [call(f'{m}.mom.dpoly', H.Ref(f'{m}.mom.moment_y', n), w), call(f'{m}.cmom.dpoly', H.Ref(f'{m}.cmom.cmoment_y', n), w)]
            L += [call(f'{m}.mom.dm', 2, dict(pars[m]), w), call(f'{m}.cmom.dcm', 2, dict(pars[m]), w), call(f'{m}.cov.dcov', 1, 1, dict(pars[m]), w)]
    for w in BADW + ('theta1', 'mu', 'sigma_v1', 'k'):
        L.append(call('mdl_2fsv.cmom.dt0', ((1, 1, 1),), w))
    return L


def rewriting():
    L = []
    z9, z = (0,) * 9, (0,) * 8
    for tp in (0, 4, -1, '1', None, 5, 1.5):
        for terms in ([], [z9], [(1, 0, 1, 0, 0, 2, 0, 1, 0)]):
            L.append(on_poly(f'mdl_1fsv.cond_cmom.simplify(tp={tp!r})', X, 'mdl_1fsv.cond_cmom.simplify', KCM, terms, tp))
    for odd in (1, 3, 5):
        for tp in (2, 3):
            L.append(on_poly(f'mdl_1fsv.cond_cmom.simplify(tp={tp})', X, 'mdl_1fsv.cond_cmom.simplify', KCM, [z9, z + (odd,)], tp))
        for terms in ([(0, odd)], [(0, 0), (2, odd)], [(1, odd), (1, 2)], [(0, 2), (1, 0), (3, odd), (0, 0)], [(odd, odd)]):
            L.append(on_poly('utils.simplify_rho', X, 'utils.simplify_rho', ('rho', 'sqrt(1-rho^2)'), terms, 1))
            L.append(on_poly('utils.simplify_rho', X, 'utils.simplify_rho', ('t', 'rho', 'sqrt(1-rho^2)', 'k^{-}'), [(1,) + t + (odd,) for t in terms], 2))
        zj = (0,) * 14
        t = zj[:8] + (odd,) + zj[9:]
        for terms in ([t], [zj, t], [t, zj], [zj[:8] + (2,) + zj[9:], t]):
            L.append(on_poly('mdl_svcj.cond_mom.expand_sqrt', X, 'mdl_svcj.cond_mom.expand_sqrt', KSJ, terms))
    zu = (0,) * 13
    for e in (1, 2, -1):
        t = zu[:3] + (e,) + zu[4:]
        for terms in ([t], [zu, t], [t, zu], [zu, t, (1,) + zu[1:]], [(2,) + zu[1:3] + (e,) + zu[4:]]):
            L.append(on_poly('mdl_svcj.cmom.remove_mu_column', X, 'mdl_svcj.cmom.remove_mu_column', KSU, terms))
    for kin in (('zeta',), ('e^{kt}', 'zeta'), ('sigma_v',)):
        L.append(on_poly('mdl_svcj.cond_mom.enlarge', X, 'mdl_svcj.cond_mom.enlarge', kin, [(1,) * len(kin)], list(KSJ)))
    return L


KFS = [('x', 'y'), ('y', 'x'), ('x',), (), ('x', 'y', 'z'), ('x', 'Y'), ('x', 'y ')]
OTHER = [3, 0, F(1, 2), None, 'a', [], (1,), {(0, 0): F(1)}, {}, 1.5]


def poly_ops():
    L = []

    def add(lab, mk, do):
        def build():
            a, b = mk()
            return (lambda: do(a, b)), [x for x in (a, b) if hasattr(x, 'keyfor')]
        L.append((lab, N, build, 'poly'))

    def P(kf, n):
        # operands that overlap and cancel when their lengths agree
        return Poly({((i,) * len(kf)): F((-1) ** n * (i + 1)) for i in range(n)}, kf)
    OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('merge', lambda a, b: a.merge(b)),
           ('+=', lambda a, b: iadd(a, b)), ('*=', lambda a, b: imul(a, b))]
    for s, f in OPS:
        for n in (0, 1, 2):
            for k1, k2 in product(KFS, repeat=2):
                if k1 != k2:
                    for m in (0, 1, 3):
                        add(f'Poly{k1}x{n} {s} Poly{k2}x{m}', lambda k1=k1, k2=k2, n=n, m=m: (P(k1, n), P(k2, m)), f)
            for o in OTHER:
                add(f'Poly x{n} {s} {o!r}', lambda n=n, o=o: (P(KFS[0], n), o), f)
    for n in (0, 1, 2):
        for e in (0, -1, -3):
            add(f'Poly x{n} ** {e}', lambda n=n, e=e: (P(KFS[0], n), e), lambda a, e: a ** e)
    return L


def iadd(a, b):
    a += b
    return a


def imul(a, b):
    a *= b
    return a


def exports():
    """unrepresentable formulas: nothing may be written, nothing overwritten"""
    L = []

    def mk(kf, lens, exist):
        def build():
            d = {}
            for i, n in enumerate(lens):
                l, w = tuple(range(n)), tuple(range(max(n - 1, 0)))
                d[(i, 0, l, l, w, w, 0) if kf is KPQ else (i, 0, l, w, 0)] = F(i + 1, 3)
            p = Poly(d, kf)

            def do():
                with Scratch() as s:
                    if exist:
                        with open('f.csv', 'w') as g:
                            g.write('precious')
                    before = s.files()
                    try:
                        p.write_to_csv('f')
                    except Exception:
                        if s.files() != before:
                            raise AssertionError(f'files touched: {sorted(s.files())}')
                        raise
            return do, [p]
        L.append((f'write_to_csv levels {lens} {"over an existing file" if exist else ""} {len(kf)} columns', X, build, 'poly'))
    for kf in (KPQ, KLO):
        for lens in ((0, 1), (1, 0), (1, 2), (0, 0, 1), (1, 1, 2), (2, 1, 1), (1, 0, 1), (3, 2), (0, 3)):
            for ex in (False, True):
                mk(kf, lens, ex)
    return L


def integrals():
    L = []
    for m in ('mdl_srjd.cond_ie_iez_mom', 'mdl_srjd.cond_ie_iez_cmom'):
        kf = ('e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v')
        for terms, s in (([(-1,) + (0,) * 6], 1), ([(2, 0, 1, 0, 0, 0, 0)], -2), ([(1,) + (0,) * 6, (0,) * 7], 0), ([(0,) * 7, (1,) + (0,) * 6], 0)):
            for tp in (1, 2, 3):
                def build(m=m, terms=terms, s=s, tp=tp):
                    p = Poly({k: F(1) for k in terms}, kf)
                    return (lambda: H.fun(m + '.int_e_poly')(1, tp, s, p)), [p]
                L.append((f'{m}.int_e_poly(1,{tp},{s},{terms})', V, build, m + '.int_e_poly'))
    return L


KINDS = dict(orders=orders, tuples=tuples, tuples6=tuples6, wrts=wrts, rewriting=rewriting, poly_ops=poly_ops, exports=exports, integrals=integrals)


def attempt(req):
    """'' if rejected as documented, without a trace in the arguments"""
    lab, exc, build, fn = req
    f, watch = build()
    before = [H.canon(w) + (list(w.items()),) if hasattr(w, 'keyfor') else H.canon(w) for w in watch]
    try:
        v = f()
    except exc as e:
        if isinstance(e, AssertionError):
            return str(e)
        if exc is not X and type(e) in (KeyError, IndexError, TypeError, RecursionError, MemoryError):
            return f'raises {type(e).__name__}'
    except core.Missing:
        return ''
    except BaseException as e:
        return f'raises {type(e).__name__}: {e} instead of {exc.__name__}'
    else:
        return f'is answered with {str(v)[:120]} instead of {exc.__name__}'
    if [H.canon(w) + (list(w.items()),) if hasattr(w, 'keyfor') else H.canon(w) for w in watch] != before:
        return 'is rejected, but its arguments were modified'
    return ''


def world(req, valid, order, fresh):
    """run in a pristine copy of the process"""
    if order == 'before':
        m = attempt(req)
        m = m or attempt(req)
        if m:
            return m
        for o in valid:
            m = H.step(o, fresh)
            if m:
                return f'is rejected, but then {H.name(o)}: {m}'
        return ''
    for o in valid:
        m = H.step(o, fresh)
        if m:
            return f'{H.name(o)}: {m}'
    m = attempt(req)
    return m and f'after valid calls {m}'


def related(fn):
    """valid calls of the same module (by module path)"""
    if fn == 'poly':
        return []
    mod = fn.rsplit('.', 1)[0]
    L = [o for o in H.OPS if o[0].rsplit('.', 1)[0] == mod]
    return L[:6]


def run(res, kind, part, parts):
    reqs = [r for i, r in enumerate(KINDS[kind]()) if i % parts == part and (r[3] == 'poly' or not core.absent(r[3]))]
    needed = []
    for r in reqs:
        for o in related(r[3]):
            if o not in needed:
                needed.append(o)
    fresh = H.prepare(res, needed)
    # formulas that appear as arguments
    for r in reqs:
        for cell in r[2].__closure__ or ():
            for x in (cell.cell_contents if isinstance(cell.cell_contents, (list, tuple)) else ()):
                if isinstance(x, H.Ref) and repr(x) not in H.REFS:
                    st, v = H.isolated(H.ref_value, x.fn, x.args)
                    if st != 'ok' and v.startswith('Missing'):
                        continue
                    if st != 'ok':
                        res.violation(f'fresh:{x}', f'{x} raises {v}')
                        return
                    H.REFS[repr(x)] = v
    if kind in ('poly_ops', 'exports'):
        batches = [reqs[i:i + 40] for i in range(0, len(reqs), 40)]
        for b in batches:
            st, ms = H.isolated(lambda: [attempt(r) for r in b])
            for r, m in zip(b, ms if st == 'ok' else [ms] * len(b)):
                res.states += 1
                res.transitions += 1
                res.traces += 1
                if m:
                    res.violation(f'reject:{r[0]}', f'{r[0]} {m}')
    else:
        for r in reqs:
            val = [o for o in related(r[3]) if H.name(o) in fresh]
            for order in ('before', 'after'):
                st, m = H.isolated(world, r, val, order, fresh)
                res.states += 1
                res.transitions += 2 + len(val)
                res.traces += 1
                if st != 'ok' or m:
                    res.violation(f'reject:{r[0]}:{order}', f'{r[0]} {m}')
                    break
            if len(res.violations) > 5:
                break
    res.sample({'invalid request': reqs[-1][0], 'expected': reqs[-1][1].__name__, 'requests': len(reqs)})


def tasks(tier):
    L = []
    for kind, n in (('orders', 4), ('tuples', 6), ('tuples6', 8), ('wrts', 8), ('rewriting', 2), ('poly_ops', 2), ('exports', 1), ('integrals', 1)):
        L += [Task(ME, 'run', dict(kind=kind, part=i, parts=n), 10) for i in range(n)]
    return L
