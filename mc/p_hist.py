"""C17: results do not depend on call history, interleaving or interruption.

Stateless exploration of the real code.  Every explored history starts from the
same pristine process image (modules imported, nothing called) which is restored
by fork; after each call the caller vandalises the returned object.  Reference:
the value each call returns as the very first call of a fresh process."""
import copy
import gc
import importlib
import os
import pickle
import signal
import sys
import threading
from fractions import Fraction as F

import core
from core import Task, SRC

ME = 'p_hist'
KSRC = os.path.realpath(SRC) + os.sep


# ------------------------------------------------------------------ catalogue
P1 = dict(mu=0.125, k=0.5, theta=0.25, sigma_v=0.3, rho=-0.7, h=1.5)
P1J = dict(P1, **{'lambda': 0.8, 'mu_j': -0.2, 'sigma_j': 0.4})
P1C = dict(P1, v0=0.4)
P2 = dict(mu=0.125, k1=0.5, k2=1.25, theta1=0.25, theta2=0.2, sigma_v1=0.3, sigma_v2=0.4, h=1.5)
P2J = dict(P2, **{'lambda': 0.8, 'mu_j': -0.2, 'sigma_j': 0.4})
PS = dict(v0=0.4, k=0.5, theta=0.25, sigma=0.3, lmbd=0.8, mu_v=0.6, h=1.5)
PZ = dict(k=0.5, lmbd=0.8, mu_v=0.6, lb=0.5, ub=1.75)
PJ = dict(v0=0.4, mu=0.125, k=0.5, theta=0.25, sigma=0.3, rho=-0.7, h=1.5, jumptime=(0.25, 1.0), jumpsize=(0.5, 0.2))
PJS = dict(PJ, lmbd_s=0.8, mu_s=-0.2, sigma_s=0.4)
PJC = dict(PJ, mu_s=-0.2, sigma_s=0.4, rho_J=-0.5)
PC = dict(v0=0.4, mu=0.125, k=0.5, theta=0.25, sigma=0.3, rho=-0.7, h=1.5, lmbd=0.8, mu_v=0.6, mu_s=-0.2, sigma_s=0.4, rhoJ=-0.5)


class Ref:
    """argument: the (fresh) value of another call"""

    def __init__(self, fn, *args):
        self.fn, self.args = fn, args

    def __repr__(self):
        return f'<{self.fn}{self.args}>'


def op(fn, *args, **kw):
    return (fn, args, kw)


FORMULA = []
for m_ in ('mdl_1fsv', 'mdl_1fsvj'):
    FORMULA += [op(m_ + '.mom.moment_y', 2), op(m_ + '.mom.moment_y', 3), op(m_ + '.cmom.cmoment_y', 2),
                op(m_ + '.cmom.cmoment_y', 3), op(m_ + '.cov.moment_yy', 1, 1), op(m_ + '.cov.cov_yy', 1, 1)]
FORMULA += [
    op('mdl_1fsv.cov.cov_yy', 1, 2), op('mdl_1fsv.cov.cov_yy', 2, 1),
    op('mdl_1fsv.cond_cmom.cmoments_y_to', 2), op('mdl_1fsv.cond_cmom.cmoments_y_to', 4),
    op('mdl_2fsv.mom.moment_y', 1), op('mdl_2fsv.mom.moment_y', 2), op('mdl_2fsv.cmom.cmoment_y', 2), op('mdl_2fsv.cov.cov_yy', 1, 1),
    op('mdl_2fsvj.mom.moment_y', 2), op('mdl_2fsvj.cmom.cmoment_y', 2), op('mdl_2fsvj.cov.moment_yy', 1, 1),
    op('ito_mom.moment_v', 2), op('ito_mom.moment_v', 3), op('ito_mom.moment_IEII', 1, 1, 0), op('ito_mom.moment_IEII', 2, 0, 2),
    op('ito_mom.moment_IEII', 1, 2, 1), op('ito_mom.moment_IEII', 0, 4, 0), op('ito_mom.moment_IEII', 0, 0, 0), op('ito_mom.moment_IEII', 1, 0, 0),
    op('ito_mom.int_et', 1, 2), op('ito_mom.int_et', -1, 2), op('ito_mom.c_nmi', 1, 3, 2), op('ito_mom.c_nmi', -1, 3, 2),
    op('ito_cond_mom.moment_IEII', 2, 0, 0), op('ito_cond_mom.moment_IEII', 0, 0, 0), op('ito_cond_mom.moment_IEII', 1, 1, 1),
    op('ito_cond_mom.moment_IEII', 2, 2, 0), op('ito_cond_mom.moment_IEII', 0, 1, 2), op('ito_cond_mom.int_et_fZ', 1, 1, 0),
    op('ito_cond_mom.int_et_fZ', 1, 1, 2),
    op('itos_mom.moment_IEI_IEII', 0, 0, 0, 0, 2), op('itos_mom.moment_IEI_IEII', 1, 0, 0, 0, 2), op('itos_mom.moment_IEI_IEII', 2, 1, 0, 0, 0),
    op('itos_mom.moment_IEI_IEII', 1, 1, 1, 0, 0, return_all=True), op('itos_mom.moment_IEI_IEII', 0, 0, 0, 0, 1),
    op('itos_mom.int_et', 1, 2, 1), op('itos_mom.int_et', 1, -2, 1), op('itos_mom.t_mul_t0', (1, 2, 1), ((0, 1, 2), (1, 2, 1))),
    op('cpp_mom.mnorm', 3), op('cpp_mom.mnorm', 4), op('cpp_mom.mcpp', 3), op('cpp_mom.mcpp', 4), op('cpp_mom.mcpp', 0), op('cpp_mom.mcpp', 1),
    op('cpp_mom.mcpp_original', 3), op('cpp_mom.cmcpp', 3), op('cpp_mom.cmcpp', 2), op('cpp_mom.cmcpp', 1), op('cpp_mom.cmcpp', 0),
    op('utils.cmnorm', 4), op('utils.cmnorm', 3), op('utils.dbfactorial', 7), op('utils.dbfactorial', 6),
    op('utils.comb', 5, [1, 2, 2]), op('utils.comb', 5, [1, 1, 3]),
    op('utils.multilevel_index', 2, 3), op('utils.multilevel_index', 3, 2), op('utils.multilevel_comb', 2, 3), op('utils.multilevel_comb', 3, 2),
    op('utils.fZ', (1, 2), (0, 1), (1,), (0,), 0.5, (0.25, 1.0), (0.5, 0.2)), op('utils.fZ', (1, 2), (0, 1), (1,), (0,), 0.5, (0.25,), (0.5,)),
    op('mdl_srjd.mom.moment_v', 2), op('mdl_srjd.mom.moment_v', 3), op('mdl_srjd.mom.moment_v', 2, simplify=False),
    op('mdl_srjd.cmom.cmoment_v', 2), op('mdl_srjd.cmom.cmoment_v', 3), op('mdl_srjd.cmom.cmoment_v', 0), op('mdl_srjd.cmom.cond_cmoment_v', 2),
    op('mdl_srjd.cond_mom.moment_v', 2), op('mdl_srjd.cond_mom.moment_v', 3), op('mdl_srjd.cond_mom.moment_x', 2), op('mdl_srjd.cond_cmom.cmoment_v', 2),
    op('mdl_srjd.cond_cmom.cmoment_v', 3), op('mdl_srjd.cond_cmom.cmoment_x', 2), op('mdl_srjd.cond_ie_iez_mom.moment_ie', 3),
    op('mdl_srjd.cond_ie_iez_mom.moment_ie', 2), op('mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 2, 1), op('mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 1, 2),
    op('mdl_srjd.cond_ie_iez_cmom.moment_ie', 3), op('mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 2, 1),
    op('mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 1, 2), op('mdl_srjd.iez_mom.moment_EJ', 3), op('mdl_srjd.iez_mom.moment_IEZ', 2),
    op('mdl_srjd.iez_mom.moment_IEZ', 3), op('mdl_srjd.iez_cmom.cmoment_IEZ', 3), op('mdl_srjd.cond2_mom.moment_IE', 3),
    op('mdl_srjd.cond2_mom.moment_IE', 4), op('mdl_srjd.cond2_mom.moment_v', 2), op('mdl_srjd.cond2_mom.moment_v', 3),
    op('mdl_srjd.cond2_cmom.cmoment_v', 2), op('mdl_srjd.cond2_cmom.cmoment_v', 3),
    op('mdl_svvj.cond2_mom.moments_y_to', 1), op('mdl_svvj.cond2_mom.moments_y_to', 2), op('mdl_svvj.cond2_mom.moment_y', 2),
    op('mdl_svvj.cond2_cmom.cmoments_y_to', 2), op('mdl_svvj.cond2_cmom.cmoments_y_to', 3), op('mdl_svvj.cond2_cmom.cmoment_y', 3),
    op('mdl_svvj.cond2_cmom.cmoment_y', 1),
    op('mdl_svij.cond2_mom.moments_y_to', 2), op('mdl_svij.cond2_cmom.cmoments_y_to', 2), op('mdl_svij.cond2_cmom.cmoments_y_to', 3),
    op('mdl_svcj.cond2_mom.moments_y_to', 2, (0.5,)), op('mdl_svcj.cond2_mom.moments_y_to', 2, (0.5, 0.2)), op('mdl_svcj.cond2_mom.moment_IZs', 2, (0.5, 0.2, 0.3)),
    op('mdl_svcj.cond2_mom.moment_IZs', 2, (0.5,)), op('mdl_svcj.cond2_mom.mnorm_cond', 3),
    op('mdl_svcj.cond2_cmom.cmoments_y_to', 2, (0.5,)), op('mdl_svcj.cond2_cmom.cmoments_y_to', 2, (0.5, 0.2)), op('mdl_svcj.cond2_cmom.cmoment_IZs', 2, (0.5, 0.2, 0.3)),
    op('mdl_svcj.cond_mom.moment_y', 1), op('mdl_svcj.cond_mom.moment_y', 2), op('mdl_svcj.cond_cmom.cmoment_y', 2), op('mdl_svcj.mom.moment_y', 1),
    op('mdl_svcj.mom.moment_y', 2), op('mdl_svcj.cmom.cmoment_y', 2), op('mdl_svcj.mom.moment_v_theta', 2),
    op('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 1, 1, 0, 1, 0, 0), op('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 2, 0, 0, 0, 1, 0),
    op('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 0, 0, 2, 0, 0, 1),
    op('mdl_svcj.ieziziz_mom.moment_ieziziz', 1, 1, 1), op('mdl_svcj.ieziziz_mom.moment_ieziziz', 2, 0, 1), op('mdl_svcj.ieziziz_mom.moment_ejjj', 1, 1, 1),
    op('mdl_svcj.ieziziz_mom.moment_ejjj', 2, 0, 1),
]
# functions of formulas: the argument is a formula (must not be modified either)
for m_, w_ in (('mdl_1fsv', 'k'), ('mdl_1fsvj', 'k'), ('mdl_2fsv', 'k1'), ('mdl_2fsvj', 'k1')):
    FORMULA += [op(m_ + '.mom.dpoly', Ref(m_ + '.mom.moment_y', 2), w_), op(m_ + '.cmom.dpoly', Ref(m_ + '.cmom.cmoment_y', 2), w_)]
FORMULA += [op('mdl_1fsv.mom.dpoly', Ref('mdl_1fsv.mom.moment_y', 2), 'theta'), op('mdl_1fsv.mom.dpoly', Ref('mdl_1fsv.mom.moment_y', 3), 'k'),
            op('mdl_1fsv.cond_cmom.simplify', Ref('mdl_1fsv.cond_cmom.cond_poly', 3), 1), op('mdl_1fsv.cond_cmom.simplify', Ref('mdl_1fsv.cond_cmom.cond_poly', 3), 3),
            op('mdl_svvj.cond2_cmom.simplify', Ref('mdl_svvj.cond2_cmom.cmoment_y', 3), 0), op('mdl_svvj.cond2_cmom.simplify', Ref('mdl_svvj.cond2_cmom.cmoment_y', 3), 1),
            op('mdl_svvj.cond2_cmom.classify', Ref('mdl_svvj.cond2_cmom.cmoment_y', 3)),
            op('mdl_srjd.mom.expand', Ref('mdl_srjd.cmom.cmoment_v', 2)), op('mdl_svcj.cmom.remove_mu_column', Ref('mdl_svcj.cmom.cmoment_y', 2)),
            op('utils.simplify_rho', Ref('sqrt'), 2)]
NUMERIC = [('mdl_1fsv.mom.m', (2,), P1), ('mdl_1fsv.cmom.cm', (2,), P1), ('mdl_1fsv.cov.cov', (1, 1), P1), ('mdl_1fsvj.mom.m', (2,), P1J),
           ('mdl_1fsvj.cmom.cm', (2,), P1J), ('mdl_1fsvj.cov.cov', (1, 1), P1J), ('mdl_1fsv.cond_cmom.cond_cm', (3,), P1C),
           ('mdl_2fsv.mom.m', (2,), P2), ('mdl_2fsv.cmom.cm', (2,), P2), ('mdl_2fsv.cov.cov', (1, 1), P2), ('mdl_2fsvj.mom.m', (2,), P2J),
           ('mdl_2fsvj.cmom.cm', (2,), P2J), ('mdl_2fsvj.cov.cov', (1, 1), P2J),
           ('mdl_srjd.cond_mom.m', (2,), PS), ('mdl_srjd.cond_mom.m_x', (2,), PS), ('mdl_srjd.cond_cmom.cm', (2,), PS), ('mdl_srjd.cond_cmom.cm_x', (3,), PS),
           ('mdl_srjd.cond_ie_iez_mom.m_ie', (3,), PS), ('mdl_srjd.cond_ie_iez_mom.m_ie_iez', (1, 1), PS), ('mdl_srjd.cond_ie_iez_cmom.m_ie', (3,), PS),
           ('mdl_srjd.cond_ie_iez_cmom.cm_ie_iez', (2, 1), PS), ('mdl_srjd.iez_mom.m', (2,), PZ), ('mdl_srjd.iez_cmom.cm', (3,), PZ),
           ('mdl_srjd.cond2_mom.m', (2,), PJ), ('mdl_srjd.cond2_cmom.cm', (3,), PJ), ('mdl_svvj.cond2_mom.m', (2,), PJ), ('mdl_svvj.cond2_cmom.cm', (3,), PJ),
           ('mdl_svij.cond2_mom.m', (2,), PJS), ('mdl_svij.cond2_cmom.cm', (2,), PJS), ('mdl_svcj.cond2_mom.m', (2,), PJC),
           ('mdl_svcj.cond2_cmom.cm', (2,), PJC), ('mdl_svcj.cond_mom.m_y', (2,), PC), ('mdl_svcj.cond_cmom.cm_y', (2,), PC),
           ('mdl_svcj.mom.unm_y', (2,), PC), ('mdl_svcj.cmom.cm_y', (2,), PC), ('mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz', ((1, 1, 0, 1, 0, 0),), PC),
           ('mdl_svcj.ieziziz_mom.m_ieziziz', ((1, 1, 1),), PC)]
DERIV = [('mdl_1fsv.mom.dm', (2,), P1, 'k'), ('mdl_1fsv.mom.dm', (2,), P1, 'theta'), ('mdl_1fsv.cmom.dcm', (3,), P1, 'rho'),
         ('mdl_1fsv.cov.dcov', (1, 1), P1, 'k'), ('mdl_1fsvj.mom.dm', (2,), P1J, 'lambda'), ('mdl_2fsv.mom.dm', (2,), P2, 'k1'),
         ('mdl_2fsv.mom.dm', (2,), P2, 'k2'), ('mdl_2fsvj.cmom.dcm', (2,), P2J, 'mu_j')]
OPS = FORMULA + [op(f, *a, p) for f, a, p in NUMERIC] + [op(f, *a, p, w) for f, a, p, w in DERIV]


def name(o):
    fn, a, kw = o
    s = [repr(x) if not isinstance(x, dict) else 'par' for x in a] + [f'{k}={v}' for k, v in kw.items()]
    return f'{fn}({",".join(s)})'


def fun(path):
    return core.need(path)


def preload():
    gc.disable()
    for o in OPS:
        importlib.import_module('ajdmom.' + o[0].rsplit('.', 1)[0])


# ---------------------------------------------------------------- snapshots
def canon(x):
    from ajdmom.poly import Poly
    if isinstance(x, Poly):
        return ('poly', tuple(x.keyfor), {k: v for k, v in x.items() if v != 0})
    if isinstance(x, dict):
        return ('dict', {k: canon(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    return x


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-9 * abs(a) + 1e-13 or a == b
        except TypeError:
            return False
    return a == b


def vandal(x, seen=None):
    """what a caller may do to an object it was given"""
    from ajdmom.poly import Poly
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Poly):
        for k in list(x):
            x[k] = x[k] + 1000
        x[('vandal',)] = F(7)
        x.set_keyfor(('vandal',))
    elif isinstance(x, dict):
        for v in list(x.values()):
            vandal(v, seen)
        for k in list(x)[::2]:
            del x[k]
        x['vandal'] = 1
    elif isinstance(x, list):
        for v in x:
            vandal(v, seen)
        x[:] = ['vandal'] + x[:1]
    elif isinstance(x, tuple):
        for v in x:
            vandal(v, seen)


# ------------------------------------------------------------- forked worlds
class Hung(Exception):
    pass


def isolated(f, *a, timeout=120):
    """run f(*a) in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                out = ('ok', f(*a))
            except BaseException as e:
                out = ('exc', f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as g:
                pickle.dump(out, g)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        data = g.read()
    os.waitpid(pid, 0)
    if not data:
        return ('exc', 'no answer (killed or hung)')
    return pickle.loads(data)


REFS = {}


def special(fn, args):
    from ajdmom.poly import Poly
    if fn == 'sqrt':
        p = Poly({(1, 0, 2, 0, 0): F(1), (0, 1, 4, 0, 0): F(-2, 3), (2, 2, 0, 1, 0): F(5)})
        p.set_keyfor(['a', 'rho', 'sqrt(1-rho^2)', 'b', 'c'])
        return p
    if fn == 'mdl_1fsv.cond_cmom.cond_poly':
        return fun('mdl_1fsv.cond_cmom.cmoments_y_to')(args[0])[args[0]]
    return fun(fn)(*args)


def ref_value(fn, args):
    x = special(fn, args)
    return (dict(x), tuple(x.keyfor))


def argument(x):
    from ajdmom.poly import Poly
    if isinstance(x, Ref):
        d, kf = REFS[repr(x)]
        p = Poly(d)
        p.set_keyfor(kf)
        return p
    return copy.deepcopy(x)


def prepare(res, ops):
    """fresh value of every call, each in its own pristine copy of the process"""
    preload()
    fresh = {}
    for o in ops:
        for x in o[1]:
            if isinstance(x, Ref) and repr(x) not in REFS:
                st, v = isolated(ref_value, x.fn, x.args)
                if st != 'ok' and v.startswith('Missing'):
                    continue
                if st != 'ok':
                    res.violation(f'fresh:{x}', f'{x} raises {v}')
                    continue
                REFS[repr(x)] = v
        if any(isinstance(x, Ref) and repr(x) not in REFS for x in o[1]):
            continue
        st, v = isolated(first, o)
        if st != 'ok' and v.startswith('Missing'):
            continue
        if st != 'ok':
            res.violation(f'fresh:{name(o)}', f'{name(o)} raises {v} in a fresh process')
            continue
        if isinstance(v, str):
            res.violation(f'args:{name(o)}', v)
            continue
        fresh[name(o)] = v[0]
    return fresh


def call(o):
    """(value, message if an argument was modified)"""
    fn, a, kw = o
    a = [argument(x) for x in a]
    before = canon(a)
    v = fun(fn)(*a, **kw)
    msg = '' if canon(a) == canon([argument(x) for x in o[1]]) and canon(a) == before else f'{name(o)} modifies its arguments'
    return v, msg


def first(o):
    v, msg = call(o)
    return msg or (canon(v),)


# ------------------------------------------------------- sequential histories
def step(o, fresh, spoil=True):
    try:
        v, msg = call(o)
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    if msg:
        return msg
    if not same(canon(v), fresh[name(o)]):
        return 'returns a different value than in a fresh process'
    if spoil:
        vandal(v)
    return ''


def explore(prefix, o, levels, fresh):
    """(violations, number of histories) below this history; runs in its own process"""
    m = step(o, fresh)
    h = prefix + [name(o)]
    if m:
        return [(h, m)], 1
    out, n = [], 1
    if levels:
        for g in levels[0]:
            if name(g) not in fresh:
                continue
            st, r = isolated(explore, h, g, levels[1:], fresh)
            if st != 'ok':
                out.append((h + [name(g)], r))
                n += 1
            else:
                out += r[0]
                n += r[1]
            if len(out) > 3:
                break
    return out, n


def report(res, kind, viol):
    for h, m in viol[:5]:
        res.violation(f'{kind}:{" ; ".join(h)}', f'{" then ".join(h)}: {m}')


def histories(res, firsts, levels):
    levels = [{'all': list(range(len(OPS))), 'deep': [find(x) for x in DEEP3]}[l] for l in levels]
    ops = [OPS[i] for i in sorted(set(firsts) | {j for l in levels for j in l})]
    fresh = prepare(res, ops)
    for i in firsts:
        if name(OPS[i]) not in fresh:
            continue
        st, r = isolated(explore, [], OPS[i], [[OPS[j] for j in l] for l in levels], fresh, timeout=600)
        if st != 'ok':
            report(res, 'history', [([name(OPS[i])], r)])
            continue
        report(res, 'history', r[0])
        res.states += r[1]
        res.transitions += r[1]
        res.traces += r[1]
        if len(res.violations) > 4:
            return
    res.sample({'history': [name(OPS[firsts[0]])] + [name(OPS[l[-1]]) for l in levels], 'result': 'as in a fresh process'})


# ---------------------------------------- numeric calls over parameter changes
def changed(par, p):
    v = par[p]
    if isinstance(v, tuple):
        return tuple(x * 0.5 + 0.1 for x in v)
    return v + 0.25 if p != 'rho' else v + 0.3


def sweep_world(fn, a, par, extra, p, shared, want):
    q = dict(par)
    f = fun(fn)
    f(*a, q, *extra)
    if shared:
        q[p] = changed(par, p)       # the caller updates its own dictionary
    else:
        q = dict(par, **{p: changed(par, p)})
    v1 = f(*a, q, *extra)
    v2 = f(*a, dict(par), *extra)
    return same(v1, want[1]) and same(v2, want[0])


def value_of(fn, a, par, extra):
    return fun(fn)(*a, dict(par), *extra)


def sweep(res, fn, a, par, extra=()):
    preload()
    a, extra = tuple(tuple(x) if isinstance(x, list) else x for x in a), tuple(extra)
    for p in par:
        if p in ('jumptime', 'jumpsize'):
            par[p] = tuple(par[p])
    st0, w0 = isolated(value_of, fn, a, par, extra)
    if st0 != 'ok':
        res.violation(f'fresh:{fn}', f'{fn}{a} raises {w0}')
        return
    for p in par:
        st, w1 = isolated(value_of, fn, a, dict(par, **{p: changed(par, p)}), extra)
        if st != 'ok':
            res.violation(f'fresh:{fn}:{p}', f'{fn}{a} raises {w1}')
            continue
        for shared in (False, True):
            st, ok = isolated(sweep_world, fn, a, par, extra, p, shared, (w0, w1))
            res.states += 2
            res.transitions += 3
            res.traces += 1
            if st != 'ok' or not ok:
                res.violation(f'sweep:{fn}{a}:{p}:{shared}', f'{fn}{a}: after a change of {p} ' +
                              ('in the same dictionary ' if shared else '') + ('the value is stale' if st == 'ok' else f'raises {ok}'))


# --------------------------------------------------------- controlled threads
class Interrupt(BaseException):
    pass


class Tracer:
    """calls at(n) at every line event inside the package"""

    def __init__(self, at):
        self.n, self.at = 0, at

    ours = {}

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        x = self.ours.get(fn)
        if x is None:
            x = self.ours[fn] = os.path.realpath(fn).startswith(KSRC)
        return self.loc if x else None

    def loc(self, frame, event, arg):
        if event == 'line':
            n, self.n = self.n, self.n + 1
            self.at(n, frame)
        return self.loc

    def run(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


def points_of(o, full, k, poly=True):
    """choice points of a call: every line event, if there are at most `full`; otherwise
    the first k and the last occurrence of every line (k = 0: the first only)"""
    ev = []
    Tracer(lambda n, fr: ev.append((fr.f_code.co_filename, fr.f_lineno))).run(lambda: call(o))
    if not poly:                  # B's own preemption points: not inside the arithmetic of formulas
        first = {}
        for i, e in enumerate(ev):
            if not e[0].endswith('poly.py'):
                first.setdefault(e, i)
        return sorted(first.values()), len(ev)
    if len(ev) <= full:
        return list(range(len(ev))), len(ev)
    cnt, last, out = {}, {}, set()
    for i, e in enumerate(ev):
        cnt[e] = cnt.get(e, 0) + 1
        last[e] = i
        if cnt[e] <= max(k, 1):
            out.add(i)
    return sorted(out | set(last.values() if k else ())), len(ev)


def schedule(a, b, i, j, fresh):
    """thread A runs to its i-th event, B runs to its j-th (None: to its end), A runs to
    its end, B runs to its end"""
    out = {}
    go_b, go_a, a_done, b_done = (threading.Event() for _ in range(4))
    wait = 2.0                    # a thread that blocks (a lock) is descheduled

    def at_a(n, fr):
        if n == i:
            go_b.set()
            go_a.wait(wait)

    def at_b(n, fr):
        if n == j:
            go_a.set()
            a_done.wait(wait)

    def body(key, o, tr, before, after):
        try:
            if before:
                before()
            v, msg = tr.run(lambda: call(o))
            out[key] = msg or ('' if same(canon(v), fresh[name(o)]) else 'returns a different value than alone')
        except BaseException as e:
            out[key] = f'{type(e).__name__}: {e}'
        finally:
            for e in after:
                e.set()
    ta = threading.Thread(target=body, args=('A', a, Tracer(at_a), None, (a_done, go_b)))
    tb = threading.Thread(target=body, args=('B', b, Tracer(at_b), lambda: go_b.wait(), (b_done, go_a)))
    ta.start()
    tb.start()
    ta.join(60)
    tb.join(60)
    if ta.is_alive() or tb.is_alive():
        return 'deadlock'
    for key in 'AB':
        if out[key]:
            return f'{key} {out[key]}'
    # and afterwards
    for o in (a, b):
        m = step(o, fresh)
        if m:
            return f'{name(o)} afterwards: {m}'
    return ''


def schedules(res, a, bs, full=60, k=1, two=False, big=1200):
    a, bs = OPS[a], [OPS[b] for b in bs]
    fresh = prepare(res, [a] + bs)
    if any(name(o) not in fresh for o in [a] + bs):
        return
    st, (pa, ea) = isolated(points_of, a, full, k)
    for b in bs:
        pb = [None]
        if two:
            pb = isolated(points_of, b, full, k)[1][0] + [None]
            if len(pa) * len(pb) > big:
                pb = isolated(points_of, b, full, k, False)[1][0] + [None]
        for i in pa:
            for j in pb:
                st, m = isolated(schedule, a, b, i, j, fresh)
                res.traces += 1
                res.transitions += 3 if j is None else 4
                res.states += 2 if j is None else 3
                if st != 'ok' or m:
                    res.violation(f'schedule:{name(a)}@{i}|{name(b)}@{j}',
                                  f'{name(a)} preempted at event {i} by {name(b)}' + (f' (itself preempted at {j})' if j is not None else '') + f': {m}')
                    if len(res.violations) > 4:
                        return
    res.sample({'A': name(a), 'events_of_A': ea, 'preemption_points': len(pa), 'B': [name(b) for b in bs], 'B_points': len(pb)})


def broken(a, i, after, fresh):
    def at(n, fr):
        if n == i:
            raise Interrupt()
    try:
        Tracer(at).run(lambda: call(a))
    except Interrupt:
        pass
    for o in after:
        m = step(o, fresh)
        if m:
            return f'{name(o)}: {m}'
    return ''


def interruptions(res, a, after, full=400, k=2):
    a, after = OPS[a], [OPS[b] for b in after]
    fresh = prepare(res, [a] + after)
    if any(name(o) not in fresh for o in [a] + after):
        return
    st, (pa, ea) = isolated(points_of, a, full, k)
    for i in pa:
        st, m = isolated(broken, a, i, [a] + after, fresh)
        res.traces += 1
        res.states += 1
        res.transitions += 2 + len(after)
        if st != 'ok' or m:
            res.violation(f'interrupt:{name(a)}@{i}', f'{name(a)} interrupted at event {i}, then {m}')
            if len(res.violations) > 4:
                return
    res.sample({'interrupted': name(a), 'events': ea, 'interruption_points': len(pa), 'then': [name(o) for o in after]})


# ------------------------------------------------------------------ task list
def idx(*pref):
    return [i for i, o in enumerate(OPS) if any(o[0].startswith(p) for p in pref)]


def find(s):
    L = [i for i, o in enumerate(OPS) if name(o) == s]
    assert len(L) == 1, s
    return L[0]


def groups():
    """(A, Bs): calls that share machinery"""
    f = find
    return [
        (f('ito_mom.moment_IEII(1,2,1)'), [f('ito_mom.moment_IEII(2,0,2)'), f('ito_mom.moment_IEII(0,4,0)')]),
        (f('ito_cond_mom.moment_IEII(1,1,1)'), [f('ito_cond_mom.moment_IEII(2,2,0)'), f('ito_cond_mom.moment_IEII(0,1,2)')]),
        (f('itos_mom.moment_IEI_IEII(1,0,0,0,2)'), [f('itos_mom.moment_IEI_IEII(2,1,0,0,0)')]),
        (f('cpp_mom.mcpp(4)'), [f('cpp_mom.mcpp(3)'), f('cpp_mom.cmcpp(3)')]),
        (f('cpp_mom.mnorm(4)'), [f('cpp_mom.mnorm(3)')]),
        (f('mdl_1fsv.mom.moment_y(2)'), [f('mdl_1fsv.mom.moment_y(3)'), f('mdl_1fsv.cmom.cmoment_y(2)')]),
        (f('mdl_1fsv.cmom.cmoment_y(2)'), [f('mdl_1fsv.cmom.cmoment_y(3)')]),
        (f('mdl_1fsv.cov.cov_yy(1,1)'), [f('mdl_1fsv.cov.cov_yy(1,2)')]),
        (f('mdl_1fsv.cond_cmom.cmoments_y_to(4)'), [f('mdl_1fsv.cond_cmom.cmoments_y_to(2)')]),
        (f('mdl_1fsvj.cmom.cmoment_y(2)'), [f('mdl_1fsvj.cmom.cmoment_y(3)')]),
        (f('mdl_2fsv.cmom.cmoment_y(2)'), [f('mdl_2fsv.mom.moment_y(1)')]),
        (f('mdl_srjd.cmom.cmoment_v(3)'), [f('mdl_srjd.cmom.cmoment_v(2)'), f('mdl_srjd.mom.moment_v(2)')]),
        (f('mdl_srjd.cond_mom.moment_v(2)'), [f('mdl_srjd.cond_mom.moment_v(3)')]),
        (f('mdl_srjd.cond_ie_iez_mom.moment_ie_iez(2,1)'), [f('mdl_srjd.cond_ie_iez_mom.moment_ie_iez(1,2)')]),
        (f('mdl_srjd.iez_mom.moment_IEZ(3)'), [f('mdl_srjd.iez_mom.moment_IEZ(2)')]),
        (f('mdl_srjd.cond2_mom.moment_IE(4)'), [f('mdl_srjd.cond2_mom.moment_IE(3)'), f('mdl_srjd.cond2_mom.moment_v(3)')]),
        (f('mdl_svvj.cond2_cmom.cmoments_y_to(3)'), [f('mdl_svvj.cond2_cmom.cmoments_y_to(2)')]),
        (f('mdl_svvj.cond2_mom.moments_y_to(2)'), [f('mdl_svvj.cond2_mom.moments_y_to(1)')]),
        (f('mdl_svcj.cond2_mom.moments_y_to(2,(0.5, 0.2))'), [f('mdl_svcj.cond2_mom.moments_y_to(2,(0.5,))')]),
        (f('mdl_svcj.cond_mom.moment_y(1)'), [f('mdl_svcj.cond_mom.moment_y(2)'), f('mdl_svcj.ieziziz_mom.moment_ieziziz(1,1,1)')]),
        (f('mdl_svcj.ieziziz_mom.moment_ieziziz(1,1,1)'), [f('mdl_svcj.ieziziz_mom.moment_ieziziz(2,0,1)')]),
        (f('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz(1,1,0,1,0,0)'), [f('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz(2,0,0,0,1,0)')]),
        (f('utils.fZ((1, 2),(0, 1),(1,),(0,),0.5,(0.25, 1.0),(0.5, 0.2))'), [f('utils.fZ((1, 2),(0, 1),(1,),(0,),0.5,(0.25,),(0.5,))')]),
        (f('utils.multilevel_comb(3,2)'), [f('utils.multilevel_comb(2,3)')]),
        (f('mdl_svij.cond2_cmom.cm(2,par)'), [f('mdl_svvj.cond2_cmom.cm(3,par)')]),
    ]


TINY = ['ito_mom.int_et(1,2)', 'ito_mom.int_et(-1,2)', 'itos_mom.int_et(1,2,1)', 'ito_cond_mom.int_et_fZ(1,1,2)', 'cpp_mom.mnorm(3)', 'cpp_mom.mcpp(1)',
        'utils.cmnorm(4)', 'utils.multilevel_index(2,3)', 'mdl_srjd.iez_mom.moment_EJ(3)', 'ito_mom.moment_v(3)', 'cpp_mom.cmcpp(2)', 'ito_mom.moment_IEII(1,1,0)',
        'mdl_svcj.ieziziz_mom.moment_ejjj(1,1,1)', 'utils.comb(5,[1, 2, 2])', 'itos_mom.t_mul_t0((1, 2, 1),((0, 1, 2), (1, 2, 1)))']
DEEP3 = ['ito_mom.moment_IEII(2,0,2)', 'ito_mom.moment_IEII(0,0,0)', 'ito_cond_mom.moment_IEII(1,1,1)', 'itos_mom.moment_IEI_IEII(0,0,0,0,2)',
         'itos_mom.moment_IEI_IEII(1,1,1,0,0,return_all=True)', 'cpp_mom.mcpp(3)', 'cpp_mom.cmcpp(2)', 'mdl_1fsv.mom.moment_y(2)', 'mdl_1fsv.cond_cmom.cmoments_y_to(2)',
         'mdl_srjd.cmom.cmoment_v(2)', 'mdl_srjd.mom.moment_v(2,simplify=False)', 'mdl_srjd.cond2_mom.moment_v(2)', 'mdl_srjd.cond_mom.moment_v(2)',
         'mdl_svvj.cond2_mom.moments_y_to(1)', 'mdl_svvj.cond2_cmom.cmoments_y_to(2)', 'mdl_svcj.cond_mom.moment_y(1)', 'mdl_srjd.iez_mom.moment_IEZ(2)']


def tasks(tier):
    q = tier == 'quick'
    L = []
    al = list(range(len(OPS)))
    for i in range(0, len(al), 4):
        L.append(Task(ME, 'histories', dict(firsts=al[i:i + 4], levels=['all']), 8))
    d3 = [find(s) for s in DEEP3]
    for i in d3:
        L.append(Task(ME, 'histories', dict(firsts=[i], levels=['deep'] * 2), 6))
    if not q:
        for i in al:
            L.append(Task(ME, 'histories', dict(firsts=[i], levels=['all', 'deep']), 200, True))
        for i in d3:
            L.append(Task(ME, 'histories', dict(firsts=[i], levels=['deep'] * 3), 100, True))
    for f, a, p in NUMERIC:
        L.append(Task(ME, 'sweep', dict(fn=f, a=list(a), par=dict(p)), 2))
    for f, a, p, w in DERIV:
        L.append(Task(ME, 'sweep', dict(fn=f, a=list(a), par=dict(p), extra=[w]), 2))
    for a, bs in groups():
        if q:
            for b in [a] + bs[:1]:
                L.append(Task(ME, 'schedules', dict(a=a, bs=[b], full=40, k=0), 40, True))   # dropped (and reported so) on a slow machine only
            L.append(Task(ME, 'interruptions', dict(a=a, after=bs, full=200, k=1), 8))
        else:
            for b in [a] + bs:
                L.append(Task(ME, 'schedules', dict(a=a, bs=[b], full=2000, k=4), 200, True))
            L.append(Task(ME, 'interruptions', dict(a=a, after=bs, full=5000, k=8), 100, True))
    t = [find('cpp_mom.cmcpp(1)' if q and s == 'cpp_mom.cmcpp(2)' else s) for s in TINY]
    for i, a in enumerate(t):
        L.append(Task(ME, 'schedules', dict(a=a, bs=[a], two=True, full=24 if q else 120, k=0 if q else 1, big=500 if q else 40000), 50))
        L.append(Task(ME, 'schedules', dict(a=a, bs=[t[i - 1]], two=True, full=24 if q else 120, k=0 if q else 1, big=500 if q else 40000), 50))
        L.append(Task(ME, 'interruptions', dict(a=a, after=[t[i - 1]]), 2))
    return L
