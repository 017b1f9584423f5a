"""C21: the simulators, run under a controlled random source.

Every random draw of the real simulator is a choice point with a small alphabet of outcomes; all
sequences of choices are explored (depth-first, to the end of every run).  The resulting law of the
whole output - the weight of every possible output - must be the law of the reference machine, which
is explored in the same way.  Laws do not depend on the order in which independent draws are made
nor on drawing one by one or in vectors."""
import copy
import itertools
import math
from collections import Counter

from core import Task, need

ME = 'p_sim'
ZN = {1: (0.6,), 2: (-0.7, 1.3), 3: (-2.1, 0.4, 1.3), 4: (-2.1, -0.3, 0.45, 1.7)}
BOUND = [10000]    # runs of the reference per call of a simulator
POI = {1: (2,), 2: (0, 2), 3: (0, 1, 3), 4: (0, 1, 2, 3)}
QC = {1: (1.4,), 2: (0.5, 1.7), 3: (0.2, 0.9, 2.1), 4: (0.2, 0.9, 1.3, 2.1)}


class TooMany(Exception):
    pass


class Source:
    """the scripted random source; also usable as numpy.random and as a Generator"""

    def __init__(self):
        self.letters, self.poi = 2, 2
        self.script, self.pos, self.trail = [], 0, []

    def choose(self, alphabet):
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        if self.pos >= 250:
            raise TooMany('more draws than the discretisation needs')
        self.pos += 1
        self.trail.append((i, len(alphabet)))
        return alphabet[i]

    def one(self, f, alphabet, size, *args):
        import numpy as np
        if size is None:
            arrs = [np.asarray(a) for a in args]
            shape = np.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
            if shape == ():
                return f(self.choose(alphabet), *[a.item() for a in arrs])
        else:
            shape = tuple(size) if hasattr(size, '__len__') else (int(size),)
        out = np.empty(shape, dtype=int if alphabet is POI[self.poi] else float)
        bs = [np.broadcast_to(np.asarray(a), shape) for a in args]
        for ix in np.ndindex(*shape):
            out[ix] = f(self.choose(alphabet), *[b[ix].item() for b in bs])
        return out

    # the random functions
    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.one(lambda z, a, b: a + b * z, ZN[self.letters], size, loc, scale)

    def standard_normal(self, size=None):
        return self.one(lambda z: z, ZN[self.letters], size)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def poisson(self, lam=1.0, size=None):
        # the outcome depends on the intensity, as it must
        return self.one(lambda n, l: n + round(l * 4) % 2, POI[self.poi], size, lam)

    def noncentral_chisquare(self, df, nonc, size=None):
        return self.one(lambda g, d, l: g * d + g * g * l, QC[self.letters], size, df, nonc)


SRC = Source()


def install():
    import numpy as np
    for n in ('normal', 'standard_normal', 'randn', 'poisson', 'noncentral_chisquare'):
        setattr(np.random, n, getattr(SRC, n))
    np.random.default_rng = lambda *a, **k: SRC
    np.random.RandomState = lambda *a, **k: SRC


def law(run, limit):
    """explore every sequence of choices; weight of every output"""
    out, first, nodes, leaves = Counter(), {}, 0, 0
    script = []
    while True:
        SRC.script, SRC.pos, SRC.trail = script, 0, []
        y = run()
        w = 1.0
        for _, n in SRC.trail:
            w /= n
        key = tuple(round(x, 9) + 0.0 for x in y)
        out[key] += w
        first.setdefault(key, [i for i, _ in SRC.trail])
        leaves += 1
        if leaves > limit:
            raise TooMany(leaves)
        t = SRC.trail
        while t and t[-1][0] == t[-1][1] - 1:
            t.pop()
        nodes += 1
        if not t:
            return out, first, nodes, leaves
        script = [i for i, _ in t[:-1]] + [t[-1][0] + 1]


def differ(got, want):
    """first output whose weight differs, up to rounding"""
    d = Counter()
    for k in set(got) | set(want):
        x = got.get(k, 0) - want.get(k, 0)
        if abs(x) > 1e-9:
            d[k] = x
    # cancel outputs separated by rounding only
    pos = [k for k in d if d[k] > 0]
    neg = [k for k in d if d[k] < 0]
    for p in pos:
        for q in neg:
            if d[q] < 0 < d[p] and len(p) == len(q) and all(abs(a - b) <= 2e-9 * max(1, abs(a)) for a, b in zip(p, q)):
                m = min(d[p], -d[q])
                d[p] -= m
                d[q] += m
    left = [k for k in d if abs(d[k]) > 1e-9]
    return left[0] if left else None


# ------------------------------------------------------------------ reference machines
def N01():
    return SRC.choose(ZN[SRC.letters])


def npois(lam):
    return SRC.choose(POI[SRC.poi]) + round(lam * 4) % 2


def pos(x):
    return x if x > 0 else 0.0


def ref_1f(v0, p, N, n_segment=10, h=1, iid=False, jumps=False):
    d = h / n_segment
    out, v = [], v0
    for _ in range(N):
        if iid:
            v = v0
        y = p['mu'] * h
        for _ in range(n_segment):
            w, b = math.sqrt(d) * N01(), math.sqrt(d) * N01()
            y += -v * d / 2 + math.sqrt(v) * (p['rho'] * w + math.sqrt(1 - p['rho'] ** 2) * b)
            v = pos(v + p['k'] * (p['theta'] - v) * d + p['sigma_v'] * math.sqrt(v) * w)
        if jumps:
            y += sum(p['mu_j'] + p['sigma_j'] * N01() for _ in range(npois(p['lambda'] * h)))
        out.append(y)
    return out


def ref_2f(v0, p, N, n_segment=10, h=1, jumps=False):
    d = h / n_segment
    out, v, u = [], v0[0], v0[1]
    for _ in range(N):
        y = p['mu'] * h
        for _ in range(n_segment):
            b, w1, w2 = (math.sqrt(d) * N01() for _ in range(3))
            y += -(v + u) * d / 2 + math.sqrt(v + u) * b
            v = pos(v + p['k1'] * (p['theta1'] - v) * d + p['sigma_v1'] * math.sqrt(v) * w1)
            u = pos(u + p['k2'] * (p['theta2'] - u) * d + p['sigma_v2'] * math.sqrt(u) * w2)
        if jumps:
            y += sum(p['mu_j'] + p['sigma_j'] * N01() for _ in range(npois(p['lambda'] * h)))
        out.append(y)
    return out


def srd(v, tau, k, theta, sigma):
    """exact transition of the square-root diffusion"""
    if tau == 0:
        return v
    g = SRC.choose(QC[SRC.letters])
    c = sigma ** 2 * (1 - math.exp(-k * tau)) / (4 * k)
    return c * (g * 4 * k * theta / sigma ** 2 + g * g * v * math.exp(-k * tau) / c)


def ref_srjd(v0, k, theta, sigma, T, J, s, n):
    out = []
    for _ in range(n):
        v, t = v0, 0
        for Ji, si in zip(J, s):
            v = srd(v, si - t, k, theta, sigma) + Ji
            t = si
        out.append(srd(v, T - t, k, theta, sigma))
    return out


def ref_ie(v, k, theta, sigma, h, J, s, n_segment):
    """Euler increments over the grid refined by the jump times"""
    pts = sorted([(h * (i + 1) / n_segment, 1, 0) for i in range(n_segment)] + [(t, 0, z) for t, z in zip(s, J)])
    IE = I = I2 = 0
    t = 0
    for u, _, z in pts:
        if u > t:
            w, b = math.sqrt(u - t) * N01(), math.sqrt(u - t) * N01()
            IE += math.exp(k * t) * math.sqrt(v) * w
            I += math.sqrt(v) * w
            I2 += math.sqrt(v) * b
            v = pos(v + k * (theta - v) * (u - t) + sigma * math.sqrt(v) * w)
        v += z
        t = u
    return IE, I, I2


def ref_svvj(v0, mu, k, theta, sigma, rho, T, J, s, n, n_segment, extra=None):
    E = math.exp(-k * T)
    out = []
    # integrated variance given IE and the jumps:
    # IV = theta*T + (v0-theta)(1-E)/k + sum J (1-exp(-k(T-s)))/k + sigma/k (I - E*IE)
    for _ in range(n):
        IE, I, I2 = ref_ie(v0, k, theta, sigma, T, J, s, n_segment)
        IV = theta * T + (v0 - theta) * (1 - E) / k + sum(z * (1 - math.exp(-k * (T - t))) for z, t in zip(J, s)) / k
        IV += sigma / k * (I - E * IE)
        y = mu * T - IV / 2 + rho * I + math.sqrt(1 - rho ** 2) * I2
        out.append(y + (extra() if extra else 0))
    return out


def ref_svij(v0, mu, k, theta, sigma, rho, T, J, s, ls, ms, ss, n, n_segment):
    return ref_svvj(v0, mu, k, theta, sigma, rho, T, J, s, n, n_segment,
                    lambda: sum(ms + ss * N01() for _ in range(npois(ls * T))))


def ref_svcj(v0, mu, k, theta, sigma, rho, T, J, s, ms, ss, rJ, n, n_segment):
    return ref_svvj(v0, mu, k, theta, sigma, rho, T, J, s, n, n_segment,
                    lambda: sum(ms + rJ * z + ss * N01() for z in J))


# ------------------------------------------------------------------------- parameters
P1 = [dict(mu=0.3, k=0.7, theta=0.5, sigma_v=0.6, rho=-0.6, **{'lambda': 0.75}, mu_j=-0.4, sigma_j=0.3),
      dict(mu=-0.2, k=1.5, theta=0.2, sigma_v=1.1, rho=0.8, **{'lambda': 1.5}, mu_j=0.2, sigma_j=0.7),
      dict(mu=1, k=2, theta=1, sigma_v=1, rho=0, **{'lambda': 0}, mu_j=0, sigma_j=1),
      dict(mu=0, k=0.4, theta=0.9, sigma_v=0.25, rho=1, **{'lambda': 0.25}, mu_j=0.15, sigma_j=0)]
P2 = [dict(mu=0.3, k1=0.7, theta1=0.5, sigma_v1=0.6, k2=0.2, theta2=0.35, sigma_v2=0.9, **{'lambda': 0.75}, mu_j=-0.4, sigma_j=0.3),
      dict(mu=-0.2, k1=1.5, theta1=0.2, sigma_v1=1.1, k2=2.1, theta2=0.8, sigma_v2=0.4, **{'lambda': 1.5}, mu_j=0.2, sigma_j=0.7)]
PS = [(0.3, 0.7, 0.5, 0.6, -0.6), (-0.2, 1.5, 0.2, 1.1, 0.8), (0, 0.4, 0.9, 0.25, 1)]    # mu, k, theta, sigma, rho
V1 = (0.45, 0.06, 0)
JUMPS = [((), ()), ((0.3,), (0.375,)), ((0.3,), (0.5,)), ((0.25,), (0.0,)), ((0.3,), (1.0,)),
         ((0.3, 0.8), (0.125, 0.25)), ((0.3, 0.8), (0.25, 0.75)), ((0.8, 0.3), (0.5, 0.5)), ((0.3, 0.8), (0.5, 1.0)),
         ((0.3, 0.8, 0.55), (0.25, 0.5, 0.875)), ((0.1, 0.8, 0.55), (0.125, 0.25, 0.375))]
NAMES = {'1fsv': ('mdl_1fsv', 'r1FSV'), '1fsv_iid': ('mdl_1fsv', 'r1FSV_iid'), '1fsvj': ('mdl_1fsvj', 'r1FSVJ'),
         '2fsv': ('mdl_2fsv', 'r2FSV'), '2fsvj': ('mdl_2fsvj', 'r2FSVJ'), 'srjd': ('mdl_srjd', 'rSRJD'),
         'svvj': ('mdl_svvj', 'rSVVJ'), 'svij': ('mdl_svij', 'rSVIJ'), 'svcj': ('mdl_svcj', 'rSVCJ')}


def fn(name):
    import importlib
    install()
    m, f = NAMES[name]
    return getattr(importlib.import_module(f'ajdmom.{m}.euler'), f)


def shown(a):
    import numpy as np
    if isinstance(a, np.ndarray):
        return ('array',) + tuple(a.tolist())
    if isinstance(a, dict):
        return tuple(sorted(a.items()))
    return (type(a).__name__,) + tuple(a) if isinstance(a, (list, tuple)) else a


def decide(res, label, f, ref, args, kw, n, letters, poi, rargs=None, rkw=None):
    """one call of the simulator: law against law"""
    import numpy as np
    before = [shown(a) for a in args]
    bad = []

    def impl():
        y = f(*args, **kw)
        if not isinstance(y, np.ndarray) or y.shape != (n,):
            bad.append(f'returns {type(y).__name__} of shape {getattr(y, "shape", None)}, expected {n} samples')
            return ()
        # results of earlier calls must not be touched by later ones
        bad.extend(['a sample returned earlier was modified'] if hold and hold[0].tolist() != hold[1] else [])
        hold[:] = [y, y.tolist()]
        return y.tolist()

    hold = []
    key = f'{label}({",".join(str(shown(a)) for a in args)},{kw},{letters})'
    # the largest alphabets that can be exhausted
    try:
        for SRC.letters, SRC.poi in ((letters, poi), (letters, 2), (2, 2), (2, 1), (1, 2), (1, 1)):
            try:
                want, wf, n2, l2 = law(lambda: ref(*(rargs or args), **(rkw if rkw is not None else kw)), BOUND[0])
                got, gf, nodes, leaves = law(impl, 8 * BOUND[0])
                break
            except TooMany:
                if (SRC.letters, SRC.poi) == (1, 1):
                    raise
    except Exception as e:
        res.violation(key, f'{key} raises {type(e).__name__}: {e}')
        return
    res.states += nodes + n2
    res.transitions += leaves + l2
    res.traces += leaves
    if [shown(a) for a in args] != before:
        res.violation(key, f'{key} modifies its arguments')
    elif bad:
        res.violation(key, f'{key} {bad[0]}')
    else:
        k = differ(got, want)
        if k is not None:
            where = f'draws {gf[k]}' if k in gf else 'never produced'
            res.violation(key, f'{key}: output {k} has weight {got.get(k, 0):.6g}, the discretisation gives {want.get(k, 0):.6g} ({where})')
    res.sample({'call': key[:300], 'runs': leaves, 'distinct outputs': len(got)})


REF1 = {'1fsv': {}, '1fsv_iid': {'iid': True}, '1fsvj': {'jumps': True}}


def one(res, name, pi, big):
    BOUND[0] = 40000 if big else 1500
    f = fn(name)
    p = P1[pi]
    hk = 'tau' if name == '1fsv_iid' else 'h'
    sizes = [(1, 1, 3), (2, 1, 3), (1, 2, 3), (3, 1, 2), (1, 3, 2), (2, 2, 2), (0, 1, 2)]
    if big:
        sizes += [(1, 3, 3), (2, 2, 3), (3, 1, 3), (3, 2, 2), (2, 3, 2)]
    for (N, seg, letters), v0, h in itertools.product(sizes, V1, (1, 0.5, 2)):
        if N * seg > 2 and (h == 2 or v0 == V1[1]) and not big:
            continue
        poi = 3 if N == 1 and name == '1fsvj' else 2
        decide(res, name, f, lambda v, q, n, n_segment, **k: ref_1f(v, q, n, n_segment, k[hk], **REF1[name]),
               [v0, dict(p), N], {'n_segment': seg, hk: h}, N, letters, poi)
    # the documented defaults, one constant path
    for N in (1, 2):
        decide(res, name, f, lambda v, q, n: ref_1f(v, q, n, **REF1[name]), [0.45, dict(p), N], {}, N, 1, 1)
    # positional
    decide(res, name, f, lambda v, q, n, s, h: ref_1f(v, q, n, s, h, **REF1[name]), [0.45, dict(p), 1, 2, 0.5], {}, 1, 2, 2)


def two(res, name, pi, big):
    BOUND[0] = 40000 if big else 1500
    import numpy as np
    f = fn(name)
    p = P2[pi]
    J = name == '2fsvj'
    sizes = [(1, 1, 3), (2, 1, 3), (1, 2, 3), (1, 3, 2), (3, 1, 2), (0, 1, 2)]
    if big:
        sizes += [(2, 2, 2), (1, 4, 2), (1, 3, 3)]
    for (N, seg, letters), v0, h in itertools.product(sizes, ((0.45, 0.2), [0.06, 0.8], (0, 0.3)), (1, 0.5)):
        if J and N == 3 and not big:
            continue
        decide(res, name, f, lambda v, q, n, n_segment, h: ref_2f(v, q, n, n_segment, h, jumps=J),
               [copy.copy(v0), dict(p), N], dict(n_segment=seg, h=h), N, letters, 3 if N == 1 and seg < 3 else 2)
    for N in (1, 2):
        decide(res, name, f, lambda v, q, n: ref_2f(v, q, n, jumps=J), [(0.45, 0.2), dict(p), N], {}, N, 1, 1)
    decide(res, name, f, lambda v, q, n, s, h: ref_2f(v.tolist(), q, n, s, h, jumps=J),
           [np.array([0.45, 0.2]), dict(p), 1, 2, 0.5], {}, 1, 2, 2)


def scaled(js, T):
    J, s = js
    return J, tuple(t * T for t in s)


def vec(js, kind):
    """the same jumps as tuples, lists, arrays"""
    import numpy as np
    c = (tuple, list, np.array)[kind]
    return c(js[0]), c(js[1])


def srjd(res, pi, big):
    BOUND[0] = 40000 if big else 1500
    f = fn('srjd')
    _, k, theta, sigma, _ = PS[pi]
    for js, T, n, v0, kind in itertools.product(JUMPS, (1, 2, 0.5), (1, 2, 3) if big else (1, 2), (0.45, 0), (0, 1, 2)):
        if kind and (n == 2 or T == 2):
            continue
        J, s = scaled(js, T)
        Ja, sa = vec((J, s), kind)
        m = n * (len(J) + 1)
        decide(res, 'srjd', f, ref_srjd, [v0, k, theta, sigma, T, Ja, sa, n], {}, n, 3 if m <= 6 else 2, 2,
               rargs=[v0, k, theta, sigma, T, J, s, n])
    # the exact transition
    import importlib
    g = importlib.import_module('ajdmom.mdl_srjd.euler').rSRD
    import numpy as np
    for v0, tau in itertools.product((0.45, 0.06, 0), (1, 0.25, 3)):
        decide(res, 'rSRD', lambda *a: np.array([g(*a)]), lambda *a: [srd(*a)], [v0, tau, k, theta, sigma], {}, 1, 3, 2)


def sv(res, name, pi, big):
    BOUND[0] = 40000 if big else 1500
    f = fn(name)
    P = PS[pi]
    ref = {'svvj': ref_svvj, 'svij': ref_svij, 'svcj': ref_svcj}[name]
    mid = {'svvj': [()], 'svij': [(0.75, -0.2, 0.3), (0, 0.1, 0.5)], 'svcj': [(-0.2, 0.3, -0.4), (0.1, 0, 0.7)]}[name]
    for js, T, n, seg, v0, kind, e in itertools.product(JUMPS, (1, 2, 0.5), (0, 1, 2), (1, 2, 4), (0.45, 0.02), (0, 1, 2), mid):
        if (kind or T == 2 or v0 == 0.02) and (n != 1 or seg == 4):
            continue
        if name != 'svvj' and not big and (seg == 4 or T == 0.5 and (kind or n == 2) or kind and e != mid[0]):
            continue    # the return without price jumps is explored for svvj
        J, s = scaled(js, T)
        m = 2 * n * len(set([t for t in s if t > 0] + [T * (i + 1) / seg for i in range(seg)])) + n * (2 if name == 'svij' else len(J))
        if m > (16 if big else 11):
            continue
        Ja, sa = vec((J, s), kind)
        decide(res, name, f, ref, [v0, *P, T, Ja, sa, *e, n, seg], {}, n, 3 if m <= (8 if big else 6) else 2, 2,
               rargs=[v0, *P, T, J, s, *e, n, seg])
    # a fine grid, one constant path
    for js, seg in itertools.product(JUMPS[:6], (8, 16)):
        decide(res, name, f, ref, [0.45, *P, 1, *js, *mid[0], 1, seg], {}, 1, 1, 1)


def pieces(res, pi, big):
    BOUND[0] = 40000 if big else 1500
    import importlib
    install()
    import numpy as np
    m = importlib.import_module('ajdmom.mdl_svvj.euler')
    _, k, theta, sigma, _ = PS[pi]
    SRC.letters = 2
    for (J, s), t, kind in itertools.product(JUMPS, (0, 0.125, 0.25, 0.3, 0.5, 0.75, 0.9, 1, 2), (0, 1, 2)):
        Ja, sa = vec((J, s), kind)
        decide(res, 'IZ', lambda *a: np.array([need('mdl_svvj.euler.IZ')(*a)]), lambda *a: [sum(j for j, u in zip(J, s) if u <= t)], [t, Ja, sa], {}, 1, 2, 2)
        decide(res, 'IEZ', lambda *a: np.array([need('mdl_svvj.euler.IEZ')(*a)]), lambda *a: [sum(math.exp(k * u) * j for j, u in zip(J, s) if u <= t)],
               [t, Ja, sa, k], {}, 1, 2, 2)
    for v0, (J, s), seg, h in itertools.product((0.45, 0.02, 0), JUMPS, (1, 2), (1, 2)):
        s = tuple(x * h for x in s)
        if seg + len(J) > (5 if big else 4):
            continue
        decide(res, 'rIEII', lambda *a: np.array(need('mdl_svvj.euler.rIEII')(*a)), ref_ie, [v0, k, theta, sigma, h, J, s, seg], {}, 3, 3 if seg + len(J) < 3 else 2, 2)


def tasks(tier):
    big = tier == 'thorough'
    T = []
    for n in ('1fsv', '1fsv_iid', '1fsvj'):
        T += [Task(ME, 'one', dict(name=n, pi=i, big=big), cost=10) for i in range(len(P1))]
    for n in ('2fsv', '2fsvj'):
        T += [Task(ME, 'two', dict(name=n, pi=i, big=big), cost=15) for i in range(len(P2))]
    T += [Task(ME, 'srjd', dict(pi=i, big=big), cost=5) for i in range(len(PS))]
    for n in ('svvj', 'svij', 'svcj'):
        T += [Task(ME, 'sv', dict(name=n, pi=i, big=big), cost=20) for i in range(len(PS))]
    T += [Task(ME, 'pieces', dict(pi=i, big=big), cost=5) for i in range(len(PS))]
    return T
