"""C18: export of formulas.  Every write (and every sequence of writes up to a
depth) is executed on the real file writers inside a scratch directory and
read back by an independent reader."""
import ast
import csv
import os
import shutil
import tempfile
from fractions import Fraction as F
from itertools import combinations, product

import core
from core import Task
from p_formula import impl

ME = 'p_exp'
GROUPS = {'l_{1:n}': 'lo', 'p_{2:n}': 'pq'}


def Poly(d, kf):
    from ajdmom.poly import Poly
    p = Poly(d)
    p.set_keyfor(list(kf))
    return p


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='mc-export-')
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as g:
                    out[os.path.relpath(p, self.dir)] = g.read()
        return out


class Bad(Exception):
    pass


# ------------------------------------------------------------------- readers
def put(out, key, v):
    if key in out:
        raise Bad(f'two lines for {key}')
    out[key] = v


def read_txt(data):
    """(column names, exponents -> coefficient)"""
    lines = data.decode('utf-8').split('\n')
    tail = ': value(in fraction)'
    if not lines[0].endswith(tail):
        raise Bad(f'title line {lines[0]!r}')
    kf = ast.literal_eval(lines[0][:-len(tail)])
    if lines[-1] != '':
        raise Bad('last line not terminated')
    out = {}
    for x in lines[1:-1]:
        k, v = x.rsplit(': ', 1)
        n, d = ast.literal_eval(v)
        put(out, ast.literal_eval(k), F(n, d))
    return tuple(kf), out


def cell(x):
    return ast.literal_eval(x)


def read_csv(data, tmpl):
    """tmpl: the column names of the formula; tuple-valued exponents l,o,p,q span
    as many columns as the longest of them has entries"""
    rows = list(csv.reader(data.decode('utf-8').splitlines(True)))
    if not rows:
        raise Bad('no title line')
    head = rows[0]
    if head[-2:] != ['num', 'den']:
        raise Bad(f'last columns {head[-2:]}')
    cols = head[:-2]
    N = sum(1 for c in cols if len(c) > 1 and c[0] == 'l' and c[1:].isdigit()) if 'l_{1:n}' in tmpl else 0
    want, spans = [], []
    for c in tmpl:
        lo = {'l_{1:n}': 1, 'o_{1:n}': 1, 'o_{2:n}': 2, 'p_{2:n}': 2, 'q_{2:n}': 2}.get(c) if 'l_{1:n}' in tmpl else None
        if lo is None:
            want.append(c)
            spans.append(None)
        else:
            names = [f'{c[0]}{j}' for j in range(lo, N + 1)]
            want += names
            spans.append(len(names))
    if cols != want:
        raise Bad(f'columns {cols}, expected {want}')
    out = {}
    for r in rows[1:]:
        if len(r) != len(head):
            raise Bad(f'row with {len(r)} cells under {len(head)} columns: {r}')
        key, i = [], 0
        for s in spans:
            if s is None:
                key.append(cell(r[i]))
                i += 1
            else:
                key.append(tuple(cell(x) for x in r[i:i + s]))
                i += s
        put(out, tuple(key), F(int(r[-2]), int(r[-1])))
    return out


def nz(d):
    return {k: v for k, v in d.items() if v != 0}


def content(poly):
    return tuple(poly.keyfor), dict(poly)


def differs(data, poly, kind):
    """'' or how the file deviates from the formula"""
    try:
        if kind == 'txt':
            kf, d = read_txt(data)
            if kf != tuple(poly.keyfor):
                return f'title names {kf}, the formula has {tuple(poly.keyfor)}'
        else:
            d = read_csv(data, tuple(poly.keyfor))
    except (Bad, ValueError, SyntaxError, ZeroDivisionError, IndexError, TypeError) as e:
        return f'cannot be read back: {type(e).__name__}: {e}'
    if nz(d) != nz(dict(poly)):
        a, b = nz(d), nz(dict(poly))
        k = next(k for k in list(a) + list(b) if a.get(k) != b.get(k))
        return f'reads back {k}: {a.get(k)}, the formula has {b.get(k)}'
    return ''


EXT = {'txt': '.txt', 'csv': '.csv'}


def target(name, kind):
    return name if name.endswith(EXT[kind]) else name + EXT[kind]


def write(poly, name, kind):
    getattr(poly, 'write_to_' + kind)(name)


def check_one(res, label, poly, names=('f',), kinds=('txt', 'csv')):
    """each write in its own empty directory"""
    res.states += 1
    for kind, name in product(kinds, names):
        before = content(poly), list(poly.items())
        with Scratch() as s:
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name))
            try:
                write(poly, name, kind)
            except Exception as e:
                res.violation(f'export:{label}:{kind}:{name}', f'writing {label} as {kind} raises {type(e).__name__}: {e}')
                continue
            fs = s.files()
        res.transitions += 1
        res.traces += 1
        bad = ''
        if set(fs) != {target(name, kind)}:
            bad = f'files written: {sorted(fs)}'
        else:
            bad = differs(fs[target(name, kind)], poly, kind)
        if not bad and (content(poly), list(poly.items())) != before:
            bad = 'the formula is modified by writing it'
        if bad:
            res.violation(f'export:{label}:{kind}:{name}', f'{label} written to {name} ({kind}): {bad}')
        if len(res.violations) > 5:
            return


# ------------------------------------------------------------ small formulas
COEF = [F(1), F(-2, 3), F(-10**24 - 7, 9 * 10**12 + 1), F(0)]
K5 = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta')
KLO = ('e^{kt}', 'k^{-}', 'l_{1:n}', 'o_{2:n}', 'sigma')
KPQ = ('e^{kt}', 'k^{-}', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'rho')


def universe():
    yield ('x', 'y'), [(0, 0), (1, 0), (-1, 12), (10, -3)]
    yield ('sigma',), [(0,), (1,), (-4,)]
    yield ('a,b', '"q"', "it's"), [(0, 1, 2), (3, -1, 0)]
    yield ('((n1m,n2m,i),...)', '(n1,n2)', 'h'), [((), (0, 0), 0), (((0, 1, 2),), (1, -1), 3), (((1, -1, 1), (0, 2, 1)), (2, 0), 1)]
    yield ('k^{-}', 'J'), [(0, ()), (1, (2,)), (1, (1, 0)), (-2, (0, 3, 1))]
    for n in range(0, 4):
        v = [tuple(range(1, n + 1)), (0,) * n, tuple(-i for i in range(1, n + 1))]
        w = [x[1:] for x in v]
        yield KLO, sorted({(i, 2 - i, v[i], w[(i + 1) % 3], i) for i in range(3)} | {(0, 0, v[0], w[2], 0)})
        yield KPQ, sorted({(i, 2 - i, v[i], v[(i + 1) % 3], w[(i + 2) % 3], w[i], i) for i in range(3)} | {(0, 0, v[0], v[1], w[2], w[2], 0)})


def small(res, part, parts):
    n = 0
    for kf, keys in universe():
        for r in range(0, 4):
            for ks in combinations(keys, r):
                for cs in (product(COEF, repeat=r) if r < 3 else [COEF[:3]]):
                    n += 1
                    if n % parts != part:
                        continue
                    d = dict(zip(ks, cs))
                    check_one(res, f'{dict(d)} over {kf}', Poly(d, kf), names=('f',))
                    if len(res.violations) > 5:
                        return
    p = Poly({(1, -1): F(3, 2)}, ('x', 'y'))
    if part == 0:
        check_one(res, 'small formula', p, names=('f', 'f.txt', 'f.csv', 'f.data', 'a.b', 'txt', 'f.txt.', 'sub/f', 'sub.txt/f', '.txt', 'f.TXT', 'ü f'))
    res.sample({'small formulas': n, 'last': str(d)})


# ------------------------------------------------------- sequences of writes
def sequences(res, depth, part, parts):
    """every sequence of writes of 3 formulas to 2 names in 2 formats"""
    P = [Poly({}, ('x', 'y')), Poly({(1, 0): F(1, 3)}, ('x', 'y')),
         Poly({(i, -i): F(i + 1, 7 ** i) for i in range(12)}, ('x', 'y'))]
    acts = [(i, n, k) for i in range(3) for n in ('f', 'g.txt') for k in ('txt', 'csv')]
    seqs = [q for i, q in enumerate(product(acts, repeat=depth)) if i % parts == part]
    for q in seqs:
        with Scratch() as s:
            want = {}
            for i, n, k in q:
                write(P[i], n, k)
                want[target(n, k)] = (i, k)
            fs = s.files()
        res.traces += 1
        res.transitions += depth
        bad = f'files {sorted(fs)}, expected {sorted(want)}' if set(fs) != set(want) else ''
        for f, (i, k) in want.items():
            bad = bad or differs(fs[f], P[i], k)
        if bad:
            res.violation(f'writes:{q}', f'after writing (formula, name, kind) {q}: {bad}')
            return
    res.states += len(seqs)
    res.sample({'writes': str(seqs[-1]), 'then': 'every file holds its last formula'})


# ------------------------------------------------------ formulas of the models
def polys(x):
    from ajdmom.poly import Poly as PP
    if isinstance(x, PP):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from polys(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from polys(v)


def split(poly):
    """groups with equal lengths of the tuple-valued exponents"""
    kf = tuple(poly.keyfor)
    if 'l_{1:n}' not in kf:
        return [poly]
    i, g = kf.index('l_{1:n}'), {}
    for k, v in poly.items():
        g.setdefault(len(k[i]), {})[k] = v
    return [Poly(d, kf) for d in g.values()]


def formula(res, fn, args):
    v = impl(fn)(*args)
    n = 0
    for p in polys(v):
        n += 1
        lab = f'{fn}{tuple(args)}#{n}'
        if len(next(iter(p), ())) not in (0, len(p.keyfor)):
            continue              # names not one per column: not exportable
        check_one(res, lab, p, kinds=('txt',))
        for q in split(p):
            check_one(res, lab, q, kinds=('csv',))
        if len(res.violations) > 5:
            return
    res.sample({'formula': f'{fn}{tuple(args)}', 'polynomials': n})


# -------------------------------------------------- splitting of svvj formulas
K0 = ('e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma')
K4 = ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')


def level(p):
    return len(next(iter(p))[6])


def check_classify(res, label, poly):
    from ajdmom.mdl_svvj.cond2_cmom import classify
    res.states += 1
    res.traces += 1
    before = content(poly)
    try:
        parts = classify(poly)
    except Exception as e:
        res.violation(f'classify:{label}', f'classify({label}) raises {type(e).__name__}: {e}')
        return
    kf = tuple(poly.keyfor)
    levels = sorted({len(k[6]) for k in poly})
    bad, got = '', {}
    full = [p for p in parts if len(p)]
    if len(full) != len(levels):
        bad = f'{len(full)} non-empty parts for levels {levels}'
    else:
        for n, p in zip(levels, full):
            want = {k: v for k, v in poly.items() if len(k[6]) == n}
            wkf = kf
            if n == 0:
                want = {k[:6] + k[10:]: v for k, v in want.items()}
                wkf = kf[:6] + kf[10:]
            if dict(p) != want or tuple(p.keyfor) != wkf:
                bad = bad or f'part of level {n} is {dict(p)} with columns {p.keyfor}'
    if not bad and content(poly) != before:
        bad = 'modifies the formula'
    if bad:
        res.violation(f'classify:{label}', f'classify({label}): {bad}')


def classify_small(res, extra):
    kf = K0 + K4 + tuple(extra)
    e = (0,) * len(extra)
    terms = [(0, 1, 0, 0, 1, 0, (), (), (), ()) + e, (1, 1, 0, 0, 1, 0, (), (), (), ()) + e, (0, 0, 1, 0, 0, 2, (1,), (0,), (), ()) + e,
             (0, 0, 1, 0, 0, 2, (0,), (1,), (), ()) + e, (2, 0, 1, 0, 0, 2, (1, 2), (0, 0), (1,), (0,)) + e,
             (2, 0, 1, 0, 0, 2, (1, 2, 0), (0, 0, 1), (1, 1), (0, 0)) + e]
    for r in range(0, len(terms) + 1):
        for ks in combinations(terms, r):
            d = {k: F(i + 1, 3) for i, k in enumerate(ks)}
            check_classify(res, f'levels {[len(k[6]) for k in ks]}, {len(extra)} further columns, {ks}'[:300], Poly(d, kf))
            if len(res.violations) > 5:
                return
    res.sample({'classify': str(ks)})


def subpolys(res, fn, n):
    """write_to_subpolys and classify of a formula"""
    from ajdmom.mdl_svvj.cond2_cmom import write_to_subpolys, simplify
    p = impl(fn)(n)
    p = p[n] if isinstance(p, list) else p
    for tp in (0, 1):
        check_classify(res, f'simplify({fn}({n}),{tp})', simplify(p, tp))
    before = content(p)
    with Scratch() as s:
        try:
            write_to_subpolys(p, n)
            write_to_subpolys(p, n)      # a second time over the first
        except Exception as e:
            res.violation(f'subpolys:{fn}({n})', f'write_to_subpolys({fn}({n})) raises {type(e).__name__}: {e}')
            return
        fs = s.files()
    res.traces += 1
    res.transitions += 2
    q = simplify(p, 0)
    L = sorted({len(k[6]) for k in q})
    bad = ''
    names = {f'svvj-cond-cmoment-{n}-formula-{i}.txt': lv for i, lv in enumerate(L)}
    if set(fs) != set(names):
        bad = f'files {sorted(fs)}, expected {sorted(names)}'
    for f, lv in names.items():
        if bad:
            break
        d = {k: v for k, v in q.items() if len(k[6]) == lv}
        kf = tuple(q.keyfor)
        if lv == 0:
            d, kf = {k[:6] + k[10:]: v for k, v in d.items()}, kf[:6] + kf[10:]
        bad = differs(fs[f], Poly(d, kf), 'txt')
    if not bad and content(p) != before:
        bad = 'modifies the formula'
    if bad:
        res.violation(f'subpolys:{fn}({n})', f'write_to_subpolys({fn}({n})): {bad}')
    res.sample({'written': sorted(fs)})


def catalogue(q):
    """(call, arguments, seconds)"""
    L = []
    for m in ('mdl_1fsv', 'mdl_1fsvj', 'mdl_2fsv', 'mdl_2fsvj'):
        top = (5 if q else 7) if '1' in m else (3 if q else 4)
        L += [(f'{m}.mom.moment_y', [n]) for n in range(top + 1)] + [(f'{m}.cmom.cmoment_y', [n]) for n in range(top + 1)]
        L += [(f'{m}.cov.{f}', [a, b]) for f in ('moment_yy', 'cov_yy') for a in range(3) for b in range(3) if 0 < a + b <= top - 1]
    L += [('mdl_1fsv.cond_cmom.cmoments_y_to', [n]) for n in ((4,) if q else (4, 6))]
    L += [('cpp_mom.' + f, [n]) for f in ('mnorm', 'mcpp', 'cmcpp', 'mcpp_original') for n in range(7 if q else 12)]
    L += [('utils.cmnorm', [n]) for n in range(6)]
    for f in ('mom.moment_v', 'cmom.cmoment_v', 'cmom.cond_cmoment_v', 'cond_mom.moment_v', 'cond_mom.moment_x', 'cond_cmom.cmoment_v', 'cond_cmom.cmoment_x',
              'cond_ie_iez_mom.moment_ie', 'cond_ie_iez_cmom.moment_ie', 'iez_mom.moment_IEZ', 'iez_cmom.cmoment_IEZ', 'iez_mom.moment_EJ',
              'cond2_mom.moment_v', 'cond2_mom.moment_IE', 'cond2_cmom.cmoment_v'):
        L += [('mdl_srjd.' + f, [n]) for n in range(5 if q else 7)]
    for f in ('cond_ie_iez_mom.moment_ie_iez', 'cond_ie_iez_cmom.cmoment_ie_iez'):
        L += [('mdl_srjd.' + f, [a, b]) for a in range(4) for b in range(4) if a + b <= 4]
    for m in ('mdl_svvj', 'mdl_svij'):
        for f in ('cond2_mom.moments_y_to', 'cond2_cmom.cmoments_y_to'):
            L += [(f'{m}.{f}', [n]) for n in ((4,) if q else (4, 5))]
    for f in ('cond2_mom.moments_y_to', 'cond2_cmom.cmoments_y_to'):
        L += [('mdl_svcj.' + f, [n, J]) for n in (3,) for J in ((), (0.5,), (0.5, 0.25))]
    for f in ('cond2_mom.moment_IZs', 'cond2_cmom.cmoment_IZs'):
        L += [('mdl_svcj.' + f, [n, J]) for n in range(4) for J in ((0.5,), (0.5, 0.25))]
    for f in ('cond_mom.moment_y', 'cond_cmom.cmoment_y', 'mom.moment_y', 'cmom.cmoment_y', 'mom.moment_v_theta'):
        L += [('mdl_svcj.' + f, [n]) for n in range(4 if q else 5)]
    L += [('mdl_svcj.ieziziz_mom.moment_ieziziz', list(t)) for t in product(range(3), repeat=3)]
    L += [('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', list(t)) for t in product(range(2), repeat=6)]
    L += [('ito_mom.moment_IEII', list(t)) for t in product(range(3), repeat=3)]
    L += [('ito_cond_mom.moment_IEII', list(t)) for t in product(range(3), repeat=3)]
    L += [('itos_mom.moment_IEI_IEII', list(t)) for t in product(range(2), repeat=5)]
    return L


def batch(res, calls):
    for fn, a in calls:
        a = [tuple(x) if isinstance(x, list) else x for x in a]
        try:
            formula(res, fn, a)
        except core.Missing:
            continue
        if len(res.violations) > 5:
            return


def tasks(tier):
    q = tier == 'quick'
    L = [Task(ME, 'small', dict(part=i, parts=4), 5) for i in range(4)]
    L += [Task(ME, 'sequences', dict(depth=d, part=i, parts=n), 5) for d, n in ((1, 1), (2, 1), (3, 4)) for i in range(n)]
    if not q:
        L += [Task(ME, 'sequences', dict(depth=4, part=i, parts=16), 60, True) for i in range(16)]
    L += [Task(ME, 'classify_small', dict(extra=e)) for e in (['rho'], ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)'])]
    L += [Task(ME, 'subpolys', dict(fn=f, n=n), 3 ** (n - 3)) for f in ('mdl_svvj.cond2_cmom.cmoments_y_to', 'mdl_svij.cond2_cmom.cmoments_y_to')
          for n in range(0, 5 if q else 6)]
    cat = catalogue(q)
    L += [Task(ME, 'batch', dict(calls=cat[i::40]), 4) for i in range(40)]
    return L
