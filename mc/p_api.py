"""C23: the public surface delivers the formula it announces.

Package-level names, `python -m ajdmom....` with every argument vector up to a
bound, and the documented examples are executed; everything they return or
print is read back and compared with the function it names."""
import ast
import doctest
import importlib
import math
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction
from itertools import product

import core
from core import REPO, SRC, Task

ME = 'p_api'

# name -> (canonical place, argument vectors)
O1 = [(n,) for n in range(0, 5)]
O2 = [(a, b) for a in range(1, 4) for b in range(1, 4) if a + b <= 4]
NAMES = {}
for _m in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
    top = O1 if _m[0] == '1' else O1[:4]
    p2 = O2 if _m[0] == '1' else [(1, 1), (1, 2), (2, 1)]
    NAMES[f'mdl_{_m}.moment_y'] = (f'mdl_{_m}.mom.moment_y', top)
    NAMES[f'mdl_{_m}.cmoment_y'] = (f'mdl_{_m}.cmom.cmoment_y', top)
    NAMES[f'mdl_{_m}.cov_yy'] = (f'mdl_{_m}.cov.cov_yy', p2)
    NAMES[f'mdl_{_m}.moment_yy'] = (f'mdl_{_m}.cov.moment_yy', p2)
NAMES['mdl_svvj.moment_y'] = ('mdl_svvj.cond2_mom.moment_y', O1[:4])
NAMES['mdl_svvj.cmoment_y'] = ('mdl_svvj.cond2_cmom.cmoment_y', O1[:4])
NAMES['mcpp'] = ('cpp_mom.mcpp', O1)
NAMES['cmcpp'] = ('cpp_mom.cmcpp', O1)
NAMES['moment_v'] = ('ito_mom.moment_v', O1)
NAMES['moment_IEII'] = ('ito_cond_mom.moment_IEII', [a for a in product(range(4), repeat=3) if sum(a) <= 3])
NAMES['moment_IEI_IEII'] = ('itos_mom.moment_IEI_IEII', [a for a in product(range(3), repeat=5) if sum(a) <= 2])


def get(path):
    """attribute reached from the package as a user writes it"""
    mod, fn = ('ajdmom.' + path).rsplit('.', 1)
    return getattr(importlib.import_module(mod), fn)


def terms(p):
    return {k: v for k, v in p.items() if v}


def names(res, name):
    where, args = NAMES[name]
    f, g = get(name), get(where)
    for a in args:
        key = f'ajdmom.{name}{a}'
        res.states += 1
        res.transitions += 1
        try:
            x = f(*a)
        except Exception as e:
            res.violation(key, f'{key} raises {type(e).__name__}: {e}')
            continue
        y = g(*a)
        if terms(x) != terms(y) or tuple(x.keyfor) != tuple(y.keyfor):
            res.violation(key, f'{key} is not the value of ajdmom.{where}{a}: {str(x)[:200]} / {str(y)[:200]}')
            continue
        res.traces += 1
    res.sample({'name': name, 'calls': len(args)})


def import_forms(res):
    """Poly is the class every function returns; star import and attribute access agree"""
    import ajdmom
    from ajdmom import Poly
    res.states += 1
    if Poly is not get('poly.Poly') or type(get('mcpp')(2)) is not Poly:
        res.violation('ajdmom.Poly', 'ajdmom.Poly is not the class of the returned formulas')
    res.traces += 1
    for n in ('mcpp', 'cmcpp', 'moment_v', 'moment_IEII', 'moment_IEI_IEII', 'Poly'):
        res.states += 1
        if not callable(getattr(ajdmom, n, None)):
            res.violation(f'ajdmom.{n}', f'ajdmom.{n} is not available')
        else:
            res.traces += 1


# ------------------------------------------------------------- command lines
def V1(top):
    return [()] + [(n,) for n in range(1, top + 1)]


def V2(s):
    return [()] + [(1,), (2,)] + [(a, b) for a in range(1, s) for b in range(1, s) if a + b <= s]


def kw0(a, d):
    return a[0] if a else d


# module -> (argument vectors, argv -> list of (label printed, callable expected))
def exp(*pairs):
    return pairs


CLI = {
    'mdl_1fsv.mom': (V1(5), lambda a: [('moment_y', (kw0(a, 2),))]),
    'mdl_1fsv.cmom': (V1(5), lambda a: [('cmoment_y', (kw0(a, 2),))]),
    'mdl_1fsv.cov': (V2(5), lambda a: [('cov_yy', (kw0(a, 1), a[1] if len(a) > 1 else 1))]),
    'mdl_1fsv.cond_cmom': (V1(4), lambda a: [('cmoment_y', (kw0(a, 3),))]),
    'mdl_1fsvj.mom': (V1(5), lambda a: [('moment_y', (kw0(a, 1),))]),
    'mdl_1fsvj.cmom': (V1(5), lambda a: [('cmoment_y', (kw0(a, 2),))]),
    'mdl_1fsvj.cov': (V2(5), lambda a: [('cov_yy', (kw0(a, 1), a[1] if len(a) > 1 else 1))]),
    'mdl_2fsv.mom': (V1(3), lambda a: [('moment_y', (kw0(a, 2),))]),
    'mdl_2fsv.cmom': (V1(3), lambda a: [('cmoment_y', (kw0(a, 2),))]),
    'mdl_2fsv.cov': (V2(3), lambda a: [('cov_yy', (kw0(a, 1), a[1] if len(a) > 1 else 1))]),
    'mdl_2fsvj.mom': (V1(3), lambda a: [('moment_y', (kw0(a, 2),))]),
    'mdl_2fsvj.cmom': (V1(3), lambda a: [('cmoment_y', (kw0(a, 2),))]),
    'mdl_2fsvj.cov': (V2(3), lambda a: [('cov_yy', (kw0(a, 1), a[1] if len(a) > 1 else 1))]),
    'mdl_srjd.mom': ([()], lambda a: []),
    'mdl_srjd.cmom': ([()], lambda a: [('cmoment_v', (4,))]),
    'mdl_srjd.cond_mom': ([()], lambda a: [('moment_v', (3,))]),
    'mdl_srjd.cond_cmom': ([()], lambda a: [('cmoment_v', (4,))]),
    'mdl_srjd.cond2_mom': (V2(5), lambda a: [('moment_v', (kw0(a, 2),)), ('moment_IE', (a[1] if len(a) > 1 else 1,))]),
    'mdl_srjd.cond2_cmom': (V1(4), lambda a: [('cmoment_v', (kw0(a, 2),))]),
    'mdl_srjd.cond_ie_iez_mom': ([()], lambda a: [('moment_ie_iez', (3, 2))]),
    'mdl_srjd.cond_ie_iez_cmom': ([()], lambda a: [('cmoment_ie_iez', (3, 2))]),
    'mdl_srjd.iez_mom': ([()], lambda a: [('moment_EJ', (3,)), ('moment_IEZ', (3,))]),
    'mdl_srjd.iez_cmom': ([()], lambda a: [('cmoment_IEZ', (3,))]),
    'mdl_svvj.cond2_mom': (V1(3), lambda a: [('moment_y', (kw0(a, 1),))]),
    'mdl_svvj.cond2_cmom': (V1(3), lambda a: [('cmoment_y', (kw0(a, 3),))]),
    'mdl_svij.cond2_mom': (V1(3), lambda a: [('moment_y', (kw0(a, 1),))]),
    'mdl_svij.cond2_cmom': (V1(3), lambda a: [('cmoment_y', (kw0(a, 2),))]),
    'mdl_svcj.cond2_mom': ([()] + [(n,) for n in range(4)] + [(n, l) for n in range(4) for l in range(1, 4)],
                           lambda a: [('moment_y', (a[1] if len(a) > 1 else 2, (0.5,) * kw0(a, 2)))]),
    'mdl_svcj.cond2_cmom': (V1(3), lambda a: [('cmoment_y', (kw0(a, 2), (0.5,) * 5))]),
    'mdl_svcj.mom': ([()], lambda a: [('moment_y', (4,))]),
    'mdl_svcj.cmom': ([()], lambda a: [('cmoment_y', (4,))]),
    'mdl_svcj.cond_mom': ([()], lambda a: []),
    'mdl_svcj.cond_cmom': ([()], lambda a: []),
    'mdl_svcj.cond_ieii_ieziziz_mom': ([()], lambda a: []),
    'mdl_svcj.ieziziz_mom': ([()], lambda a: [('moment_ieziziz', x) for x in product(range(4), repeat=3)]),
    'ito_mom': (V1(4), lambda a: [('moment_v', (4,))] + [('moment_IEII', x) for x in product(range(5), repeat=3) if sum(x) == kw0(a, 3)]),
    'ito_cond_mom': (V1(3), lambda a: [('moment_IEII', x) for x in product(range(5), repeat=3) if sum(x) == kw0(a, 3)]),
    'itos_mom': ([()], lambda a: [('moment_IEI_IEII', (3, 0, 0, 0, 0)), ('c', (1, 2, 1, 1))]),
    'cpp_mom': ([()], lambda a: [('mnorm', (8,)), ('mcpp', (4,)), ('cmcpp', (4,))]),
    'utils': ([()], lambda a: [('cmnorm', (i,)) for i in range(7)]),
    'poly': ([()], lambda a: []),
    'mdl_srjd.euler': ([()] + [(n,) for n in range(4)], lambda a: []),
    'mdl_svvj.euler': ([()] + [(n,) for n in range(4)], lambda a: []),
    'mdl_svij.euler': ([()] + [(n,) for n in range(4)], lambda a: []),
    'mdl_svcj.euler': ([()] + [(n,) for n in range(4)], lambda a: []),
}
ENV = {'Fraction': Fraction, 'inf': math.inf}
LIT = re.compile(r'Fraction\((-?\d+), (\d+)\)')


def literal(s):
    """a printed Python value (Fractions included)"""
    def conv(n):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Fraction':
            return Fraction(*[conv(x) for x in n.args])
        if isinstance(n, ast.Dict):
            return {conv(k): conv(v) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Tuple):
            return tuple(conv(x) for x in n.elts)
        if isinstance(n, ast.List):
            return [conv(x) for x in n.elts]
        return ast.literal_eval(n)
    return conv(ast.parse(s.strip(), mode='eval').body)


def balanced(text, i):
    """the bracketed literal or number starting at text[i]"""
    o = text[i:i + 1]
    if o not in '{([' or not o:
        m = re.match(r'-?[\d.]+(e[+-]?\d+)?', text[i:])
        return m.group(0) if m else None
    depth, q = 0, None
    for j in range(i, len(text)):
        c = text[j]
        if q:
            q = None if c == q else q
        elif c in '\'"':
            q = c
        elif c in '{([':
            depth += 1
        elif c in '})]':
            depth -= 1
            if not depth:
                return text[i:j + 1]
    return None


HEAD = re.compile(r'^([A-Za-z_]\w*)\(([^=\n]*)\)\s*=\s*', re.M)
KEYFOR = re.compile(r'keyfor\s*=\s*(?=[(\[])')


def parse(text):
    """what the command printed: [(name, argument text, value, position)], [(keyfor, position)]"""
    vals, kfs = [], []
    for m in HEAD.finditer(text):
        s = balanced(text, m.end())
        if s:
            try:
                vals.append((m.group(1), m.group(2).replace(' ', ''), literal(s), m.start()))
            except (ValueError, SyntaxError):
                pass
    for m in KEYFOR.finditer(text):
        s = balanced(text, m.end())
        try:
            kfs.append((tuple(literal(s)) if not isinstance(literal(s), str) else (literal(s),), m.start()))
        except (ValueError, SyntaxError, TypeError):
            pass
    return vals, kfs


def command(mod, argv, cwd):
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    return subprocess.run([sys.executable, '-B', '-m', 'ajdmom.' + mod, *map(str, argv)], cwd=cwd, env=env,
                          capture_output=True, text=True, timeout=600)


def same(got, want):
    if isinstance(got, dict):
        return terms(got) == terms(want)
    if isinstance(got, float):
        return math.isclose(got, want, rel_tol=1e-9)
    return got == want


def value_of(M, name, args):
    if not hasattr(M, name):        # printed as cmoment_y(l), delivered by the list function
        return getattr(M, name.replace('moment_', 'moments_') + '_to')(*args)[args[0]]
    return getattr(M, name)(*args)


def cli(res, mod):
    vectors, wants = CLI[mod]
    M = importlib.import_module('ajdmom.' + mod)
    with tempfile.TemporaryDirectory(prefix='mc-cli-') as cwd:
        for argv in vectors:
            key = f'python -m ajdmom.{mod} ' + ' '.join(map(str, argv))
            res.states += 1
            res.transitions += 1
            r = command(mod, argv, cwd)
            if r.returncode:
                res.violation(key, f'{key} fails: {r.stderr.strip().splitlines()[-1:]}', stderr=r.stderr[-1200:])
                continue
            vals, kfs = parse(r.stdout)
            ok = True
            for name, args in wants(argv):
                if core.absent(f'{mod}.{name}'):
                    continue
                label = ','.join('J' if isinstance(x, tuple) else str(x) for x in args)
                # J is printed by name in one module and omitted by none of the others
                hit = [v for n, a, v, _ in vals if n == name and a == label]
                if not hit:
                    res.violation(key, f'{key} does not print {name}({label})', output=r.stdout[-800:])
                    ok = False
                    continue
                want = value_of(M, name, args)
                if mod == 'mdl_svcj.cmom':
                    if not hasattr(M, 'remove_mu_column'):
                        continue
                    want = M.remove_mu_column(want)
                if not all(same(v, want) for v in hit):
                    res.violation(key, f'{key} prints for {name}({label}) another value than the function returns: {str(hit[0])[:200]}')
                    ok = False
                kf = getattr(want, 'keyfor', None)
                # a keyfor announced for the whole output or for this function
                if kf and len({n for n, _ in wants(argv)}) == 1:
                    for k, _ in kfs:
                        if len(k) == len(kf) and k != tuple(kf):
                            res.violation(f'{key} keyfor', f'{key} announces keyfor {k}, the formula has {tuple(kf)}')
                            ok = False
            # every other value printed under the name of a function
            for name, a, v, _ in vals:
                f = getattr(M, name, None)
                try:
                    args = literal(f'({a},)')
                except (ValueError, SyntaxError):
                    continue
                if not callable(f) or (name, args) in [tuple(w) for w in wants(argv)]:
                    continue
                try:
                    want = f(*args)
                except TypeError:
                    continue
                forms = [want]
                if 'simplify' in getattr(getattr(f, '__code__', None), 'co_varnames', ()):
                    forms.append(f(*args, simplify=False))      # either presentation
                if not any(same(v, w) for w in forms) and mod != 'mdl_svcj.cmom':
                    res.violation(key, f'{key} prints another value for {name}({a}) than the function returns')
                    ok = False
            m = re.search(r'numerical value = (\S+), given parameters =\s*', r.stdout)
            if m and wants(argv):
                par = literal(balanced(r.stdout, m.end()))
                name, args = wants(argv)[0]
                x = M.poly2num(getattr(M, name)(*args), par)
                if not math.isclose(float(m.group(1)), x, rel_tol=1e-9, abs_tol=1e-12):
                    res.violation(key, f'{key} prints the value {m.group(1)}, the formula has the value {x}')
                    ok = False
            if ok:
                res.traces += 1
    res.sample({'command': mod, 'vectors': len(vectors)})


# ------------------------------------------------------------------ documents
USAGE = '''
>>> from ajdmom.mdl_1fsv.mom import m, dm
>>> from ajdmom.mdl_1fsv.cmom import cm, dcm
>>> parameters = {'mu':0.125, 'k':0.1, 'theta':0.25, 'sigma_v':0.1, 'rho':-0.7, 'h': 1}
>>> m(l=3, par=parameters)
-0.04489260315929133
>>> dm(l=3, par=parameters, wrt='k')
0.20556366585696395
>>> from ajdmom.mdl_1fsv.cov import cov, dcov
>>> cov(l1=2, l2=2, par=parameters)
0.0149529894520537
>>> dcov(l1=2, l2=2, par=parameters, wrt='k')
-0.15904979864793667
>>> from ajdmom import mdl_1fsv
>>> dict(mdl_1fsv.moment_y(1))
{(0, 1, 0, 0, 1, 0, 0, 0): Fraction(-1, 2), (0, 1, 0, 1, 0, 0, 0, 0): Fraction(1, 1)}
>>> mdl_1fsv.moment_y(1).keyfor
('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
'''
NUM = re.compile(r'-?\d+\.\d+(?:e[+-]?\d+)?')


def alike(got, want):
    if got.strip() == want.strip():
        return True
    a, b = got.split(), want.split()
    if ' '.join(a) == ' '.join(b):
        return True
    # formulas as mappings, numbers to 9 digits
    try:
        x, y = literal(got), literal(want)
        return same(x, y)
    except (ValueError, SyntaxError):
        pass
    va, vb = parse(got), parse(want)
    if va[0] and [(n, s) for n, s, _, _ in va[0]] == [(n, s) for n, s, _, _ in vb[0]]:
        return all(same(x[2], y[2]) for x, y in zip(va[0], vb[0])) and [k for k, _ in va[1]] == [k for k, _ in vb[1]]
    return False


class Checker(doctest.OutputChecker):
    def check_output(self, want, got, flags):
        return alike(got, want) or doctest.OutputChecker.check_output(self, want, got, flags)


def documents(res, which):
    if which == 'usage':
        text = USAGE
    else:
        p = os.path.join(REPO, which)
        if not os.path.exists(p):
            return
        text = open(p).read()
    t = doctest.DocTestParser().get_doctest(text, {}, which, which, 0)
    t.examples = [e for e in t.examples if e.source.strip()]
    out = []
    r = doctest.DocTestRunner(checker=Checker(), verbose=False)
    r.run(t, out=out.append, clear_globs=False)
    res.states += len(t.examples)
    res.transitions += len(t.examples)
    if r.failures:
        res.violation(f'examples of {which}', f'documented example of {which} does not give the documented result: ' + ''.join(out)[-400:], out=''.join(out))
    else:
        res.traces += len(t.examples)
    res.sample({'document': which, 'examples': len(t.examples)})


def readme(res):
    """the code block of README.md followed by the output it announces"""
    p = os.path.join(REPO, 'README.md')
    if not os.path.exists(p):
        return
    blocks = re.findall(r'```\s*(\w*)[^\n]*\n(.*?)```', open(p).read(), re.S)
    for (l1, code), (l2, want) in zip(blocks, blocks[1:]):
        if l1 == 'python' and l2 == '' and 'keyfor' in want:
            with tempfile.TemporaryDirectory(prefix='mc-cli-') as cwd:
                r = subprocess.run([sys.executable, '-B', '-c', code], cwd=cwd, env=dict(os.environ, PYTHONPATH=SRC), capture_output=True, text=True)
            res.states += 1
            if r.returncode or not alike(r.stdout, want):
                res.violation('README', f'the example of README.md does not print the documented output: {r.stdout[-300:]}{r.stderr[-300:]}')
            else:
                res.traces += 1


def scripts(res, name):
    p = os.path.join(REPO, 'scripts', name)
    if not os.path.exists(p):
        return
    with tempfile.TemporaryDirectory(prefix='mc-cli-') as cwd:
        r = subprocess.run([sys.executable, '-B', p], cwd=cwd, env=dict(os.environ, PYTHONPATH=SRC, MPLBACKEND='Agg'), capture_output=True, text=True, timeout=600)
    res.states += 1
    if r.returncode:
        res.violation(f'scripts/{name}', f'scripts/{name} fails: {r.stderr[-400:]}')
        return
    vals, kfs = parse(r.stdout)
    from ajdmom import mdl_1fsv
    for n, a, v, _ in vals:
        want = getattr(mdl_1fsv, n)(*literal(f'({a},)'))
        if not same(v, want) or any(k != tuple(want.keyfor) for k, _ in kfs):
            res.violation(f'scripts/{name}', f'scripts/{name} prints another formula than {n}({a})')
            return
    res.traces += 1


def tasks(tier):
    L = [Task(ME, 'names', dict(name=n)) for n in NAMES]
    L.append(Task(ME, 'import_forms'))
    L += [Task(ME, 'cli', dict(mod=m), len(CLI[m][0])) for m in CLI]
    L += [Task(ME, 'documents', dict(which=w)) for w in ('usage', 'docs/source/usage.rst')]
    L.append(Task(ME, 'readme'))
    L += [Task(ME, 'scripts', dict(name=n)) for n in ('usage.py', 'example1.py', 'example2.py')]
    return L
