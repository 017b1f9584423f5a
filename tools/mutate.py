#!/usr/bin/env python3
"""mutation sweep over the package (development aid, not part of any check).
usage: mutate.py OUT.jsonl [-n PER_FILE] [-j JOBS] [-s SEED] [file ...]"""
import argparse, ast, glob, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ROOT = REPO + '/src/ajdmom/'


def props(f):
    m, b = os.path.split(f)
    if b == '__init__.py':
        return ['C23']
    if b == 'euler.py':
        return ['C21', 'C20', 'C23']
    return {
        '': {'cpp_mom.py': ['C13', 'C20', 'C23'], 'poly.py': ['C16', 'C18', 'C20', 'C19', 'C23'], 'utils.py': ['C19', 'C13', 'C15', 'C20', 'C14', 'C23'],
             'ito_mom.py': ['C12', 'C19', 'C20', 'C01', 'C23'], 'ito_cond_mom.py': ['C12', 'C19', 'C20', 'C09', 'C23'], 'itos_mom.py': ['C12', 'C19', 'C20', 'C04', 'C23']},
        'mdl_1fsv': {'cond_cmom.py': ['C02', 'C15', 'C19', 'C20', 'C18', 'C23']},
        'mdl_svcj': {x: ['C10', 'C15', 'C20', 'C14', 'C18', 'C23'] for x in ('cond2_mom.py', 'cond2_cmom.py')},
        }.get(m, {}).get(b) or {
        'mdl_1fsv': ['C01', 'C14', 'C15', 'C20', 'C23'], 'mdl_1fsvj': ['C03', 'C14', 'C15', 'C20', 'C23'],
        'mdl_2fsv': ['C04', 'C14', 'C15', 'C20', 'C23'], 'mdl_2fsvj': ['C05', 'C14', 'C15', 'C20', 'C23'],
        'mdl_srjd': ['C07', 'C06', 'C08', 'C19', 'C15', 'C20', 'C14', 'C23'], 'mdl_svvj': ['C09', 'C19', 'C15', 'C20', 'C18', 'C14', 'C23'],
        'mdl_svij': ['C09', 'C15', 'C20', 'C18', 'C14', 'C23'], 'mdl_svcj': ['C11', 'C15', 'C20', 'C19', 'C14', 'C23']}[m]


SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '//'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    B = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def rep(a, b, new, what):
        out.append((a, b, new, what, src.encode()[:a].count(b'\n') + 1))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    infmt = {id(x) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
    inraise = {id(x) for n in ast.walk(tree) if isinstance(n, ast.Raise) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if n in doc or id(n) in infmt or id(n) in inraise:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not isinstance(n.left, (ast.JoinedStr,)):
            a, b = pos(n.left, True), pos(n.right)
            seg = B[a:b].decode()
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
            if seg.count(op) >= 1:
                rep(a, b, seg.replace(op, SWAP[type(n.op)], 1), 'binop')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left, True), pos(n.comparators[0])
            rep(a, b, ' ' + CMP[type(n.ops[0])] + ' ', 'compare')
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0], True), pos(n.values[1])
            rep(a, b, ' or ' if isinstance(n.op, ast.And) else ' and ', 'boolop')
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 10 ** 6:
            rep(pos(n), pos(n, True), str(n.value + 1), 'const+1')
            if n.value > 0:
                rep(pos(n), pos(n, True), str(n.value - 1), 'const-1')
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            rep(pos(n), pos(n, True), repr(n.value * 2 + 1), 'float')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            alt = {'k': 'h', 'h': 'k', 'mu': 'theta', 'theta': 'mu', 'sigma_v': 'theta', 'rho': 'k', 'k1': 'k2', 'k2': 'k1', 'theta1': 'theta2', 'theta2': 'theta1',
                   'sigma_v1': 'sigma_v2', 'sigma_v2': 'sigma_v1', 'v0': 'theta'}.get(n.slice.value, 'h')
            rep(pos(n.slice), pos(n.slice, True), repr(alt), 'parname')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(pos(n), pos(n.operand), '', 'usub')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(pos(n), pos(n.operand), '', 'not')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            rep(pos(t), pos(t, True), 'False', 'never')
            if isinstance(n, ast.If):
                rep(pos(t), pos(t, True), 'True', 'always')
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            a, b = n.args[0], n.args[1]
            rep(pos(a), pos(b, True), (B[pos(b):pos(b, True)] + b', ' + B[pos(a):pos(a, True)]).decode(), 'swapargs')
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') in ('print', 'pprint')):
                rep(pos(n), pos(n, True), 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            a, b = pos(n.target, True), pos(n.value)
            rep(a, b, ' = ', 'assign')
        if isinstance(n, (ast.Break, ast.Continue)):
            rep(pos(n), pos(n, True), 'pass', 'flow')
    return B, sorted(set(out))


def run(job):
    f, m, B, only = job
    a, b, new, what, line = m
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        os.makedirs(d + '/src')
        shutil.copytree(ROOT, d + '/src/ajdmom', ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('docs', 'scripts', 'README.md'):
            os.symlink(f'{REPO}/{x}', f'{d}/{x}')
        t = (B[:a] + new.encode() + B[b:])
        try:
            compile(t, f, 'exec')
        except (SyntaxError, ValueError):
            return None
        open(f'{d}/src/ajdmom/{f}', 'wb').write(t)
        verdict, t0 = 'SURVIVED', time.time()
        src = B.decode().split('\n')
        main = next((i for i, l in enumerate(src, 1) if l.startswith('if __name__')), 10 ** 9)
        ps = ['C23'] if line >= main else [p for p in props(f) if p != 'C23' or f.endswith('__init__.py')]
        if 'if ' not in src[line - 1] and 'raise' not in src[line - 1] and f != 'poly.py':
            ps = [p for p in ps if p != 'C20']
        for p in only or ps:
            env = dict(os.environ, AJDMOM_REPO=d, MC_FAILFAST='1', MC_NPROC='2', MC_LIMIT='900', MC_OUT=d)
            r = subprocess.run(['nice', 'python3', V + '/check.py', p, 'quick'], env=env, capture_output=True, text=True)
            if r.returncode:
                verdict = f'{p} rc={r.returncode} ' + (r.stdout + r.stderr).strip().split('\n')[-1][:160]
                break
        l = B.decode().split('\n')[line - 1].strip()
        return dict(file=f, line=line, what=what, old=B[a:b].decode()[:80], new=new[:80], src=l[:140], verdict=verdict, wall=round(time.time() - t0, 1))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-p', nargs='*')
    ap.add_argument('-f', dest='files', nargs='*')
    A = ap.parse_args()
    fs = A.files or sorted(os.path.relpath(p, ROOT) for p in glob.glob(ROOT + '**/*.py', recursive=True))
    rnd = random.Random(A.s)
    jobs = []
    for f in fs:
        B, M = mutants(open(ROOT + f).read())
        rnd.shuffle(M)
        jobs += [(f, m, B, A.p) for m in M[:A.n]]
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    n = 0
    with open(A.out, 'a') as o, ThreadPoolExecutor(A.j) as ex:
        for r in ex.map(run, jobs):
            n += 1
            if r:
                o.write(json.dumps(r) + '\n')
                o.flush()
                if r['verdict'] == 'SURVIVED' or 'rc=1' not in r['verdict']:
                    print(n, r['file'], r['line'], r['what'], repr(r['old']), '->', repr(r['new']), '|', r['src'], '|', r['verdict'], flush=True)


main()
