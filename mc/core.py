"""Runner: schedules the tasks of a property over processes, collects what they
explored, writes evidence and replay files, and decides the exit status."""
import functools
import importlib
import inspect
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AJDMOM_REPO', '/repo')
OUT = os.environ.get('MC_OUT', VERIF)   # evidence/ and replay/ (elsewhere when the machinery itself is tested)
SRC = os.path.join(REPO, 'src')


# helpers that neither the documentation nor the repository's tests mention: a tree that
# no longer has them (or takes their arguments differently) is not judged on them
INTERNAL = set("""cpp_mom.mcpp_original ito_cond_mom.int_et_fZ ito_mom.c_nmi ito_mom.int_et itos_mom.int_et itos_mom.t_mul_t0 itos_mom.c
mdl_2fsv.cmom.dt0 mdl_srjd.cmom.cond_cmoment_v mdl_srjd.mom.expand mdl_srjd.cond2_mom.fZ mdl_srjd.iez_mom.moment_EJ
mdl_srjd.cond_ie_iez_mom.int_e_poly mdl_srjd.cond_ie_iez_cmom.int_e_poly
mdl_svcj.cmom.remove_mu_column mdl_svcj.cond2_mom.mnorm_cond mdl_svcj.cond2_mom.comb_poly mdl_svcj.cond_mom.enlarge
mdl_svcj.cond_mom.expand_sqrt mdl_svcj.ieziziz_mom.moment_ejjj mdl_svcj.mom.moment_v_theta mdl_svvj.euler.IZ mdl_svvj.euler.IEZ
mdl_svvj.euler.rIEII utils.fZ_each_index utils.multilevel_index utils.multilevel_comb""".split())


class Missing(BaseException):
    """an internal helper is not there"""


def need(path):
    """the package's function with this path"""
    mod, fn = path.rsplit('.', 1)
    m = importlib.import_module('ajdmom.' + mod)
    if path not in INTERNAL:
        return getattr(m, fn)
    f = getattr(m, fn, None)
    if f is None:
        raise Missing(path)
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return f

    @functools.wraps(f)
    def g(*a, **kw):
        try:
            sig.bind(*a, **kw)
        except TypeError:
            raise Missing(path)
        return f(*a, **kw)
    return g


def absent(path):
    try:
        need(path)
    except Missing:
        return True
    except Exception:
        pass
    return False


class Res:
    """what one task explored and found"""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.evaluations = self.nontrivial = 0
        self.violations, self.samples, self.notes = [], [], []
        self._models = {}

    def violation(self, key, what, **detail):
        """key: stable identification of the failing input / call / history"""
        if len(self.violations) < 40:
            self.violations.append({'key': key, 'what': str(what)[:600],
                                    'detail': {k: str(v)[:1500] for k, v in detail.items()}})

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])

    def add(self, model):
        """count the explored graph of a reference model (once per task)"""
        self._models[id(model)] = model

    def close(self):
        for m in self._models.values():
            self.states += m.states
            self.transitions += m.transitions
        del self._models


class Task:
    def __init__(self, mod, func, kw=None, cost=1.0, deep=False):
        self.mod, self.func, self.kw = mod, func, dict(kw or {})
        self.cost = cost     # rough seconds, for scheduling
        self.deep = deep     # may be dropped at the deadline (reported)

    @property
    def label(self):
        a = ','.join(f'{k}={v}' for k, v in sorted(self.kw.items()))
        return f'{self.func}({a})'


def setup_child():
    sys.dont_write_bytecode = True
    if SRC not in sys.path[:1]:
        sys.path.insert(0, SRC)


def run_task(t):
    """runs in its own process"""
    setup_child()
    import ajdmom
    f = os.path.realpath(ajdmom.__file__ or list(ajdmom.__path__)[0])
    assert f.startswith(os.path.realpath(SRC)), f"ajdmom imported from {f}"
    res = Res()
    try:
        getattr(importlib.import_module(t.mod), t.func)(res, **t.kw)
    except Missing as e:
        res.notes.append(f'{t.label[:200]}: no {e}')
    except Exception as e:
        # an exception the code under test raised on an input it must accept
        tb = traceback.extract_tb(e.__traceback__)
        if not any(os.path.realpath(f.filename).startswith(os.path.realpath(SRC)) for f in tb):
            raise
        res.violation(f'raise:{t.label}', f'{t.label[:200]}: {type(e).__name__}: {e}',
                      traceback=traceback.format_exc()[-1400:])
    res.close()
    return res


def child(t, conn):
    os.setpgid(0, 0)
    dev = os.open(os.devnull, os.O_RDWR)
    os.dup2(dev, 0)
    os.dup2(dev, 1)
    t0 = time.time()
    if os.environ.get('MC_COV'):
        sys.path.insert(0, os.path.join(VERIF, 'tools'))
        import cov
        seen = cov.start()
    try:
        r = run_task(t)
        d = dict(r.__dict__)
        d['error'] = None
        if os.environ.get('MC_COV'):
            cov.save(seen)
    except BaseException:
        r = Res()
        r.close()
        d = dict(r.__dict__)
        d['error'] = traceback.format_exc()[-3000:]
    d['wall'] = time.time() - t0
    conn.send(json.dumps(d, default=str))
    conn.close()


def blank(**kw):
    r = Res()
    r.close()
    return dict(r.__dict__, **kw)


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                d = dict(x.split('=', 1) for x in line[9:].strip().split(' | ') if '=' in x)
                if d.get('property') == pid:
                    known[d['key']] = d.get('what', '')
    return known


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.kill()
    except Exception:
        pass


def run(pid, spec, tier, seed):
    t0 = time.time()
    tasks = spec['tasks'](tier)
    known = load_known(pid)
    # quick: any core task still running at the limit is reported as a hang
    limit = float(os.environ.get('MC_LIMIT', 780 if tier == 'quick' else 6 * 3600))
    nproc = int(os.environ.get('MC_NPROC') or min(8, os.cpu_count() or 1))
    first = os.environ.get('MC_FAILFAST')
    todo = sorted(tasks, key=lambda t: (t.deep, -t.cost))
    if first:       # development aid: cheap tasks first, stop at the first violation
        todo = sorted((t for t in tasks if not t.deep), key=lambda t: t.cost)
    running, done = [], []
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < nproc:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, b), daemon=False)
            p.start()
            b.close()
            running.append((t, p, a))
        mp.connection.wait([a for _, _, a in running], timeout=1.0)
        still = []
        for t, p, a in running:
            if a.poll():
                try:
                    d = json.loads(a.recv())
                except EOFError:
                    d = blank(error='task process died', wall=0)
                p.join(5)
                done.append((t, d))
            elif not p.is_alive() and not a.poll():
                done.append((t, blank(error=f'task process died, exit code {p.exitcode}', wall=0)))
            else:
                still.append((t, p, a))
        running = still
        if first and any(d['error'] or any(v['key'] not in known for v in d['violations']) for _, d in done):
            for t, p, a in running:
                kill(p)
            break
        if time.time() - t0 > limit:
            for t, p, a in running:
                kill(p)
                done.append((t, blank(error='deadline', wall=limit)))
            for t in todo:
                done.append((t, blank(error='deadline', wall=0)))
            break
    return finish(pid, spec, tier, seed, done, time.time() - t0)


def finish(pid, spec, tier, seed, done, wall):
    known = load_known(pid)
    viol, seen_known, errors, skipped = [], {}, [], []
    tot = Res()
    per = []
    for t, d in done:
        for a in ('states', 'transitions', 'traces', 'evaluations', 'nontrivial'):
            setattr(tot, a, getattr(tot, a) + d[a])
        for s in d['samples']:
            tot.samples.append(s)
        tot.notes += d['notes']
        per.append((t.label, round(d['wall'], 2)))
        if d['error'] == 'deadline' and t.deep:
            skipped.append(t.label)
        elif d['error'] == 'deadline':
            viol.append((t, {'key': f'hang:{t.label}', 'what': 'no answer before the deadline '
                             '(the code under test does not terminate in reasonable time)', 'detail': {}}))
        elif d['error']:
            errors.append((t, d['error']))
        for v in d['violations']:
            if v['key'] in known:
                seen_known[v['key']] = v
            else:
                viol.append((t, v))
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    # replay artefacts
    rdir = os.path.join(OUT, 'replay')
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for i, (t, v) in enumerate(viol[:10]):
            path = os.path.join(rdir, f'{pid}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'module': t.mod, 'func': t.func, 'kwargs': t.kw,
                           'violation': v}, f, indent=1, default=str)
            lines.append((path, v))
    picked = []
    step = max(1, len(tot.samples) // 6)
    picked = tot.samples[::step][:6]
    cov = {}
    if spec['level'] == 'model_checking':
        cov = {'states': tot.states, 'transitions': tot.transitions,
               'traces_validated_against_impl': tot.traces, 'samples': picked}
    else:
        cov = {'evaluations': tot.evaluations, 'distinct_nontrivial': tot.nontrivial,
               'rule': spec['rule'], 'samples': picked}
        if tot.states:
            cov.update(states=tot.states, transitions=tot.transitions)
    cov['tasks'] = len(done)
    cov['bounds'] = spec.get('bounds', {}).get(tier, '') if isinstance(spec.get('bounds'), dict) else spec.get('bounds', '')
    cov['exhaustive'] = not skipped
    if skipped:
        cov['not_reached_before_deadline'] = skipped
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': len(viol), 'known_findings_seen': sorted(seen_known),
          'slowest_tasks': sorted(per, key=lambda x: -x[1])[:5]}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    summ = ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool))
    print(f'{pid} [{tier}] {summ} wall={wall:.1f}s')
    for path, v in lines:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {v['key']}: {v['what']}")
    if viol:
        return 1
    if errors:
        for t, e in errors[:5]:
            print(f'ERROR in task {t.label}:\n{e}', file=sys.stderr)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    t = Task(d['module'], d['func'], d['kwargs'])
    setup_child()
    r = run_task(t)
    keys = {v['key'] for v in r.violations}
    for v in r.violations:
        print(json.dumps(v, indent=1))
    ok = d['violation']['key'] in keys
    print('reproduced' if ok else 'not reproduced')
    return 1 if r.violations else 0
