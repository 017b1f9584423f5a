#!/usr/bin/env python3
"""build and verify planted bugs.  usage: seed.py SPEC.py [id...]
SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
For each: scratch copy of /repo, apply the edits, diff -> patch; check that it builds, that
the stable tests still pass and that the demonstration separates both trees; then write
/verif/seeded/<id>/ .  Not part of any check."""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def one(s, tests=True):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        tree = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        for f, old, new in s['edits']:
            p = f'{tree}/src/ajdmom/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'edit does not match once ({t.count(old)}): {f}: {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', tree).stdout
        out = f"{d}/{s['id']}"
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(PRE + textwrap.dedent(s['demo']).lstrip('\n'))
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        a = sh(f'bash {out}/demo.sh', '/repo', timeout=300)
        b = sh(f'bash {out}/demo.sh', tree, timeout=300)
        if a.returncode != 0:
            return s['id'], f'demo fails on the unchanged tree: {a.stdout[-300:]}{a.stderr[-500:]}'
        if b.returncode == 0:
            return s['id'], 'demo passes with the patch'
        msg = (b.stdout + b.stderr).strip().splitlines()[-1:]
        if tests:
            for nm in ('build', 'test'):
                t = open(f'/opt/vp/{nm}.sh').read().replace('cd /repo', f'cd {tree}').replace('"/repo"', f'"{tree}"')
                t = t.replace('PYTHONPATH=/opt/vp/plugins', f'PYTHONPATH={tree}/src:/opt/vp/plugins').replace('workers=$(env', 'workers=4 #')
                open(f'{d}/{nm}.sh', 'w').write(t)
            r = sh(f'PYTHONPATH={tree}/src bash {d}/build.sh', tree)
            if r.returncode:
                return s['id'], 'build fails: ' + r.stdout[-300:]
            r = sh(f'bash {d}/test.sh {d}/out.json', tree, timeout=1500)
            o = json.load(open(f'{d}/out.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            bad = stable - set(o['passed'] if 'passed' in o else [k for k, v in o.items() if v == 'passed'])
            if bad:
                return s['id'], f'tests fail: {sorted(bad)[:4]}'
        dst = f"{V}/seeded/{s['id']}"
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return s['id'], f'ok   [{msg[0][:150] if msg else ""}]'
    except Exception as e:
        return s['id'], f'{type(e).__name__}: {e}'
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    L = [s for s in ns['SEEDS'] if not ids or s['id'] in ids]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(lambda s: one(s, '--notests' not in sys.argv), L):
            print(f'{i}: {m}', flush=True)


main()
