#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   decide one property
   check.py --replay <file>               re-run the task of a reported violation"""
import os
import sys
import tempfile

if os.environ.get('MC_CHILD') != '1':
    # fresh interpreter: fixed hash seed, no stale or new byte code
    env = dict(os.environ, MC_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), 'mc-no-pycache'),
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))


def main():
    import core
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return core.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    return core.run(pid, registry.PROPS[pid], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
