"""line coverage of the package by the checks (development aid): MC_COV=<dir> check.py ...; then cov.py <dir>"""
import dis, glob, os, sys, types


def start():
    m, seen = sys.monitoring, set()
    m.use_tool_id(1, 'mc-cov')

    def line(code, n):
        if '/ajdmom/' in code.co_filename:
            seen.add((code.co_filename[code.co_filename.index('/ajdmom/') + 8:], n))
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line)
    m.set_events(1, m.events.LINE)
    return seen


def save(seen):
    with open(f"{os.environ['MC_COV']}/{os.getpid()}.{id(seen)}", 'w') as f:
        f.writelines(f'{a}:{n}\n' for a, n in seen)


def lines(code):
    out = {n for _, _, n in code.co_lines() if n}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= lines(c)
    return out


if __name__ == '__main__':
    hit = set()
    for f in glob.glob(sys.argv[1] + '/*'):
        hit |= set(open(f).read().split())
    root = os.environ.get('AJDMOM_REPO', '/repo') + '/src/ajdmom/'
    for p in sorted(glob.glob(root + '**/*.py', recursive=True)):
        src = open(p).read()
        main = next((i for i, l in enumerate(src.split('\n'), 1) if l.startswith('if __name__')), 10**9)
        al = {n for n in lines(compile(src, p, 'exec')) if n < main}
        r = p[len(root):]
        miss = sorted(n for n in al if f'{r}:{n}' not in hit)
        if miss:
            print(f'{r}: {len(miss)}/{len(al)} not executed')
            t = src.split('\n')
            if '-v' in sys.argv:
                for n in miss:
                    print(f'   {n}: {t[n-1].strip()[:110]}')
