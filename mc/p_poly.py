"""C16: the real Poly against a reference machine (exponent vector -> exact
rational), on every pair of a small universe and on every operation sequence
up to a depth over three registers."""
from fractions import Fraction as F
from itertools import combinations, product

from core import Task

ME = 'p_poly'
KF = ('x', 'y')
KEYS = [(0, 0), (1, 0), (0, 1), (1, 1)]
COEF = [F(1), F(-1), F(2, 3), F(0)]


def P():
    from ajdmom.poly import Poly
    return Poly


def mk(d, kf=KF):
    p = P()(d)
    p.set_keyfor(list(kf))
    return p


def nz(d):
    return {k: v for k, v in d.items() if v}


def universe(terms=2, coefs=COEF):
    out = [{}]
    for n in range(1, terms + 1):
        for ks in combinations(KEYS, n):
            for cs in product(coefs, repeat=n):
                out.append(dict(zip(ks, cs)))
    return out


# ---- reference operations on dicts
def radd(a, b, c=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + c * v
    return nz(r)


def rmul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(x + y for x, y in zip(k1, k2))
            r[k] = r.get(k, 0) + v1 * v2
    return nz(r)


def rscale(a, c):
    return nz({k: v * c for k, v in a.items()})


def rpow(a, n):
    r = nz(a)
    for _ in range(n - 1):
        r = rmul(r, a)
    return r


def rmul_poly(a, b, i1, i2):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple((k1[x] if x >= 0 else 0) + (k2[y] if y >= 0 else 0) for x, y in zip(i1, i2))
            r[k] = r.get(k, 0) + v1 * v2
    return nz(r)


def wellformed(p, want, kf, zeros=False):
    """None or the description of what is wrong with p"""
    if not isinstance(p, P()):
        return f'result is a {type(p).__name__}, not a Poly'
    d = dict(p)
    if not isinstance(p.keyfor, tuple) or tuple(p.keyfor) != tuple(kf):
        return f'keyfor is {p.keyfor!r}, expected {kf!r}'
    if nz(d) != want:
        return f'result {d}, expected {want}'
    if not zeros and nz(d) != d:
        return f'result {d} keeps a zero coefficient'
    for k, v in d.items():
        if not isinstance(v, (int, F)):
            return f'coefficient {v!r} of {k} is not exact'
        if not isinstance(k, tuple) or len(k) != len(kf):
            return f'ill-formed exponent {k!r}'
    return None


def probe_alias(r, operands):
    """in-place changes of the result must not reach the operands and vice versa"""
    before = [(dict(o), o.keyfor) for o in operands]
    r[(9, 9)] = F(5)
    r.add_keyval((9, 8), F(1))
    for k in list(r):
        r.add_keyval(k, F(7, 3))
    r.set_keyfor(['p', 'q'])
    for o, (d, kf) in zip(operands, before):
        if dict(o) != d or o.keyfor != kf:
            return 'changing the result changes an operand'
    return None


def run_op(res, name, call, operands, want, kf=KF, zeros=False):
    """call() -> new Poly; operands must stay as they are"""
    before = [(dict(o), o.keyfor) for o in operands]
    res.evaluations += 1
    key = f'{name} on {[d for d, _ in before]}'
    try:
        r = call()
    except Exception as e:
        res.violation(key, f'{key} raises {type(e).__name__}: {e}')
        return None
    bad = wellformed(r, want, kf, zeros)
    if not bad:
        for o, (d, k) in zip(operands, before):
            if dict(o) != d or o.keyfor != k:
                bad = f'operand changed from {d} to {dict(o)}'
    if not bad and any(r is o for o in operands):
        bad = 'the result is an operand, not a new object'
    out = dict(r) if not bad else None
    if not bad:
        bad = probe_alias(r, operands)
    if bad:
        res.violation(key, f'{key}: {bad}')
        return None
    res.traces += 1
    if want:
        res.nontrivial += 1
    return out


def expect_error(res, name, call, operands):
    before = [(dict(o), o.keyfor) if isinstance(o, P()) else o for o in operands]
    res.evaluations += 1
    key = f'{name} on {before}'
    try:
        r = call()
    except NotImplementedError:
        r = None
    except Exception as e:
        res.violation(key, f'{key} raises {type(e).__name__}: {e}, expected NotImplementedError')
        return
    else:
        res.violation(key, f'{key} is accepted and returns {r!r}, expected NotImplementedError')
        return
    for o, b in zip(operands, before):
        if isinstance(o, P()) and (dict(o), o.keyfor) != b:
            res.violation(key, f'{key}: rejected, but an operand changed to {dict(o)}')
            return
    res.traces += 1


def pairs_task(res, part, parts, coefs=COEF):
    U = universe(2, coefs)
    for i, a in enumerate(U):
        if i % parts != part:
            continue
        res.states += 1
        for b in U:
            A, B = mk(a), mk(b)
            run_op(res, 'p + q', lambda: A + B, [A, B], radd(a, b))
            run_op(res, 'p - q', lambda: A - B, [A, B], radd(a, b, -1))
            run_op(res, 'p * q', lambda: A * B, [A, B], rmul(a, b))

            def merge():
                C = mk(a)
                C.merge(B)
                return C
            run_op(res, 'p.merge(q)', merge, [B], radd(a, b))
            res.transitions += 4
            if a and not A.is_exact_type(B):
                res.violation('is_exact_type', f'is_exact_type is false for equal keyfor {A.keyfor} {B.keyfor}')
        A = mk(a)
        for c in (0, 1, -1, 3, F(1, 2), F(-4, 3)):
            run_op(res, f'{c} * p', lambda: c * A, [A], rscale(a, c))
            res.transitions += 1
        for n in range(1, 5):
            run_op(res, f'p ** {n}', lambda: A ** n, [A], rpow(a, n), zeros=(n == 1))
            res.transitions += 1

        def selfmerge():
            C = mk(a)
            C.merge(C)
            return C
        run_op(res, 'p.merge(p)', selfmerge, [], rscale(a, 2))
        run_op(res, 'p + p', lambda: A + A, [A], rscale(a, 2))
        run_op(res, 'p - p', lambda: A - A, [A], {})
        run_op(res, 'p * p', lambda: A * A, [A], rmul(a, a))
    res.sample({'p': str(a), 'q': str(b), 'p*q': str(rmul(a, b))})


def mulpoly_task(res, part, parts):
    """every index map: components of p (2) and of q (1..3) into 1..3 columns"""
    As = [{}, {(0, 0): F(1)}, {(1, 2): F(3), (2, 1): F(-1, 2)}, {(1, 0): F(1), (0, 1): F(1), (0, 0): F(2)}]
    Bs = {1: [{}, {(2,): F(1)}, {(1,): F(2), (3,): F(-2)}],
          2: [{(0, 1): F(1), (1, 0): F(-1)}, {(2, 3): F(1, 3), (0, 0): F(0)}],
          3: [{(1, 2, 3): F(2), (0, 1, 0): F(1)}]}
    n = 0
    for cols in (1, 2, 3):
        kf = ('u', 'v', 'w')[:cols]
        for i1 in product((-1, 0, 1), repeat=cols):
            for w in (1, 2, 3):
                for i2 in product(range(-1, w), repeat=cols):
                    n += 1
                    if n % parts != part:
                        continue
                    res.states += 1
                    for a in As:
                        for b in Bs[w]:
                            A, B = mk(a), mk(b, ('q1', 'q2', 'q3')[:w])
                            run_op(res, f'mul_poly({i1}, {i2})', lambda: A.mul_poly(B, (list(i1), list(i2)), list(kf)),
                                   [A, B], rmul_poly(a, b, i1, i2), kf)
                            res.transitions += 1
    res.sample({'index map': [str(i1), str(i2)], 'columns': kf})


def errors_task(res):
    U = universe(1, COEF[:3])
    others = [mk({(0, 0): F(1)}, ('x', 'z')), mk({(0, 0): F(1)}, ('y', 'x')), mk({(0,): F(1)}, ('x',)),
              mk({(1, 0, 0): F(2)}, ('x', 'y', 'z')), mk({(0, 0): F(1)}, ()), mk({}, ('x', 'w')),
              {(0, 0): F(1)}, 3, None, 'x']
    for a in U:
        A = mk(a)
        res.states += 1
        for o in others:
            for name, f in (('p + q', lambda: A + o), ('p - q', lambda: A - o), ('p * q', lambda: A * o),
                            ('p.merge(q)', lambda: A.merge(o))):
                expect_error(res, name, f, [A, o])
                res.transitions += 1
            if A.is_exact_type(o):
                res.violation('is_exact_type', f'is_exact_type({o!r}) is true')
        for n in (0, -1, -3):
            expect_error(res, f'p ** {n}', lambda: A ** n, [A])
            res.transitions += 1
    from ajdmom.poly import Poly
    if tuple(Poly().keyfor) != () or len(Poly()):
        res.violation('fresh', 'a fresh polynomial is not empty')
    res.sample({'rejected': 'p + q with keyfor (x,y) and (x,z)'})


# ------------------------------------------------------- operation sequences
def ops():
    """(name, reference function on registers, real function on registers)
    register indexes 0..2; each returns (index written, new dict, in-place?)"""
    out = []
    for d in range(3):
        for i in range(3):
            for j in range(3):
                if i <= j:
                    out.append((f'r{d}=r{i}+r{j}', d, lambda r, i=i, j=j: radd(r[i], r[j]), lambda R, i=i, j=j: R[i] + R[j]))
                    out.append((f'r{d}=r{i}*r{j}', d, lambda r, i=i, j=j: rmul(r[i], r[j]), lambda R, i=i, j=j: R[i] * R[j]))
                out.append((f'r{d}=r{i}-r{j}', d, lambda r, i=i, j=j: radd(r[i], r[j], -1), lambda R, i=i, j=j: R[i] - R[j]))
            for c in (0, -1, F(1, 2)):
                out.append((f'r{d}={c}*r{i}', d, lambda r, i=i, c=c: rscale(r[i], c), lambda R, i=i, c=c: c * R[i]))
            for n in (1, 2):
                out.append((f'r{d}=r{i}**{n}', d, lambda r, i=i, n=n: rpow(r[i], n), lambda R, i=i, n=n: R[i] ** n))
            out.append((f'r{d}=swap(r{i})', d, lambda r, i=i: rmul_poly(r[i], {(0, 0): F(1)}, (1, 0), (-1, -1)),
                        lambda R, i=i: R[i].mul_poly(mk({(0, 0): F(1)}), ([1, 0], [-1, -1]), list(KF))))

            def merge(R, d=d, i=i):
                R[d].merge(R[i])
                return None
            out.append((f'r{d}.merge(r{i})', d, lambda r, d=d, i=i: radd(r[d], r[i]), merge))
        for k, c in (((0, 0), F(1)), ((1, 0), F(-1)), ((1, 0), F(1))):
            def addkv(R, d=d, k=k, c=c):
                R[d].add_keyval(k, c)

            def raddkv(r, d=d, k=k, c=c):
                x = dict(r[d])
                x[k] = x.get(k, 0) + c
                return nz(x)
            out.append((f'r{d}.add_keyval({k},{c})', d, raddkv, addkv))

        def rz(R, d=d):
            R[d].remove_zero()
        out.append((f'r{d}.remove_zero()', d, lambda r, d=d: nz(r[d]), rz))
    return out


def start(i):
    return [({}, {(0, 0): F(1)}, {(1, 0): F(1), (0, 1): F(-1)}),
            ({(1, 0): F(2)}, {(1, 0): F(-2), (0, 0): F(1)}, {(0, 1): F(1, 2)}),
            ({(1, 1): F(1)}, {(1, 0): F(1), (0, 0): F(1)}, {(1, 0): F(1), (0, 0): F(-1)})][i]


def seq_task(res, init, depth, part, parts, maxterms=8):
    """every operation sequence; the real objects are carried along the path
    (aliasing included), states with the same registers are explored once per depth"""
    OPS = ops()
    r0 = start(init)
    seen = set()

    def key(r):
        return tuple(tuple(sorted(x.items())) for x in r)

    def replay(path):
        R = [mk(x) for x in r0]
        for n in path:
            o = OPS[n]
            y = o[3](R)
            if y is not None:
                R[o[1]] = y
        return R
    frontier = [((), list(r0))]
    for level in range(depth):
        nxt = []
        for path, r in frontier:
            for n, (name, d, ref, real) in enumerate(OPS):
                if level == 0 and n % parts != part:
                    continue
                w = list(r)
                w[d] = ref(r)
                res.transitions += 1
                res.evaluations += 1
                p = path + (n,)
                try:
                    R = replay(p)
                except Exception as e:
                    res.violation(f'seq {init} {[OPS[x][0] for x in p]}', f'sequence {[OPS[x][0] for x in p]} from {r0} raises '
                                  f'{type(e).__name__}: {e}')
                    return
                for q in range(3):
                    bad = wellformed(R[q], w[q], KF, zeros=True)
                    if bad:
                        res.violation(f'seq {init} {[OPS[x][0] for x in p]}',
                                      f'after {[OPS[x][0] for x in p]} from {r0}: register {q}: {bad}')
                        return
                res.traces += 1
                if level + 1 < depth and len(w[d]) <= maxterms:
                    # identity structure is part of the state: which registers share one object
                    D = [getattr(x, 'data', x) for x in R]
                    k = (key(w), tuple(D[i] is D[j] for i, j in ((0, 1), (0, 2), (1, 2))))
                    if k not in seen:
                        seen.add(k)
                        nxt.append((p, w))
        frontier = nxt
    res.states += len(seen) + 1
    res.sample({'sequence': [OPS[x][0] for x in p], 'registers': str(w)})


def T(func, cost=1.0, deep=False, **kw):
    return Task(ME, func, kw, cost, deep)


def tasks(tier):
    q = tier == 'quick'
    L = [T('pairs_task', 10, part=i, parts=8) for i in range(8)]
    L += [T('mulpoly_task', 10, part=i, parts=6) for i in range(6)]
    L += [T('errors_task')]
    for s in range(3):
        L += [T('seq_task', 5, init=s, depth=2, part=0, parts=1)]
        n = 24
        L += [T('seq_task', 20, not q, init=s, depth=3, part=i, parts=n, maxterms=6 if q else 12) for i in range(n)]
    return L
