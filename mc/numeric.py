"""High-precision evaluation of ring elements."""
from decimal import Decimal, getcontext
from fractions import Fraction as F

getcontext().prec = 60
LOG = None      # a list: relative rounding errors met (to choose the tolerance)


def dec(x):
    x = F(x)
    return Decimal(x.numerator) / Decimal(x.denominator)


def _terms(R, p, at):
    names = R.names
    memo = {}
    for e, v in p.items():
        t = Decimal(v.numerator) / Decimal(v.denominator)
        for n, x in zip(names, R.unpack(e)):
            if x:
                k = (n, x)
                y = memo.get(k)
                if y is None:
                    y = memo[k] = at[n] ** x
                t *= y
        yield t


def value(R, p, at):
    return sum(_terms(R, p, at), Decimal(0))


def terms_abs(R, p, at):
    return sum((abs(t) for t in _terms(R, p, at)), Decimal(0))


def close(got, want, mag, rtol=1e-10, mtol=1e-12):
    """got (float from the package) against want (Decimal); mag: sum of the
    magnitudes of the terms of the expanded expression (rounding scale)"""
    try:
        g = Decimal(float(got))
    except (TypeError, ValueError, OverflowError):
        return False
    if not g.is_finite():
        return False
    if LOG is not None and mag and abs(g - want) > abs(want) * Decimal('1e-13'):
        LOG.append(float(abs(g - want) / mag))
    return abs(g - want) <= abs(want) * Decimal(rtol) + mag * Decimal(mtol) + (Decimal('1e-30') if mag else Decimal('1e-13'))
