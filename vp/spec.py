"""The mathematical functions: what the library functions must compute, and the regions where they are smooth."""
from fractions import Fraction

import cas
from cas import num, sym, ZERO, ONE, D

_n = [0]


def s1(lo=None, hi=None, name='x'):
    return sym(name, lo, hi)


# one argument: list of (region, mean, order of smoothness)
ALL = [('x any', lambda: s1()), ('x=0', lambda: ZERO)]
POSITIVE = [('x>0', lambda: s1(0)), ('x=1', lambda: ONE)]
UNIT = [('-1<x<1', lambda: s1(-1, 1)), ('x=0', lambda: ZERO)]
R1 = {
    'abs': [('x>0', lambda: s1(0)), ('x<0', lambda: s1(None, 0))],
    'exp': ALL, 'exp2': ALL, 'expm1': ALL, 'sin': ALL, 'cos': ALL, 'tan': ALL, 'atan': ALL, 'sinh': ALL, 'cosh': ALL,
    'tanh': ALL, 'asinh': ALL, 'erf': ALL, 'erfc': ALL,
    'log': POSITIVE, 'log10': POSITIVE, 'log2': POSITIVE,
    'log1p': [('x>-1', lambda: s1(-1)), ('x=0', lambda: ZERO)],
    'sqrt': POSITIVE,
    'cbrt': [('x>0', lambda: s1(0)), ('x<0', lambda: s1(None, 0))],
    'asin': UNIT, 'acos': UNIT, 'atanh': UNIT,
    'acosh': [('x>1', lambda: s1(1))],
}


def quad(names='xy'):
    out = []
    for sx in (1, -1):
        for sy in (1, -1):
            x = s1(0) if sx > 0 else s1(None, 0)
            y = s1(0, None, 'y') if sy > 0 else s1(None, 0, 'y')
            out.append(('x%s0,y%s0' % ('<>'[sx > 0], '<>'[sy > 0]), x, y))
    return out


def _mod():
    # avoid jumps: the quotient is q + r with q an integer and 0 < r < 1/2 (or 1/2 < r < 1), y of either sign
    out = quad()
    return out


def _pow():
    x, y = s1(0), s1(None, None, 'y')
    out = [('x>0,y any', x, y), ('x>0,y=0', x, ZERO), ('x>0,y=1', x, ONE), ('x>0,y=2', x, num(2)),
           ('x>0,y=-1', x, num(-1)), ('x>0,y=1/2', x, num(Fraction(1, 2))), ('x=1,y any', ONE, y)]
    return out


def _powc():
    """exponent without uncertainty: also nonpositive bases"""
    x = s1(None, 0)
    return [('x<0,y=2', x, num(2)), ('x<0,y=3', x, num(3)), ('x<0,y=-1', x, num(-1)), ('x<0,y=-2', x, num(-2)),
            ('x<0,y=1', x, ONE), ('x<0,y=0', x, ZERO), ('x=0,y=2', ZERO, num(2)), ('x=0,y=3', ZERO, num(3)),
            ('x=0,y=1', ZERO, ONE), ('x=0,y=0', ZERO, ZERO), ('x=0,y=4', ZERO, num(4))]


def _order():
    x, t = s1(), sym('t', 0)
    return [('x>y', cas.add(x, t), x), ('x<y', x, cas.add(x, t))]


R2 = {
    'fmod': _mod, 'remainder': _mod, 'fmax': _order, 'fmin': _order, 'pow': _pow,
    'hypot': lambda: quad() + [('x=0,y>0', ZERO, s1(0, None, 'y')), ('x=0,y<0', ZERO, s1(None, 0, 'y')),
                               ('x>0,y=0', s1(0), ZERO), ('x<0,y=0', s1(None, 0), ZERO)],
    'atan2': lambda: quad() + [('y(1st)=0,x>0', ZERO, s1(0, None, 'y')), ('1st>0,2nd=0', s1(0), ZERO),
                               ('1st<0,2nd=0', s1(None, 0), ZERO)],
}
SAME = {'pow': ('x>0,y any',), 'hypot': ('x>0,y>0', 'x<0,y<0'), 'atan2': ('x>0,y>0', 'x<0,y<0')}

X = sym('X')
Y = sym('Y')
_xi = list(X.atoms())[0]
_yi = list(Y.atoms())[0]


def at(expr, **m):
    d = {}
    if 'x' in m:
        d[_xi] = m['x']
    if 'y' in m:
        d[_yi] = m['y']
    return cas.subst(expr, d)


def limit(f, x):
    """generic expression evaluated with a positive stand-in, then at x"""
    return f(x)


def d1(name, x):
    """(f, f', f'') of the one-argument function at x"""
    t = sym('T', 0)
    ti = list(t.atoms())[0]
    g = sym('G')
    gi = list(g.atoms())[0]
    if name == 'sqrt':
        e = cas.fn1('sqrt', t)
        i = ti
    elif name == 'abs':
        s = cas.sign(x)
        return (x if s > 0 else cas.neg(x)), num(s), ZERO
    else:
        e = cas.fnatom(name, (g,))
        i = gi
    a = D(e, i)
    b = D(a, i)
    m = {i: x}
    return cas.fn1(name, x), cas.subst(a, m), cas.subst(b, m)


def d2(name, x, y):
    """(f, fx, fy, fxx, fyy, fxy) of the two-argument function at (x, y)"""
    if name in ('fmax', 'fmin'):
        s = cas.sign(cas.sub(x, y))
        first = (s > 0) == (name == 'fmax')
        return (x if first else y), num(1 if first else 0), num(0 if first else 1), ZERO, ZERO, ZERO
    if name == 'fmod':
        return cas.fn2(name, x, y), ONE, cas.neg(cas.fn1('trunc', cas.div(x, y))), ZERO, ZERO, ZERO
    if name == 'remainder':
        return cas.fn2(name, x, y), ONE, cas.neg(cas.fn1('rint', cas.div(x, y))), ZERO, ZERO, ZERO
    g, h = sym('G'), sym('H')
    gi, hi = list(g.atoms())[0], list(h.atoms())[0]
    m = {gi: x, hi: y}
    if name == 'hypot':
        r2 = cas.add(cas.mul(g, g), cas.mul(h, h))
        e = cas.power(r2, Fraction(1, 2))
    elif name == 'atan2':
        r2 = cas.add(cas.mul(g, g), cas.mul(h, h))
        a, b = cas.div(h, r2), cas.neg(cas.div(g, r2))
        f = cas.fn2('atan2', x, y)
        return (f,) + tuple(cas.subst(q, m) for q in (a, b, D(a, gi), D(b, hi), D(a, hi)))
    elif name == 'pow':
        if y.const() is not None and (not x.d or cas.sign(x) == -1):
            # integer exponent, base of any sign; derivatives along the exponent are not defined there
            n = int(y.const())
            p = lambda k: cas.power(x, k) if k >= 0 or x.d else cas.NAN
            a = cas.mul(num(n), p(n - 1)) if n else ZERO
            b = cas.mul(num(n * (n - 1)), p(n - 2)) if n * (n - 1) else ZERO
            return cas.power(x, n) if n else ONE, a, cas.NAN, b, cas.NAN, cas.NAN
        f = cas.fn2('pow', x, y)
        l = cas.fn1('log', x)
        r = cas.div(y, x)
        a = cas.mul(f, r)
        b = cas.mul(f, l)
        aa = cas.mul(f, cas.div(cas.mul(y, cas.sub(y, ONE)), cas.mul(x, x)))
        bb = cas.mul(f, cas.mul(l, l))
        ab = cas.mul(f, cas.add(cas.mul(r, l), cas.power(x, -1)))
        return f, a, b, aa, bb, ab
    else:
        raise KeyError(name)
    a, b = D(e, gi), D(e, hi)
    return tuple(cas.subst(q, m) for q in (e, a, b, D(a, gi), D(b, hi), D(a, hi)))


def op(name, x, y):
    """arithmetic operators: (f, fx, fy, fxx, fyy, fxy)"""
    if name == 'add':
        return cas.add(x, y), ONE, ONE, ZERO, ZERO, ZERO
    if name == 'sub':
        return cas.sub(x, y), ONE, num(-1), ZERO, ZERO, ZERO
    if name == 'mul':
        return cas.mul(x, y), y, x, ZERO, ZERO, ONE
    i = cas.power(y, -1)
    q = cas.mul(x, i)
    qi = cas.mul(q, i)
    return q, i, cas.neg(qi), ZERO, cas.mul(num(2), cas.mul(qi, i)), cas.neg(cas.mul(i, i))


def opregions(name):
    x, y = sym('x'), sym('y')
    p, n, q = s1(0, None, 'y'), s1(None, 0, 'y'), s1(0)
    if name == 'div':
        return [('x,y>0', x, p), ('x,y<0', x, n), ('x=0,y>0', ZERO, p), ('x,y=1', x, ONE), ('x>0,y=-1', q, num(-1))]
    return [('x,y', x, y), ('x=0,y', ZERO, y), ('x,y=0', x, ZERO), ('x>0,y<0', q, n)]
