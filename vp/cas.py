"""Numeric abstract domain: canonical algebraic normal forms.

A Num is a sum of rational multiples of monomials over atoms (symbols, uninterpreted real functions,
powers of sums).  Two program values are equal when their difference normalises to zero; when the normal
form is not strong enough (identities between transcendental atoms), equality is decided by random
interpretation of the normal form (Gulwani & Necula): the *expression* is evaluated with 50 digits at random
points of the region.  A disequality is only ever reported with such a witness point.

The atom RHO stands for "anything contributed by variables that are not in focus": it absorbs products.
"""
from fractions import Fraction
import math
import random

ATOMS = []          # index -> tuple
_INDEX = {}


class Special:
    """nan / inf / poison values."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self


NAN = Special('nan')
INF = Special('+inf')
NINF = Special('-inf')
UNINIT = Special('uninitialised')


def atom(key):
    i = _INDEX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _INDEX[key] = i
    return i


RHO_I = atom(('rho',))


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Num:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Num) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __deepcopy__(self, memo):
        return self

    def const(self):
        """value if constant else None"""
        d = self.d
        if not d:
            return 0
        if len(d) == 1:
            return d.get(())
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def deep_syms(self):
        out = set()
        for a in self.atoms():
            _deep(a, out)
        return out

    def has_rho(self):
        return RHO in self.d

    def __repr__(self):
        return show(self)


def _deep(a, out):
    k = ATOMS[a]
    if k[0] == 'sym':
        out.add(a)
    elif k[0] == 'fn':
        for x in k[2]:
            for b in x.atoms():
                _deep(b, out)
    elif k[0] == 'base':
        for b in k[1].atoms():
            _deep(b, out)
    elif k[0] == 'rho':
        out.add(a)


RHO = ((RHO_I, 1),)


def num(c):
    if isinstance(c, Num):
        return c
    if isinstance(c, float):
        c = Fraction(c)
    c = _q(c)
    return Num({(): c}) if c else Num({})


ZERO = num(0)
ONE = num(1)


def sym(name, lo=None, hi=None, integer=False):
    """lo/hi: open bounds of the domain (None = unbounded)."""
    return Num({((atom(('sym', name, lo, hi, integer)), 1),): 1})


rho = Num({RHO: 1})


def fnatom(name, args):
    return Num({((atom(('fn', name, tuple(args))), 1),): 1})


def special(*xs):
    return any(isinstance(x, Special) for x in xs)


def _prop(*xs):
    for x in xs:
        if x is UNINIT:
            return UNINIT
    return NAN


def add(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if UNINIT in (a, b):
            return UNINIT
        if NAN in (a, b):
            return NAN
        if isinstance(a, Special) and isinstance(b, Special):
            return a if a is b else NAN
        return a if isinstance(a, Special) else b
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = x + c
            if m == RHO:
                d[m] = 1
            elif x:
                d[m] = _q(x)
            else:
                del d[m]
    return Num(d)


def neg(a):
    if isinstance(a, Special):
        return {INF: NINF, NINF: INF}.get(a, a)
    return Num({m: (1 if m == RHO else -c) for m, c in a.d.items()})


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    if m1 == RHO or m2 == RHO:
        return RHO
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            g = e + f
            if g:
                out.append((a, _q(g)))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _needs_expand(m):
    for a, e in m:
        if ATOMS[a][0] == 'base' and e > 0 and e.__class__ is int:
            return True
    return False


def mul(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if UNINIT in (a, b):
            return UNINIT
        if NAN in (a, b):
            return NAN
        # inf * x
        s1, s2 = _sgn_simple(a), _sgn_simple(b)
        if s1 is None or s2 is None or s1 == 0 or s2 == 0:
            return NAN
        return INF if s1 * s2 > 0 else NINF
    d = {}
    exp = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = _mmul(m1, m2)
            c = 1 if m == RHO else c1 * c2
            if m and _BASES and _needs_expand(m):
                exp.append((m, c))
                continue
            x = d.get(m)
            if x is None:
                d[m] = _q(c)
            elif m == RHO:
                pass
            else:
                x = x + c
                if x:
                    d[m] = _q(x)
                else:
                    del d[m]
    r = Num(d)
    for m, c in exp:
        rest = tuple((a_, e) for a_, e in m if not (ATOMS[a_][0] == 'base' and e > 0 and e.__class__ is int))
        t = Num({rest: c})
        for a_, e in m:
            if ATOMS[a_][0] == 'base' and e > 0 and e.__class__ is int:
                t = mul(t, ipow(ATOMS[a_][1], e))
        r = add(r, t)
    return r


_BASES = []


def ipow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


def _sgn_simple(a):
    if a is INF:
        return 1
    if a is NINF:
        return -1
    return sign(a)


def base_pow(a, e):
    """a ** e for a multi-term a, as an atom of the primitive part"""
    # common monomial factor
    ms = list(a.d)
    common = {}
    for at, ex in ms[0]:
        common[at] = ex
    for m in ms[1:]:
        dm = dict(m)
        for at in list(common):
            if at in dm:
                common[at] = min(common[at], dm[at])
            elif common[at] < 0:
                pass
            else:
                del common[at]
        # negative exponents only in some monomials: factor them as well
    for m in ms:
        for at, ex in m:
            if ex < 0 and at not in common:
                common[at] = ex
    for at in list(common):
        lo = min(dict(m).get(at, 0) for m in ms)
        if lo:
            common[at] = lo
        else:
            del common[at]
    if e.__class__ is not int:
        # only factor what is certainly nonnegative
        common = {at: ex for at, ex in common.items() if sign(Num({((at, 1),): 1})) in (1,)}
    cm = tuple(sorted(common.items()))
    inv = tuple((x, -y) for x, y in cm)
    prim = {_mmul(m, inv): c for m, c in a.d.items()}
    lead = prim[max(prim)]
    if e.__class__ is not int:
        lead = abs(lead)
    prim = Num({m: _q(Fraction(c) / lead) for m, c in prim.items()})
    i = atom(('base', prim))
    if not _BASES:
        _BASES.append(1)
    r = Num({((i, e),): 1}) if not (e.__class__ is int and e > 0) else ipow(prim, e)
    r = mul(r, Num({tuple((x, _q(y * e)) for x, y in cm): 1}))
    return mul(r, const_pow(lead, e))


def const_pow(c, e):
    c = Fraction(c)
    if e.__class__ is int:
        return num(c ** e)
    e = Fraction(e)
    if c < 0:
        return NAN
    if c == 0:
        return ZERO
    # exact root?
    q = e.denominator

    def root(n):
        r = int(round(n ** (1.0 / q)))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** q == n:
                return k
        return None
    rn, rd = root(c.numerator), root(c.denominator)
    if rn is not None and rd is not None:
        return num(Fraction(rn, rd) ** e.numerator)
    i = atom(('fn', 'root', (num(c),)))
    return Num({((i, e),): 1})


def power(a, e):
    """a ** e, e rational constant"""
    e = _q(Fraction(e))
    if isinstance(a, Special):
        if a is INF:
            return INF if e > 0 else ZERO if e < 0 else ONE
        return _prop(a)
    if e == 0:
        return ONE
    if a.has_rho():
        if e.__class__ is int and e > 0:
            return ipow(a, e)
        return fnatom('powrho', (a, num(e)))
    if not a.d:
        if e < 0:
            return INF
        return ZERO
    if e.__class__ is int and e > 0:
        return ipow(a, e)
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if e.__class__ is int:
            r = const_pow(c, e)
            t = Num({tuple((x, y * e) for x, y in m): 1})
            return mul(r, t)
        # fractional power
        s = sign(a)
        if s == -1:
            return NAN
        r = const_pow(abs(c), e)
        out = r
        neglect = 1 if c > 0 else -1
        left = []
        for x, y in m:
            ax = Num({((x, 1),): 1})
            sx = sign(ax)
            ye = _q(Fraction(y) * e)
            if sx == 1:
                out = mul(out, Num({((x, ye),): 1}))
            elif y.__class__ is int and y % 2 == 0:
                out = mul(out, Num({((atom(('fn', 'abs', (ax,))), ye),): 1}))
            elif sx == -1:
                neglect = -neglect
                out = mul(out, Num({((atom(('base', neg(ax))), ye),): 1}))
            else:
                left.append((x, y))
        if left:
            t = Num({tuple(left): neglect})
            i = atom(('base', t))
            out = mul(out, Num({((i, e),): 1}))
        elif neglect < 0:
            return NAN
        return out
    return base_pow(a, e)


def div(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if UNINIT in (a, b):
            return UNINIT
        if NAN in (a, b):
            return NAN
        if isinstance(b, Special):
            return NAN if isinstance(a, Special) else ZERO
        s = _sgn_simple(b)
        return NAN if s is None or s == 0 else mul(a, num(s))
    if not b.d:
        if not a.d:
            return NAN
        s = sign(a)
        return INF if s == 1 else NINF if s == -1 else NAN
    if a.d == b.d and not a.has_rho():
        return ONE
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- real functions
def dom(i):
    k = ATOMS[i]
    return k[2], k[3]


def interval(a):
    """sound enclosure (lo, hi) of a Num over the symbol domains; None = unbounded.  Coarse."""
    lo = hi = Fraction(0)
    strict = False
    for m, c in a.d.items():
        l, h = Fraction(1), Fraction(1)
        for at, e in m:
            x = _atom_interval(at)
            y = _ipow_interval(x, e)
            l, h = _imul((l, h), y)
        l, h = _imul((l, h), (Fraction(c), Fraction(c)))
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def _imul(a, b):
    if a[0] == a[1] == 0 or b[0] == b[1] == 0:
        return Fraction(0), Fraction(0)
    vals = []
    unb_lo = unb_hi = False
    for x, sx in ((a[0], -1), (a[1], 1)):
        for y, sy in ((b[0], -1), (b[1], 1)):
            if x is not None and y is not None:
                vals.append(x * y)
            else:
                if x is None and y is None:
                    s = sx * sy
                elif x is None:
                    s = sx * (1 if y > 0 else -1 if y < 0 else 0)
                else:
                    s = sy * (1 if x > 0 else -1 if x < 0 else 0)
                if s > 0:
                    unb_hi = True
                elif s < 0:
                    unb_lo = True
                else:
                    vals.append(Fraction(0))
    lo = None if unb_lo or not vals else min(vals)
    hi = None if unb_hi or not vals else max(vals)
    return lo, hi


def _ipow_interval(x, e):
    lo, hi = x
    if e.__class__ is int and e > 0:
        r = (Fraction(1), Fraction(1))
        if e % 2 == 0:
            ax = _abs_interval(x)
            for _ in range(e):
                r = _imul(r, ax)
            return r
        for _ in range(e):
            r = _imul(r, x)
        return r
    if e.__class__ is int:
        y = _ipow_interval(x, -e)
        l, h = y
        if l is not None and l >= 0:
            return (Fraction(0) if h is None else 1 / h if h else None, None if l == 0 else 1 / l)
        if h is not None and h <= 0:
            return (None if h == 0 else 1 / h, Fraction(0) if l is None else 1 / l)
        return None, None
    # fractional: nonnegative
    return Fraction(0), None


def _abs_interval(x):
    lo, hi = x
    if lo is not None and lo >= 0:
        return lo, hi
    if hi is not None and hi <= 0:
        return -hi, (None if lo is None else -lo)
    m = None if lo is None or hi is None else max(-lo, hi)
    return Fraction(0), m


POSITIVE_FN = {'exp', 'exp2', 'cosh', 'root'}
NONNEG_FN = {'abs', 'sqrt', 'hypot', 'acos', 'acosh'}


def _atom_interval(i):
    k = ATOMS[i]
    if k[0] == 'sym':
        lo, hi = k[2], k[3]
        return (None if lo is None else Fraction(lo)), (None if hi is None else Fraction(hi))
    if k[0] == 'fn':
        n = k[1]
        if n in POSITIVE_FN:
            if n == 'cosh':
                return Fraction(1), None
            return Fraction(0), None
        if n in NONNEG_FN:
            if n == 'abs':
                return _abs_interval(interval(k[2][0]))
            return Fraction(0), None
        if n in ('sin', 'cos', 'tanh', 'erf'):
            return Fraction(-1), Fraction(1)
        if n == 'erfc':
            return Fraction(0), Fraction(2)
        if n in ('fmax', 'fmin'):
            pass
        return None, None
    if k[0] == 'base':
        return interval(k[1])
    return None, None


def _strict(i):
    """atom never zero"""
    k = ATOMS[i]
    if k[0] == 'sym':
        lo, hi = k[2], k[3]
        return (lo is not None and lo >= 0) or (hi is not None and hi <= 0)
    if k[0] == 'fn':
        return k[1] in POSITIVE_FN or (k[1] == 'abs' and sign(k[2][0]) in (1, -1)) or \
            (k[1] == 'erfc')
    if k[0] == 'base':
        return sign(k[1]) in (1, -1)
    return False


def sign(a):
    """1, -1, 0 when certain over the whole region, else None"""
    if a is INF:
        return 1
    if a is NINF:
        return -1
    if isinstance(a, Special):
        return None
    if not a.d:
        return 0
    if RHO in a.d:
        return None
    c = a.const()
    if c is not None:
        return 1 if c > 0 else -1
    # every monomial with the same strict sign
    ss = set()
    weak = False
    for m, c in a.d.items():
        s = 1 if c > 0 else -1
        st = True
        for at, e in m:
            lo, hi = _ipow_interval(_atom_interval(at), e)
            if not _strict(at):
                st = False
            if lo is not None and lo >= 0:
                pass
            elif hi is not None and hi <= 0:
                s = -s
            else:
                s = None
                break
        if s is None:
            ss.add(None)
            break
        ss.add((s, st))
    if None not in ss:
        sg = {s for s, _ in ss}
        if len(sg) == 1 and any(st for _, st in ss):
            return sg.pop()
    lo, hi = interval(a)
    if lo is not None and lo >= 0 and _interval_open(a):
        return 1 if (lo > 0 or _interval_open(a)) else None
    if hi is not None and hi <= 0 and _interval_open(a):
        return -1
    if lo is not None and lo > 0:
        return 1
    if hi is not None and hi < 0:
        return -1
    return None


def _interval_open(a):
    """bounds are not attained because some symbol with an open bound enters linearly"""
    if len(a.d) == 0:
        return False
    for m, c in a.d.items():
        if len(m) == 1 and m[0][1].__class__ is int and m[0][1] > 0 and ATOMS[m[0][0]][0] == 'sym':
            k = ATOMS[m[0][0]]
            if k[2] is not None and k[3] is not None:
                return True
            if (k[2] is not None or k[3] is not None):
                return True
    return False


def fn1(name, a):
    if isinstance(a, Special):
        if a is UNINIT:
            return UNINIT
        if name == 'abs' and a in (INF, NINF):
            return INF
        return fnspecial(name, a)
    if name in ('sqrt',):
        return power(a, Fraction(1, 2))
    if name == 'abs':
        s = sign(a)
        if s == 1:
            return a
        if s == -1:
            return neg(a)
        if s == 0:
            return ZERO
        return fnatom('abs', (a,))
    c = a.const()
    if c is not None:
        if c == 0:
            z = {'exp': 1, 'exp2': 1, 'expm1': 0, 'log1p': 0, 'sin': 0, 'cos': 1, 'tan': 0, 'asin': 0, 'atan': 0,
                 'sinh': 0, 'cosh': 1, 'tanh': 0, 'asinh': 0, 'atanh': 0, 'erf': 0, 'erfc': 1, 'cbrt': 0,
                 'floor': 0, 'ceil': 0, 'trunc': 0, 'round': 0}.get(name)
            if z is not None:
                return num(z)
            if name in ('log', 'log2', 'log10'):
                return NINF
        if c == 1:
            z = {'log': 0, 'log2': 0, 'log10': 0, 'acosh': 0, 'acos': 0, 'cbrt': 1}.get(name)
            if z is not None:
                return num(z)
        if name in ('floor', 'ceil', 'trunc', 'round'):
            f = Fraction(c)
            return num({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                        'round': lambda v: math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1)}[name](f))
    if name in ('log', 'log2', 'log10') and sign(a) == -1:
        return NAN
    return fnatom(name, (a,))


_AT = {
    # value at +inf, value at -inf
    'exp': ('inf', 0), 'exp2': ('inf', 0), 'expm1': ('inf', -1), 'log': ('inf', None), 'log10': ('inf', None),
    'log2': ('inf', None), 'log1p': ('inf', None), 'sqrt': ('inf', None), 'cbrt': ('inf', '-inf'),
    'sinh': ('inf', '-inf'), 'cosh': ('inf', 'inf'), 'tanh': (1, -1), 'asinh': ('inf', '-inf'), 'acosh': ('inf', None),
    'erf': (1, -1), 'erfc': (0, 2), 'floor': ('inf', '-inf'), 'ceil': ('inf', '-inf'), 'trunc': ('inf', '-inf'),
    'round': ('inf', '-inf'), 'rint': ('inf', '-inf'), 'logb': ('inf', 'inf'),
}


def fnspecial(name, a):
    if a is NAN:
        return NAN
    if name == 'atan':
        h = mul(fnatom('pi', ()), num(Fraction(1, 2)))
        return h if a is INF else neg(h)
    t = _AT.get(name)
    if t is None:
        return NAN
    v = t[0 if a is INF else 1]
    return NAN if v is None else INF if v == 'inf' else NINF if v == '-inf' else num(v)


def fn2special(name, a, b):
    if name in ('fmax', 'fmin'):
        if a is NAN:
            return b
        if b is NAN:
            return a
        big = INF if name == 'fmax' else NINF
        if big in (a, b):
            return big
        return b if isinstance(a, Special) else a
    if name == 'hypot':
        return INF if a in (INF, NINF) or b in (INF, NINF) else NAN
    if name in ('fmod', 'remainder'):
        return a if not isinstance(a, Special) and b in (INF, NINF) else NAN
    if name == 'pow':
        if isinstance(b, Num) and not b.d or a == ONE:
            return ONE
    return NAN


def fn2(name, a, b):
    if special(a, b):
        return UNINIT if UNINIT in (a, b) else fn2special(name, a, b)
    if name == 'hypot':
        return power(add(mul(a, a), mul(b, b)), Fraction(1, 2))
    if name == 'pow':
        c = b.const()
        if c is not None:
            c = Fraction(c)
            if c.denominator == 1:
                return power(a, int(c))
            return power(a, c)
        if sign(a) == -1:
            return NAN if not _intvalued(b) else fnatom('pow', (a, b))
        if not a.d:
            s = sign(b)
            return ZERO if s == 1 else INF if s == -1 else ONE if s == 0 else fnatom('pow', (a, b))
        # split additive integer constants off the exponent:  x**(y-1) = x**y / x
        k = b.d.get(())
        if k is not None and Fraction(k).denominator == 1 and len(b.d) > 1:
            rest = Num({m: c2 for m, c2 in b.d.items() if m != ()})
            return mul(fnatom('pow', (a, rest)), power(a, int(k)))
        return fnatom('pow', (a, b))
    if name in ('fmax', 'fmin'):
        s = sign(sub(a, b))
        if s in (1, -1):
            return a if (s == 1) == (name == 'fmax') else b
        if s == 0:
            return a
        return fnatom(name, (a, b))
    if name == 'atan2' and not a.d:
        s = sign(b)
        if s == 1:
            return ZERO
        if s == -1:
            return fnatom('pi', ())
    return fnatom(name, (a, b))


def _intvalued(a):
    for m, c in a.d.items():
        if Fraction(c).denominator != 1:
            return False
        for at, e in m:
            k = ATOMS[at]
            if not (k[0] == 'sym' and k[4]) or e.__class__ is not int or e < 0:
                return False
    return True


# ---------------------------------------------------------------- zero test
def clear(a):
    """multiply by powers of base atoms until none is negative; equivalent for the zero test"""
    for _ in range(20):
        mins = {}
        for m in a.d:
            dm = dict(m)
            for at in dm:
                if ATOMS[at][0] == 'base':
                    mins.setdefault(at, None)
        todo = None
        for at in mins:
            lo = min((dict(m).get(at, 0) for m in a.d), default=0)
            if lo != 0:
                todo = (at, lo)
                break
        if todo is None:
            return a
        at, lo = todo
        a = mul(a, Num({((at, _q(-lo)),): 1}))
        if not a.d:
            return a
    return a


def subst(a, m):
    """substitute symbols: m maps atom index -> Num"""
    if isinstance(a, Special) or not m:
        return a
    if not (a.deep_syms() & set(m)):
        return a
    r = ZERO
    for mono, c in a.d.items():
        t = num(c)
        for at, e in mono:
            if at in m:
                b = m[at]
            else:
                b = _subst_atom(at, m)
            t = mul(t, power(b, e))
        r = add(r, t)
    return r


def _subst_atom(at, m):
    k = ATOMS[at]
    if k[0] == 'fn':
        args = [subst(x, m) for x in k[2]]
        if tuple(args) == k[2]:
            return Num({((at, 1),): 1})
        return apply_fn(k[1], args)
    if k[0] == 'base':
        return subst(k[1], m)
    return Num({((at, 1),): 1})


def apply_fn(name, args):
    if len(args) == 1:
        return fn1(name, args[0])
    if len(args) == 2:
        return fn2(name, args[0], args[1])
    return fnatom(name, args)


# ---------------------------------------------------------------- differentiation (the specification side)
def D(a, s):
    """formal derivative with respect to the symbol atom index s"""
    r = ZERO
    for m, c in a.d.items():
        for i, (at, e) in enumerate(m):
            da = Datom(at, s)
            if not isinstance(da, Special) and not da.d:
                continue
            rest = m[:i] + (((at, _q(e - 1)),) if e != 1 else ()) + m[i + 1:]
            r = add(r, mul(mul(num(Fraction(c) * e), Num({rest: 1})), da))
    return r


def Datom(at, s):
    k = ATOMS[at]
    if at == s:
        return ONE
    if k[0] == 'sym':
        return ZERO
    if k[0] == 'base':
        return D(k[1], s)
    if k[0] == 'rho':
        return ZERO
    n, args = k[1], k[2]
    ds = [D(x, s) for x in args]
    if all(not x.d for x in ds):
        return ZERO
    if len(args) == 1:
        x = args[0]
        f1 = D1[n](x)
        return mul(f1, ds[0])
    px, py = D2[n](args[0], args[1])
    r = ZERO
    if ds[0].d:
        r = add(r, mul(px, ds[0]))
    if ds[1].d:
        r = add(r, mul(py, ds[1]))
    return r


def _inv(x):
    return power(x, -1)


def _isq(x):
    return power(x, Fraction(-1, 2))


def LN(n):
    return fnatom('log', (num(n),))


PI = fnatom('pi', ())

D1 = {
    'exp': lambda x: fn1('exp', x),
    'exp2': lambda x: mul(fn1('exp2', x), LN(2)),
    'expm1': lambda x: fn1('exp', x),
    'log': _inv,
    'log2': lambda x: _inv(mul(x, LN(2))),
    'log10': lambda x: _inv(mul(x, LN(10))),
    'log1p': lambda x: _inv(add(ONE, x)),
    'cbrt': lambda x: mul(num(Fraction(1, 3)), power(fn1('cbrt', x), -2)),
    'sin': lambda x: fn1('cos', x),
    'cos': lambda x: neg(fn1('sin', x)),
    'tan': lambda x: add(ONE, power(fn1('tan', x), 2)),
    'asin': lambda x: _isq(sub(ONE, mul(x, x))),
    'acos': lambda x: neg(_isq(sub(ONE, mul(x, x)))),
    'atan': lambda x: _inv(add(ONE, mul(x, x))),
    'sinh': lambda x: fn1('cosh', x),
    'cosh': lambda x: fn1('sinh', x),
    'tanh': lambda x: sub(ONE, power(fn1('tanh', x), 2)),
    'asinh': lambda x: _isq(add(ONE, mul(x, x))),
    'acosh': lambda x: _isq(sub(mul(x, x), ONE)),
    'atanh': lambda x: _inv(sub(ONE, mul(x, x))),
    'erf': lambda x: mul(mul(num(2), power(PI, Fraction(-1, 2))), fn1('exp', neg(mul(x, x)))),
    'erfc': lambda x: neg(mul(mul(num(2), power(PI, Fraction(-1, 2))), fn1('exp', neg(mul(x, x))))),
    'abs': lambda x: mul(fn1('abs', x), _inv(x)),
    'trunc': lambda x: ZERO,
    'floor': lambda x: ZERO,
    'ceil': lambda x: ZERO,
    'round': lambda x: ZERO,
    'rint': lambda x: ZERO,
    'heaviside': lambda x: ZERO,
}
D2 = {
    'pow': lambda x, y: (mul(y, fn2('pow', x, sub(y, ONE))), mul(fn2('pow', x, y), fn1('log', x))),
    'atan2': lambda y, x: (mul(x, _inv(add(mul(x, x), mul(y, y)))), neg(mul(y, _inv(add(mul(x, x), mul(y, y)))))),
    'fmod': lambda x, y: (ONE, neg(fn1('trunc', div(x, y)))),
    'remainder': lambda x, y: (ONE, neg(fn1('rint', div(x, y)))),
    'fmax': lambda x, y: (fn2('gt', x, y), fn2('gt', y, x)),
    'fmin': lambda x, y: (fn2('gt', y, x), fn2('gt', x, y)),
    'gt': lambda x, y: (ZERO, ZERO),
}

# ---------------------------------------------------------------- random interpretation
try:
    import mpmath
    mp = mpmath.mp
    mp.dps = 50
except ImportError:  # pragma: no cover
    mpmath = None


class Undef(Exception):
    pass


def evalf(a, env, cache=None):
    if cache is None:
        cache = {}
    if isinstance(a, Special):
        raise Undef(a.name)
    r = mpmath.mpf(0)
    for m, c in a.d.items():
        t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
        for at, e in m:
            v = cache.get(at)
            if v is None:
                v = _evatom(at, env, cache)
                cache[at] = v
            if e.__class__ is int:
                if v == 0 and e < 0:
                    raise Undef('1/0')
                t = t * v ** e
            else:
                if v < 0 or (v == 0 and e < 0):
                    raise Undef('root of negative')
                t = t * mpmath.power(v, mpmath.mpf(e.numerator) / e.denominator)
        r += t
    return r


def _evatom(at, env, cache):
    k = ATOMS[at]
    if k[0] == 'sym':
        return env[at]
    if k[0] == 'base':
        return evalf(k[1], env, cache)
    if k[0] == 'rho':
        raise Undef('rho')
    n, args = k[1], [evalf(x, env, cache) for x in k[2]]
    return evfn(n, args)


def _real(x):
    if isinstance(x, mpmath.mpc):
        if x.imag != 0:
            raise Undef('complex')
        return x.real
    if mpmath.isnan(x) or mpmath.isinf(x):
        raise Undef('nan')
    return x


def evfn(n, a):
    m = mpmath
    if n == 'pi':
        return m.pi + 0
    if n == 'lit':
        return a[0]
    if n == 'root':
        return a[0]
    if n == 'abs':
        return abs(a[0])
    if n == 'cbrt':
        return m.cbrt(a[0]) if a[0] >= 0 else -m.cbrt(-a[0])
    if n == 'exp2':
        return m.power(2, a[0])
    if n == 'log2':
        if a[0] <= 0:
            raise Undef()
        return m.log(a[0]) / m.log(2)
    if n in ('log', 'log10'):
        if a[0] <= 0:
            raise Undef()
        return getattr(m, n)(a[0])
    if n == 'log1p':
        if a[0] <= -1:
            raise Undef()
        return m.log1p(a[0])
    if n in ('trunc', 'floor', 'ceil', 'round', 'rint'):
        x = a[0]
        if n == 'floor':
            return m.floor(x)
        if n == 'ceil':
            return m.ceil(x)
        if n == 'trunc':
            return m.floor(x) if x >= 0 else m.ceil(x)
        if n == 'round':
            return m.floor(x + 0.5) if x >= 0 else m.ceil(x - 0.5)
        return m.nint(x)
    if n == 'fmod':
        q = a[0] / a[1]
        return a[0] - (m.floor(q) if q >= 0 else m.ceil(q)) * a[1]
    if n == 'remainder':
        return a[0] - m.nint(a[0] / a[1]) * a[1]
    if n == 'fmax':
        return max(a)
    if n == 'fmin':
        return min(a)
    if n == 'gt':
        return m.mpf(1 if a[0] > a[1] else 0)
    if n == 'pow':
        if a[0] < 0 and m.nint(a[1]) != a[1]:
            raise Undef()
        if a[0] == 0 and a[1] <= 0:
            if a[1] == 0:
                return m.mpf(1)
            raise Undef()
        return _real(m.power(a[0], a[1]))
    if n == 'copysign':
        return abs(a[0]) * (1 if a[1] >= 0 else -1)
    if n == 'narrow':
        return a[0]
    if n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf',
             'erfc', 'exp', 'expm1', 'atan2'):
        return _real(getattr(m, n)(*a))
    # uninterpreted function: a hash of its arguments (congruence)
    key = (n,) + tuple(m.nstr(x, 30) for x in a)
    rr = random.Random(repr(key))
    return m.mpf(rr.randint(-10 ** 12, 10 ** 12)) / 10 ** 11


def sample(syms, rng):
    env = {}
    for at in syms:
        k = ATOMS[at]
        if k[0] == 'rho':
            continue
        lo, hi = k[2], k[3]
        if k[4]:
            a = int(lo) + 1 if lo is not None else (int(hi) - 40 if hi is not None else -20)
            b = int(hi) - 1 if hi is not None else a + 40
            env[at] = mpmath.mpf(rng.randint(a, b))
            continue
        if lo is not None and hi is not None:
            t = mpmath.mpf(rng.randint(1, 10 ** 9)) / (10 ** 9 + 1)
            env[at] = mpmath.mpf(Fraction(lo).numerator) / Fraction(lo).denominator + \
                t * (mpmath.mpf(Fraction(hi - lo).numerator) / Fraction(hi - lo).denominator)
            continue
        mag = mpmath.mpf(10) ** (mpmath.mpf(rng.randint(-1000, 1000)) / 1000)
        if lo is not None:
            env[at] = mpmath.mpf(Fraction(lo).numerator) / Fraction(lo).denominator + mag
        elif hi is not None:
            env[at] = mpmath.mpf(Fraction(hi).numerator) / Fraction(hi).denominator - mag
        else:
            env[at] = mag * rng.choice((-1, 1))
    return env


def _consts(a, out, seen):
    for m, c in a.d.items():
        if c not in (1, -1):
            out.add(abs(Fraction(c)))
        for at, _ in m:
            if at not in seen:
                seen.add(at)
                k = ATOMS[at]
                if k[0] == 'fn':
                    for x in k[2]:
                        _consts(x, out, seen)
                elif k[0] == 'base':
                    _consts(k[1], out, seen)


def _hints(facts):
    """magnitudes at which the recorded branch conditions may change their truth"""
    cs = set()
    for op, f in facts:
        one = set()
        _consts(f, one, set())
        cs |= one
        for a in list(one):
            for b in list(one):
                if b and a != b and len(one) < 8:
                    cs.add(a / b)
    hs = set()
    for c in cs:
        try:
            v = mpmath.mpf(c.numerator) / c.denominator
        except OverflowError:
            continue
        if v <= 0:
            continue
        hs.add(v)
        hs.add(mpmath.sqrt(v))
        hs.add(1 / v)
        if v < 1000:
            hs.add(mpmath.exp(v))
        if v > 1:
            hs.add(mpmath.log(v))
    return sorted(hs)[:60]


def points(syms, facts, n=4, tries=400, seed=1):
    """random points of the region satisfying the recorded branch facts (op, Num) meaning Num op 0"""
    rng = random.Random(seed)
    allsyms = set(syms)
    for op, f in facts:
        allsyms |= f.deep_syms()
    out = []
    order = sorted(allsyms)
    hints = _hints(facts) if facts else []
    if hints:
        tries *= 3
    for t in range(tries):
        env = sample(order, rng)
        if hints and t % 3:
            for at in order:
                if t % 3 == 1 or rng.random() < 0.5:
                    k = ATOMS[at]
                    if k[0] == 'rho' or k[4]:
                        continue
                    h = rng.choice(hints)
                    v = rng.choice((1, -1)) * (h * rng.choice((mpmath.mpf('0.5'), mpmath.mpf('0.97'), mpmath.mpf('1.03'), 2,
                                                                1 + mpmath.mpf('1e-9'), 1 - mpmath.mpf('1e-9')))
                                               + rng.choice((0, 0, 1, -1)))
                    if (k[2] is None or v > k[2]) and (k[3] is None or v < k[3]):
                        env[at] = v
        ok = True
        for op, f in facts:
            if f.has_rho():
                continue
            try:
                v = evalf(f, env)
            except Undef:
                ok = False
                break
            if op == '==' and v != 0:
                # only cancellation between terms counts as zero
                sc = max((abs(evalf(Num({k: c}), env)) for k, c in f.d.items()), default=0) if len(f.d) > 1 else 0
                if abs(v) < sc * mpmath.mpf(10) ** -33:
                    v = mpmath.mpf(0)
            if not {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0,
                    '!=': v != 0}[op]:
                ok = False
                break
        if ok:
            out.append(env)
            if len(out) >= n:
                break
    return out


def nonzero_part(f):
    """a single-term f without the factors that never vanish; None if nothing is left"""
    if len(f.d) != 1:
        return f
    (m, c), = f.d.items()
    left = []
    for at, e in m:
        if e.__class__ is int and e < 0 or Fraction(e) < 0:
            continue
        if sign(Num({((at, 1),): 1})) in (1, -1):
            continue
        k = ATOMS[at]
        if k[0] == 'fn' and k[1] in ('exp', 'exp2', 'cosh'):
            continue
        left.append((at, 1))
    if not left:
        return None
    return Num({tuple(left): 1})


def uncommon(f):
    """f without the common factors that never vanish"""
    if len(f.d) < 2:
        return f
    ms = [dict(m) for m in f.d]
    for at in list(ms[0]):
        if all(at in m for m in ms) and sign(Num({((at, 1),): 1})) in (1, -1):
            e = min(m[at] for m in ms)
            f = mul(f, Num({((at, -e),): 1}))
    return f


def solve_eqs(facts):
    """substitutions implied by equality facts linear in a symbol with constant coefficient"""
    m = {}
    for op, f in facts:
        if op != '==':
            continue
        f = subst(f, m)
        if isinstance(f, Special) or not f.d:
            continue
        f = nonzero_part(f)
        if f is None:
            continue
        f = uncommon(f)
        for mono, c in f.d.items():
            if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]][0] == 'sym':
                at = mono[0][0]
                others = sum(1 for k in f.d if any(x == at for x, _ in k))
                rest = Num({k: v for k, v in f.d.items() if k != mono})
                if others == 1 and at not in rest.deep_syms():
                    val = mul(rest, num(Fraction(-1) / Fraction(c)))
                    m = {k: subst(v, {at: val}) for k, v in m.items()}
                    m[at] = val
                    break
    return m


def alternatives(facts):
    """facts as a disjunction of conjunctions: an equality fact that is a product is split over its factors"""
    alts = [[]]
    for op, f in facts:
        fs = [f]
        if op == '==' and isinstance(f, Num) and len(f.d) == 1:
            g = nonzero_part(f)
            if g is not None and len(g.d) == 1:
                (m, c), = g.d.items()
                fs = [Num({((at, 1),): 1}) for at, _ in m] if len(m) <= 3 else [g]
        alts = [a + [(op, x)] for a in alts for x in fs]
        if len(alts) > 8:
            return [list(facts)]
    return alts


EQ, NEQ, UNKNOWN = 'eq', 'neq', 'unknown'


def equal(a, b, facts=(), tol=None):
    """returns (verdict, how, witness); NEQ only if they differ somewhere under the facts"""
    if not facts or a.__class__ is b.__class__ and a == b:
        return equal1(a, b, facts)
    alts = alternatives(facts)
    if len(alts) == 1:
        return equal1(a, b, alts[0])
    out = None
    for al in alts:
        r = equal1(a, b, al)
        if r[0] == NEQ:
            return r
        if r[0] == UNKNOWN and r[1].startswith('no point'):
            continue
        if out is None or r[0] == UNKNOWN:
            out = r
    return out or (UNKNOWN, 'no point of the region found', None)


def equal1(a, b, facts=()):
    if isinstance(a, Special) or isinstance(b, Special):
        return (EQ, 'special', None) if a is b else (NEQ, 'special', '%s vs %s' % (a, b))
    m = solve_eqs(facts)
    d = sub(subst(a, m), subst(b, m)) if m else sub(a, b)
    if isinstance(d, Special):
        return NEQ, 'special', '%s vs %s' % (a, b)
    rr = a.has_rho() or b.has_rho()
    if rr:
        d = Num({k: v for k, v in d.d.items() if k != RHO})
    if not d.d:
        return EQ, 'normal form', None
    d2 = clear(d)
    if not d2.d:
        return EQ, 'normal form', None
    fs = [(op, subst(f, m)) for op, f in facts]
    fs = [(op, f) for op, f in fs if not isinstance(f, Special) and f.const() is None]
    pts = points(d.deep_syms() - {RHO_I}, fs)
    if not pts:
        return UNKNOWN, 'no point of the region found', None
    pure = all(ATOMS[x][0] == 'sym' for x in d2.atoms())
    bad = 0
    good = 0
    inexact = any(ATOMS[x][0] == 'fn' and ATOMS[x][1] == 'lit' for x in _allatoms(d))
    eps = mpmath.mpf(10) ** (-13 if inexact else -25)
    for env in pts:
        try:
            v = evalf(d, env)
            sc = sum(abs(evalf(Num({k: c}), env)) for k, c in d.d.items())
        except Undef:
            continue
        if abs(v) > eps * (sc if sc > 0 else 1):
            bad += 1
            w = env
        else:
            good += 1
    if bad:
        return NEQ, 'random interpretation', {ATOMS[k][1]: mpmath.nstr(x, 6) for k, x in w.items()}
    if good:
        return EQ, 'random interpretation', None
    return UNKNOWN, 'undefined at every sampled point', None


def _allatoms(a, out=None):
    if out is None:
        out = set()
    for x in a.atoms():
        if x not in out:
            out.add(x)
            k = ATOMS[x]
            if k[0] == 'fn':
                for y in k[2]:
                    _allatoms(y, out)
            elif k[0] == 'base':
                _allatoms(k[1], out)
    return out


def show(a, depth=0):
    if isinstance(a, Special):
        return a.name
    if not a.d:
        return '0'
    out = []
    items = sorted(a.d.items())
    for m, c in items[:12]:
        fs = []
        for at, e in m:
            k = ATOMS[at]
            if k[0] == 'sym':
                s = k[1]
            elif k[0] == 'fn':
                s = '%s(%s)' % (k[1], ', '.join(show(x, depth + 1) for x in k[2]))
            elif k[0] == 'base':
                s = '(%s)' % show(k[1], depth + 1)
            else:
                s = 'REST'
            if e != 1:
                s += '^%s' % (e if not isinstance(e, Fraction) else '(%s)' % e)
            fs.append(s)
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        elif c == -1:
            out.append('-' + '*'.join(fs))
        else:
            out.append('%s*%s' % (c, '*'.join(fs)))
    s = ' + '.join(out).replace('+ -', '- ')
    if len(items) > 12:
        s += ' + ... (%d terms)' % len(items)
    return s
