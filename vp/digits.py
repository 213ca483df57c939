"""Abstract domain of decimal digits.

A number is a linear form over symbolic decimal digits (integer symbols with closed bounds), a symbolic tail in (0, 1) and
constants.  Branches record linear facts; bounds of every symbol are propagated through them (intervals with open or closed
ends, integers rounded inwards).  Rounding functions are evaluated exactly on such forms: the integer-valued part is split off
and the rest forks over the few integers it can reach.  log10(x) is the decade of x plus an atom that stands for the logarithm
of the mantissa; comparing that atom with a constant compares the mantissa with a power of ten."""
from fractions import Fraction
import math

import cas
from cas import Num, Special, ZERO, num, INF, NINF, NAN
import vm as V
from vm import Unsupported, Prune
import mpmath

ON = [0]
MAXREAL = Fraction(2) ** 1024 - Fraction(2) ** 970
MINREAL = Fraction(1, 2 ** 1074)


def linear(a):
    """[(atom, coefficient)], constant; None if not a linear form over symbols"""
    out, k = [], Fraction(0)
    for m, c in a.d.items():
        if m == ():
            k = Fraction(c)
        elif len(m) == 1 and m[0][1] == 1 and cas.ATOMS[m[0][0]][0] == 'sym':
            out.append((m[0][0], Fraction(c)))
        else:
            return None
    return out, k


def dom(at):
    k = cas.ATOMS[at]
    lo, hi = k[2], k[3]
    if k[4]:
        return [None if lo is None else Fraction(lo) + 1, False, None if hi is None else Fraction(hi) - 1, False]
    return [None if lo is None else Fraction(lo), True, None if hi is None else Fraction(hi), True]


_boxes = {}


def box(facts):
    """{atom: [lo, lo open, hi, hi open]} implied by the facts; None when they contradict each other"""
    key = tuple(sorted((o, f.key()) for o, f in facts))
    if key in _boxes:
        return _boxes[key]
    r = _box(facts)
    if len(_boxes) > 20000:
        _boxes.clear()
    _boxes[key] = r
    return r


def _box(facts):
    lin = []
    b = {}
    for o, f in facts:
        l = linear(f)
        if l is None:
            continue
        for at, _ in l[0]:
            if at not in b:
                b[at] = dom(at)
        if o == '!=':
            lin.append(('!=', l[0], l[1]))
        if o in ('<', '<=', '=='):
            lin.append(('<' if o == '<' else '<=', l[0], l[1]))
        if o in ('>', '>=', '=='):
            lin.append(('<' if o == '>' else '<=', [(a, -c) for a, c in l[0]], -l[1]))
    for _ in range(40):
        ch = False
        for o, ts, k in lin:
            if o == '!=':
                if len(ts) == 1:
                    at, c = ts[0]
                    v = -k / c
                    x = b[at]
                    integer = cas.ATOMS[at][4]
                    for i, s in ((0, 1), (2, -1)):
                        if x[i] == v and not x[i + 1]:
                            ch = True
                            if integer:
                                x[i] = v + s
                            else:
                                x[i + 1] = True
                continue
            # sum c x + k (<|<=) 0
            for at, c in ts:
                rest, op = k, o == '<'
                for a2, c2 in ts:
                    if a2 == at:
                        continue
                    x = b[a2]
                    v, opn = (x[0], x[1]) if c2 > 0 else (x[2], x[3])
                    if v is None:
                        rest = None
                        break
                    rest += c2 * v
                    op = op or opn
                if rest is None:
                    continue
                v = -rest / c
                x = b[at]
                integer = cas.ATOMS[at][4]
                if c > 0:
                    if integer:
                        v, op2 = (Fraction(math.ceil(v) - 1) if op else Fraction(math.floor(v))), False
                    else:
                        op2 = op
                    if x[2] is None or v < x[2] or v == x[2] and op2 and not x[3]:
                        x[2], x[3] = v, op2
                        ch = True
                else:
                    if integer:
                        v, op2 = (Fraction(math.floor(v) + 1) if op else Fraction(math.ceil(v))), False
                    else:
                        op2 = op
                    if x[0] is None or v > x[0] or v == x[0] and op2 and not x[1]:
                        x[0], x[1] = v, op2
                        ch = True
            for at, c in ts:
                x = b[at]
                if x[0] is not None and x[2] is not None and (x[0] > x[2] or x[0] == x[2] and (x[1] or x[3])):
                    return None
            if not ts and not (k < 0 or o == '<=' and k == 0):
                return None
        if not ch:
            break
    return b


def bounds(a, b):
    """lo, open, hi, open of a linear form"""
    l = linear(a)
    if l is None:
        return None
    lo = hi = l[1]
    lop = hop = False
    for at, c in l[0]:
        x = b.get(at)
        if x is None:
            x = dom(at)
        p, q = ((x[0], x[1]), (x[2], x[3])) if c > 0 else ((x[2], x[3]), (x[0], x[1]))
        if lo is not None:
            lo = None if p[0] is None else lo + c * p[0]
        if hi is not None:
            hi = None if q[0] is None else hi + c * q[0]
        lop = lop or p[1]
        hop = hop or q[1]
    return lo, lop, hi, hop


def decide(op, d, facts):
    """True / False / None for d op 0"""
    c = d.const()
    if c is not None:
        return ((c > 0) - (c < 0)) in V.OPS[op]
    b = box(facts)
    if b is None:
        raise Prune()
    bd = bounds(d, b)
    if bd is None:
        return None
    poss = {-1, 0, 1}
    lo, lop, hi, hop = bd
    if lo is not None and (lo > 0 or lo == 0 and lop):
        poss = {1}
    elif lo is not None and lo == 0:
        poss.discard(-1)
    if hi is not None and (hi < 0 or hi == 0 and hop):
        poss &= {-1}
    elif hi is not None and hi == 0:
        poss.discard(1)
    l = linear(d)
    if 0 in poss and integral(d) is None and all(cas.ATOMS[a][4] for a, _ in l[0]):
        # integer unknowns: c1 x1 + ... + k = 0 needs gcd | k
        den = 1
        for _, c in l[0]:
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for _, c in l[0]:
            g = math.gcd(g, int(c * den))
        if (l[1] * den) % g:
            poss.discard(0)
    for o, f in facts:
        if f == d:
            poss &= V.OPS[o]
    want = V.OPS[op]
    if poss <= want:
        return True
    if not poss & want:
        return False
    return None


def integral(a):
    return True if cas._intvalued(a) else None


def tolinear(d):
    """rewrites a comparison with the logarithm of a mantissa; returns (num, flip) or None"""
    la, rest = None, Fraction(0)
    for m, c in d.d.items():
        if m == ():
            rest = Fraction(c)
        elif len(m) == 1 and m[0][1] == 1 and cas.ATOMS[m[0][0]][0] == 'fn' and cas.ATOMS[m[0][0]][1] == 'log10' and la is None:
            la = (cas.ATOMS[m[0][0]][2][0], Fraction(c))
        else:
            return None
    if la is None:
        return None
    # c log10 M + rest op 0   <=>   M op' 10 ** (-rest / c)
    x = -rest / la[1]
    if x.denominator == 1:
        t = Fraction(10) ** int(x)
    else:
        with mpmath.workdps(60):
            v = mpmath.mpf(10) ** (mpmath.mpf(x.numerator) / x.denominator)
            t = Fraction(int(mpmath.floor(v * mpmath.mpf(10) ** 40)), 10 ** 40)
    return cas.sub(la[0], num(t)), la[1] < 0


def cmp(st, op, a, b):
    d = cas.sub(a, b)
    if linear(d) is None:
        r = tolinear(d)
        if r is None:
            raise Unsupported('comparison of a form that is not linear in the digits')
        d, fl = r
        if fl:
            op = V.FLIP[op]
    r = decide(op, d, st.facts)
    if r is not None:
        return r
    fl, p = V.primitive(d)
    o = op if fl == 1 else V.FLIP[op]
    t = st.choose(2)
    o = o if t else V.NEG[o]
    st.facts = st.facts + [(o, p)]
    if box(st.facts) is None:
        raise Prune()
    return bool(t)


def sign(st, v):
    r = decide('>=', v, st.facts)
    return r


def fork_ge0(st, v):
    return cmp(st, '>=', v, ZERO)


def floor(st, v):
    i = {}
    r = {}
    for m, c in v.d.items():
        c = Fraction(c)
        if m == ():
            k = math.floor(c)
            if k:
                i[m] = k
            if c != k:
                r[m] = c - k
        elif len(m) == 1 and m[0][1] == 1 and cas.ATOMS[m[0][0]][0] == 'sym' and cas.ATOMS[m[0][0]][4] and c.denominator == 1:
            i[m] = cas._q(c)
        elif len(m) == 1 and m[0][1] == 1 and cas.ATOMS[m[0][0]][0] == 'fn' and cas.ATOMS[m[0][0]][1] == 'log10' and c == 1 and \
                not r:
            pass
        else:
            r[m] = cas._q(c)
    logs = [m for m in v.d if m and m not in i and m not in r]
    if logs:
        if r or len(logs) > 1:
            raise Unsupported('rounding of a logarithm')
        return Num(i)
    ip, rp = Num(i), Num({m: cas._q(c) for m, c in r.items()})
    if not rp.d:
        return ip
    bd = bounds(rp, box(st.facts) or {})
    if bd is None or bd[0] is None or bd[2] is None:
        raise Unsupported('rounding of a form that is not linear in the digits')
    lo, hi = math.floor(bd[0]), math.floor(bd[2])
    if bd[3] and hi == bd[2]:
        hi -= 1
    if hi - lo > 12:
        raise Unsupported('rounding of an imprecisely known number')
    for k in range(lo, hi):
        if cmp(st, '<', rp, num(k + 1)):
            return cas.add(ip, num(k))
    return cas.add(ip, num(hi))


def overflow(st, v):
    """the value the machine type would hold"""
    b = bounds(v, box(st.facts) or {})
    if b is None:
        return v
    if b[0] is not None and b[0] > MAXREAL:
        return INF
    if b[2] is not None and b[2] < -MAXREAL:
        return NINF
    return v


def ceil(st, v):
    return cas.neg(floor(st, cas.neg(v)))


def trunc(st, v):
    return floor(st, v) if fork_ge0(st, v) else ceil(st, v)


def round_(st, v):
    h = num(Fraction(1, 2))
    if fork_ge0(st, v):
        return floor(st, cas.add(v, h))
    return cas.neg(floor(st, cas.add(cas.neg(v), h)))


def fmod(st, a, b):
    c = b.const()
    if c is None or c == 0:
        raise Unsupported('fmod by a symbolic number')
    return cas.sub(a, cas.mul(b, trunc(st, cas.div(a, b))))


def inrange(st, v, ty, ub):
    """the integer-valued v fits the integer type, else undefined behaviour (ub: what) or outside of the fragment"""
    b = ty['bits']
    lo, hi = (0, (1 << b) - 1) if ty['uns'] else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    if not cmp(st, '>=', v, num(lo)) or not cmp(st, '<=', v, num(hi)):
        if ub is None:
            raise Unsupported('integer that wraps around')
        raise V.Stop('ub', ub)
    return v


def intarith(st, op, a, b, ty):
    if op in ('+', '-', '*'):
        r = {'+': cas.add, '-': cas.sub, '*': cas.mul}[op](a, b)
        return inrange(st, r, ty, None if ty['uns'] else 'overflow of an integer')
    if op in ('/', '%'):
        c = b.const()
        if c == 0:
            raise V.Stop('ub', 'integer division by zero')
        if c is None:
            raise Unsupported('integer division by a symbolic number')
        q = trunc(st, cas.div(a, b))
        return q if op == '/' else cas.sub(a, cas.mul(b, q))
    raise Unsupported('operator %s on symbolic digits' % op)


def log10(st, v):
    b = bounds(v, box(st.facts) or {})
    if b is None or b[0] is None or b[2] is None or b[0] < 0 or b[0] == 0 and not b[1]:
        raise Unsupported('logarithm of an imprecisely known number')
    if b[0] == 0:
        raise Unsupported('logarithm of an imprecisely known number')
    lo, hi = dec(b[0]), dec(b[2])
    if b[3] and b[2] == Fraction(10) ** hi:
        hi -= 1
    if hi - lo > 3:
        raise Unsupported('logarithm of an imprecisely known number')
    e = hi
    for k in range(lo, hi):
        if cmp(st, '<', v, num(Fraction(10) ** (k + 1))):
            e = k
            break
    m = cas.mul(v, num(Fraction(10) ** -e))
    if m == cas.ONE:
        return num(e)
    # bounds may pin the mantissa down without the form being constant
    b = bounds(m, box(st.facts) or {})
    if b[0] == b[2] == 1:
        return num(e)
    return cas.add(num(e), cas.fnatom('log10', (m,)))


def dec(q):
    """floor(log10(q)) of a positive rational"""
    e = len(str(q.numerator)) - len(str(q.denominator))
    while Fraction(10) ** e > q:
        e -= 1
    while Fraction(10) ** (e + 1) <= q:
        e += 1
    return e


def text(st, v):
    """decimal digits of an integer-valued number: list of character codes"""
    if not fork_ge0(st, v):
        return [45] + text(st, cas.neg(v))
    out = []
    for _ in range(400):
        q = floor(st, cas.div(v, num(10)))
        d = cas.sub(v, cas.mul(num(10), q))
        c = d.const()
        out.append(48 + int(c) if c is not None else cas.add(num(48), d))
        if not cmp(st, '>=', q, cas.ONE):
            return out[::-1]
        v = q
    raise Unsupported('number of digits')


FN1 = {'floor': floor, 'ceil': ceil, 'trunc': trunc, 'round': round_, 'rint': round_, 'nearbyint': round_, 'log10': log10}


def fn1(st, name, v):
    """None: not handled here"""
    if not isinstance(v, Num):
        return None
    if name in FN1:
        v = overflow(st, v)
        if not isinstance(v, Num):
            return cas.fnspecial(name, v)
        if v.const() is not None and name != 'log10':
            return None
        if name == 'log10' and v.const() is not None and sign_const(v) <= 0:
            return None
        return FN1[name](st, v)
    return None


def sign_const(v):
    c = v.const()
    return (c > 0) - (c < 0)


def fn2(st, name, a, b):
    if name == 'fmod' and isinstance(a, Num) and isinstance(b, Num):
        if a.const() is not None and b.const() is not None and b.const() != 0:
            x, y = Fraction(a.const()), Fraction(b.const())
            return num(x - y * math.trunc(x / y))
        return fmod(st, a, b)
    if name == 'pow' and isinstance(a, Num) and isinstance(b, Num) and a.const() is not None and b.const() is not None and \
            Fraction(b.const()).denominator == 1 and a.const() != 0:
        v = Fraction(a.const()) ** int(b.const())
        return INF if v > MAXREAL else NINF if v < -MAXREAL else ZERO if abs(v) < MINREAL / 2 else num(v)
    return None
