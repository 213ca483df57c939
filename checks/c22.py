"""C22: formatted values keep sign, alignment, separator and exponent consistent."""
import os
import sys
import random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import digits
import strs
import mpmath
from vm import Prune
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of format() and of the stream operators in the decimal-digit domain: mean and error are '
        'written d1.d2...dN + tail with symbolic digits and a symbolic tail in (0, 1), times a power of ten, so one run covers '
        'every digit pattern including all carries; every path yields a character sequence whose digits are linear forms; it '
        'must parse as [(]mean SEP error[)e+-k], both numbers must end at the same decimal place, '
        '|printed - true| <= half a unit of that place must follow from the branch conditions, the sign must be the sign of the '
        'mean, the separator must occur once and the number of digits of the error must follow the documented rule; values '
        'without a positive finite error must be printed as their own rounded value and sign')
Q = Fraction
LOC = 'uncertainties/io.hpp'
SEP = [1001, 1002]


def digsum(tag, n, tail=True, lead=True):
    """d1.d2...dn + tail * 10^-(n-1)"""
    t = ZERO
    for i in range(n):
        d = sym('%s%d' % (tag, i + 1), 0 if i == 0 and lead else -1, 10, True)
        t = cas.add(t, cas.mul(d, num(Fraction(10) ** -i)))
    if tail:
        t = cas.add(t, cas.mul(sym(tag + 'f', 0, 1), num(Fraction(10) ** -(n - 1))))
    return t


def p10(e):
    return num(Fraction(10) ** e)


class Bad(Exception):
    pass


def isnumchar(x):
    return x.__class__ is Num or x.__class__ is int and 48 <= x <= 57


def parse_number(cs, i):
    """returns (negative, [digit expressions], digits after the dot, next index)"""
    negative = False
    if i < len(cs) and cs[i] == 45:
        negative = True
        i += 1
    a, b, dot = [], [], False
    while i < len(cs):
        if isnumchar(cs[i]):
            d = cas.sub(num(cs[i]), num(48))
            (b if dot else a).append(d)
        elif cs[i] == 46 and not dot:
            dot = True
        else:
            break
        i += 1
    if not a:
        raise Bad('a number without integer part')
    if dot and not b:
        raise Bad('a decimal point without digits after it')
    return negative, a + b, len(b), i


def parse_exp(cs, i):
    if i >= len(cs) or cs[i] != 101:
        raise Bad('exponent expected')
    i += 1
    if i >= len(cs) or cs[i] not in (43, 45):
        raise Bad('exponent without sign')
    neg = cs[i] == 45
    i += 1
    v = 0
    k = 0
    while i < len(cs) and cs[i].__class__ is int and 48 <= cs[i] <= 57:
        v = v * 10 + cs[i] - 48
        i += 1
        k += 1
    if not k:
        raise Bad('exponent without digits')
    return (-v if neg else v), i


def shown(cs):
    return ''.join('<sep>' if x == SEP[0] else '' if x == SEP[1] else chr(x) if x.__class__ is int else
                   'd' for x in cs)


def point(facts, syms, rng):
    """a point of the region: symbols fixed one after the other, bounds propagated in between"""
    fs = list(facts)
    env = {}
    b = digits.box(fs)
    if b is None:
        return None
    order = sorted(set(syms) | set(b), key=lambda a: (not cas.ATOMS[a][4], a))
    ints = [a for a in order if cas.ATOMS[a][4]]
    rng.shuffle(ints)
    order = ints + [a for a in order if not cas.ATOMS[a][4]]
    for at in order:
        for attempt in range(12):
            x = b.get(at) or digits.dom(at)
            if cas.ATOMS[at][4]:
                v = Fraction(rng.randint(int(x[0]), int(x[2])))
            else:
                v = x[0] + (x[2] - x[0]) * Fraction(rng.randint(1, 9999), 10000) if x[2] > x[0] else x[0]
            t = fs + [('==', cas.sub(Num({((at, 1),): 1}), num(v)))]
            nb = digits.box(t)
            if nb is not None:
                fs, b = t, nb
                env[at] = v
                break
        else:
            return None
    for o, f in facts:
        if not digits.decide(o, value(f, env, True), []):
            return None
    return env


def value(a, env, as_num=False):
    t = Fraction(0)
    for m, c in a.d.items():
        if m == ():
            t += Fraction(c)
        else:
            t += Fraction(c) * env[m[0][0]]
    return num(t) if as_num else t


def points(facts, exprs, n=6, seed=1):
    rng = random.Random(seed)
    syms = set()
    for e in exprs:
        if isinstance(e, Num):
            syms |= e.deep_syms()
    out = []
    for _ in range(n * 3):
        p = point(facts, syms, rng)
        if p is not None:
            out.append(p)
            if len(out) >= n:
                break
    return out


def within(c, o, printed, true, unit, what, pts):
    """|printed - true| <= unit / 2 on the whole path"""
    half = num(Fraction(unit) / 2)
    d = cas.sub(printed, true)
    c.compared += 1
    for e in (cas.sub(d, half), cas.sub(cas.neg(d), half)):
        r = digits.decide('<=', e, o.st.facts)
        if r is True:
            c.how['bounds'] = c.how.get('bounds', 0) + 1
            continue
        w = [p for p in pts if value(e, p) > Fraction(unit) / 10 ** 6]
        if w or r is False:
            p = (w or pts)[0]
            c.violation('%s: %s is printed for %s' % (what, float(value(printed, p)), float(value(true, p))), LOC)
            return False
        c.undecided('%s: accuracy of the printed digits' % what)
        return False
    return True


def number(cs, i, exps):
    n, ds, k, i = parse_number(cs, i)
    return n, ds, k, i


def digitvalue(ds, k, e):
    v = ZERO
    for j, d in enumerate(ds):
        v = cas.add(v, cas.mul(d, p10(len(ds) - 1 - j - k + e)))
    return v


def plain_number(cs, i, end):
    """tostring: number with optional own exponent; returns (negative, digits, last place, value)"""
    n, ds, k, j = parse_number(cs, i)
    e = 0
    if j < end:
        e, j = parse_exp(cs, j)
    if j != end:
        raise Bad('unexpected characters after a number')
    return n, ds, e - k, digitvalue(ds, k, e)


def digit_ranges(c, o, ds, what, pts):
    for d in ds:
        c.compared += 1
        for e in (cas.neg(d), cas.sub(d, num(9))):
            r = digits.decide('<=', e, o.st.facts)
            if r is True:
                continue
            w = [p for p in pts if value(e, p) > 0]
            if w or r is False:
                c.violation('%s: a character that is not a digit' % what, LOC)
                return False
            c.undecided('%s: digit range' % what)
            return False
    return True


def redundant(ds, k):
    """leading zeros before the dot"""
    return len(ds) - k > 1 and ds[0].const() == 0


def split_sep(cs):
    pos = [i for i in range(len(cs) - 1) if cs[i:i + 2] == SEP]
    if len(pos) != 1 or sum(1 for x in cs if x in SEP and x.__class__ is int) != 2:
        raise Bad('the separator occurs %d times' % len(pos))
    return pos[0]


def log10frac(q):
    e = digits.dec(q)
    m = q / Fraction(10) ** e
    with mpmath.workdps(40):
        return mpmath.log10(mpmath.mpf(m.numerator) / m.denominator)


def expected_digits(s, errdig):
    """documented number of digits of a concrete error; None near a threshold"""
    n = int(errdig)
    f = Fraction(errdig) - n

    def naive(x):
        l = log10frac(x)
        if abs(l - mpmath.mpf(f.numerator) / f.denominator) < mpmath.mpf(10) ** -6 and f:
            return None
        return n + (1 if l < mpmath.mpf(f.numerator) / f.denominator else 0)
    k = naive(s)
    if k is None:
        return None
    e = digits.dec(s)
    u = Fraction(10) ** (e - k + 1)
    q = s / u
    r = q.numerator // q.denominator
    if q - r == Fraction(1, 2):
        return None
    if q - r > Fraction(1, 2):
        r += 1
    r = r * u
    if r > s:
        k2 = naive(r)
        if k2 is None:
            return None
        if k2 > k:
            k = k2
    return k


def check_pair(c, o, cs, mu, s, neg, errdig, what):
    pts = points(o.st.facts, [x for x in (mu, s) if isinstance(x, Num)])
    if not pts:
        c.notes.append('no point found: %s' % what)
        return
    p0 = pts[0]
    at = '%s (for instance %.12g +- %.12g) gives %s' % (what, float(value(mu, p0)), float(value(s, p0)), shown(
        [int(48 + value(cas.sub(x, num(48)), p0)) if x.__class__ is Num else x for x in cs]))
    if strs.TEXT in cs:
        c.undecided('%s: unknown text' % what)
        return
    try:
        split_sep(cs)
        i = 0
        par = cs[0] == 40
        if par:
            i = 1
        n1, d1, k1, i = parse_number(cs, i)
        if cs[i:i + 2] != SEP:
            raise Bad('mean is not followed by the separator')
        i += 2
        n2, d2, k2, i = parse_number(cs, i)
        e = 0
        if par:
            if i >= len(cs) or cs[i] != 41:
                raise Bad('closing parenthesis expected')
            e, i = parse_exp(cs, i + 1)
        if i != len(cs):
            raise Bad('unexpected characters at the end')
        if redundant(d1, k1) or redundant(d2, k2):
            raise Bad('redundant leading zeros')
    except Bad as b:
        c.compared += 1
        c.violation('%s: %s' % (at, b), LOC)
        return
    c.compared += 3
    if k1 != k2:
        c.violation('%s: mean and error end at different decimal places' % at, LOC)
        return
    if n2:
        c.violation('%s: negative error' % at, LOC)
        return
    if n1 != neg:
        c.violation('%s: wrong sign of the mean' % at, LOC)
        return
    if not digit_ranges(c, o, d1 + d2, at, pts):
        return
    unit = Fraction(10) ** (e - k1)
    v1, v2 = digitvalue(d1, k1, e), digitvalue(d2, k2, e)
    if n1:
        v1 = cas.neg(v1)
    # the last printed place is where the error has the documented number of digits
    if not within(c, o, v2, s, unit, at, pts):
        return
    if not within(c, o, v1, mu, unit, at, pts):
        return
    for p in pts:
        sv = value(s, p)
        k = expected_digits(sv, errdig)
        if k is None:
            continue
        ev = value(v2, p)
        if ev <= 0:
            c.violation('%s: the error is printed as %s' % (at, float(ev)), LOC)
            return
        got = digits.dec(ev) - (e - k1) + 1
        c.compared += 1
        if got != k:
            c.violation('%s: %s printed with %d digits instead of %d' % (at, float(sv), got, k), LOC)
            return


def run_format(c, F, name, obj, errdig, sep=True, vm=None):
    args = [obj]
    if errdig is not None:
        args.append(num(Fraction(errdig)))
    if sep:
        f = F.fn(name)
        args.append(strs.mk(vm.unref(f['params'][2]['t']), list(SEP)))
    for o in call(vm, F, name, args):
        if digits.box(o.st.facts) is None:
            continue
        c.paths += 1
        yield o


def text_of(o):
    return strs.chars(o.value)


def outcome_bad(c, o, what, exprs):
    if o.kind == 'ret':
        return False
    pts = points(o.st.facts, exprs)
    if not pts:
        return True
    p = pts[0]
    c.compared += 1
    c.violation('%s (for instance %s) ends with %s %s' % (what, ', '.join('%.12g' % float(value(x, p)) for x in exprs),
                                                         o.kind, o.value), LOC)
    return True


def pair_task(F, name, E, delta, errdig, neg, make, exact=0):
    def run(c):
        digits.ON[0] = 1
        vm = F.vm()
        ns = int(errdig) + (1 if errdig != int(errdig) else 0)
        s = cas.mul(digsum('s', ns), p10(E))
        if delta is None:
            mu = ZERO
        else:
            nm = max(1, ns + delta + 1)
            mu = cas.mul(digsum('m', exact or nm, not exact), p10(E + delta))
            if neg:
                mu = cas.neg(mu)
        what = 'format with %s digits' % errdig
        for o in run_format(c, F, name, make(F, vm, mu, s), errdig, vm=vm):
            if outcome_bad(c, o, what, [mu, s]):
                continue
            check_pair(c, o, text_of(o), mu, s, neg, errdig, what)
        account(c, vm)
        c.sample = 'error d.dd e%d, mean at 10^%s, %s digits: %d paths' % (E, delta, errdig, c.paths)
    return run


def indep(F, vm, mu, s):
    return F.indep(vm, K[0], s, mu)


def second(F, vm, mu, s):
    return F.make(vm, mu, {K[0]: (s, ZERO, momsyms(K[0]))}, {})


def second_task(F, E, delta, neg):
    """second-order classes: error is one digit, no tail, so that its square root is exact"""
    def run(c):
        digits.ON[0] = 0
        vm = F.vm()
        s = cas.mul(sym('s1', 0, 10, True), p10(E))
        mu = cas.mul(digsum('m', 2 + delta + 1), p10(E + delta))
        if neg:
            mu = cas.neg(mu)
        obj = second(F, vm, mu, s)
        digits.ON[0] = 1
        what = 'format of a second-order variable'
        for o in run_format(c, F, 'w_format', obj, Fraction(3, 2), vm=vm):
            if outcome_bad(c, o, what, [mu, s]):
                continue
            check_pair(c, o, text_of(o), mu, s, neg, Fraction(3, 2), what)
        account(c, vm)
        c.sample = '%sw_format: %d paths' % (F.prefix, c.paths)
    return run


SPECIALS = {'nan': NAN, 'inf': cas.INF, '-inf': cas.NINF}


def check_single(c, o, cs, x, neg, what, pts):
    """text of a value without error"""
    if isinstance(x, Special):
        want = [ord(ch) for ch in repr(x).replace('+', '')]
        c.compared += 1
        if cs != want:
            c.violation('%s: %s printed as %s' % (what, x, shown(cs)), LOC)
        return
    if not x.d:
        c.compared += 1
        try:
            n, ds, place, v = plain_number(cs, 0, len(cs))
            if n or v.const() != 0:
                raise Bad('zero expected')
        except Bad as b:
            c.violation('%s: 0 printed as %s (%s)' % (what, shown(cs), b), LOC)
        return
    try:
        n, ds, place, v = plain_number(cs, 0, len(cs))
    except Bad as b:
        c.compared += 1
        c.violation('%s: %s: %s' % (what, shown(cs), b), LOC)
        return
    c.compared += 1
    if n != neg:
        c.violation('%s: %s: wrong sign' % (what, shown(cs)), LOC)
        return
    if not digit_ranges(c, o, ds, what, pts):
        return
    if n:
        v = cas.neg(v)
    if not within(c, o, v, x, Fraction(10) ** place, '%s: %s' % (what, shown(cs)), pts):
        return
    # six digits are printed
    for p in pts:
        a = abs(value(x, p))
        c.compared += 1
        if place > digits.dec(a) - 4:
            c.violation('%s: %s printed with %d digits' % (what, shown(cs), digits.dec(a) - place + 1), LOC)
            return


def single_task(F, name, which, E, neg, sval):
    """values without a positive finite error"""
    def run(c):
        digits.ON[0] = 1
        vm = F.vm()
        if E is None:
            mu = SPECIALS.get(which, ZERO)
        else:
            mu = cas.mul(digsum('m', 6), p10(E))
            if neg:
                mu = cas.neg(mu)
        s = {'0': ZERO, 'nan': NAN, 'inf': cas.INF}.get(sval)
        if s is None:
            s = cas.mul(digsum('s', 6), p10(int(sval)))
        if name[0] == 'd':
            obj = mu
            s = ZERO
        else:
            obj = F.const(vm, mu) if sval == '0' else F.indep(vm, K[0], s, mu)
        what = '%s of mean %s and error %s' % (name, which if E is None else '%sd.d...e%d' % ('-' if neg else '', E), sval)
        for o in run_format(c, F, name, obj, Fraction(3, 2), vm=vm):
            if outcome_bad(c, o, what, [x for x in (mu, s) if isinstance(x, Num)]):
                continue
            cs = text_of(o)
            pts = points(o.st.facts, [mu, s])
            if not pts:
                continue
            if strs.TEXT in cs:
                c.undecided('%s: unknown text' % what)
                continue
            try:
                p = split_sep(cs)
            except Bad as b:
                c.compared += 1
                c.violation('%s: %s: %s' % (what, shown(cs), b), LOC)
                continue
            check_single(c, o, cs[:p], mu, neg, what, pts)
            check_single(c, o, cs[p + 2:], s, False, what, pts)
        account(c, vm)
        c.sample = what
    return run


def stream_task(F, names, build):
    """the stream operator writes what format gives with default arguments"""
    def run(c):
        digits.ON[0] = 1
        vm = F.vm()
        res = [[], []]
        for s in (Q(27, 1000), Q(5, 10), Q(97, 1000), Q(2), Q(3161, 10), Q(3163, 10), Q(0)):
            for i, n in enumerate(names):
                res[i] += call(vm, F, n, [build(vm, num(s))])
        for a in zip(*res):
            c.paths += 1
            c.compared += 1
            if any(o.kind != 'ret' for o in a):
                c.violation('%s ends with %s' % (names, [o.kind for o in a]), LOC)
                continue
            ts = [text_of(o) for o in a]
            if any(strs.TEXT in t for t in ts):
                c.undecided('text written to a stream not followed')
                continue
            if ts[0] != ts[1]:
                c.violation('%s: %s, but %s: %s' % (names[0], shown(ts[0]), names[1], shown(ts[1])), LOC)
        if len({len(r) for r in res}) != 1:
            c.undecided('different case distinctions')
        account(c, vm)
        c.sample = '%s against %s' % tuple(names)
    return run


def tasks():
    P = program('io.cpp')
    F = First(P)
    ts = []
    # mean whose scaled value exceeds the range of the type: two digits
    for E, d in ((-10, 310), (-320, 321), (-5, 311)):
        for neg in (False, True):
            ts.append(Task('huge/e%d/d%d%s' % (E, d, '-' if neg else '+'),
                           pair_task(F, 'u_format', E, d, Q(3, 2), neg, indep, exact=2)))
    es = (-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5) if not THOROUGH else tuple(range(-12, 13))
    errs = (Q(1), Q(3, 2), Q(2), Q(5, 2))
    if THOROUGH:
        errs += (Q(5, 4), Q(7, 4), Q(3), Q(7, 2), Q(4))
    ds = (-4, -3, -2, -1, 0, 1, 2, 3, 4) if not THOROUGH else tuple(range(-6, 9))
    for E in es:
        for er in errs:
            for d in ds:
                for neg in ((False, True) if THOROUGH or E in (-3, 0, 1) else (bool((E + d) % 2),)):
                    ts.append(Task('pair/e%d/d%d/%s/%s' % (E, d, er, '-' if neg else '+'),
                                   pair_task(F, 'u_format', E, d, er, neg, indep)))
            ts.append(Task('zero/e%d/%s' % (E, er), pair_task(F, 'u_format', E, None, er, False, indep)))
    far = ((20, 0), (20, 2), (-20, 1), (99, 1), (-99, 2), (300, 0), (300, -3), (-300, 1), (-315, 1), (-319, 0), (-306, 1), (-303, 2), (0, 9), (0, -9),
           (-9, 9), (300, 1), (-310, 5))
    for E, d in far:
        for er in (Q(1), Q(3, 2), Q(2)):
            for neg in (False, True):
                ts.append(Task('far/e%d/d%d/%s/%s' % (E, d, er, '-' if neg else '+'),
                               pair_task(F, 'u_format', E, d, er, neg, indep)))
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        for E, d in ((0, 1), (-3, 2), (4, 0), (-9, 3)):
            for neg in (False, True):
                ts.append(Task('second/%s/e%d/d%d/%s' % (mode, E, d, '-' if neg else '+'), second_task(G, E, d, neg)))
        ts.append(Task('stream/%s' % mode, stream_task(G, ('w_format0', 'w_stream'),
                                                       lambda vm, s, G=G: second(G, vm, num(Q(314159, 100)), s))))
    ts.append(Task('stream/first', stream_task(F, ('u_format0', 'u_stream'),
                                               lambda vm, s: indep(F, vm, num(Q(314159, 100)), s))))
    for E in (-320, -20, -7, -3, -2, -1, 0, 1, 3, 4, 5, 6, 7, 12, 300):
        for neg in (False, True):
            for n in ('u_format', 'd_format'):
                ts.append(Task('single/%s/e%d%s' % (n, E, '-' if neg else '+'), single_task(F, n, '', E, neg, '0')))
            ts.append(Task('single/sinf/e%d%s' % (E, '-' if neg else '+'), single_task(F, 'u_format', '', E, neg, 'inf')))
            ts.append(Task('single/snan/e%d%s' % (E, '-' if neg else '+'), single_task(F, 'u_format', '', E, neg, 'nan')))
    for w in ('nan', 'inf', '-inf', 'zero'):
        for s in ('0', 'nan', 'inf') + (('-3', '8') if w != 'zero' else ()):
            ts.append(Task('special/%s/%s' % (w, s), single_task(F, 'u_format', w, None, False, s)))
        ts.append(Task('special/plain/%s' % w, single_task(F, 'd_format', w, None, False, '0')))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C22', lambda: main('C22', tasks(), RULE, floors={'pair': 20, 'single': 4}, assumptions=[
        'real arithmetic: numbers that need more digits than the type holds are printed up to rounding',
        'standard error between 1e-323 and 1e308'])))
