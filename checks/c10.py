"""C10: the propagated moments are the exact moments of the stored quadratic form."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from runner import Task, main, guard, THOROUGH
from c09 import patterns, pname, chunks, same2

RULE = ('abstract interpretation of m, n, s, skew, kurt, var, nom, sdev of UReal2 on symbolic gradients, half-Hessians and '
        'stored moments for every sparsity pattern; the returned expression must equal, in the canonical-form domain, the '
        'moment obtained by expanding the power of the quadratic form and taking expectations variable by variable')


# ---- oracle: polynomial in the standardised variables, expectation term by term
def form(grad, hess):
    """{exponents: coefficient}, exponents = sorted tuple of (key name, power)"""
    q = {}

    def put(ks, v):
        e = {}
        for k in ks:
            e[k.name] = e.get(k.name, 0) + 1
        t = tuple(sorted(e.items()))
        q[t] = cas.add(q[t], v) if t in q else v
    for k, v in grad.items():
        put([k], v)
    for (a, b), v in hess.items():
        put([a, b], v if a is b else cas.mul(num(2), v))
    return q


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            e = dict(a)
            for k, n in b:
                e[k] = e.get(k, 0) + n
            t = tuple(sorted(e.items()))
            r.setdefault(t, []).append(cas.mul(x, y))
    return {t: total(v) for t, v in r.items()}


def total(l):
    while len(l) > 1:
        l = [cas.add(l[i], l[i + 1]) if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
    return l[0] if l else ZERO


def expect(p, mom):
    """expectation: independent variables, mean 0, variance 1, moments mom[name] = [v3..v8]"""
    ts = []
    for e, v in p.items():
        for k, n in e:
            if n == 1:
                v = None
                break
            if n > 2:
                v = cas.mul(v, mom[k][n - 3])
        if v is not None:
            ts.append(v)
    return total(ts)


def raw(grad, hess, mom, n):
    mm = {k.name: v for k, v in mom.items()}
    q = form(grad, hess)
    p = {(): num(1)}
    for _ in range(n):
        p = pmul(p, q)
    return expect(p, mm)


def central(grad, hess, mom, n):
    """central moment by centring the form first (not by the raw-moment formula)"""
    m1 = raw(grad, hess, mom, 1)
    if n == 1:
        return m1
    r = [num(1), m1] + [raw(grad, hess, mom, i) for i in range(2, n + 1)]
    ts = []
    for i in range(n + 1):
        b = 1
        for j in range(i):
            b = b * (n - j) // (j + 1)
        t = cas.mul(num(b), r[n - i])
        for _ in range(i):
            t = cas.mul(t, cas.neg(m1))
        ts.append(t)
    return total(ts)


OUT = {1: ['m1', 'n', 'nom'], 2: ['m2', 's', 'sdev', 'var'], 3: ['m3', 'skew'], 4: ['m4', 'kurt']}


def one(c, F, p, want, label=None, mean=None, zero=()):
    vm = F.vm()
    x = build2(F, vm, p[0], p[1], 'x')
    mean, grad, hess, mom = x[1:5]
    cache = {}

    def mu(n):
        if n not in cache:
            cache[n] = central(grad, hess, mom, n)
        return cache[n]
    before = F.read(x[0])
    for w in want:
        if w[0] == 'm' and w[1:].isdigit():
            fn, args, exp = 'w_m', [cas.num(int(w[1:]))], lambda: mu(int(w[1:]))
        elif w in ('n', 'nom'):
            fn, args = 'w_' + w, []
            exp = lambda: cas.add(mean, cas.mul(num(F.sign), mu(1)))
        elif w in ('s', 'sdev'):
            fn, args, exp = 'w_' + w, [], lambda: cas.power(mu(2), Fraction(1, 2))
        elif w == 'var':
            fn, args, exp = 'w_var', [], lambda: mu(2)
        elif w == 'skew':
            fn, args, exp = 'w_skew', [], lambda: cas.div(mu(3), cas.mul(cas.power(mu(2), Fraction(1, 2)), mu(2)))
            alt = lambda: cas.div(cas.div(mu(3), mu(2)), cas.power(mu(2), Fraction(1, 2)))
        else:
            fn, args, exp = 'w_kurt', [], lambda: cas.div(mu(4), cas.mul(mu(2), mu(2)))
            alt = lambda: cas.div(cas.div(mu(4), mu(2)), mu(2))
        st = newstate()
        st.roots['x'] = x[0]
        a = [x[0]] + ([int(w[1:])] if fn == 'w_m' else [])
        loc = where(F, fn)
        for o in call(vm, F, fn, a, st):
            if infeasible(o):
                continue
            c.paths += 1
            what = '%s of a variable with pattern %s' % (w, pname(p))
            if badout(c, o, what):
                continue
            ex = exp()
            if w in ('skew', 'kurt') and not isinstance(o.value, cas.Special) and o.value == alt():
                ex = alt()       # the same value written with two divisions
            eq(c, o.value, ex, o.st.facts, what, loc)
            same2(c, F, o, o.st.roots['x'], before, what, loc)
    account(c, vm)


def task(F, pats, want):
    def run(c):
        for p in pats:
            one(c, F, p, want)
        c.sample = '%s on pattern %s and %d more' % ('/'.join(want), pname(pats[-1]), len(pats) - 1)
    return run


def wide():
    """patterns with five and six variables"""
    out = []
    for n in (5, 6):
        ks = tuple(range(n))
        full = tuple(itertools.combinations(ks, 2))
        cyc = tuple(sorted(tuple(sorted((i, (i + 1) % n))) for i in range(n)))
        star = tuple((0, i) for i in range(1, n))
        rstar = tuple((i, n - 1) for i in range(n - 1))
        out += [(ks, ()), (ks, cyc), (ks, star), (ks, rstar), (ks, full[::2]), (ks, full[1::2])]
        if n == 5 or THOROUGH:
            out.append((ks, full))
    return out


def tasks():
    P = program('second.cpp')
    ts = []
    pats = patterns(4)
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        for n in (1, 2, 3):
            for ch in chunks(pats, 12):
                ts.append(Task('m%d/%s/%s..' % (n, mode, pname(ch[0])), task(F, ch, OUT[n])))
        for ch in chunks(pats, 4):
            ts.append(Task('m4/%s/%s..' % (mode, pname(ch[0])), task(F, ch, OUT[4])))
        for p in wide():
            for n in (1, 2, 3) + ((4,) if mode == 'est' or THOROUGH else ()):
                ts.append(Task('wide-m%d/%s/%s' % (n, mode, pname(p)), task(F, [p], OUT[n])))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C10', lambda: main('C10', tasks(), RULE, floors={'m1': 1, 'm2': 1, 'm3': 1, 'm4': 1}, assumptions=[
        'real arithmetic: rounding is not modelled',
        'every sparsity pattern over up to four variables (no moment up to the fourth couples more than four), selected '
        'patterns over five and six'])))
