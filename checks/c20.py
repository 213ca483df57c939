"""C20: named distributions carry their true first eight moments; moment conversions are exact."""
import os
import sys
from math import comb, factorial
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
from runner import Task, main, guard, THOROUGH
from c10 import total

RULE = ('abstract interpretation of the distribution factories on symbolic parameters (also repeated in one history with '
        'different parameters) and of the moment conversions on symbolic moments; mean, scale and standardised moments 3 to 8 '
        'must equal, in the canonical-form domain, those derived independently from cumulants or integrals')


def cumulants_to_central(kap):
    """central moments 0..8 from cumulants kap[1..8] (kap[1] ignored)"""
    m = [num(1), ZERO]
    for n in range(2, 9):
        ts = []
        for j in range(2, n + 1):
            ts.append(cas.mul(num(comb(n - 1, j - 1)), cas.mul(kap[j], m[n - j])))
        m.append(total(ts))
    return m


def standardise(m):
    s = cas.power(m[2], Fraction(1, 2))
    return [cas.div(m[i], cas.power(m[2], Fraction(i, 2))) for i in range(3, 9)], s


def spec_normal(a):
    mu, sigma = a
    kap = [ZERO, mu, cas.mul(sigma, sigma)] + [ZERO] * 6
    return mu, sigma, standardise(cumulants_to_central([ZERO, ZERO, num(1)] + [ZERO] * 6))[0]


def spec_chi(a):
    k = a[0]
    kap = [ZERO] + [cas.mul(num(2 ** (n - 1) * factorial(n - 1)), k) for n in range(1, 9)]
    m = cumulants_to_central(kap)
    std, s = standardise(m)
    return k, s, std


def spec_uni(a):
    l, r = a
    w = cas.sub(r, l)
    half = num(Fraction(1, 2))
    mean = cas.mul(half, cas.add(l, r))
    # integral of t^n over [-1/2, 1/2]
    m = [num(1)] + [num(Fraction(1, 2 ** n * (n + 1))) if n % 2 == 0 else ZERO for n in range(1, 9)]
    std, s = standardise(m)
    return mean, cas.mul(s, w), std


def params(which, tag):
    if which == 'normal':
        return [sym('mu' + tag), sym('sigma' + tag, 0)]
    if which == 'chisquare':
        return [sym('k' + tag, 0, None, True)]
    l = sym('l' + tag)
    return [l, cas.add(l, sym('w' + tag, 0))]


SPEC = {'normal': spec_normal, 'chisquare': spec_chi, 'uniform': spec_uni}


def compare(c, F, o, key, want, what, loc):
    r = F.read(o.value if key is None else key)
    facts = o.st.facts
    if len(r.grad) != 1:
        c.compared += 1
        c.violation('%s: the result depends on %d variables' % (what, len(r.grad)), loc)
        return
    k = list(r.grad)[0]
    eq(c, r.mean, want[0], facts, what + ': mean', loc)
    eq(c, r.grad[k], want[1], facts, what + ': standard deviation', loc)
    for h in r.hess:
        eq(c, r.hess[h], ZERO, facts, what + ': second derivative', loc)
    for i in range(6):
        eq(c, r.mom[k][i], want[2][i], facts, '%s: standardised moment %d' % (what, i + 3), loc)


def dist_task(F, which):
    def run(c):
        eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [num(1)] * k}
        vm = F.vm()
        loc = where(F, 'w_' + which)
        a = params(which, '')
        for o in call(vm, F, 'w_' + which, a):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, which):
                continue
            compare(c, F, o, None, SPEC[which](a), which, loc)
            # a second and third construction later in the same history
            b = params(which, '2')
            st = o.st.clone()
            st.frames = []
            for o2 in call(vm, F, 'w_' + which, b, st):
                if infeasible(o2):
                    continue
                c.paths += 1
                what = which + ' after another one'
                if badout(c, o2, what):
                    continue
                compare(c, F, o2, None, SPEC[which](b), what, loc)
        account(c, vm)
        c.sample = which + ': mean, standard deviation and six moments for all parameters, twice in one history'
    return run


def special_task(F):
    def run(c):
        eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [num(1)] * k}
        vm = F.vm()
        loc = where(F, 'w_chisquare')
        for o in call(vm, F, 'w_chisquare', [0]):
            c.paths += 1
            if badout(c, o, 'chisquare(0)'):
                continue
            r = F.read(o.value)
            eq(c, r.mean, ZERO, o.st.facts, 'chisquare(0): mean', loc)
            c.compared += 1
            if r.grad and any(v is not ZERO for v in r.grad.values()):
                c.violation('chisquare(0) has an uncertainty', loc)
        for k in list(range(1, 12)) + [50, 1000, 2147483647]:
            for o in call(vm, F, 'w_chisquare', [k]):
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, 'chisquare(%d)' % k):
                    continue
                compare(c, F, o, None, spec_chi([num(k)]), 'chisquare(%d)' % k, loc)
        # degenerate parameters
        for fn, a, want in (('w_normal', [sym('mu'), ZERO], (sym('mu'), ZERO)), ('w_uniform', [sym('l'), sym('l')], (sym('l'), ZERO))):
            for o in call(vm, F, fn, a):
                if infeasible(o):
                    continue
                c.paths += 1
                what = '%s of zero width' % fn[2:]
                if badout(c, o, what):
                    continue
                r = F.read(o.value)
                eq(c, r.mean, want[0], o.st.facts, what + ': mean', where(F, fn))
                for k in r.grad:
                    eq(c, r.grad[k], ZERO, o.st.facts, what + ': standard deviation', where(F, fn))
        account(c, vm)
        c.sample = 'chisquare of 0, 1 to 11, 50, 1000 and the largest integer; zero-width normal and uniform'
    return run


def arr(vm, F, fn, vals):
    a = vm.storage(vm.unref(F.fn(fn)['params'][0]['t']), 0)
    for x, v in zip(a.items, vals):
        x.v = v
    return a


def conv_task(P):
    def run(c):
        F = First(P)
        vm = F.vm()
        # raw to central
        raw = [sym('z%d' % i) for i in range(1, 9)]
        m = [num(1)] + raw
        a = arr(vm, F, 'w_central', raw)
        loc = where(F, 'w_central')
        for o in call(vm, F, 'w_central', [a]):
            c.paths += 1
            if badout(c, o, 'central_moments'):
                continue
            for n in range(2, 9):
                want = total([cas.mul(num(comb(n, k) * (-1) ** (n - k)), cas.mul(m[k], cas.ipow(raw[0], n - k) if n > k else num(1)))
                              for k in range(n + 1)])
                eq(c, o.value.items[n - 2].v, want, o.st.facts, 'central moment %d from raw moments' % n, loc)
        cm = [sym('c2', 0)] + [sym('c%d' % i) for i in range(3, 9)]
        a = arr(vm, F, 'w_std', cm)
        loc = where(F, 'w_std')
        for o in call(vm, F, 'w_std', [a]):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, 'std_moments'):
                continue
            for n in range(3, 9):
                eq(c, o.value.items[n - 3].v, cas.div(cm[n - 2], cas.power(cm[0], Fraction(n, 2))), o.st.facts,
                   'standardised moment %d from central moments' % n, loc)
        account(c, vm)
        c.sample = 'central moments 2 to 8 from raw moments 1 to 8, standardised 3 to 8 from central'
    return run


def binom_task(P):
    def run(c):
        F = First(P)
        vm = F.vm()
        loc = where(F, 'w_binom')
        for n in range(9):
            for k in range(n + 1):
                for o in call(vm, F, 'w_binom', [n, k]):
                    c.paths += 1
                    if badout(c, o, 'binom_coeff(%d,%d)' % (n, k)):
                        continue
                    eq(c, o.value, num(comb(n, k)), o.st.facts, 'binom_coeff(%d,%d)' % (n, k), loc)
        account(c, vm)
        c.sample = 'all binomial coefficients up to order 8'
    return run


def tasks():
    P = program('misc.cpp')
    ts = []
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        for w in SPEC:
            ts.append(Task('distribution/%s/%s' % (mode, w), dist_task(F, w)))
        ts.append(Task('special/%s' % mode, special_task(F)))
    ts.append(Task('conversion/moments', conv_task(P)))
    ts.append(Task('conversion/binomial', binom_task(P)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C20', lambda: main('C20', tasks(), RULE, floors={'distribution': 2, 'conversion': 1}, assumptions=[
        'real arithmetic: rounding is not modelled', 'the eigenvalue solver of Eigen meets its contract'])))
