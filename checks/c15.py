"""C15: invalid input is always rejected with the documented exception, valid input never."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
import digits
import c18
import c19
import c25
import strs
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation with exception outcomes: every entry point with a documented precondition is run on abstract '
        'arguments partitioned exactly at the precondition (sign of the error, eigenvalue signs of the moments and position of '
        'the threshold, sizes, order of bounds, degrees of freedom, error digits); on the invalid side every path must end '
        'with an exception of the documented type before returning, on the valid side every path must return')

INV = 'std::invalid_argument'


def verdict(c, outs, exp, what, loc, digitmode=False):
    """exp: exception type or None"""
    n = 0
    for o in outs:
        if digitmode:
            if digits.box(o.st.facts) is None:
                continue
        elif infeasible(o):
            continue
        n += 1
        c.paths += 1
        c.compared += 1
        if exp is None:
            if o.kind != 'ret':
                c.violation('%s: valid input is rejected (%s %s)' % (what, o.kind, o.value), loc,
                            when=', '.join('%s %s 0' % (f, op) for op, f in o.st.facts)[:200])
        elif o.kind == 'ret':
            c.violation('%s: accepted' % what, loc, when=', '.join('%s %s 0' % (f, op) for op, f in o.st.facts)[:200])
        elif o.kind != 'throw' or not lib.catches(exp, o.value):
            c.violation('%s: ends with %s %s instead of %s' % (what, o.kind, o.value, exp), loc)
    if not n:
        c.undecided('%s: no path' % what)


def neg(v):
    return cas.neg(v)


SIGNS = (('negative', lambda: neg(sym('a', 0)), True), ('zero', lambda: ZERO, False), ('positive', lambda: sym('a', 0), False))


def sdev_task(F, sn, mk, bad, mean):
    def run(c):
        vm = F.vm()
        verdict(c, call(vm, F, 'u_make', [mean, mk()], newstate([])), INV if bad else None,
                'UReal(n, s) with %s s' % sn, where(F, 'u_make'))
        account(c, vm)
        c.sample = 'UReal(n, s) with %s s' % sn
    return run


def thresholds(good):
    t = sym('t', 0)
    return [('default', None), ('0', ZERO), ('positive', t), ('negative', neg(t))]


def sdev2_task(F, sn, mk, bad):
    def run(c):
        for tn, t in thresholds(True):
            vm = F.vm()
            fn = 'w_make6d' if t is None else 'w_make6'
            arr, m = c25.moments(vm, F, fn, 6)
            eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [num(1)] * k}
            a = [sym('n'), mk(), arr] + ([] if t is None else [t])
            what = '%s(n, s, moments) with %s s, threshold %s' % (F.prefix, sn, tn)
            verdict(c, call(vm, F, fn, a, newstate([])), INV if bad else None, what, where(F, fn))
            account(c, vm)
        c.sample = '%s(n, s, moments) with %s s, four thresholds' % (F.prefix, sn)
    return run


def moments_task(F, n, negs, zeros, sd=None):
    """realisability: the smallest eigenvalue is negative beyond the threshold or not"""
    def run(c):
        vals = c25.eigenvalues(negs, zeros, 5 - negs - zeros, False)
        for tn, t in thresholds(True):
            vm = F.vm()
            fn = 'w_make%d' % n + ('d' if t is None else '')
            if tn == 'positive' and negs:
                # a threshold below the ratio of the eigenvalues
                t = cas.div(neg(vals[0]), cas.mul(num(2), vals[-1])) if vals[-1].d and negs + zeros < 5 else ZERO
            arr, m = c25.moments(vm, F, fn, n)
            eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': list(vals)}
            a = [sym('n')] + ([sym('s', 0) if sd is None else sd] if n == 6 else []) + [arr] + ([] if t is None else [t])
            bad = negs > 0 and tn != 'negative'
            what = '%s with %d negative, %d zero eigenvalues of the moment matrix, threshold %s' % (fn, negs, zeros, tn)
            verdict(c, call(vm, F, fn, a, newstate([])), INV if bad else None, what, where(F, fn))
            account(c, vm)
        c.sample = '%sw_make%d: %d negative eigenvalues, four thresholds' % (F.prefix, n, negs)
    return run


def distr_task(F, fn, cases):
    def run(c):
        for cn, a, bad in cases:
            vm = F.vm()
            eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [num(1)] * k}
            what = '%s%s with %s' % (F.prefix, fn[2:], cn)
            verdict(c, call(vm, F, fn, a, newstate([])), INV if bad else None, what, where(F, fn))
            account(c, vm)
        c.sample = '%s%s: %s' % (F.prefix, fn, ', '.join(x[0] for x in cases))
    return run


def format_task(F, fn, build, cases):
    def run(c):
        digits.ON[0] = 1
        for cn, e, bad in cases:
            for s in (num(Fraction(37, 100)), ZERO, NAN):
                vm = F.vm()
                f = F.fn(fn)
                sep = strs.mk(vm.unref(f['params'][2]['t']), [44])
                what = '%s%s with %s error digits, error %s' % (F.prefix, fn, cn, s)
                verdict(c, call(vm, F, fn, [build(vm, s), e, sep]), INV if bad else None, what, 'uncertainties/io.hpp', True)
                account(c, vm)
        c.sample = '%s%s: %s error digits' % (F.prefix, fn, ', '.join(x[0] for x in cases))
    return run


def corr_task(F, n, m):
    def run(c):
        vm = F.vm()
        fn = 'w_corr2cov'
        a = [c18.vector(vm, F, fn, 0, c18.reals([sym('s%d' % i) for i in range(n)])),
             c18.vector(vm, F, fn, 1, c18.reals([sym('r%d' % i) for i in range(m)]))]
        verdict(c, call(vm, F, fn, a), INV if m != n * n else None, 'corr2cov of sizes %d, %d' % (n, m), where(F, fn))
        account(c, vm)
        c.sample = 'corr2cov of sizes %d, %d' % (n, m)
    return run


def ureals_task(F, n, m, info, positive):
    def run(c):
        def k(n):
            r = c19.contract(n, range(n), ())
            r['info'] = info
            r['positive'] = positive
            return r
        eigen.SPEC['ldlt'] = k
        vm = F.vm()
        what = 'ureals of sizes %d, %d%s%s' % (n, m, ', decomposition fails' if info else '', '' if positive else ', not positive')
        exp = INV if m != n * n else 'std::runtime_error' if n and (info or not positive) else None
        verdict(c, call(vm, F, 'w_ureals', [c19.vec(vm, F, 0, [sym('mu%d' % i) for i in range(n)]),
                                           c19.vec(vm, F, 1, [sym('c%d' % i) for i in range(m)])], newstate([])), exp, what,
                where(F, 'w_ureals'))
        account(c, vm)
        c.sample = what
    return run


def singular_task(F, n, zero):
    """positive semidefinite matrices of lower rank are valid"""
    def run(c):
        def k(n):
            return c19.contract(n, range(n), zero)
        eigen.SPEC['ldlt'] = k
        vm = F.vm()
        what = 'ureals of a %dx%d matrix with zero pivots %s' % (n, n, list(zero))
        verdict(c, call(vm, F, 'w_ureals', [c19.vec(vm, F, 0, [sym('mu%d' % i) for i in range(n)]),
                                           c19.vec(vm, F, 1, [sym('c%d' % i) for i in range(n * n)])], newstate([])), None, what,
                where(F, 'w_ureals'))
        account(c, vm)
        c.sample = what
    return run


def empty_task(F, fn):
    def run(c):
        vm = F.vm()
        f = F.fn(fn)
        a = [V.Arr(vm.unref(p['t']), []) for p in f['params']]
        verdict(c, call(vm, F, fn, a), None, '%s%s of an empty list' % (F.prefix, fn), where(F, fn))
        account(c, vm)
        c.sample = '%s%s of an empty list' % (F.prefix, fn)
    return run


def tasks():
    P = program('misc.cpp')
    F = First(P)
    ts = []
    for sn, mk, bad in SIGNS:
        for mean in (sym('n'), ZERO, neg(sym('n', 0))):
            ts.append(Task('sdev/first/%s/%d' % (sn, len(ts)), sdev_task(F, sn, mk, bad, mean)))
    Q = Fraction
    L = sym('l')
    w = sym('w', 0)
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        for sn, mk, bad in SIGNS:
            ts.append(Task('sdev/%s/%s' % (mode, sn), sdev2_task(G, sn, mk, bad)))
        for n in (6, 7):
            for ng in range(6):
                for z in (0, 1) if ng < 5 else (0,):
                    ts.append(Task('moments/%s/%d/%d-%d' % (mode, n, ng, z), moments_task(G, n, ng, z)))
                    if n == 6:
                        ts.append(Task('moments/%s/%d/%d-%d/zero-error' % (mode, n, ng, z), moments_task(G, n, ng, z, ZERO)))
        ts.append(Task('distr/%s/normal' % mode, distr_task(G, 'w_normal', [
            ('negative sigma', [sym('mu'), neg(w)], True), ('zero sigma', [sym('mu'), ZERO], False),
            ('positive sigma', [sym('mu'), w], False)])))
        ts.append(Task('distr/%s/uniform' % mode, distr_task(G, 'w_uniform', [
            ('left > right', [cas.add(L, w), L], True), ('left = right', [L, L], False), ('left < right', [L, cas.add(L, w)], False),
            ('left = right = 0', [ZERO, ZERO], False)])))
        ts.append(Task('distr/%s/chisquare' % mode, distr_task(G, 'w_chisquare', [
            ('%d degrees of freedom' % k, [k], k < 0) for k in (-2147483648, -1000, -2, -1, 0, 1, 2, 3, 1000, 2147483647)] +
            [('a negative number of degrees of freedom', [cas.neg(sym('k', 0, None, True))], True),
             ('a positive number of degrees of freedom', [sym('k', 0, None, True)], False)])))
        for fn in ('w_cov_v', 'w_corr_v', 'w_nom_v'):
            ts.append(Task('empty/%s/%s' % (mode, fn), empty_task(G, fn)))
    for fn in ('w_cov_v', 'w_corr_v', 'w_nom_v', 'w_corr2cov', 'w_ureals'):
        ts.append(Task('empty/first/%s' % fn, empty_task(F, fn)))
    for n in range(6 if THOROUGH else 4):
        sizes = sorted({0, 1, n, max(n * n - 1, 0), n * n, n * n + 1, n * (n + 1), 2 * n * n, max(n * n - n, 0)})
        for m in sizes:
            ts.append(Task('sizes/corr2cov/%d-%d' % (n, m), corr_task(F, n, m)))
            ts.append(Task('sizes/ureals/%d-%d' % (n, m), ureals_task(F, n, m, 0, True)))
            if n:
                ts.append(Task('semidefinite/%d-%d/failed' % (n, m), ureals_task(F, n, m, 1, True)))
                ts.append(Task('semidefinite/%d-%d/notpositive' % (n, m), ureals_task(F, n, m, 0, False)))
        for z in range(n):
            ts.append(Task('semidefinite/%d/rank-%d' % (n, z), singular_task(F, n, tuple(range(z, n)))))
    PI = program('io.cpp')
    FI = First(PI)
    cases = [('just below 1', num(1 - Q(1, 2 ** 24)), True), ('0.5', num(Q(1, 2)), True), ('0', ZERO, True), ('-0.5', num(Q(-1, 2)), True),
             ('-1', num(-1), True), ('-1.5', num(Q(-3, 2)), True), ('less than 1', sym('e', None, 1), True),
             ('-inf', cas.NINF, True),
             ('1', num(1), False), ('just above 1', num(1 + Q(1, 2 ** 23)), False), ('1.5', num(Q(3, 2)), False), ('2', num(2), False),
             ('9', num(9), False)]
    ts.append(Task('format/first', format_task(FI, 'u_format', lambda vm, s: FI.indep(vm, K[0], s, num(3)), cases)))
    ts.append(Task('format/plain', format_task(FI, 'd_format', lambda vm, s: num(Q(31, 10)), cases)))
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(PI, pre)
        ts.append(Task('format/%s' % mode, format_task(
            G, 'w_format', lambda vm, s, G=G: G.make(vm, num(3), {K[0]: (s, ZERO, [num(0)] * 6)}, {}), cases)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C15', lambda: main('C15', tasks(), RULE, floors={'sdev': 4, 'moments': 4, 'distr': 3, 'sizes': 6, 'format': 1}, assumptions=[
        'the decompositions of Eigen meet their contracts', 'real arithmetic: rounding is not modelled', 'NaN arguments are outside the statement'])))
