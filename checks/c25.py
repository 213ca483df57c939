"""C25: the realisability test builds the right matrix and decides rightly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of the moment-taking constructors with the eigenvalue solver replaced by its contract (reads '
        'the lower triangle, answers sorted eigenvalues); the triangle it reads must equal the 5x5 Hankel matrix of moments 0 '
        'to 8 entry by entry, and for every sign pattern of the eigenvalues and every position of the threshold the '
        'constructor must throw std::invalid_argument exactly when the moments are to be rejected')


def moments(vm, F, fn, n):
    """storage of the array parameter with symbolic contents; returns (object, [m0..m8])"""
    f = F.fn(fn)
    t = [vm.unref(p['t']) for p in f['params'] if vm.types[vm.unref(p['t'])]['k'] == 'rec'][0]
    a = vm.storage(t, 0)
    vs = [sym('m%d' % i, 0 if i == 2 else None) for i in range(9 - n, 9)]
    for x, v in zip(a.items, vs):
        x.v = v
    full = [num(1), num(0)] + ([num(1)] if n == 6 else []) + vs
    return a, full


def args_of(fn, arr, t):
    a = [sym('n')]
    if '6' in fn:
        a.append(sym('s', 0))
    a.append(arr)
    if not fn.endswith('d'):
        a.append(t)
    return a


CTOR = ('w_make7', 'w_make7d', 'w_make6', 'w_make6d')


def matrix_task(F, fn):
    def run(c):
        n = 7 if '7' in fn else 6
        vm = F.vm()
        arr, m = moments(vm, F, fn, n)
        eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [sym('e', 0)] * k}
        loc = 'uncertainties/internal/checkmoments.hpp'
        for o in call(vm, F, fn, args_of(fn, arr, sym('t', 0))):
            if infeasible(o):
                continue
            c.paths += 1
            ev = [e for e in o.st.events if e[0] == 'selfadjoint']
            c.compared += 1
            if not ev:
                c.violation('%s: the moments are not examined' % fn, loc)
                continue
            for e in ev:
                if e[1] != 5:
                    c.violation('%s: a %dx%d matrix is examined' % (fn, e[1], e[1]), loc)
                    continue
                for i, j, v in e[2]:
                    eq(c, v, m[i + j], o.st.facts, '%s: element (%d,%d) of the moment matrix' % (fn, i, j), loc)
        account(c, vm)
        c.sample = '%s: 15 elements of the moment matrix' % fn
    return run


def eigenvalues(neg, zero, pos, rep):
    """sorted ascending, differences strictly positive unless rep"""
    out = []
    for k in range(neg, 0, -1):
        v = ZERO
        for i in range(1 if rep else k):
            v = cas.add(v, sym('a%d' % i, 0))
        out.append(cas.neg(v))
    out += [ZERO] * zero
    for k in range(1, pos + 1):
        v = ZERO
        for i in range(1 if rep else k):
            v = cas.add(v, sym('b%d' % i, 0))
        out.append(v)
    return out


def decision_task(F, fn, neg, zero, pos, rep):
    def run(c):
        n = 7 if '7' in fn else 6
        vals = eigenvalues(neg, zero, pos, rep)
        thr = [('0', num(0), None)]
        if neg and pos:
            r = cas.neg(cas.div(vals[0], vals[-1]))
            thr += [('half the ratio', cas.div(r, num(2)), True), ('the ratio', r, False), ('twice the ratio', cas.mul(r, num(2)), False)]
        else:
            thr.append(('positive', sym('t', 0), None))
        thr.append(('negative', cas.neg(sym('t', 0)), 'off'))
        loc = 'uncertainties/internal/checkmoments.hpp'
        for tn, t, rej in thr:
            if fn.endswith('d') and tn != '0':
                continue
            if rej is None:
                rej = neg > 0
            vm = F.vm()
            arr, m = moments(vm, F, fn, n)
            eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': list(vals)}
            what = '%s with %d negative, %d zero, %d positive eigenvalues, threshold %s' % (fn, neg, zero, pos, tn)
            for o in call(vm, F, fn, args_of(fn, arr, t)):
                if infeasible(o):
                    continue
                c.paths += 1
                c.compared += 1
                if rej is True:
                    if o.kind == 'ret':
                        c.violation('%s: accepted' % what, loc)
                    elif o.kind != 'throw' or not lib.catches('std::invalid_argument', o.value):
                        c.violation('%s: ends with %s %s' % (what, o.kind, o.value), loc)
                elif o.kind != 'ret':
                    c.violation('%s: rejected (%s %s)' % (what, o.kind, o.value), loc)
            account(c, vm)
        c.sample = '%s: %d/%d/%d eigenvalues, thresholds %s' % (fn, neg, zero, pos, ', '.join(x[0] for x in thr))
    return run


def failure_task(F, fn):
    def run(c):
        vm = F.vm()
        arr, m = moments(vm, F, fn, 7 if '7' in fn else 6)
        eigen.SPEC['selfadjoint'] = lambda k: {'info': 2, 'values': [sym('e%d' % i) for i in range(k)]}
        what = '%s, eigenvalue computation fails' % fn
        for o in call(vm, F, fn, args_of(fn, arr, num(0))):
            c.paths += 1
            c.compared += 1
            if o.kind != 'throw' or not lib.catches('std::exception', o.value):
                c.violation('%s: ends with %s %s' % (what, o.kind, o.value), 'uncertainties/internal/checkmoments.hpp')
        account(c, vm)
        c.sample = what
    return run


def tasks():
    P = program('misc.cpp')
    ts = []
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        for fn in CTOR:
            ts.append(Task('matrix/%s/%s' % (mode, fn), matrix_task(F, fn)))
            ts.append(Task('failure/%s/%s' % (mode, fn), failure_task(F, fn)))
            for neg in range(6):
                for zero in range(6 - neg):
                    pos = 5 - neg - zero
                    for rep in (False, True):
                        if rep and max(neg, pos) < 2:
                            continue
                        ts.append(Task('decision/%s/%s/%d-%d-%d%s' % (mode, fn, neg, zero, pos, '-equal' if rep else ''),
                                       decision_task(F, fn, neg, zero, pos, rep)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C25', lambda: main('C25', tasks(), RULE, floors={'matrix': 1, 'decision': 4}, assumptions=[
        'the eigenvalue solver of Eigen meets its contract', 'real arithmetic: rounding is not modelled'])))
