"""C26: constructors taking moments store mean, scale and moments faithfully."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
from runner import Task, main, guard, THOROUGH
from c25 import moments, args_of, CTOR

RULE = ('abstract interpretation of every constructor of UReal2 on symbolic mean, scale and moments followed by abstract '
        'interpretation of the observers on the result; mean, standard deviation, own gradient and Hessian, id, and the '
        'standardised moments used later must equal the given ones in the canonical-form domain')


def accept(k):
    return {'info': 0, 'values': [num(1)] * k}


def region(fn):
    """(name, scale value)"""
    return (('positive', None), ('zero', ZERO))


def one(c, F, fn, reg, thr):
    n = 7 if '7' in fn else 6
    vm = F.vm()
    eigen.SPEC['selfadjoint'] = accept
    arr, m = moments(vm, F, fn, n)
    a = args_of(fn, arr, thr)
    mean = a[0]
    if n == 6:
        s = sym('s', 0) if reg == 'positive' else ZERO
        a[1] = s
        std = m[3:]
    else:
        if reg == 'zero':
            for x in arr.items:
                x.v = ZERO
            m[2:] = [ZERO] * 7
            std = None
            s = ZERO
        else:
            s = cas.power(m[2], Fraction(1, 2))
            std = [cas.div(m[i], cas.power(m[2], Fraction(i, 2))) for i in range(3, 9)]
    loc = where(F, fn)
    what0 = '%s, %s standard deviation' % (fn, reg)
    for o in call(vm, F, fn, a):
        if infeasible(o):
            continue
        c.paths += 1
        if badout(c, o, what0):
            continue
        r = F.read(o.value)
        facts = o.st.facts
        if len(r.grad) != 1 or len(r.hess) != 1:
            c.compared += 1
            c.violation('%s: the result depends on %d variables with %d Hessian entries' % (what0, len(r.grad), len(r.hess)), loc)
            continue
        k = list(r.grad)[0]
        eq(c, r.mean, mean, facts, what0 + ': mean', loc)
        eq(c, r.grad[k], s, facts, what0 + ': scale', loc)
        eq(c, r.hess[(k, k)], ZERO, facts, what0 + ': own second derivative', loc)
        if std is not None and s is not ZERO:
            for i in range(6):
                eq(c, r.mom[k][i], std[i], facts, '%s: standardised moment %d' % (what0, i + 3), loc)
        # observers on the result
        for w, args, want in (
                ('w_fn', [], mean), ('w_n', [], mean), ('w_s', [], s), ('w_m', [2], cas.mul(s, s)),
                ('w_m', [1], ZERO),
                ('w_m', [3], cas.mul(std[0], cas.ipow(s, 3)) if std and s is not ZERO else ZERO),
                ('w_m', [4], cas.mul(std[1], cas.ipow(s, 4)) if std and s is not ZERO else ZERO),
                ('w_skew', [], std[0] if std and s is not ZERO else None), ('w_kurt', [], std[1] if std and s is not ZERO else None),
                ('w_grad', ['self'], num(1) if s is not ZERO else None), ('w_hess', ['self', 'self'], ZERO if s is not ZERO else None),
                ('w_isindep', [], num(1)), ('w_indepid', [], 'id')):
            if want is None:
                continue
            st = o.st.clone()
            st.frames = []
            obj = V.deep(o.value)
            st.roots['r'] = obj
            for o2 in call(vm, F, w, [obj] + [obj if x == 'self' else x for x in args], st):
                if infeasible(o2):
                    continue
                c.paths += 1
                what = '%s: %s%s' % (what0, w[2:], '(%s)' % args[0] if args else '()')
                if badout(c, o2, what):
                    continue
                if want == 'id':
                    c.compared += 1
                    if o2.value is not k:
                        c.violation('%s is %r instead of the id of the variable' % (what, o2.value), where(F, w))
                else:
                    eq(c, o2.value, want, o2.st.facts, what, where(F, w))
    account(c, vm)


def task(F, fn, reg, thr):
    def run(c):
        one(c, F, fn, reg, thr)
        c.sample = '%s, %s standard deviation: every observer of the new variable' % (fn, reg)
    return run


def const_task(F, fn):
    def run(c):
        vm = F.vm()
        mean = sym('n') if fn == 'w_make1' else ZERO
        for o in call(vm, F, fn, [mean] if fn == 'w_make1' else []):
            c.paths += 1
            loc = where(F, fn)
            if badout(c, o, fn):
                continue
            r = F.read(o.value)
            eq(c, r.mean, mean, o.st.facts, fn + ': mean', loc)
            c.compared += 1
            if r.grad or r.hess:
                c.violation('%s: a constant depends on variables' % fn, loc)
            for w, args, want in (('w_n', [], mean), ('w_s', [], ZERO), ('w_m', [1], ZERO), ('w_m', [2], ZERO), ('w_m', [3], ZERO),
                                  ('w_m', [4], ZERO), ('w_isindep', [], num(1)), ('w_indepid', [], num(0))):
                for o2 in call(vm, F, w, [o.value] + args):
                    c.paths += 1
                    what = '%s: %s' % (fn, w[2:])
                    if badout(c, o2, what):
                        continue
                    eq(c, o2.value, want, o2.st.facts, what, where(F, w))
        account(c, vm)
        c.sample = '%s: observers of a constant' % fn
    return run


def tasks():
    P = program('misc.cpp')
    ts = []
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        for fn in CTOR:
            for reg in ('positive', 'zero'):
                for tn, t in (('t0', num(0)), ('t+', sym('t', 0)), ('t-', cas.neg(sym('t', 0)))):
                    if fn.endswith('d') and tn != 't0':
                        continue
                    ts.append(Task('moments/%s/%s/%s/%s' % (mode, fn, reg, tn), task(F, fn, reg, t)))
        for fn in ('w_make1', 'w_make0'):
            ts.append(Task('constant/%s/%s' % (mode, fn), const_task(F, fn)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C26', lambda: main('C26', tasks(), RULE, floors={'moments': 4, 'constant': 2}, assumptions=[
        'real arithmetic: rounding is not modelled', 'the eigenvalue solver of Eigen meets its contract'])))
