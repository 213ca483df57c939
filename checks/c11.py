"""C11: covariance of second-order variables is the exact covariance of their quadratic forms."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from runner import Task, main, guard, THOROUGH
from c09 import patterns, pname, chunks, same2
from c10 import form, pmul, expect, total

RULE = ('abstract interpretation of cov, corr and var of UReal2 on two abstract sparse operands sharing any subset of '
        'variables; the returned expression must equal, in the canonical-form domain, E[XY]-E[X]E[Y] expanded term by term '
        'over independent standardised variables; corr must be cov/(s s)')


def covar(x, y):
    mm = {k.name: v for k, v in list(x[4].items()) + list(y[4].items())}
    p, q = form(x[2], x[3]), form(y[2], y[3])
    return cas.sub(expect(pmul(p, q), mm), cas.mul(expect(p, mm), expect(q, mm)))


def root(a):
    return cas.power(a, Fraction(1, 2))


def one(c, F, p, q, same, want):
    vm = F.vm()
    x = build2(F, vm, p[0], p[1], 'x')
    y = x if same else build2(F, vm, q[0], q[1], 'y')
    C = covar(x, y)
    bx, by = F.read(x[0]), F.read(y[0])
    for w in want:
        args = [x[0], y[0]]
        exp = C
        if w == 'var':
            args = [x[0]]
        elif w == 'corr':
            vx, vy = (C, C) if same else (covar(x, x), covar(y, y))
            if not vx.d or not vy.d:
                continue
            exp = num(1) if same else cas.div(C, cas.mul(root(vx), root(vy)))
        elif w == 'swap':
            args = [y[0], x[0]]
        fn = 'w_cov' if w == 'swap' else 'w_' + w
        st = newstate()
        st.roots['x'] = x[0]
        st.roots['y'] = y[0]
        loc = where(F, fn)
        what = '%s of patterns %s, %s%s' % ('cov (swapped)' if w == 'swap' else w, pname(p), pname(q), ' (same object)' if same else '')
        for o in call(vm, F, fn, args, st):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, what):
                continue
            eq(c, o.value, exp, o.st.facts, what, loc)
            same2(c, F, o, o.st.roots['x'], bx, what, loc)
            same2(c, F, o, o.st.roots['y'], by, what, loc)
    account(c, vm)


def task(F, prs, same, want):
    def run(c):
        for p, q in prs:
            one(c, F, p, q, same, want)
        c.sample = '%s of %s with %s%s and %d more pairs' % ('/'.join(want), pname(prs[-1][0]), pname(prs[-1][1]),
                                                            ' (same object)' if same else '', len(prs) - 1)
    return run


def tasks():
    P = program('second.cpp')
    ts = []
    pats = patterns(4)
    p3 = patterns(3)
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        prs = [(a, b) for a, b in itertools.product(pats, pats)] if THOROUGH or mode == 'est' else list(itertools.product(p3, p3))
        for ch in chunks(prs, 150):
            ts.append(Task('cov/%s/%s%s..' % (mode, pname(ch[0][0]), pname(ch[0][1])), task(F, ch, False, ['cov'])))
        for ch in chunks(list(itertools.product(p3, p3)), 40):
            ts.append(Task('corr/%s/%s%s..' % (mode, pname(ch[0][0]), pname(ch[0][1])), task(F, ch, False, ['corr', 'swap'])))
        for ch in chunks([(p, p) for p in pats], 12):
            ts.append(Task('same/%s/%s..' % (mode, pname(ch[0][0])), task(F, ch, True, ['cov', 'var', 'corr'])))
        six = tuple(range(6))
        full = tuple(itertools.combinations(six, 2))
        A, B = (six, full), (six, full[::2])
        wide = [(A, A), (A, B), (B, A), ((six, full[1::2]), B), ((six, ()), A), (((0, 2, 4), ((0, 4), (2, 4))), ((1, 3, 5), ((1, 5),))),
                (((0, 1, 2), ((0, 2),)), ((3, 4, 5), ((3, 4), (4, 5)))), (((3, 4, 5), ((3, 5),)), ((0, 1, 2, 3), ((0, 3), (1, 2)))),
                (((0, 2, 3, 5), ((0, 5), (2, 3))), ((1, 2, 3, 4), ((1, 4), (2, 3), (2, 4))))]
        for a, b in wide:
            ts.append(Task('wide/%s/%s%s' % (mode, pname(a), pname(b)), task(F, [(a, b)], False, ['cov', 'swap'])))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C11', lambda: main('C11', tasks(), RULE, floors={'cov': 4, 'corr': 2, 'same': 2}, assumptions=[
        'real arithmetic: rounding is not modelled',
        'operands with every sparsity pattern over up to four variables each (a covariance term couples at most two), '
        'selected pairs of patterns over six'])))
