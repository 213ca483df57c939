"""C09: second-order kernels implement the second-order chain rule."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of unary/binary of UReal2 on abstract sparse operands; every gradient and half-Hessian '
        'entry of the abstract result must equal the chain-rule expression in the canonical-form domain, on every '
        'abstract path, and every present variable must keep its moments')


def patterns(n):
    """(variables, stored off-diagonal pairs) over n variables"""
    out = []
    for r in range(n + 1):
        for ks in itertools.combinations(range(n), r):
            ps = list(itertools.combinations(ks, 2))
            for q in range(len(ps) + 1):
                for s in itertools.combinations(ps, q):
                    out.append((ks, s))
    return out


def pname(p):
    return '{%s|%s}' % (''.join(str(i + 1) for i in p[0]), ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]))


def unary_task(F, pats, zero):
    def run(c):
        for p in pats:
            one_unary(c, F, p, zero)
        c.sample = 'unary on operands %s...: gradient and Hessian compared on every abstract path' % pname(pats[-1])
    return run


def one_unary(c, F, p, zero):
    vm = F.vm()
    x = build2(F, vm, p[0], p[1], 'x')
    d = ZERO if 'd' in zero else sym('d')
    dd = ZERO if 'D' in zero else sym('dd')
    st = newstate()
    st.roots['x'] = x[0]
    before = F.read(x[0])
    outs = call(vm, F, 'w_unary', [x[0], sym('f'), d, dd], st)
    account(c, vm)
    loc = where(F, 'w_unary')
    G, H = chain([(x[2], x[3])], [d], [[dd]])
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        what = 'unary%s' % pname(p)
        if badout(c, o, what):
            continue
        check_second(c, F, o, o.value, sym('f'), G, H, x[4], what, loc, [K[i] for i in p[0]])
        same2(c, F, o, o.st.roots['x'], before, what, loc)


def same2(c, F, o, obj, b, what, loc):
    a = F.read(obj)
    ok = eq(c, a.mean, b.mean, o.st.facts, what + ': operand changed: mean', loc)
    for k in set(a.grad) | set(b.grad):
        eq(c, a.grad.get(k, ZERO), b.grad.get(k, ZERO), o.st.facts, what + ': operand changed: gradient', loc)
    for k in set(a.hess) | set(b.hess):
        eq(c, a.hess.get(k, ZERO), b.hess.get(k, ZERO), o.st.facts, what + ': operand changed: Hessian', loc)


def binary_task(F, pairs, same=False, zero=''):
    def run(c):
        for p, q in pairs:
            one_binary(c, F, p, q, same, zero)
        c.sample = 'binary on %s, %s%s and %d more: every path over zero/nonzero second derivatives' % (
            pname(pairs[-1][0]), pname(pairs[-1][1]), ' (same object)' if same else '', len(pairs) - 1)
    return run


def one_binary(c, F, p, q, same, zero):
    vm = F.vm()
    x = build2(F, vm, p[0], p[1], 'x')
    y = x if same else build2(F, vm, q[0], q[1], 'y')
    ds = [ZERO if 'x' in zero else sym('dx'), ZERO if 'y' in zero else sym('dy')]
    dxx = ZERO if 'X' in zero else sym('dxx')
    dyy = ZERO if 'Y' in zero else sym('dyy')
    dxy = ZERO if 'M' in zero else sym('dxy')
    st = newstate()
    st.roots['x'] = x[0]
    st.roots['y'] = y[0]
    bx, by = F.read(x[0]), F.read(y[0])
    outs = call(vm, F, 'w_binary', [x[0], y[0], sym('f')] + ds + [dxx, dyy, dxy], st)
    account(c, vm)
    loc = where(F, 'w_binary')
    G, H = chain([(x[2], x[3]), (y[2], y[3])], ds, [[dxx, dxy], [dxy, dyy]])
    mom = dict(x[4])
    mom.update(y[4])
    ks = korder(set(mom))
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        what = 'binary%s%s%s' % (pname(p), pname(q), ', same object' if same else '')
        if badout(c, o, what):
            continue
        check_second(c, F, o, o.value, sym('f'), G, H, mom, what, loc, ks)
        same2(c, F, o, o.st.roots['x'], bx, what, loc)
        same2(c, F, o, o.st.roots['y'], by, what, loc)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def tasks():
    P = program('second.cpp')
    ts = []
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        nu = 5 if THOROUGH else 4
        pu = patterns(nu)
        for z in ('', 'd', 'D', 'dD'):
            for i, ch in enumerate(chunks(pu if z == '' else patterns(3), 8)):
                ts.append(Task('unary/%s/%s/%s..' % (mode, z or 'general', pname(ch[0])), unary_task(F, ch, z)))
        pb = patterns(4 if THOROUGH and mode == 'est' else 3)
        prs = list(itertools.product(pb, pb))
        for ch in chunks(prs, 24 if len(prs) > 2000 else 6):
            ts.append(Task('binary/%s/%s%s..' % (mode, pname(ch[0][0]), pname(ch[0][1])), binary_task(F, ch)))
        for ch in chunks([(p, p) for p in patterns(4 if THOROUGH else 3)], 6):
            ts.append(Task('binary-same/%s/%s..' % (mode, pname(ch[0][0])), binary_task(F, ch, True)))
        # operands with more variables: complete, empty and interleaved sparsity
        five = tuple(range(5))
        full = tuple(itertools.combinations(five, 2))
        some = ((0, 2), (1, 4), (2, 3))
        for a, b in (((five, full), (five, some)), ((five, some), (five, ())), (((0, 2, 4), ((0, 4),)), ((1, 3, 5), ((1, 3), (3, 5)))),
                     ((five, ()), ((5,), ())), (((0, 1, 5), ((0, 5),)), ((2, 3, 4), ((2, 3), (3, 4)))),
                     (((3, 4, 5), ((3, 5), (4, 5))), ((0, 1, 2), ((0, 2),)))):
            ts.append(Task('binary-wide/%s/%s%s' % (mode, pname(a), pname(b)), binary_task(F, [(a, b)])))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C09', lambda: main('C09', tasks(), RULE, floors={'unary': 4, 'binary': 30},
                                       assumptions=['real arithmetic: rounding is not modelled',
                                                    'operands with up to 3 variables each (thorough: 4) in every '
                                                    'sparsity pattern, selected wider ones'])))
