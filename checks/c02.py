"""C02: second-order math functions use the exact first, second and mixed derivatives."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
import spec
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of every math function of UReal2 over regions of its domain; gradient and Hessian must '
        'equal those of the formal composition of the function (value, first, pure second and mixed second partial '
        'derivatives at the first-order means) with the operands')

P1 = [((0,), ()), ((0, 1), ((0, 1),)), ((0, 1), ()), ((), ())]
P2 = [(((0,), ()), ((1,), ())), (((0,), ()), ((0,), ())), (((0, 1), ((0, 1),)), ((1, 2), ())), (((0, 1), ()), ((), ())),
      (((), ()), ((0,), ()))]


def pn(p):
    return '{%s%s}' % (''.join(str(i + 1) for i in p[0]), '|' + ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]) if p[1] else '')


def run1(F, name, region, mk, p):
    def run(c):
        vm = F.vm()
        x = mk()
        b = build2(F, vm, p[0], p[1], 'x', x)
        f, g, h = spec.d1(name, x)
        finish(c, F, vm, name, [b], [g], [[h]], '%s of %s, %s' % (name, pn(p), region), [b[0]])
    return run


def run2(F, name, region, x, y, p, q, same=False):
    def run(c):
        vm = F.vm()
        a = build2(F, vm, p[0], p[1], 'x', x)
        b = a if same else build2(F, vm, q[0], q[1], 'y', y)
        f, fx, fy, fxx, fyy, fxy = spec.d2(name, x, y)
        finish(c, F, vm, name, [a, b], [fx, fy], [[fxx, fxy], [fxy, fyy]],
               '%s of (%s, %s%s), %s' % (name, pn(p), pn(q), ', same object' if same else '', region), [a[0], b[0]])
    return run


def finish(c, F, vm, name, ops, ds, dds, what, args):
    fn = 'm_' + name
    loc = where(F, fn)
    # derivatives with respect to operands without uncertainty are not observable
    use = [i for i, o in enumerate(ops) if o[2]]
    G, H = chain([(ops[i][2], ops[i][3]) for i in use], [ds[i] for i in use], [[dds[i][j] for j in use] for i in use])
    mom = {}
    for o in ops:
        mom.update(o[4])
    outs = call(vm, F, fn, args)
    account(c, vm)
    n = 0
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        n += 1
        if badout(c, o, what):
            continue
        check_second(c, F, o, o.value, None, G, H, mom, what, loc, korder(set(mom)), check_mean=False)
    if n == 0:
        c.undecided('no feasible path')
    c.sample = '%s: Hessian %s' % (what, {kname(a) + kname(b): repr(v)[:80] for (a, b), v in list(H.items())[:2]})


def tasks():
    P = program('second.cpp')
    ts = []
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        for name in sorted(spec.R1):
            for region, mk in spec.R1[name]:
                for p in P1:
                    ts.append(Task('%s/%s/%s/%s' % (name, mode, region, pn(p)), run1(F, name, region, mk, p)))
        for name in sorted(spec.R2):
            for region, x, y in spec.R2[name]():
                for p, q in P2:
                    ts.append(Task('%s/%s/%s/%s,%s' % (name, mode, region, pn(p), pn(q)),
                                   run2(F, name, region, x, y, p, q)))
                if region in spec.SAME.get(name, ()):
                    p = P2[2][0]
                    ts.append(Task('%s/%s/%s/same' % (name, mode, region), run2(F, name, region, x, x, p, p, True)))
        for region, x, y in spec._powc():
            for p in P1[:3]:
                ts.append(Task('pow/%s/%s/%s,{}' % (mode, region, pn(p)), run2(F, 'pow', region, x, y, p, ((), ()))))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C02', lambda: main('C02', tasks(), RULE, floors={n: 2 for n in list(spec.R1) + list(spec.R2)},
                                       assumptions=['real arithmetic: rounding is not modelled',
                                                    'std math functions compute the functions of their names'])))
