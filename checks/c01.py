"""C01: first-order math functions propagate with the exact derivative."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
import spec
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of every math function of UReal over regions of its domain; the coefficient on each '
        'variable must equal (formal partial derivative of the function at the means) * (coefficient of the argument)')

ONE_ARG = [('I', (0,)), ('D', (0, 1)), ('C', ())]
TWO_ARG = [(('I', (0,)), ('I', (1,))), (('I', (0,)), ('I', (0,))), (('D', (0, 1)), ('D', (1, 2))),
           (('D', (0, 1)), ('C', ())), (('C', ()), ('I', (0,))), (('I', (1,)), ('D', (0, 1)))]


def run1(F, name, region, mk, kind):
    def run(c):
        vm = F.vm()
        x = mk()
        o, m, cx = build(F, vm, kind, 'x', x)
        f, g, _ = spec.d1(name, x)
        want = {k: cas.mul(g, v) for k, v in cx.items()}
        finish(c, F, vm, 'm_' + name, [o], f, want, '%s of %s operand, %s' % (name, kindname(kind), region))
    return run


def run2(F, name, region, x, y, kx, ky, same=False):
    def run(c):
        vm = F.vm()
        ox, m, cx = build(F, vm, kx, 'x', x)
        if same:
            oy, cy = ox, cx
        else:
            oy, m, cy = build(F, vm, ky, 'y', y)
        r = spec.d2(name, x, y)
        want = {}
        for g, cs in ((r[1], cx), (r[2], cy)):
            for k, v in cs.items():
                want[k] = cas.add(want.get(k, ZERO), cas.mul(g, v))
        finish(c, F, vm, 'm_' + name, [ox, oy], r[0], want, '%s of (%s, %s%s), %s' % (
            name, kindname(kx), kindname(ky), ', same object' if same else '', region))
    return run


def finish(c, F, vm, fn, args, f, want, what):
    loc = where(F, fn)
    outs = call(vm, F, fn, args)
    account(c, vm)
    n = 0
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        n += 1
        if badout(c, o, what):
            continue
        check_first(c, F, o, o.value, f, want, what, loc, K[:4], check_mean=False)
    if n == 0:
        c.undecided('no feasible path')
    c.sample = '%s: coefficients %s' % (what, {kname(k): repr(v)[:80] for k, v in want.items()})


def tasks():
    F = First(program('first.cpp'))
    ts = []
    for name in sorted(spec.R1):
        for region, mk in spec.R1[name]:
            for k in ONE_ARG:
                ts.append(Task('%s/%s/%s' % (name, region, kindname(k)), run1(F, name, region, mk, k)))
    for name in sorted(spec.R2):
        for region, x, y in spec.R2[name]():
            for kx, ky in TWO_ARG:
                ts.append(Task('%s/%s/%s,%s' % (name, region, kindname(kx), kindname(ky)),
                               run2(F, name, region, x, y, kx, ky)))
            if region in spec.SAME.get(name, ()):
                k = ('D', (0, 1))
                ts.append(Task('%s/%s/same' % (name, region), run2(F, name, region, x, x, k, k, True)))
    for region, x, y in spec._powc():
        for kx in (('I', (0,)), ('D', (0, 1))):
            ts.append(Task('pow/%s/%s,C' % (region, kindname(kx)), run2(F, 'pow', region, x, y, kx, ('C', ()))))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C01', lambda: main('C01', tasks(), RULE, floors={n: 2 for n in list(spec.R1) + list(spec.R2)},
                                       assumptions=['real arithmetic: rounding is not modelled',
                                                    'std math functions compute the functions of their names'])))
