"""C05: first-order kernels implement linear propagation."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH
import itertools

RULE = ('abstract interpretation of unary/binary/nary on abstract operands; every coefficient of the abstract result '
        'must equal sum(derivative * coefficient of the argument) in the canonical-form domain')


def closed_task(F, fname, kinds_, alias=None):
    def run(c):
        vm = F.vm()
        n = len(kinds_)
        objs = []
        for i, k in enumerate(kinds_):
            if alias is not None and alias[i] != i:
                objs.append(objs[alias[i]])
            else:
                objs.append(build(F, vm, k, 'xyz'[i]))
        m = sym('f')
        ds = [sym('d%d' % i) for i in range(n)]
        st = newstate()
        before = [F.read(o[0]) for o in objs]
        for i, o in enumerate(objs):
            st.roots['arg%d' % i] = o[0]
        if fname.startswith('u_nary'):
            arr = Arr(None, [o[0] for o in objs])
            da = Arr(None, [Cell(d) for d in ds])
            args = [Ptr(arr, 0), m, Ptr(da, 0)]
        else:
            args = [o[0] for o in objs] + [m] + ds
        vm.start(F.fn(fname)['id'], args, st)
        loc = where(F, fname)
        want = {}
        for o, d in zip(objs, ds):
            for k, v in o[2].items():
                want[k] = cas.add(want.get(k, ZERO), cas.mul(d, v))
        outs = vm.run(st)
        account(c, vm)
        for o in outs:
            if o.kind != 'ret' and infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, fname[2:]):
                continue
            check_first(c, F, o, o.value, m, want, '%s(%s)' % (fname[2:], ', '.join(kindname(k) for k in kinds_)), loc,
                        K[:4])
            for i, b in enumerate(before):
                a = F.read(o.st.roots['arg%d' % i])
                unchanged(c, o, a, b, '%s: argument %d' % (fname[2:], i + 1), loc)
        c.sample = '%s on (%s)%s: %d abstract paths, result coefficients %s' % (
            fname[2:], ', '.join(kindname(k) for k in kinds_), ' same object' if alias else '', len(outs),
            {kname(k): repr(v) for k, v in want.items()})
    return run


def unchanged(c, o, a, b, what, loc):
    eq(c, a.mean, b.mean, o.st.facts, what + ' changed: mean', loc)
    for k in set(a.coef) | set(b.coef):
        eq(c, a.coef.get(k, ZERO), b.coef.get(k, ZERO), o.st.facts, what + ' changed: coefficient', loc)


def open_task(F, fname, spec):
    """operands that depend on the focus variable and on arbitrarily many others"""
    def run(c):
        vm = F.vm()
        k = K[1]
        objs = []
        for i, s in enumerate(spec):
            tag = 'xyz'[i]
            if s == 'O1':
                objs.append(build_open(F, vm, tag, [k], [k]))
            elif s == 'O0':
                objs.append(build_open(F, vm, tag, [k], []))
            elif s == 'I':
                objs.append(build(F, vm, ('I', (1,)), tag))
            elif s == 'J':
                objs.append(build(F, vm, ('I', (0,)), tag))
            else:
                objs.append(build(F, vm, ('C', ()), tag))
        m = sym('f')
        ds = [sym('d%d' % i) for i in range(len(spec))]
        st = newstate([K[0], k] if 'J' in spec else [k])
        st.open = True
        if fname.startswith('u_nary'):
            args = [Ptr(Arr(None, [o[0] for o in objs]), 0), m, Ptr(Arr(None, [Cell(d) for d in ds]), 0)]
        else:
            args = [o[0] for o in objs] + [m] + ds
        vm.start(F.fn(fname)['id'], args, st)
        loc = where(F, fname)
        want = {}
        for o, d in zip(objs, ds):
            for q, v in o[2].items():
                want[q] = cas.add(want.get(q, ZERO), cas.mul(d, v))
        outs = vm.run(st)
        account(c, vm)
        nm = '%s(%s)' % (fname[2:], ', '.join(spec))
        for o in outs:
            c.paths += 1
            if badout(c, o, nm):
                continue
            ks = [k]
            if 'J' in spec:
                ks.append(K[0])
                want[K[0]] = cas.add(want[K[0]], cas.rho)
            check_first(c, F, o, o.value, m, want, nm + ', any number of other variables', loc, ks,
                        check_cache=False)
        c.sample = '%s with arbitrarily many other variables: fixpoint after %d abstract steps, %d exits' % (
            nm, vm.steps, len(outs))
    return run


def tasks():
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 2), (1, 2), (0, 1, 2)], cached=True)
    ts = []
    for k in ks:
        ts.append(Task('unary/' + kindname(k), closed_task(F, 'u_unary', [k])))
        ts.append(Task('nary1/' + kindname(k), closed_task(F, 'u_nary1', [k])))
        ts.append(Task('binary-same/' + kindname(k), closed_task(F, 'u_binary', [k, k], [0, 0])))
    ts.append(Task('nary0', closed_task(F, 'u_nary0', [])))
    for a, b in itertools.product(ks, ks):
        ts.append(Task('binary/%s,%s' % (kindname(a), kindname(b)), closed_task(F, 'u_binary', [a, b])))
    k2 = kinds([(), (0,), (1, 2), (0, 1, 2)])
    for a, b in itertools.product(k2, k2):
        ts.append(Task('nary2/%s,%s' % (kindname(a), kindname(b)), closed_task(F, 'u_nary2', [a, b])))
    k3 = k2 if THOROUGH else [('C', ()), ('I', (0,)), ('D', (0, 1)), ('D', (1, 2))]
    for t in itertools.product(k3, k3, k3):
        ts.append(Task('nary3/' + ','.join(kindname(k) for k in t), closed_task(F, 'u_nary3', list(t))))
    op = ['O1', 'O0', 'I', 'J', 'C']
    for s in ('O1', 'O0'):
        ts.append(Task('unary-any/' + s, open_task(F, 'u_unary', [s])))
        ts.append(Task('nary1-any/' + s, open_task(F, 'u_nary1', [s])))
    for a, b in itertools.product(op, op):
        if 'O' in a + b:
            ts.append(Task('binary-any/%s,%s' % (a, b), open_task(F, 'u_binary', [a, b])))
            ts.append(Task('nary2-any/%s,%s' % (a, b), open_task(F, 'u_nary2', [a, b])))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C05', lambda: main('C05', tasks(), RULE,
                                       floors={'unary': 4, 'binary': 30, 'nary': 30},
                                       assumptions=['the front end (clang) and the models of std::map, iterators and '
                                                    'arithmetic are faithful', 'real arithmetic: rounding is not modelled'])))
