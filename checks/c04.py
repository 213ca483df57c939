"""C04: arithmetic operators are exact derivations in both classes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
import spec
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of the operators on abstract operands (constants, independent and dependent variables, '
        'shared variables, the same object twice, plain numbers); coefficients and Hessian entries must equal the '
        'formal derivatives of the arithmetic expression')

OPS = ('add', 'sub', 'mul', 'div')


def run_first(F, fn, op, region, x, y, kinds_, same=False, inplace=False, real=None):
    """real: index of the operand that is a plain number"""
    def run(c):
        vm = F.vm()
        means = [x, y]
        args, coefs = [], []
        it = iter(kinds_)
        for i in range(2):
            if real == i:
                args.append(means[i])
                coefs.append({})
            elif same and i:
                args.append(args[0])
                coefs.append(coefs[0])
                means[1] = x
            else:
                o, _, cf = build(F, vm, next(it), 'xy'[i], means[i])
                args.append(o)
                coefs.append(cf)
        r = spec.op(op, *means)
        want = {}
        for g, cf in ((r[1], coefs[0]), (r[2], coefs[1])):
            for k, v in cf.items():
                want[k] = cas.add(want.get(k, ZERO), cas.mul(g, v))
        what = '%s%s of (%s%s), %s' % ('in-place ' if inplace else '', op, ', '.join(kindname(k) for k in kinds_),
                                       ', same object' if same else ', number' if real is not None else '', region)
        st = newstate()
        for i in (0, 1):
            if real != i:
                st.roots['a%d' % i] = args[i]
        vm.start(F.fn(fn)['id'], args, st)
        outs = vm.run(st)
        finish(c, F, vm, fn, outs, what, lambda o, loc: check_first(
            c, F, o, o.st.roots['a0'] if inplace else o.value, r[0], want, what, loc, K[:4]))
    return run


def finish(c, F, vm, fn, outs, what, check):
    loc = where(F, fn)
    account(c, vm)
    n = 0
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        n += 1
        if badout(c, o, what):
            continue
        check(o, loc)
    if not n:
        c.undecided('no feasible path')
    c.sample = what


def run_un(F, second, fn, sgn, kind):
    def run(c):
        vm = F.vm()
        what = '%s of %s' % (fn[2:], kind)
        s = num(sgn)
        if second:
            x = build2(F, vm, kind[0], kind[1], 'x')
            outs = call(vm, F, fn, [x[0]])
            G, H = chain([(x[2], x[3])], [s], [[ZERO]])
            finish(c, F, vm, fn, outs, what, lambda o, loc: check_second(
                c, F, o, o.value, cas.mul(s, x[1]), G, H, x[4], what, loc, korder(x[4])))
        else:
            x = build(F, vm, kind, 'x')
            outs = call(vm, F, fn, [x[0]])
            want = {k: cas.mul(s, v) for k, v in x[2].items()}
            finish(c, F, vm, fn, outs, what, lambda o, loc: check_first(
                c, F, o, o.value, cas.mul(s, x[1]), want, what, loc, K[:4]))
    return run


def run_second(F, fn, op, region, x, y, pats, same=False, real=None):
    def run(c):
        vm = F.vm()
        means = [x, y]
        if same:
            means[1] = x
        ops, args = [], []
        it = iter(pats)
        for i in range(2):
            if real == i:
                args.append(means[i])
                ops.append(None)
            elif same and i:
                args.append(args[0])
                ops.append(ops[0])
            else:
                p = next(it)
                b = build2(F, vm, p[0], p[1], 'xy'[i], means[i])
                args.append(b[0])
                ops.append(b)
        r = spec.op(op, *means)
        ds, dds = [r[1], r[2]], [[r[3], r[5]], [r[5], r[4]]]
        use = [i for i in (0, 1) if ops[i] is not None]
        G, H = chain([(ops[i][2], ops[i][3]) for i in use], [ds[i] for i in use], [[dds[i][j] for j in use] for i in use])
        mom = {}
        for i in use:
            mom.update(ops[i][4])
        what = '%s of (%s%s), %s' % (op, ', '.join('{%s|%d}' % (''.join(str(i + 1) for i in p[0]), len(p[1])) for p in pats),
                                     ', same object' if same else ', number' if real is not None else '', region)
        outs = call(vm, F, fn, args)
        finish(c, F, vm, fn, outs, what, lambda o, loc: check_second(
            c, F, o, o.value, r[0], G, H, mom, what, loc, korder(set(mom))))
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0, 1), (1, 2)], cached=True)
    for fn, s in (('u_neg', -1), ('u_pos', 1)):
        for k in ks:
            ts.append(Task('first/%s/%s' % (fn, kindname(k)), run_un(F, False, fn, s, k)))
    for op in OPS:
        for reg, x, y in spec.opregions(op):
            for a in ks:
                for b in ks:
                    n = '%s/%s,%s' % (reg, kindname(a), kindname(b))
                    ts.append(Task('first/%s/%s' % (op, n), run_first(F, 'u_' + op, op, reg, x, y, [a, b])))
                    ts.append(Task('first/i%s/%s' % (op, n), run_first(F, 'u_i' + op, op, reg, x, y, [a, b], inplace=True)))
                n = '%s/%s' % (reg, kindname(a))
                ts.append(Task('first/%s/%s,number' % (op, n), run_first(F, 'u_%s_r' % op, op, reg, x, y, [a], real=1)))
                ts.append(Task('first/%s/number,%s' % (op, n), run_first(F, 'u_r' + op, op, reg, x, y, [a], real=0)))
                ts.append(Task('first/i%s/%s,number' % (op, n), run_first(F, 'u_i%s_r' % op, op, reg, x, y, [a], inplace=True, real=1)))
        z = sym('x', 0)
        for reg, x in (('x>0', z), ('x<0', sym('x', None, 0))):
            for a in ks:
                n = '%s/%s' % (reg, kindname(a))
                ts.append(Task('first/%s/%s,same' % (op, n), run_first(F, 'u_' + op, op, reg, x, x, [a], same=True)))
                ts.append(Task('first/i%s/%s,same' % (op, n), run_first(F, 'u_i' + op, op, reg, x, x, [a], same=True, inplace=True)))
    P = program('second.cpp')
    pats = [((), ()), ((0,), ()), ((1,), ()), ((0, 1), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),)),
            ((0, 1, 2), ((0, 2),))]
    pn = lambda p: '{%s|%s}' % (''.join(str(i + 1) for i in p[0]), ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]))
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        for fn, s in (('w_neg', -1), ('w_pos', 1)):
            for p in pats:
                ts.append(Task('%s/%s/%s' % (mode, fn, pn(p)), run_un(G, True, fn, s, p)))
        for op in OPS:
            for reg, x, y in spec.opregions(op):
                for a in pats:
                    for b in pats:
                        ts.append(Task('%s/%s/%s/%s,%s' % (mode, op, reg, pn(a), pn(b)),
                                       run_second(G, 'w_' + op, op, reg, x, y, [a, b])))
                    ts.append(Task('%s/%s/%s/%s,number' % (mode, op, reg, pn(a)),
                                   run_second(G, 'w_%s_r' % op, op, reg, x, y, [a], real=1)))
                    ts.append(Task('%s/%s/%s/number,%s' % (mode, op, reg, pn(a)),
                                   run_second(G, 'w_r' + op, op, reg, x, y, [a], real=0)))
            for reg, x in (('x>0', sym('x', 0)), ('x<0', sym('x', None, 0))):
                for a in pats:
                    ts.append(Task('%s/%s/%s/%s,same' % (mode, op, reg, pn(a)),
                                   run_second(G, 'w_' + op, op, reg, x, x, [a], same=True)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C04', lambda: main('C04', tasks(), RULE, floors={'first': 100, 'est': 60, 'mean': 60},
                                       assumptions=['real arithmetic: rounding is not modelled'])))
