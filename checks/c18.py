"""C18: matrix helpers place every element at its index."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of the matrix builders on vectors of n variables with pairwise distinct symbolic covariances; '
        'the abstract output must have exactly n*n elements, element n*i+j equal in the canonical-form domain to the abstract '
        'covariance (correlation) of variables i and j, nothing written outside, and the iterator form must return the end')


def vector(vm, F, fn, pos, items):
    t = vm.unref(F.fn(fn)['params'][pos]['t'])
    return V.Arr(t, items)


def reals(vs):
    return [Cell(v) for v in vs]


def variables(F, vm, n, second):
    """n variables, all covariances different"""
    out = []
    for i in range(n):
        t = 'v%d' % i
        if second:
            ks = tuple(range(2))
            out.append(build2(F, vm, ks, ((0, 1),), t)[0])
        elif i == 1:
            out.append(F.indep(vm, K[1], sym('s1', 0), sym('m' + t)))
        elif i == 3:
            out.append(F.const(vm, sym('m' + t)))
        else:
            out.append(F.dep(vm, [(K[k], sym('c%d%d' % (i, k))) for k in range(3)], sym('m' + t)))
    return out


def cp(xs):
    return [V.deep(x) for x in xs]


def matrix_task(F, fn, one, n, second, iterator):
    def run(c):
        vm = F.vm()
        xs = variables(F, vm, n, second)
        # the functions for a pair give the specification
        want = {}
        for i in range(n):
            for j in range(n):
                st = newstate()
                a, b = V.deep(xs[i]), V.deep(xs[j])
                outs = [o for o in call(vm, F, one, [a, a if i == j else b], st) if not infeasible(o)]
                if len(outs) != 1 or outs[0].kind != 'ret':
                    raise Undecided('%s of a pair is not a single value' % one)
                want[(i, j)] = outs[0].value
        loc = where(F, fn)
        st = newstate()
        ys = cp(xs)
        v = vector(vm, F, fn, 0, ys)
        args = [v]
        if iterator:
            out = vector(vm, F, fn, 1, reals([sym('guard%d' % i) for i in range(n * n + 3)]))
            args.append(out)
            st.roots['out'] = out
        what = '%s of %d variables' % (fn, n)
        for o in call(vm, F, fn, args, st):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, what):
                continue
            if iterator:
                res = o.st.roots['out']
                eq(c, o.value, num(n * n), o.st.facts, what + ': returned iterator, from the start', loc)
                for i in range(3):
                    eq(c, res.items[n * n + i].v, sym('guard%d' % (n * n + i)), o.st.facts, what + ': element %d past the end' % i, loc)
            else:
                res = o.value
                c.compared += 1
                if not isinstance(res, V.Arr):
                    raise Undecided('matrix not understood')
                if len(res.items) != n * n:
                    c.violation('%s: %d elements instead of %d' % (what, len(res.items), n * n), loc)
                    continue
            for i in range(n):
                for j in range(n):
                    eq(c, res.items[n * i + j].v, want[(i, j)], o.st.facts, '%s: element (%d,%d)' % (what, i, j), loc)
        account(c, vm)
        c.sample = '%s of %d variables: %d elements' % (fn, n, n * n)
    return run


def corr2cov_task(F, n, rows):
    def run(c):
        vm = F.vm()
        fn = 'w_corr2cov'
        sg = vector(vm, F, fn, 0, reals([sym('s%d' % i) for i in range(n)]))
        co = vector(vm, F, fn, 1, reals([sym('r%d' % i) for i in range(rows)]))
        loc = where(F, fn)
        what = 'corr2cov of sizes %d, %d' % (n, rows)
        for o in call(vm, F, fn, [sg, co]):
            if infeasible(o):
                continue
            c.paths += 1
            c.compared += 1
            if rows != n * n:
                if o.kind != 'throw' or not lib.catches('std::invalid_argument', o.value):
                    c.violation('%s: ends with %s %s' % (what, o.kind, o.value), loc)
                continue
            if badout(c, o, what):
                continue
            if len(o.value.items) != n * n:
                c.violation('%s: %d elements' % (what, len(o.value.items)), loc)
                continue
            for i in range(n):
                for j in range(n):
                    eq(c, o.value.items[n * i + j].v, cas.mul(sym('r%d' % (n * i + j)), cas.mul(sym('s%d' % i), sym('s%d' % j))),
                       o.st.facts, '%s: element (%d,%d)' % (what, i, j), loc)
        account(c, vm)
        c.sample = what
    return run


def nom_task(F, n, second):
    def run(c):
        vm = F.vm()
        fn = 'w_nom_v'
        xs = variables(F, vm, n, second)
        want = []
        for x in xs:
            o = call(vm, F, 'w_n' if second else 'u_n', [V.deep(x)], newstate())
            want.append(o[0].value)
        loc = where(F, fn)
        what = 'nom_vector of %d variables' % n
        for o in call(vm, F, fn, [vector(vm, F, fn, 0, xs)], newstate()):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, what):
                continue
            c.compared += 1
            if len(o.value.items) != n:
                c.violation('%s: %d elements' % (what, len(o.value.items)), loc)
                continue
            for i in range(n):
                eq(c, o.value.items[i].v, want[i], o.st.facts, '%s: element %d' % (what, i), loc)
        account(c, vm)
        c.sample = what
    return run


def tasks():
    P = program('misc.cpp')
    ts = []
    F1 = First(P)
    for F, mode, top in ((F1, 'first', 6 if THOROUGH else 5), (Second(P, 'vpe::'), 'est', 3), (Second(P, 'vpm::'), 'mean', 3)):
        second = mode != 'first'
        for n in range(top + 1):
            for w, one in (('cov', 'w_cov2'), ('corr', 'w_corr2')):
                if w == 'corr' and not second and n > 3:
                    pass
                ts.append(Task('vector-%s/%s/%d' % (w, mode, n), matrix_task(F, 'w_%s_v' % w, one, n, second, False)))
                ts.append(Task('iterator-%s/%s/%d' % (w, mode, n), matrix_task(F, 'w_%s_it_end' % w, one, n, second, True)))
            ts.append(Task('means/%s/%d' % (mode, n), nom_task(F, n, second)))
    for n in range(6 if THOROUGH else 5):
        for r in sorted({n * n, n * n + 1, max(n * n - 1, 0), n, 0, n * (n + 1)}):
            ts.append(Task('corr2cov/%d-%d' % (n, r), corr2cov_task(F1, n, r)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C18', lambda: main('C18', tasks(), RULE, floors={'vector-cov': 2, 'corr2cov': 3}, assumptions=[
        'real arithmetic: rounding is not modelled', 'vectors of up to five variables (thorough: six), the code is uniform in the length'])))
