"""C07: first-order covariance is the exact symmetric bilinear form."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of cov, var, s, sdev and corr on every kind of operands; the value must equal the sum over '
        'shared variables of products of coefficients (var = s^2 = cov(x, x), s the nonnegative root, corr = '
        'cov/(s s)); with arbitrarily many other variables the contribution of the variable in focus must be exact')


def dot(a, b):
    t = ZERO
    for k in a:
        if k in b:
            t = cas.add(t, cas.mul(a[k], b[k]))
    return t


def kbuild(F, vm, k, tag):
    """kinds with the sign of the coefficient fixed: I+, I-, I0"""
    if k[0] in ('I+', 'I-', 'I0'):
        s = sym('s' + tag, 0) if k[0] == 'I+' else sym('s' + tag, None, 0) if k[0] == 'I-' else ZERO
        return F.indep(vm, K[k[1][0]], s, sym('m' + tag)), sym('m' + tag), {K[k[1][0]]: s}
    return build(F, vm, k, tag)


def sd(c):
    t = dot(c, c)
    if not t.d:
        return ZERO
    if len(c) == 1:
        return cas.fn1('abs', list(c.values())[0])
    return cas.fn1('sqrt', t)


def task(F, fn, ks, want, same=False):
    def run(c):
        vm = F.vm()
        objs = []
        for i, k in enumerate(ks):
            objs.append(objs[0] if same and i else kbuild(F, vm, k, 'xy'[i]))
        w = want(*[o[2] for o in objs])
        what = '%s(%s%s)' % (fn[2:], ', '.join(kindname(k) for k in ks), ', same object' if same else '')
        loc = where(F, fn)
        outs = call(vm, F, fn, [o[0] for o in objs])
        account(c, vm)
        n = 0
        for o in outs:
            if infeasible(o):
                continue
            n += 1
            c.paths += 1
            if badout(c, o, what):
                continue
            eq(c, o.value, w, o.st.facts, what, loc)
        if not n:
            c.undecided('no feasible path')
        c.sample = '%s = %s' % (what, repr(w)[:100])
    return run


def open_task(F, fn, s, t):
    def run(c):
        vm = F.vm()
        k = K[1]

        def mk(z, tag):
            if z in ('O1', 'O0'):
                return build_open(F, vm, tag, [k], [k] if z == 'O1' else [])
            return build(F, vm, {'I': ('I', (1,)), 'J': ('I', (0,)), 'C': ('C', ())}[z], tag)
        x, y = mk(s, 'x'), mk(t, 'y')
        st = newstate([K[0], k] if 'J' in (s, t) else [k])
        st.open = True
        vm.start(F.fn(fn)['id'], [x[0], y[0]], st)
        outs = vm.run(st)
        account(c, vm)
        loc = where(F, fn)
        w = dot(x[2], y[2])
        both = s[0] == 'O' and t[0] == 'O' or 'J' in (s, t)
        if both:
            w = cas.add(w, cas.rho)
        what = '%s(%s, %s), any number of other variables' % (fn[2:], s, t)
        for o in outs:
            c.paths += 1
            if badout(c, o, what):
                continue
            eq(c, o.value, w, o.st.facts, what, loc)
        c.sample = what
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 2), (1, 2), (0, 1, 2)], cached=True)
    one = [('C', ()), ('I+', (0,)), ('I-', (0,)), ('I0', (0,))] + [k for k in ks if k[0][0] == 'D']
    for k in one:
        n = kindname(k)
        for f in ('u_s', 'u_s_const', 'u_sdev'):
            ts.append(Task('%s/%s' % (f, n), task(F, f, [k], sd)))
        for f in ('u_var', 'u_var_const'):
            ts.append(Task('%s/%s' % (f, n), task(F, f, [k], lambda a: dot(a, a))))
        ts.append(Task('cov-self/%s' % n, task(F, 'u_cov', [k, k], dot, True)))
    two = [('C', ()), ('I+', (0,)), ('I-', (0,)), ('I+', (1,)), ('I-', (2,))] + [k for k in ks if k[0][0] == 'D']
    for a in two:
        for b in two:
            n = '%s,%s' % (kindname(a), kindname(b))
            ts.append(Task('cov/' + n, task(F, 'u_cov', [a, b], dot)))
            if a[0] != 'C' and b[0] != 'C' and a[1] and b[1]:
                ts.append(Task('corr/' + n, task(F, 'u_corr', [a, b],
                                                 lambda p, q: cas.div(dot(p, q), cas.mul(sd(p), sd(q))))))
    for a in two:
        if a[0] != 'C' and a[1]:
            ts.append(Task('corr-self/' + kindname(a), task(F, 'u_corr', [a, a], lambda p, q: cas.div(
                dot(p, q), cas.mul(sd(p), sd(q))), True)))
    for s in ('O1', 'O0', 'I', 'J', 'C'):
        for t in ('O1', 'O0', 'I', 'J', 'C'):
            if 'O' in s + t:
                ts.append(Task('cov-any/%s,%s' % (s, t), open_task(F, 'u_cov', s, t)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C07', lambda: main('C07', tasks(), RULE, floors={'cov': 30, 'corr': 20, 'u_': 20},
                                       assumptions=['real arithmetic: rounding is not modelled'])))
