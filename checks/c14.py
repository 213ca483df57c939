"""C14: derivative queries return the derivative of the computation."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of grad and hess; on every abstract path the value must equal the quotient of derivatives '
        'defined by the chain rule, and exactly the arguments without one source (or, for hess, two different functions '
        'of one source) must raise std::invalid_argument')


def thrown(o):
    return o.kind == 'throw' and 'invalid_argument' in str(o.value)


def first_task(F, ky, kx, same=False):
    def run(c):
        vm = F.vm()
        y = build(F, vm, ky, 'y')
        x = y if same else build(F, vm, kx, 'x')
        st = newstate()
        st.roots['x'], st.roots['y'] = x[0], y[0]
        what = '(%s).grad(%s%s)' % (kindname(ky), kindname(kx), ', same object' if same else '')
        loc = where(F, 'u_grad')
        vm.start(F.fn('u_grad')['id'], [y[0], x[0]], st)
        outs = vm.run(st)
        account(c, vm)
        n = 0
        for o in outs:
            if infeasible(o):
                continue
            n += 1
            c.paths += 1
            c.compared += 1
            if len(x[2]) != 1:
                if not thrown(o):
                    c.violation('%s: not rejected with std::invalid_argument (%s %s)' % (what, o.kind, o.value), loc)
                continue
            if badout(c, o, what):
                continue
            k, g = list(x[2].items())[0]
            eq(c, o.value, cas.div(y[2].get(k, ZERO), g), o.st.facts, what, loc)
        if not n:
            c.undecided('no feasible path')
        c.sample = what
    return run


def open_grad(F, s, t):
    def run(c):
        vm = F.vm()
        k = K[1]
        y = build_open(F, vm, 'y', [k], [k] if s == 'O1' else [])
        x = build(F, vm, {'I': ('I', (1,)), 'D': ('D', (1,))}[t], 'x')
        st = newstate([k])
        st.open = True
        what = '(%s).grad(%s), any number of other variables' % (s, t)
        loc = where(F, 'u_grad')
        vm.start(F.fn('u_grad')['id'], [y[0], x[0]], st)
        outs = vm.run(st)
        account(c, vm)
        for o in outs:
            c.paths += 1
            if badout(c, o, what):
                continue
            eq(c, o.value, cas.div(y[2].get(k, ZERO), x[2][k]), o.st.facts, what, loc)
        c.sample = what
    return run


def nm(p):
    return '{%s|%s}' % (''.join(str(i + 1) for i in p[0]), ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]))


def grad2(F, p, q, same=False):
    def run(c):
        vm = F.vm()
        y = build2(F, vm, p[0], p[1], 'y')
        x = y if same else build2(F, vm, q[0], q[1], 'x')
        what = '%s.grad(%s%s)' % (nm(p), nm(q), ', same object' if same else '')
        loc = where(F, 'w_grad')
        outs = call(vm, F, 'w_grad', [y[0], x[0]])
        account(c, vm)
        n = 0
        for o in outs:
            if infeasible(o):
                continue
            n += 1
            c.paths += 1
            c.compared += 1
            if len(x[2]) != 1:
                if not thrown(o):
                    c.violation('%s: not rejected with std::invalid_argument (%s %s)' % (what, o.kind, o.value), loc)
                continue
            if badout(c, o, what):
                continue
            k = list(x[2])[0]
            eq(c, o.value, cas.div(y[2].get(k, ZERO), x[2][k]), o.st.facts, what, loc)
        if not n:
            c.undecided('no feasible path')
        c.sample = what
    return run


def implied(a, b, facts):
    return cas.equal(a, b, facts)[0] == 'eq'


def excluded(pairs, facts):
    """the equalities a == b of all pairs contradict the facts"""
    st = V.State()
    st.facts = list(facts) + [('==', cas.sub(a, b)) for a, b in pairs if cas.sub(a, b).d]
    return not V.feasible(st)


def hess2(F, pz, px, py, same=False, lin=False):
    """lin: x and y carry no second derivative"""
    def run(c):
        vm = F.vm()
        z = build2(F, vm, pz[0], pz[1], 'z')
        x = build2(F, vm, px[0], px[1], 'x')
        if lin:
            x[0].f[F.f_hg].f[F.h.f_diag].ent[K[px[0][0]]].f['second'].f[F.f_hh].v = ZERO
            x[3][(K[px[0][0]],) * 2] = ZERO
        y = x if same else build2(F, vm, py[0], py[1], 'y')
        what = '%s.hess(%s, %s%s)' % (nm(pz), nm(px), nm(py), ', same object' if same else '')
        loc = where(F, 'w_hess')
        outs = call(vm, F, 'w_hess', [z[0], x[0], y[0]])
        account(c, vm)
        n = 0
        for o in outs:
            if infeasible(o):
                continue
            n += 1
            c.paths += 1
            c.compared += 1
            facts = o.st.facts
            if len(x[2]) != 1 or len(y[2]) != 1:
                if not thrown(o):
                    c.violation('%s: not rejected with std::invalid_argument (%s %s)' % (what, o.kind, o.value), loc)
                continue
            a, b = list(x[2])[0], list(y[2])[0]
            two = num(2)
            if a is not b:
                if badout(c, o, what):
                    continue
                w = cas.div(cas.mul(two, hget(z[3], a, b)), cas.mul(x[2][a], y[2][b]))
                eq(c, o.value, w, facts, what, loc)
                continue
            hx, hy = x[3][(a, a)], y[3][(a, a)]
            prs = [(x[2][a], y[2][a]), (hx, hy)]
            if o.kind == 'ret':
                for u, v in prs:
                    if not implied(u, v, facts):
                        c.violation('%s: accepted although the two arguments may be different functions of the variable'
                                    % what, loc, when=', '.join('%s %s 0' % (f, op) for op, f in facts)[:300])
                        break
                else:
                    g = x[2][a]
                    fu = z[2].get(a, ZERO)
                    w = cas.div(cas.mul(two, cas.sub(hget(z[3], a, a), cas.mul(cas.div(fu, g), hx))), cas.mul(g, g))
                    eq(c, o.value, w, facts, what, loc)
            elif thrown(o):
                if not excluded(prs, facts):
                    c.violation('%s: rejected although both arguments are the same function of the variable' % what, loc,
                                when=', '.join('%s %s 0' % (f, op) for op, f in facts)[:300])
            else:
                badout(c, o, what)
        if not n:
            c.undecided('no feasible path')
        c.sample = what
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 2), (1, 2), (0, 1, 2)], cached=True)
    for y in ks:
        for x in ks + [('I', (2,)), ('D', (2,))]:
            ts.append(Task('grad/first/%s,%s' % (kindname(y), kindname(x)), first_task(F, y, x)))
        ts.append(Task('grad/first/%s,same' % kindname(y), first_task(F, y, y, True)))
    for s in ('O1', 'O0'):
        for t in ('I', 'D'):
            ts.append(Task('grad/first-any/%s,%s' % (s, t), open_grad(F, s, t)))
    P = program('second.cpp')
    yp = [((), ()), ((0,), ()), ((1,), ()), ((0, 1), ()), ((0, 1), ((0, 1),)), ((0, 1, 2), ((0, 2), (1, 2))),
          ((0, 1, 2), ((0, 1), (0, 2), (1, 2)))]
    xp = [((), ()), ((0,), ()), ((1,), ()), ((2,), ()), ((0, 1), ()), ((0, 1), ((0, 1),))]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        for p in yp:
            for q in xp:
                ts.append(Task('grad/%s/%s,%s' % (mode, nm(p), nm(q)), grad2(G, p, q)))
            ts.append(Task('grad/%s/%s,same' % (mode, nm(p)), grad2(G, p, p, True)))
            for x in xp:
                for y in xp:
                    ts.append(Task('hess/%s/%s,%s,%s' % (mode, nm(p), nm(x), nm(y)), hess2(G, p, x, y)))
                ts.append(Task('hess/%s/%s,%s,same' % (mode, nm(p), nm(x)), hess2(G, p, x, x, True)))
                if len(x[0]) == 1:
                    ts.append(Task('hess/%s/%s,%s,same linear' % (mode, nm(p), nm(x)), hess2(G, p, x, x, True, True)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C14', lambda: main('C14', tasks(), RULE, floors={'grad': 50, 'hess': 100},
                                       assumptions=['real arithmetic: rounding is not modelled'])))
