"""C06: in-place update equals the out-of-place operation."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
import spec
from runner import Task, main, guard, THOROUGH
from c09 import patterns, pname, chunks

RULE = ('abstract interpretation of the in-place and of the out-of-place operation on the same abstract operands; the two '
        'abstract results must agree in mean, every coefficient and every Hessian entry on every pair of compatible '
        'paths, and the right operand must keep its value (unless it is the left one)')


def pairs(outs1, outs2):
    """pairs of outcomes on compatible paths, with the joint facts"""
    for a in outs1:
        for b in outs2:
            st = V.State()
            st.facts = list(a.st.facts) + [f for f in b.st.facts if f not in a.st.facts]
            if contradictory(st.facts) or not V.feasible(st):
                continue
            yield a, b, st.facts


def contradictory(facts):
    ex = {'==': (0,), '!=': (1, -1), '<': (-1,), '<=': (-1, 0), '>': (1,), '>=': (0, 1)}
    d = {}
    for op, f in facts:
        k = f.key()
        s = d.get(k, {-1, 0, 1}) & set(ex[op])
        if not s:
            return True
        d[k] = s
    return False


def first(F, fin, fout, kinds_, same, nargs):
    def run(c):
        what = '%s vs %s on (%s%s)' % (fin[2:], fout[2:], ', '.join(kindname(k) for k in kinds_), ', same object' if same else '')
        loc = where(F, fin)
        extra = [sym('f'), sym('d0'), sym('d1')][:nargs]
        res = []
        for fn in (fin, fout):
            vm = F.vm()
            x = build(F, vm, kinds_[0], 'x')
            y = x if same else build(F, vm, kinds_[1], 'y')
            st = newstate()
            st.roots['x'], st.roots['y'] = x[0], y[0]
            before = F.read(y[0])
            vm.start(F.fn(fn)['id'], [x[0], y[0]] + extra, st)
            res.append(vm.run(st))
            account(c, vm)
        n = 0
        for a, b, facts in pairs(*res):
            c.paths += 1
            n += 1
            if badout(c, a, what) or badout(c, b, what):
                continue
            p, q = F.read(a.st.roots['x']), F.read(b.value)
            eq(c, p.mean, q.mean, facts, what + ': mean', loc)
            for k in set(p.coef) | set(q.coef):
                eq(c, p.coef.get(k, ZERO), q.coef.get(k, ZERO), facts, what + ': coefficient on ' + kname(k), loc)
            if not same:
                r = F.read(a.st.roots['y'])
                eq(c, r.mean, before.mean, facts, what + ': right operand changed', loc)
                for k in set(r.coef) | set(before.coef):
                    eq(c, r.coef.get(k, ZERO), before.coef.get(k, ZERO), facts, what + ': right operand changed', loc)
        if not n:
            c.undecided('no compatible paths')
        c.sample = what
    return run


def first_number(F, fin, fout, kind):
    def run(c):
        what = '%s vs %s on (%s, number)' % (fin[2:], fout[2:], kindname(kind))
        loc = where(F, fin)
        res = []
        for fn in (fin, fout):
            vm = F.vm()
            x = build(F, vm, kind, 'x')
            st = newstate()
            st.roots['x'] = x[0]
            vm.start(F.fn(fn)['id'], [x[0], sym('r')], st)
            res.append(vm.run(st))
            account(c, vm)
        for a, b, facts in pairs(*res):
            c.paths += 1
            if badout(c, a, what) or badout(c, b, what):
                continue
            p, q = F.read(a.st.roots['x']), F.read(b.value)
            eq(c, p.mean, q.mean, facts, what + ': mean', loc)
            for k in set(p.coef) | set(q.coef):
                eq(c, p.coef.get(k, ZERO), q.coef.get(k, ZERO), facts, what + ': coefficient on ' + kname(k), loc)
        c.sample = what
    return run


def first_open(F, s, t):
    """operands with arbitrarily many other variables: agreement on the focus variable"""
    def run(c):
        k = K[1]
        what = 'binary_assign on (%s, %s), any number of other variables' % (s, t)
        loc = where(F, 'u_binary_assign')
        m, d0, d1 = sym('f'), sym('d0'), sym('d1')
        res = []

        def mk(vm, z, tag):
            if z in ('O1', 'O0'):
                return build_open(F, vm, tag, [k], [k] if z == 'O1' else [])
            return build(F, vm, {'I': ('I', (1,)), 'J': ('I', (0,)), 'C': ('C', ())}[z], tag)
        vm = F.vm()
        x, y = mk(vm, s, 'x'), mk(vm, t, 'y')
        st = newstate([K[0], k] if 'J' in (s, t) else [k])
        st.open = True
        st.roots['x'] = x[0]
        vm.start(F.fn('u_binary_assign')['id'], [x[0], y[0], m, d0, d1], st)
        outs = vm.run(st)
        account(c, vm)
        want = {}
        for o, d in ((x, d0), (y, d1)):
            for q, v in o[2].items():
                want[q] = cas.add(want.get(q, ZERO), cas.mul(d, v))
        if 'J' in (s, t):
            want[K[0]] = cas.add(want[K[0]], cas.rho)
        for o in outs:
            c.paths += 1
            if badout(c, o, what):
                continue
            check_first(c, F, o, o.st.roots['x'], m, want, what, loc, [k] + ([K[0]] if 'J' in (s, t) else []),
                        check_cache=False)
        c.sample = what
    return run


def second(F, prs, same):
    def run(c):
        for p, q in prs:
            one(c, F, p, q, same)
        c.sample = 'binary_assign vs binary on %s%s' % (pname(prs[-1][0]), pname(prs[-1][1]))
    return run


def one(c, F, p, q, same):
    what = 'binary_assign vs binary on %s%s%s' % (pname(p), pname(q), ', same object' if same else '')
    loc = where(F, 'w_binary_assign')
    extra = [sym(n) for n in ('f', 'dx', 'dy', 'dxx', 'dyy', 'dxy')]
    res = []
    for fn in ('w_binary_assign', 'w_binary'):
        vm = F.vm()
        x = build2(F, vm, p[0], p[1], 'x')
        y = x if same else build2(F, vm, q[0], q[1], 'y')
        st = newstate()
        st.roots['x'], st.roots['y'] = x[0], y[0]
        before = F.read(y[0])
        vm.start(F.fn(fn)['id'], [x[0], y[0]] + extra, st)
        res.append(vm.run(st))
        account(c, vm)
    n = 0
    for a, b, facts in pairs(*res):
        c.paths += 1
        n += 1
        if badout(c, a, what) or badout(c, b, what):
            continue
        u, v = F.read(a.st.roots['x']), F.read(b.value)
        cmp2(c, u, v, facts, what, loc)
        if not same:
            cmp2(c, F.read(a.st.roots['y']), before, facts, what + ': right operand changed', loc)
    if not n:
        c.undecided('no compatible paths')


def cmp2(c, u, v, facts, what, loc):
    eq(c, u.mean, v.mean, facts, what + ': mean', loc)
    for k in set(u.grad) | set(v.grad):
        eq(c, u.grad.get(k, ZERO), v.grad.get(k, ZERO), facts, what + ': gradient on ' + kname(k), loc)
    for k in set(u.hess) | set(v.hess):
        eq(c, u.hess.get(k, ZERO), v.hess.get(k, ZERO), facts, '%s: Hessian on %s, %s' % (what, kname(k[0]), kname(k[1])), loc)
    for k in set(u.mom) & set(v.mom):
        for i in range(6):
            eq(c, u.mom[k][i], v.mom[k][i], facts, what + ': moments', loc)


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 2), (1, 2), (0, 1, 2)], cached=True)
    fns = [('u_binary_assign', 'u_binary', 3)] + [('u_i' + o, 'u_' + o, 0) for o in ('add', 'sub', 'mul', 'div')]
    for fin, fout, n in fns:
        for a in ks:
            for b in ks:
                ts.append(Task('first/%s/%s,%s' % (fin, kindname(a), kindname(b)), first(F, fin, fout, [a, b], False, n)))
            ts.append(Task('first/%s/%s,same' % (fin, kindname(a)), first(F, fin, fout, [a, a], True, n)))
            if n == 0:
                ts.append(Task('first/%s/%s,number' % (fin, kindname(a)), first_number(F, fin + '_r', fout + '_r', a)))
    for s in ('O1', 'O0', 'I', 'J', 'C'):
        for t in ('O1', 'O0', 'I', 'J', 'C'):
            if 'O' in s + t:
                ts.append(Task('first/any/%s,%s' % (s, t), first_open(F, s, t)))
    P = program('second.cpp')
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        pats = patterns(3)
        sel = pats if THOROUGH else [p for p in pats if len(p[0]) < 3 or len(p[1]) in (0, 2)]
        for ch in chunks(list(itertools.product(sel, sel)), 4):
            ts.append(Task('%s/%s%s..' % (mode, pname(ch[0][0]), pname(ch[0][1])), second(G, ch, False)))
        for ch in chunks([(p, p) for p in pats], 4):
            ts.append(Task('%s/same/%s..' % (mode, pname(ch[0][0])), second(G, ch, True)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C06', lambda: main('C06', tasks(), RULE, floors={'first': 100, 'est': 10, 'mean': 10},
                                       assumptions=['real arithmetic: rounding is not modelled'])))
