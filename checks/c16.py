"""C16: copies, mean changes and conversions preserve all dependency information."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH
from c09 import patterns, pname, chunks

RULE = ('abstract interpretation of copy construction, assignment, change_nom and the conversions on every abstract '
        'representation; identity, coefficients, Hessian entries, moments and mean of the result must be those of the '
        'source (only the changed mean differs) and the source must keep its value')


def ident_same(c, F, o, a, b, what, loc):
    """the same source: independence and id are observable"""
    def single(ob):
        ks = [k for k in ob.coef]
        return ks[0] if len(ks) == 1 else None if ks else 0
    c.compared += 1
    if single(a) is not single(b):
        c.violation('%s: independent-variable identity %s instead of %s' % (what, single(a), single(b)), loc)


def first_task(F, fn, kind, how, extra=(), zero=False):
    def run(c):
        vm = F.vm()
        x = build(F, vm, kind, 'x')
        st = newstate()
        st.roots['x'] = x[0]
        before = F.read(x[0])
        args = [x[0]]
        what = '%s of %s' % (fn[2:], kindname(kind))
        loc = where(F, fn)
        if how == 'assign':
            for tk in (('C', ()), ('I', (2,)), ('D', (1, 3)), ('Dc', (0, 3))):
                vm = F.vm()
                x = build(F, vm, kind, 'x')
                t = build(F, vm, tk, 't')
                st = newstate()
                st.roots['x'], st.roots['t'] = x[0], t[0]
                vm.start(F.fn(fn)['id'], [t[0], x[0]], st)
                check(c, F, vm, vm.run(st), lambda o: o.st.roots['t'], before, before.mean, what + ' over ' + kindname(tk), loc)
            c.sample = what
            return
        if how == 'self':
            vm.start(F.fn(fn)['id'], [x[0], x[0]], st)
            check(c, F, vm, vm.run(st), lambda o: o.st.roots['x'], before, before.mean, what + ' to itself', loc)
            c.sample = what
            return
        mean = before.mean
        if how == 'change':
            mean = sym('n')
            args.append(mean)
        vm.start(F.fn(fn)['id'], args, st)
        check(c, F, vm, vm.run(st), lambda o: o.value, before, mean, what, loc)
        c.sample = what
    return run


def check(c, F, vm, outs, res, before, mean, what, loc):
    account(c, vm)
    for o in outs:
        if infeasible(o):
            continue
        c.paths += 1
        if badout(c, o, what):
            continue
        r = F.read(res(o))
        check_first(c, F, o, res(o), mean, before.coef, what, loc, list(before.coef))
        ident_same(c, F, o, r, before, what, loc)
        a = F.read(o.st.roots['x'])
        eq(c, a.mean, before.mean, o.st.facts, what + ': source changed: mean', loc)
        for k in set(a.coef) | set(before.coef):
            eq(c, a.coef.get(k, ZERO), before.coef.get(k, ZERO), o.st.facts, what + ': source changed: coefficient', loc)


def open_task(F, fn, how):
    def run(c):
        k = K[1]
        for present in ([k], []):
            vm = F.vm()
            x = build_open(F, vm, 'x', [k], present)
            st = newstate([k])
            st.open = True
            args = [x[0]]
            mean = x[1]
            res = lambda o: o.value
            if how == 'assign':
                t = build_open(F, vm, 't', [k], [k])
                st.roots['t'] = t[0]
                args = [t[0], x[0]]
                res = lambda o: o.st.roots['t']
            if how == 'change':
                mean = sym('n')
                args.append(mean)
            vm.start(F.fn(fn)['id'], args, st)
            outs = vm.run(st)
            account(c, vm)
            what = '%s, any number of other variables' % fn[2:]
            loc = where(F, fn)
            for o in outs:
                c.paths += 1
                if badout(c, o, what):
                    continue
                check_first(c, F, o, res(o), mean, x[2], what, loc, [k], check_cache=False)
        c.sample = what
    return run


def second_task(F, src, fn, pats, how):
    """src: class of the source (other propagation mode for w_prop)"""
    def run(c):
        for p in pats:
            vm = F.vm()
            x = build2(src, vm, p[0], p[1], 'x')
            st = newstate()
            st.roots['x'] = x[0]
            before = src.read(x[0])
            what = '%s of %s' % (fn[2:], pname(p))
            loc = where(F, fn)
            args = [x[0]]
            res = lambda o: o.value
            if how == 'assign':
                t = build2(F, vm, (1, 3), ((1, 3),), 't')
                st.roots['t'] = t[0]
                args = [t[0], x[0]]
                res = lambda o: o.st.roots['t']
            elif how == 'self':
                args = [x[0], x[0]]
                res = lambda o: o.st.roots['x']
            vm.start(F.fn(fn)['id'], args, st)
            outs = vm.run(st)
            account(c, vm)
            for o in outs:
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, what):
                    continue
                check_second(c, F, o, res(o), x[1], x[2], x[3], x[4], what, loc, korder(x[4]))
                r = F.read(res(o))
                c.compared += 1
                if set(r.grad) != set(before.grad):
                    c.violation('%s: variables %s instead of %s' % (what, [kname(k) for k in r.grad], [kname(k) for k in before.grad]), loc)
                a = src.read(o.st.roots['x'])
                for k in set(a.grad) | set(before.grad):
                    eq(c, a.grad.get(k, ZERO), before.grad.get(k, ZERO), o.st.facts, what + ': source changed', loc)
                for k in set(a.hess) | set(before.hess):
                    eq(c, a.hess.get(k, ZERO), before.hess.get(k, ZERO), o.st.facts, what + ': source changed', loc)
                for k in set(a.mom) & set(before.mom):
                    for i in range(6):
                        eq(c, a.mom[k][i], before.mom[k][i], o.st.facts, what + ': source changed', loc)
                eq(c, a.mean, before.mean, o.st.facts, what + ': source changed', loc)
        c.sample = what
    return run


def query_task(F, kind, second):
    """isindep and indepid agree with the number of sources"""
    def run(c):
        n = None
        for fn in ('isindep', 'indepid'):
            vm = F.vm()
            if second:
                x = build2(F, vm, kind[0], kind[1], 'x')
                fn = 'w_' + fn
            else:
                x = build(F, vm, kind, 'x')
                fn = 'u_' + fn
            outs = call(vm, F, fn, [x[0]])
            account(c, vm)
            loc = where(F, fn)
            ks = list(x[2])
            for o in outs:
                c.paths += 1
                c.compared += 1
                what = '%s of %s' % (fn[2:], kind)
                if badout(c, o, what):
                    continue
                if fn.endswith('isindep'):
                    if bool(o.value) != (len(ks) <= 1):
                        c.violation('%s: %s' % (what, o.value), loc)
                else:
                    w = ks[0] if len(ks) == 1 else 0 if not ks else -1
                    if o.value is not w and o.value != w:
                        c.violation('%s: %s instead of %s' % (what, o.value, w), loc)
        c.sample = str(kind)
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 1, 2), (0, 1, 2, 3)], cached=True)
    for k in ks:
        n = kindname(k)
        ts.append(Task('copy/first/' + n, first_task(F, 'u_copy', k, 'copy')))
        ts.append(Task('copy/assign/' + n, first_task(F, 'u_assign', k, 'assign')))
        ts.append(Task('copy/self-assign/' + n, first_task(F, 'u_assign', k, 'self')))
        ts.append(Task('change/' + n, first_task(F, 'u_change', k, 'change')))
        ts.append(Task('convert/first/' + n, first_task(F, 'u_conv', k, 'conv')))
        ts.append(Task('convert/first-back/' + n, first_task(F, 'u_conv_back', k, 'conv')))
        ts.append(Task('identity/first/' + n, query_task(F, k, False)))
    for fn, how in (('u_copy', 'copy'), ('u_assign', 'assign'), ('u_change', 'change'), ('u_conv', 'conv'), ('u_conv_back', 'conv')):
        ts.append(Task('any/' + fn, open_task(F, fn, how)))
    P = program('second.cpp')
    S = {'vpe::': Second(P, 'vpe::'), 'vpm::': Second(P, 'vpm::')}
    pats = patterns(4) if THOROUGH else patterns(3)
    for pre, oth, mode in (('vpe::', 'vpm::', 'est'), ('vpm::', 'vpe::', 'mean')):
        G, H = S[pre], S[oth]
        for fn, src, how in (('w_copy', G, 'copy'), ('w_assign', G, 'assign'), ('w_assign', G, 'self'), ('w_conv', G, 'conv'),
                             ('w_conv_back', G, 'conv'), ('w_prop', H, 'conv'), ('w_prop_conv', H, 'conv')):
            for ch in chunks(pats, 9):
                ts.append(Task('%s/%s/%s/%s..' % (mode, fn, how, pname(ch[0])), second_task(G, src, fn, ch, how)))
        for p in pats[:18]:
            ts.append(Task('%s/identity/%s' % (mode, pname(p)), query_task(G, p, True)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C16', lambda: main('C16', tasks(), RULE, floors={'copy': 10, 'convert': 5, 'est': 10, 'mean': 10},
                                       assumptions=['conversions between floating types are exact (C24 looks at narrowing)'])))
