"""C30: independence queries report the sources of a variable."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of every operation followed by isindep and indepid on its result, on every path: a variable into which '
        'at most one independent variable entered reports true and the id of that variable (0 if none), any other reports false and '
        'invalid_id, whatever its internal representation')


def ask(c, F, pre, st, what, loc, upper, read):
    """the two queries on roots['r'], one after the other; upper: variables that entered; those with a coefficient which is not known to
    be zero on the path must count"""
    vm = F.vm()
    inv = call(vm, F, pre + 'invalid', [])[0].value

    def query(fn, s0):
        s = s0.clone()
        s.frames = []
        vm = F.vm()
        vm.start(F.fn(pre + fn)['id'], [s.roots['r']], s)
        res = []
        for o in vm.run(s):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, '%s: %s' % (what, fn)):
                return None
            res.append((o.value, o.st))
        account(c, vm)
        return res

    def idof(s):
        return 0 if not s else list(s)[0] if len(s) == 1 else inv
    names = ', '.join(kname(k) for k in upper) or 'no variable'
    for ind, s1 in query('isindep', st) or ():
        c.compared += 1
        if not isinstance(ind, (bool, int)):
            c.undecided('%s: isindep gives %r' % (what, ind))
            return
        ind = bool(ind)
        for iid, s2 in query('indepid', s1) or ():
            c.compared += 1
            lower = [k for k in read(F, s2.roots['r'], s2.facts) if k in upper]
            sets = [set(lower) | set(x) for n in range(len(upper) + 1)
                    for x in itertools.combinations([k for k in upper if k not in lower], n)]
            if not any(ind == (len(s) <= 1) for s in sets):
                c.violation('%s: isindep() is %s although %s entered' % (what, str(ind).lower(), names), loc)
                return
            if not isinstance(iid, (int, Key)):
                c.undecided('%s: indepid gives %r' % (what, iid))
                return
            if not any(ind == (len(s) <= 1) and idof(s) == iid for s in sets):
                c.violation('%s: indepid() is %s although isindep() is %s and %s entered' % (
                    what, 'invalid_id' if iid == inv else kname(iid), str(ind).lower(), names), loc)
                return


def nonzero(coef, facts):
    return [k for k, v in coef.items() if not (isinstance(v, Num) and cas.equal(v, ZERO, facts)[0] == 'eq')]


def direct(F, kind):
    def run(c):
        vm = F.vm()
        x = build(F, vm, kind, 'x')
        st = newstate()
        st.roots['r'] = x[0]
        ask(c, F, 'u_', st, 'variable %s' % kindname(kind), where(F, 'u_isindep'), list(x[2]), rd1)
        c.sample = kindname(kind)
    return run


OPS = {
    'x+y': ('add', 'o'), 'x-y': ('sub', 'o'), 'x*y': ('mul', 'o'), 'x/y': ('div', 'o'), 'binary': ('binary', 'o'),
    'x+=y': ('iadd', 'i'), 'x*=y': ('imul', 'i'), 'assign': ('assign', 'i'), 'binary_assign': ('binary_assign', 'i'),
    'unary': ('unary', '1'), '-x': ('neg', '1'), '+x': ('pos', '1'), 'copy': ('copy', '1'), 'conversion': ('conv', '1'),
    'change_nom': ('change', '1'), 'x*r': ('mul_r', 'r'), 'r-x': ('rsub', 'q'), 'x+=r': ('iadd_r', 'ir'), 'nary': ('nary2', 'n'),
}
F1ARGS = {'unary': [sym('f'), sym('d')], 'binary': [sym('f'), sym('a'), sym('b')], 'binary_assign': [sym('f'), sym('a'), sym('b')],
          'change': [sym('n')], 'rsub': [sym('r', 0)]}
F2ARGS = {'unary': [sym('f'), sym('d'), sym('e')], 'binary': [sym('f')] + [sym(n) for n in ('a', 'b', 'p', 'q', 's')],
          'binary_assign': [sym('f')] + [sym(n) for n in ('a', 'b', 'p', 'q', 's')], 'change': [sym('n')]}


def after(F, pre, op, kx, ky, mk, read, extra, same=False):
    fn, how = OPS[op]

    def run(c):
        vm = F.vm()
        x = mk(F, vm, kx, 'x')
        y = x if same else mk(F, vm, ky, 'y')
        st = newstate()
        st.roots['x'], st.roots['y'] = x[0], y[0]
        what = '%s, x is %s, y is %s' % (op, x[3], 'x' if same else y[3]) if how in ('o', 'i', 'n') else '%s, x is %s' % (op, x[3])
        loc = where(F, pre + 'isindep')
        if how in ('o', 'i'):
            args = [x[0], y[0]] + extra.get(fn, [])
        elif how == 'n':
            args = [Ptr(Arr(None, [x[0], y[0]]), 0), sym('f'), Ptr(Arr(None, [Cell(sym('a')), Cell(sym('b'))]), 0)]
        elif how in ('r', 'ir'):
            args = [x[0], sym('r', 0)]
        elif how == 'q':
            args = [sym('r', 0), x[0]]
        else:
            args = [x[0]] + extra.get(fn, [])
        vm.start(F.fn(pre + fn)['id'], args, st)
        outs = vm.run(st)
        account(c, vm)
        up = list(x[2])
        if how in ('o', 'i', 'n') and fn != 'assign':
            up += [k for k in y[2] if k not in up]
        if fn == 'assign':
            up = list(y[2])
        n = 0
        for o in outs:
            if infeasible(o):
                continue
            n += 1
            if badout(c, o, what):
                continue
            r = o.st.roots['x'] if how in ('i', 'ir') else o.value
            lo = read(F, r, o.st.facts)
            for k in lo:
                if k not in up:
                    c.violation('%s: depends on %s, which entered nowhere' % (what, kname(k)), loc)
            o.st.roots['r'] = r
            ask(c, F, pre, o.st, what, loc, up, read)
        if not n:
            c.undecided('no feasible path')
        c.sample = what
    return run


def mk1(F, vm, k, tag):
    a = build(F, vm, k, tag)
    return a[0], a[1], a[2], kindname(k)


def rd1(F, o, facts):
    coef = F.read(o).coef
    return list(coef) if facts is None else nonzero(coef, facts)


def mk2(F, vm, p, tag):
    a = build2(F, vm, p[0], p[1], tag)
    return a[0], a[1], a[2], nm(p)


def rd2(F, o, facts):
    ob = F.read(o)
    if facts is None:
        return list(ob.grad)
    r = nonzero(ob.grad, facts)
    for p in nonzero(ob.hess, facts):
        r += [k for k in p if k not in r]
    return r


def nm(p):
    return '{%s|%s}' % (''.join(str(i + 1) for i in p[0]), ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]))


def direct2(F, p):
    def run(c):
        vm = F.vm()
        x = build2(F, vm, p[0], p[1], 'x')
        st = newstate()
        st.roots['r'] = x[0]
        ask(c, F, 'w_', st, 'variable %s' % nm(p), where(F, 'w_isindep'), list(x[2]), rd2)
        c.sample = nm(p)
    return run


def made(F, pre, fn, args, read, n):
    def run(c):
        vm = F.vm()
        what = '%s variable' % ('constructed' if n else 'constant')
        outs = call(vm, F, fn, args())
        account(c, vm)
        m = 0
        for o in outs:
            if infeasible(o) or o.kind == 'throw':
                continue
            m += 1
            if badout(c, o, what):
                continue
            r = read(F, o.value, None)
            if len(r) > n:
                c.violation('%s: depends on %d variables' % (what, len(r)), where(F, fn))
                continue
            o.st.roots['r'] = o.value
            ask(c, F, pre, o.st, what, where(F, pre + 'isindep'), list(r), read)
        if not m:
            c.undecided('no feasible path')
        c.sample = fn
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = kinds([(), (0,), (1,), (0, 1), (0, 2), (0, 1, 2)], cached=True)
    for k in ks:
        ts.append(Task('query/first/%s' % kindname(k), direct(F, k)))
    for fn, a, n in (('u_make', lambda: [sym('n'), sym('s', 0)], 1), ('u_make1', lambda: [sym('n')], 0), ('u_make0', lambda: [], 0)):
        ts.append(Task('query/first/%s' % fn, made(F, 'u_', fn, a, rd1, n)))
    names = set(f['qn'] for f in F.P.functions.values())
    few = [('C', ()), ('I', (0,)), ('I', (1,)), ('D', ()), ('D', (0,)), ('Dc', (1,)), ('D', (0, 1))]
    for op, (fn, how) in OPS.items():
        if F.prefix + 'u_' + fn not in names or op == 'conversion':
            continue
        for x in few:
            if how in ('o', 'i', 'n'):
                for y in few:
                    ts.append(Task('after/first/%s/%s,%s' % (op, kindname(x), kindname(y)), after(F, 'u_', op, x, y, mk1, rd1, F1ARGS)))
                ts.append(Task('after/first/%s/%s,same' % (op, kindname(x)), after(F, 'u_', op, x, x, mk1, rd1, F1ARGS, True)))
            else:
                ts.append(Task('after/first/%s/%s' % (op, kindname(x)), after(F, 'u_', op, x, x, mk1, rd1, F1ARGS)))
    P = program('second.cpp')
    ps = [((), ()), ((0,), ()), ((1,), ()), ((0, 1), ()), ((0, 1), ((0, 1),)), ((0, 1, 2), ((0, 2),))]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        six = lambda: Arr(None, [Cell(sym('v%d' % i)) for i in range(6)])
        for fn, a, n in (('w_make6', lambda: [sym('n'), sym('s', 0), six(), num(-1)], 1), ('w_make1', lambda: [sym('n')], 0),
                         ('w_make0', lambda: [], 0)):
            ts.append(Task('query/%s/%s' % (mode, fn), made(G, 'w_', fn, a, rd2, n)))
        names = set(f['qn'] for f in P.functions.values())
        for p in ps:
            ts.append(Task('query/%s/%s' % (mode, nm(p)), direct2(G, p)))
        for op, (fn, how) in OPS.items():
            if pre + 'w_' + fn not in names or op == 'conversion':
                continue
            for x in ps[:5]:
                if how in ('o', 'i', 'n'):
                    for y in ps[:4]:
                        ts.append(Task('after/%s/%s/%s,%s' % (mode, op, nm(x), nm(y)), after(G, 'w_', op, x, y, mk2, rd2, F2ARGS)))
                    ts.append(Task('after/%s/%s/%s,same' % (mode, op, nm(x)), after(G, 'w_', op, x, x, mk2, rd2, F2ARGS, True)))
                else:
                    ts.append(Task('after/%s/%s/%s' % (mode, op, nm(x)), after(G, 'w_', op, x, x, mk2, rd2, F2ARGS)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C30', lambda: main('C30', tasks(), RULE, floors={'query': 15, 'after': 200},
                                       assumptions=['real arithmetic: rounding is not modelled'])))
