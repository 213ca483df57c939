"""C21: the function factories wrap functions and derivatives faithfully."""
import os
import sys
from math import factorial
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from lower import RefCell
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of the returned function objects with uninterpreted user functions; mean, gradient and '
        'Hessian must be those functions at the (first-order) means, in role; difference quotients are read back as linear '
        'functionals of the user functions, expanded in the step, and every Taylor coefficient must agree with the derivative '
        'up to the documented power of the step; a function object gives the same result after others of its type were used; no function object may capture a reference to a parameter of its factory')

A, B, H = sym('mx'), sym('my'), sym('step', 0)
# user functions: name -> order of the derivative they stand for
ROLE = {'xf': (0, 0), 'xd': (1, 0), 'xdd': (2, 0), 'yf': (0, 0), 'yx': (1, 0), 'yy': (0, 1), 'yxx': (2, 0), 'yyy': (0, 2),
        'yxy': (1, 1)}


EXTS = {}       # symbol of a value of a user function -> (name, arguments)


def extval(name, args):
    """user functions are uninterpreted: their value at each point is a symbol of its own"""
    s = sym('%s(%s)' % (name, '; '.join(repr(a) for a in args)))
    EXTS[list(s.atoms())[0]] = (name, tuple(args))
    return s


lib.EXTVAL[0] = extval


def substx(e, m):
    """substitution which enters the arguments of the user functions"""
    m2 = dict(m)
    for a in e.deep_syms():
        if a in EXTS:
            name, args = EXTS[a]
            m2[a] = extval(name, tuple(substx(x, m) for x in args))
    return cas.subst(e, m2)


def functional(e):
    """expression -> [(weight, role, shift x, shift y)]; linear in the user functions or Undecided"""
    ats = set()

    def walk(x):
        for a in x.atoms():
            k = cas.ATOMS[a]
            if a in EXTS:
                ats.add(a)
            elif k[0] == 'fn':
                for y in k[2]:
                    walk(y)
            elif k[0] == 'base':
                walk(k[1])
    walk(e)
    out = []
    rest = dict(e.d)
    for a in sorted(ats):
        w = {}
        for m, c in e.d.items():
            es = [x for x in m if x[0] == a]
            if not es:
                continue
            if es[0][1] != 1:
                raise Undecided('not linear in the user functions')
            mm = tuple(x for x in m if x[0] != a)
            if any(x[0] in ats for x in mm):
                raise Undecided('not linear in the user functions')
            w[mm] = c
            rest.pop(m, None)
        name, args = EXTS[a]
        name = name[4:]
        if name not in ROLE or not w:
            raise Undecided('user function inside another expression')
        out.append((Num(w), ROLE[name], cas.sub(args[0], A), cas.sub(args[1], B) if len(args) > 1 else ZERO))
    if rest:
        raise Undecided('value with a part that is not a user function')
    return out


def hpow(e):
    """smallest power of the step in e (None if e is zero)"""
    i = list(H.atoms())[0]
    lo = None
    for m, c in e.d.items():
        p = 0
        for a, x in m:
            if a == i:
                p = x
            elif cas.ATOMS[a][0] in ('fn', 'base') and i in Num({((a, 1),): 1}).deep_syms():
                raise Undecided('not a power series in the step')
        lo = p if lo is None else min(lo, p)
    return lo


def taylor(fun, p, q):
    """coefficient of the derivative of order (p, q) of f in the functional"""
    t = ZERO
    for w, (i, j), dx, dy in fun:
        a, b = p - i, q - j
        if a < 0 or b < 0:
            continue
        x = cas.mul(w, cas.mul(cas.ipow(dx, a) if a else num(1), cas.ipow(dy, b) if b else num(1)))
        t = cas.add(t, cas.mul(x, num(Fraction(1, factorial(a) * factorial(b)))))
    return t


def converge(c, e, target, order, what, loc):
    fun = functional(e)
    if not fun:
        c.compared += 1
        c.violation('%s: does not depend on the user function' % what, loc)
        return
    low = min(hpow(w) for w, r, x, y in fun)
    top = max(2, int(order - low) + 1) + 2
    for p in range(top + 1):
        for q in range(top + 1 - p):
            t = taylor(fun, p, q)
            if (p, q) == target:
                t = cas.sub(t, num(1))
            c.compared += 1
            lo = hpow(t)
            if lo is not None and lo < order:
                c.violation('%s: differs from the derivative by a multiple of step^%s times the derivative of order (%d, %d) of '
                            'the function; the documented error is O(step^%d)' % (what, lo, p, q, order), loc,
                            computed=repr(e)[:400])
                return
    c.how['expansion'] = c.how.get('expansion', 0) + 1


def fit(c, e, target, what, loc, eps=Fraction(1, 2 ** 52)):
    """default step: truncation and rounding error of the formula are within a few times sqrt(eps)"""
    fun = functional(e)
    amp = Fraction(0)
    for w, r, x, y in fun:
        if w.const() is None or x.const() is None or y.const() is None:
            raise Undecided('step is not a constant')
        amp += abs(Fraction(w.const()))
    lim = 64 * Fraction(1, 2 ** 26)
    c.compared += 1
    if amp * eps > lim:
        c.violation('%s: with the default step the rounding error of the values is amplified by %g' % (what, float(amp)), loc)
    for p in range(6):
        for q in range(6 - p):
            t = taylor(fun, p, q)
            v = Fraction(t.const()) - (1 if (p, q) == target else 0)
            c.compared += 1
            if abs(v) > lim:
                c.violation('%s: with the default step the truncation error is %g times the derivative of order (%d, %d)' % (
                    what, float(abs(v)), p, q), loc)
                return


def refs(v, seen, path, out):
    if id(v) in seen:
        return
    seen.add(id(v))
    if v.__class__ is V.Closure:
        refs(v.target, seen, path, out)
    elif v.__class__ is RefCell:
        out.append(path)
    elif v.__class__ is Cell:
        refs(v.v, seen, path, out)
    elif v.__class__ is Ptr and path:
        out.append(path)
    elif v.__class__ is Struct:
        for k, x in v.f.items():
            if k != '$fn':
                refs(x, seen, path + [k], out)


def capture_task(F, fn, step):
    def run(c):
        vm = F.vm()
        for o in call(vm, F, fn, [Cell(H)] if step else []):
            c.paths += 1
            if badout(c, o, fn[2:]):
                continue
            c.compared += 1
            out = []
            refs(o.value, set(), [], out)
            if out:
                c.violation('%s: the function object keeps %d references to parameters of the factory, dangling when it is '
                            'called' % (fn[2:], len(out)), where(F, fn))
        account(c, vm)
        c.sample = '%s: captures of the function object' % fn[2:]
    return run


def ext(name, *a):
    return extval('ext:' + name, a)


SIMPLE = {'f_unary': 1, 'f_binary': 2}
# second order: name -> (arguments, where each derivative comes from)
# first order: derivative -> None when it must be exact, else order of the error


def branches(outs):
    """results of the feasible paths; first those which do not rest on a coincidence of values"""
    outs = [o for o in outs if o.kind != 'ret' or not infeasible(o)]
    if not outs or any(o.kind != 'ret' for o in outs):
        raise Undecided('no result for independent operands')
    return sorted(outs, key=lambda o: any(op == '==' for op, _ in o.st.facts))


def each(c, rs, look):
    """look at the derivatives of every path; a path taken only when values coincide may also agree with the first one"""
    (first, f0), rest = rs[0], rs[1:]
    look(first)
    for ds, facts in rest:
        if any(op == '==' for op, _ in facts) and all(cas.equal(d, e, facts)[0] == 'eq' for d, e in zip(flat(ds), flat(first))):
            c.compared += 1
            continue
        look(ds)


def flat(ds):
    out = []
    for d in ds:
        out += d if d.__class__ is list else list(d.values()) if d.__class__ is dict else [d]
    return out


def derivs1(F, fn, n, args):
    rs = all1(F, fn, n, args)
    if sum(1 for d, f in rs if all(op != '==' for op, _ in f)) > 1:
        raise Undecided('no single result for independent operands')
    return rs[0][0]


def all1(F, fn, n, args):
    """first derivatives (as expressions) of the factory fn, by running it on independent variables"""
    vm = F.vm()
    x = build(F, vm, ('I', (0,)), 'x', mean=A)
    y = build(F, vm, ('I', (1,)), 'y', mean=B)
    objs = [x, y][:n]
    rs = []
    for out in branches(call(vm, F, fn, [o[0] for o in objs] + args)):
        r = F.read(out.value)
        ds = []
        for i, o in enumerate(objs):
            k = K[i]
            ds.append(cas.div(r.coef.get(k, ZERO), o[2][k]))
        rs.append((ds, out.st.facts))
    return rs


def general1(F, fn, n, pats, same, mode, args, exact):
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        ms = [A, B][:n]
        if same:
            ms = [A, A]
        if n == 1:
            mean = ext('xf', A)
            ds = [ext('xd', A)] if exact else derivs1(F, fn, n, args)
        else:
            mean = ext('yf', *ms)
            ds = [ext('yx', *ms), ext('yy', *ms)] if exact else derivs1(F, fn, n, args)
            if same and not exact:
                ds = [substx(d, {list(B.atoms())[0]: A}) for d in ds]
        vm = F.vm()
        objs = [build(F, vm, pats[0], 'x', mean=A)]
        if n == 2:
            objs.append(objs[0] if same else build(F, vm, pats[1], 'y', mean=B))
        want = {}
        for o, d in zip(objs, ds):
            for k, v in o[2].items():
                want[k] = cas.add(want.get(k, ZERO), cas.mul(d, v))
        nm = '%s(%s)%s' % (fn[2:], ', '.join(kindname(p) for p in pats[:n]), ' same object' if same else '')
        for o in call(vm, F, fn, [o[0] for o in objs] + args):
            if o.kind != 'ret' and infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, nm):
                continue
            check_first(c, F, o, o.value, mean, want, nm, loc, K[:4])
        account(c, vm)
        c.sample = nm
    return run


def conv1(F, fn, n):
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        def look(ds):
            for d, target, nm in zip(ds, ((1, 0), (0, 1)), ('d/dx', 'd/dy')):
                converge(c, d, target, 1, '%s: %s' % (fn[2:], nm), loc)
        each(c, all1(F, fn, n, [Cell(H)]), look)
        c.paths += 1
        c.sample = '%s: expansion of the difference quotients in the step' % fn[2:]
    return run


def def1(F, fn, n):
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        def look(ds):
            for d, target, nm in zip(ds, ((1, 0), (0, 1)), ('d/dx', 'd/dy')):
                fit(c, d, target, '%s: %s' % (fn[2:], nm), loc)
        each(c, all1(F, fn, n, []), look)
        c.paths += 1
        c.sample = '%s: default step' % fn[2:]
    return run


def derivs2(F, fn, n, args):
    rs = all2(F, fn, n, args)
    if sum(1 for d, f in rs if all(op != '==' for op, _ in f)) > 1:
        raise Undecided('no single result for independent operands')
    return rs[0][0]


def all2(F, fn, n, args):
    vm = F.vm()
    ks = [K[0], K[1]]
    objs = []
    for i in range(n):
        m = (A, B)[i]
        g = sym('s%d' % i, 0)
        objs.append((F.make(vm, m, {ks[i]: (g, ZERO, momsyms(ks[i]))}, {}), g))
    rs = []
    for out in branches(call(vm, F, fn, [o[0] for o in objs] + args)):
        r = F.read(out.value)
        ds = [cas.div(r.grad.get(ks[i], ZERO), objs[i][1]) for i in range(n)]
        dds = {}
        for i in range(n):
            for j in range(i, n):
                h = hget(r.hess, ks[i], ks[j])
                dds[(i, j)] = cas.div(cas.mul(num(2), h), cas.mul(objs[i][1], objs[j][1]))
        rs.append(([ds, dds], out.st.facts))
    return rs


def general2(F, fn, n, pats, same, args, how):
    """how: 'exact', 'd' (first derivatives exact) or 'n'"""
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        ms = [A, A] if same else [A, B][:n]
        if n == 1:
            mean = ext('xf', A)
            e1 = [ext('xd', A)]
            e2 = {(0, 0): ext('xdd', A)}
        else:
            mean = ext('yf', *ms)
            e1 = [ext('yx', *ms), ext('yy', *ms)]
            e2 = {(0, 0): ext('yxx', *ms), (1, 1): ext('yyy', *ms), (0, 1): ext('yxy', *ms)}
        if how != 'exact':
            d1, d2 = derivs2(F, fn, n, args)
            if same:
                sb = {list(B.atoms())[0]: A}
                d1 = [substx(d, sb) for d in d1]
                d2 = {k: substx(d, sb) for k, d in d2.items()}
            e2 = d2
            if how == 'n':
                e1 = d1
        vm = F.vm()
        objs = [build2(F, vm, pats[0][0], pats[0][1], 'x', mean=A)]
        if n == 2:
            objs.append(objs[0] if same else build2(F, vm, pats[1][0], pats[1][1], 'y', mean=B))
        dd = [[e2[(min(i, j), max(i, j))] for j in range(n)] for i in range(n)]
        G, Hs = chain([(o[2], o[3]) for o in objs], e1, dd)
        mom = {}
        for o in objs:
            mom.update(o[4])
        nm = '%s(%s)%s' % (fn[2:], ', '.join(str(p) for p in pats[:n]), ' same object' if same else '')
        for o in call(vm, F, fn, [o[0] for o in objs] + args):
            if o.kind != 'ret' and infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, nm):
                continue
            check_second(c, F, o, o.value, mean, G, Hs, mom, nm, loc, K[:3])
        account(c, vm)
        c.sample = nm
    return run


N1, N2 = ('d/dx', 'd/dy'), {(0, 0): 'd2/dx2', (1, 1): 'd2/dy2', (0, 1): 'd2/dxdy'}
T2 = {(0, 0): (2, 0), (1, 1): (0, 2), (0, 1): (1, 1)}


def conv2(F, fn, n, how, order):
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        def look(ds):
            d1, d2 = ds
            if how == 'n':
                for d, target, nm in zip(d1, ((1, 0), (0, 1)), N1):
                    converge(c, d, target, order, '%s: %s' % (fn[2:], nm), loc)
            for k, d in d2.items():
                converge(c, d, T2[k], order, '%s: %s' % (fn[2:], N2[k]), loc)
        each(c, all2(F, fn, n, [Cell(H)]), look)
        c.paths += 1
        c.sample = '%s: expansion of the difference quotients in the step' % fn[2:]
    return run


def def2(F, fn, n, how):
    def run(c):
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        def look(ds):
            d1, d2 = ds
            if how == 'n':
                for d, target, nm in zip(d1, ((1, 0), (0, 1)), N1):
                    fit(c, d, target, '%s: %s' % (fn[2:], nm), loc)
            for k, d in d2.items():
                fit(c, d, T2[k], '%s: %s' % (fn[2:], N2[k]), loc)
        each(c, all2(F, fn, n, []), look)
        c.paths += 1
        c.sample = '%s: default step' % fn[2:]
    return run


def operands(F, vm, n, tag):
    ms = (sym('n' + tag + 'x'), sym('n' + tag + 'y')) if tag else (A, B)
    if isinstance(F, Second):
        return [build2(F, vm, (i,), (), 'xy'[i], mean=ms[i])[0] for i in range(n)]
    return [build(F, vm, ('I', (i,)), 'xy'[i], mean=ms[i])[0] for i in range(n)]


def history_task(F, fn, n, step):
    """the result of a function object does not depend on what other function objects did before"""
    def run(c):
        g = 'g_' + fn[2:]
        loc = where(F, 'k_' + fn[2:])
        h2 = [Cell(sym('step2', 0))] if step else []
        for first, tag, ss, then in ((fn, '', [Cell(H)] if step else [], g), (fn, '2', h2, fn), (fn, '', h2, fn)):
            last = [Cell(H)] if step else []
            vm = F.vm()
            ref = branches(call(vm, F, then, operands(F, vm, n, '') + last))[0]
            want = F.read(ref.value)
            vm = F.vm()
            what = '%s after another %s' % (fn[2:], 'function' if then is g else 'argument' if tag else 'step')
            for o in call(vm, F, first, operands(F, vm, n, tag) + ss):
                if o.kind != 'ret' or infeasible(o):
                    continue
                st = o.st
                st.frames = []
                vm = F.vm()
                for o2 in call(vm, F, then, operands(F, vm, n, '') + last, st):
                    if o2.kind != 'ret' or infeasible(o2):
                        continue
                    c.paths += 1
                    got = F.read(o2.value)
                    fs = o2.st.facts
                    eq(c, got.mean, want.mean, fs, what + ': mean', loc)
                    for i in range(n):
                        if isinstance(F, Second):
                            eq(c, got.grad.get(K[i], ZERO), want.grad.get(K[i], ZERO), fs, what + ': gradient', loc)
                            for j in range(i, n):
                                eq(c, hget(got.hess, K[i], K[j]), hget(want.hess, K[i], K[j]), fs, what + ': Hessian', loc)
                        else:
                            eq(c, got.coef.get(K[i], ZERO), want.coef.get(K[i], ZERO), fs, what + ': coefficient', loc)
                account(c, vm)
        c.sample = '%s: two function objects one after the other' % fn[2:]
    return run


def step_task(F, fn, bits, order):
    """a formula of that order needs step^order + eps/step^order of the order of sqrt(eps)"""
    def run(c):
        vm = F.vm()
        loc = where(F, 'k_' + fn[2:] if fn.startswith('f_') else fn)
        eps = Fraction(1, 2 ** bits)
        for o in call(vm, F, fn, [] if order is None else [order]):
            c.paths += 1
            what = '%s(%s)' % (fn, '' if order is None else order)
            if badout(c, o, what):
                continue
            c.compared += 1
            n = 1 if order is None else order
            v = float(cas.evalf(o.value, {}))
            want = float(eps) ** (0.5 / n)
            if not want / 8 <= v <= want * 8:
                c.violation('%s: the default step for derivatives of order %d is %g, truncation and rounding are balanced at '
                            '%g' % (what, n, v, want), loc)
        account(c, vm)
        c.sample = '%s: value of the default step' % fn
    return run


def tasks():
    P = program('fun.cpp')
    ts = []
    F = First(P, 'vpd::')
    for fn, step in (('k_unary', 0), ('k_unary_step', 1), ('k_unary_def', 0), ('k_binary', 0), ('k_binary_step', 1),
                     ('k_binary_def', 0)):
        ts.append(Task('capture/first/' + fn[2:], capture_task(F, fn, step)))
    for fn, n, step in (('f_unary', 1, 0), ('f_unary_step', 1, 1), ('f_unary_def', 1, 0), ('f_binary', 2, 0), ('f_binary_step', 2, 1),
                        ('f_binary_def', 2, 0)):
        ts.append(Task('history/first/' + fn, history_task(F, fn, n, step)))
    k1 = [('C', ()), ('I', (0,)), ('D', (0, 1)), ('D', ())]
    k2 = [('C', ()), ('I', (0,)), ('I', (1,)), ('D', (0, 1)), ('D', (1, 2))]
    for fn, args, exact in (('f_unary', [], True), ('f_unary_step', [Cell(H)], False), ('f_unary_def', [], False)):
        for k in k1:
            ts.append(Task('roles/first/%s/%s' % (fn, kindname(k)), general1(F, fn, 1, [k], False, '', args, exact)))
    for fn, args, exact in (('f_binary', [], True), ('f_binary_step', [Cell(H)], False), ('f_binary_def', [], False)):
        for a in k2:
            ts.append(Task('roles/first/%s/%s same' % (fn, kindname(a)), general1(F, fn, 2, [a, a], True, '', args, exact)))
            for b in k2:
                ts.append(Task('roles/first/%s/%s,%s' % (fn, kindname(a), kindname(b)),
                               general1(F, fn, 2, [a, b], False, '', args, exact)))
    for fn, n in (('f_unary_step', 1), ('f_binary_step', 2)):
        ts.append(Task('convergence/first/' + fn, conv1(F, fn, n)))
    for fn, n in (('f_unary_def', 1), ('f_binary_def', 2)):
        ts.append(Task('default/first/' + fn, def1(F, fn, n)))
    for order in (1, 2):
        for fn, bits in (('d_step', 52), ('d_stepf', 23), ('d_stepl', 63)):
            ts.append(Task('default/step/%s/%d' % (fn, order), step_task(F, fn, bits, order)))
    ts.append(Task('default/step/d_step0', step_task(F, 'd_step0', 52, None)))
    p1 = [((), ()), ((0,), ()), ((0, 1), ()), ((0, 1), ((0, 1),))]
    p2 = [((), ()), ((0,), ()), ((1,), ()), ((0, 1), ((0, 1),)), ((1, 2), ())]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        W = Second(P, pre)
        for fn, step in (('k_unary', 0), ('k_unary_dstep', 1), ('k_unary_ddef', 0), ('k_unary_step', 1), ('k_unary_def', 0),
                         ('k_binary', 0), ('k_binary_dstep', 1), ('k_binary_ddef', 0), ('k_binary_step', 1),
                         ('k_binary_def', 0)):
            ts.append(Task('capture/%s/%s' % (mode, fn[2:]), capture_task(W, fn, step)))
            ts.append(Task('history/%s/%s' % (mode, fn[2:]), history_task(W, 'f_' + fn[2:], 1 if 'unary' in fn else 2, step)))
        for fn, args, how in (('f_unary', [], 'exact'), ('f_unary_dstep', [Cell(H)], 'd'), ('f_unary_ddef', [], 'd'),
                              ('f_unary_step', [Cell(H)], 'n'), ('f_unary_def', [], 'n')):
            for p in p1:
                ts.append(Task('roles/%s/%s/%s' % (mode, fn, p), general2(W, fn, 1, [p], False, args, how)))
            if how != 'exact':
                if args:
                    ts.append(Task('convergence/%s/%s' % (mode, fn), conv2(W, fn, 1, how, 1 if how == 'd' else 2)))
                else:
                    ts.append(Task('default/%s/%s' % (mode, fn), def2(W, fn, 1, how)))
        for fn, args, how in (('f_binary', [], 'exact'), ('f_binary_dstep', [Cell(H)], 'd'), ('f_binary_ddef', [], 'd'),
                              ('f_binary_step', [Cell(H)], 'n'), ('f_binary_def', [], 'n')):
            for a in p2:
                ts.append(Task('roles/%s/%s/%s same' % (mode, fn, a), general2(W, fn, 2, [a, a], True, args, how)))
                for b in p2:
                    ts.append(Task('roles/%s/%s/%s,%s' % (mode, fn, a, b), general2(W, fn, 2, [a, b], False, args, how)))
            if how != 'exact':
                if args:
                    ts.append(Task('convergence/%s/%s' % (mode, fn), conv2(W, fn, 2, how, 1 if how == 'd' else 2)))
                else:
                    ts.append(Task('default/%s/%s' % (mode, fn), def2(W, fn, 2, how)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C21', lambda: main('C21', tasks(), RULE, floors={'roles': 300, 'convergence': 10, 'capture': 26, 'default': 10},
                                       assumptions=['real arithmetic: rounding is not modelled',
                                                    'the user functions are smooth and have no side effects'])))
