"""C03: central values are the plain function of the operands' central values."""
import math
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
import lower
import spec
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation with floating operations kept as written (a free term algebra modulo commutativity and '
        'sign); the term computed for the mean of the result must be the term of the same operation on plain numbers, '
        'whatever the kind of the operands')

BIN = ['add', 'sub', 'mul', 'div']
FN1 = {'exp2': lambda x: 2.0 ** x, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x)}


def fval(a, env):
    """value of a term in double arithmetic"""
    if not isinstance(a, Num):
        return math.nan
    t = 0.0
    first = True
    for m, c in sorted(a.d.items()):
        v = float(c)
        for at, e in m:
            b = aval(at, env)
            b = b ** e if e.__class__ is int else (b ** float(e) if b >= 0 else math.nan)
            v = b if v == 1 else -b if v == -1 else v * b
        t = v if first else t + v
        first = False
    return t


def aval(at, env):
    k = cas.ATOMS[at]
    if k[0] == 'sym':
        return env[at]
    if k[0] == 'base':
        return fval(k[1], env)
    name, args = k[1], [fval(x, env) for x in k[2]]
    n = name[3:] if name.startswith('fl:') else name
    if name == 'fl+':
        return args[0] + args[1]
    if name == 'fl*':
        return args[0] * args[1]
    if name == 'fl/':
        return args[0] / args[1]
    if n == 'abs':
        return abs(args[0])
    if n in ('fmax', 'fmin'):
        return max(args) if n == 'fmax' else min(args)
    if n == 'lit':
        return args[0]
    if n == 'pi':
        return math.pi
    f = FN1.get(n) or getattr(math, n)
    return f(*args)


VALS = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 0.1, -0.3, 7.0, 49.0, 1e-3, 1e8, -1e8, 1e-8, 0.9999, 1e-320, 1e300]


def samples(syms, n=300):
    rng = random.Random(7)
    out = []
    for t in range(n):
        env = {}
        for s in syms:
            r = rng.random()
            env[s] = rng.choice(VALS) if r < 0.3 else rng.uniform(-1, 1) if r < 0.6 else rng.uniform(-30, 30) if r < 0.9 \
                else rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12)
        out.append(env)
    return out


OPS = {'<': lambda v: v < 0, '<=': lambda v: v <= 0, '>': lambda v: v > 0, '>=': lambda v: v >= 0,
       '==': lambda v: v == 0, '!=': lambda v: v != 0}


def same_term(c, got, want, facts, what, loc):
    c.compared += 1
    if isinstance(got, (int, bool)):
        got = num(int(got))
    if got is want or isinstance(got, Num) and got == want:
        c.how['same term'] = c.how.get('same term', 0) + 1
        return
    if not isinstance(got, (Num, Special)) or isinstance(got, Num) and got.has_rho():
        c.undecided('%s: value %r not understood' % (what, got))
        return
    m = cas.solve_eqs(facts)
    if m and isinstance(got, Num) and cas.subst(got, m) == cas.subst(want, m):
        c.how['same term'] = c.how.get('same term', 0) + 1
        return
    syms = set(want.deep_syms()) if isinstance(want, Num) else set()
    if isinstance(got, Num):
        syms |= got.deep_syms()
    for op, f in facts:
        syms |= f.deep_syms()
    n = 0
    tries = samples(sorted(syms), 1500)
    for op, f in facts:
        if op == '==':
            # put the sample on the surface
            for at, v in cas.solve_eqs(facts).items():
                for env in tries:
                    try:
                        env[at] = fval(v, env)
                    except Exception:
                        pass
            break
    for env in tries:
        try:
            if not all(OPS[op](fval(f, env)) for op, f in facts):
                continue
        except (ValueError, OverflowError, ZeroDivisionError, AttributeError):
            continue
        try:
            b = fval(want, env)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        except AttributeError as e:
            c.undecided('%s: %s' % (what, e))
            return
        try:
            a = fval(got, env)
        except (ValueError, OverflowError, ZeroDivisionError):
            a = math.inf
        except AttributeError as e:
            c.undecided('%s: %s' % (what, e))
            return
        n += 1
        if not (a == b or a != a and b != b):
            c.violation('%s: the mean is not the plain operation on the means' % what, loc, computed=repr(got)[:300],
                        specified=repr(want)[:300],
                        when=', '.join('%s %s 0' % (f, op) for op, f in facts)[:300],
                        witness={cas.ATOMS[k][1]: v for k, v in env.items() if v != 0 or True})
            return
    if n == 0:
        c.undecided('%s: terms differ, no point to compare them at' % what)
    else:
        c.how['random interpretation'] = c.how.get('random interpretation', 0) + 1


def plain(P, op, args):
    """term(s) of the operation on plain numbers: [(value, facts)]"""
    vm = V.VM(P)
    st = newstate()
    vm.start(P.fn('vpr::r_' + op)['id'], args, st)
    return [(o.value, o.st.facts) for o in vm.run(st) if o.kind == 'ret']


def task(F, build_, fn, op, ops, inplace=False, reads=None, real=None):
    """reads: function from (state outcome) to the mean of the result"""
    def run(c):
        lower.FREE[0] = True
        try:
            vm = F.vm()
            objs = [build_(vm, k, t) for k, t in zip(ops, 'xy')]
            args = [o[0] for o in objs]
            means = [o[1] for o in objs]
            if real is not None:
                r = sym('r')
                args.insert(real, r)
                means.insert(real, r)
            want = plain(F.P, op, means)
            st = newstate()
            st.roots['x'] = args[0] if not isinstance(args[0], Num) else None
            vm.start(F.fn(fn)['id'], args, st)
            outs = vm.run(st)
            account(c, vm)
            loc = where(F, fn)
            n = 0
            for o in outs:
                c.paths += 1
                what = '%s(%s)' % (op, ', '.join(str(k) for k in ops))
                if o.kind != 'ret':
                    continue
                n += 1
                res = o.st.roots['x'] if inplace else o.value
                for w, fs in want:
                    same_term(c, F.read(res).mean, w, list(o.st.facts) + list(fs), what, loc)
            if not n:
                c.undecided('no result')
            c.sample = '%s: mean term %s' % (what, want[0][0])
        finally:
            lower.FREE[0] = False
    return run


def special(F, build_, fn, op, means, inplace=False):
    """means that are not finite numbers"""
    def run(c):
        lower.FREE[0] = True
        try:
            vm = F.vm()
            args = [build_(vm, m, t) for m, t in zip(means, 'xy')]
            want = plain(F.P, op, list(means))
            st = newstate()
            st.roots['x'] = args[0]
            vm.start(F.fn(fn)['id'], args, st)
            outs = vm.run(st)
            account(c, vm)
            loc = where(F, fn)
            what = '%s(%s)' % (op, ', '.join(str(m) for m in means))
            if len(want) != 1:
                c.undecided('%s: the plain operation is not determined' % what)
                return
            w = want[0][0]
            n = 0
            for o in outs:
                if o.kind != 'ret':
                    continue
                n += 1
                c.paths += 1
                c.compared += 1
                got = F.read(o.st.roots['x'] if inplace else o.value).mean
                if isinstance(got, (int, bool)):
                    got = num(int(got))
                if got is w or isinstance(got, Num) and isinstance(w, Num) and got == w:
                    c.how['special value'] = c.how.get('special value', 0) + 1
                    continue
                if isinstance(got, Num) and isinstance(w, Num):
                    try:
                        if abs(fval(got, {}) - fval(w, {})) <= 1e-12:
                            c.how['special value'] = c.how.get('special value', 0) + 1
                            continue
                    except Exception as e:
                        c.undecided('%s: %s' % (what, e))
                        continue
                c.violation('%s: the mean is not the plain operation on the means' % what, loc, computed=repr(got)[:200],
                            specified=repr(w)[:200])
            if not n:
                c.undecided('no result')
        finally:
            lower.FREE[0] = False
    return run


SP = [('nan', cas.NAN), ('inf', cas.INF), ('-inf', cas.NINF)]


def special_tasks(ts):
    F = First(program('first.cpp'))
    P = program('second.cpp')
    fams = [('first', F, lambda vm, m, t: build(F, vm, ('I', (0 if t == 'x' else 1,)), t, m)[0], 'u_')]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        fams.append((mode, G, lambda vm, m, t, G=G: build2(G, vm, (0,) if t == 'x' else (1,), (), t, m)[0], 'w_'))
    for mode, F_, b, u in fams:
        for n, v in SP:
            for f in sorted(spec.R1):
                ts.append(Task('%s/%s/at %s' % (mode, f, n), special(F_, b, 'm_' + f, f, [v])))
            ts.append(Task('%s/neg/at %s' % (mode, n), special(F_, b, u + 'neg', 'neg', [v])))
            for x in (num(2), num(-3)):
                for ms, q in (((v, x), '%s,%s' % (n, x)), ((x, v), '%s,%s' % (x, n))):
                    for f in sorted(spec.R2):
                        if f in ('atan2', 'pow') and n != 'nan':
                            continue
                        ts.append(Task('%s/%s/at %s' % (mode, f, q), special(F_, b, 'm_' + f, f, list(ms))))
                    for op in BIN:
                        ts.append(Task('%s/%s/at %s' % (mode, op, q), special(F_, b, u + op, op, list(ms))))
                        if mode == 'first':
                            ts.append(Task('%s/i%s/at %s' % (mode, op, q), special(F_, b, 'u_i' + op, op, list(ms), True)))


def tasks():
    ts = []
    special_tasks(ts)
    F = First(program('first.cpp'))
    b1 = lambda vm, k, t: build(F, vm, k, t)
    K1 = [('C', ()), ('I', (0,)), ('D', (0, 1)), ('Dc', (0, 1))]
    K2 = [(a, b) for a in K1 for b in K1 + [('I', (1,)), ('D', (1, 2))]]
    for op in ('neg', 'pos'):
        for k in K1:
            ts.append(Task('first/%s/%s' % (op, kindname(k)), task(F, b1, 'u_' + op, op, [k])))
    for op in BIN:
        for a, b in K2:
            n = '%s,%s' % (kindname(a), kindname(b))
            ts.append(Task('first/%s/%s' % (op, n), task(F, b1, 'u_' + op, op, [a, b])))
            ts.append(Task('first/i%s/%s' % (op, n), task(F, b1, 'u_i' + op, op, [a, b], True)))
        for a in K1:
            ts.append(Task('first/%s/%s,r' % (op, kindname(a)), task(F, b1, 'u_%s_r' % op, op, [a], real=1)))
            ts.append(Task('first/%s/r,%s' % (op, kindname(a)), task(F, b1, 'u_r' + op, op, [a], real=0)))
            ts.append(Task('first/i%s/%s,r' % (op, kindname(a)), task(F, b1, 'u_i%s_r' % op, op, [a], True, real=1)))
    for f in sorted(spec.R1):
        for k in K1:
            ts.append(Task('first/%s/%s' % (f, kindname(k)), task(F, b1, 'm_' + f, f, [k])))
    for f in sorted(spec.R2):
        for a, b in K2:
            ts.append(Task('first/%s/%s,%s' % (f, kindname(a), kindname(b)), task(F, b1, 'm_' + f, f, [a, b])))
    P = program('second.cpp')
    pats = [((), ()), ((0,), ()), ((0, 1), ((0, 1),)), ((1, 2), ())]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        b2 = lambda vm, k, t, G=G: build2(G, vm, k[0], k[1], t)
        nm = lambda p: '{%s%s}' % (''.join(str(i + 1) for i in p[0]), '|' if p[1] else '')
        prs = [(a, b) for a in pats[:3] for b in pats]
        for op in ('neg', 'pos'):
            for p in pats:
                ts.append(Task('%s/%s/%s' % (mode, op, nm(p)), task(G, b2, 'w_' + op, op, [p])))
        for op in BIN:
            for a, b in prs:
                ts.append(Task('%s/%s/%s,%s' % (mode, op, nm(a), nm(b)), task(G, b2, 'w_' + op, op, [a, b])))
            for a in pats[:3]:
                ts.append(Task('%s/%s/%s,r' % (mode, op, nm(a)), task(G, b2, 'w_%s_r' % op, op, [a], real=1)))
                ts.append(Task('%s/%s/r,%s' % (mode, op, nm(a)), task(G, b2, 'w_r' + op, op, [a], real=0)))
        for f in sorted(spec.R1):
            for p in pats[:3]:
                ts.append(Task('%s/%s/%s' % (mode, f, nm(p)), task(G, b2, 'm_' + f, f, [p])))
        for f in sorted(spec.R2):
            for a, b in prs:
                ts.append(Task('%s/%s/%s,%s' % (mode, f, nm(a), nm(b)), task(G, b2, 'm_' + f, f, [a, b])))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C03', lambda: main('C03', tasks(), RULE, floors={'first': 100, 'est': 60, 'mean': 60},
                                       assumptions=['float contraction and extended precision are not modelled'])))
