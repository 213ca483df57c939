"""C08: cached standard deviations are never stale and the representation is consistent."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH
from c07 import dot

RULE = ('typestate over call sequences: from every abstract representation of a variable, every bounded sequence of library '
        'operations is interpreted; afterwards s() and var() through const and non-const access must equal the value '
        'recomputed from the current coefficients; single-source results must carry no table, constants no coefficient')

# state-changing operations on the variable x; y is a second operand
OPS = {
    's': ('u_s', lambda x, y: [x], 'void'),
    'var': ('u_var', lambda x, y: [x], 'void'),
    'x+=y': ('u_iadd', lambda x, y: [x, y], 'in'),
    'x*=y': ('u_imul', lambda x, y: [x, y], 'in'),
    'x-=x': ('u_isub', lambda x, y: [x, x], 'in'),
    'x/=r': ('u_idiv_r', lambda x, y: [x, sym('r', 0)], 'in'),
    'assign2': ('u_binary_assign', lambda x, y: [x, y, sym('f'), sym('a'), sym('b')], 'in'),
    'x=y': ('u_assign', lambda x, y: [x, y], 'in'),
    'x=x': ('u_assign', lambda x, y: [x, x], 'in'),
    'unary': ('u_unary', lambda x, y: [x, sym('f'), sym('d')], 'out'),
    'neg': ('u_neg', lambda x, y: [x], 'out'),
    'x+y': ('u_add', lambda x, y: [x, y], 'out'),
    'y*x': ('u_mul', lambda x, y: [y, x], 'out'),
    'x-x': ('u_sub', lambda x, y: [x, x], 'out'),
    'binary': ('u_binary', lambda x, y: [x, y, sym('f'), sym('a'), sym('b')], 'out'),
    'nary': ('u_nary2', lambda x, y: [Ptr(Arr(None, [x, y]), 0), sym('f'), Ptr(Arr(None, [Cell(sym('a')), Cell(sym('b'))]), 0)], 'out'),
    'copy': ('u_copy', lambda x, y: [x], 'out'),
    'change_nom': ('u_change', lambda x, y: [x, sym('n')], 'out'),
    'convert': ('u_conv', lambda x, y: [x], 'out'),
}


def queries(c, F, st, what, loc, long=False):
    """s and var of the object x of the state against the coefficients"""
    for fn in ('u_s_const', 'u_s', 'u_var_const', 'u_var'):
        s2 = V.State.clone(st)
        x = s2.roots['x']
        ob = F.read(x)
        v = dot(ob.coef, ob.coef)
        vm = F.vm()
        vm.start(F.fn(fn)['id'], [x], s2)
        for o in vm.run(s2):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, what + ': ' + fn[2:]):
                continue
            if fn.startswith('u_var'):
                eq(c, o.value, v, o.st.facts, '%s: var%s' % (what, ' const' if 'const' in fn else ''), loc)
            else:
                got = o.value
                if not isinstance(got, Num):
                    eq(c, got, cas.fn1('sqrt', v), o.st.facts, '%s: s' % what, loc)
                    continue
                eq(c, cas.mul(got, got), v, o.st.facts, '%s: s%s' % (what, ' const' if 'const' in fn else ''), loc)


def seq_task(F, kind, other, seqs):
    def run(c):
        for seq in seqs:
            one(c, F, kind, other, seq)
        c.sample = 'x is %s, y is %s: %s, then s and var' % (kindname(kind), kindname(other), '; '.join(seqs[-1]))
    return run


def one(c, F, kind, other, seq):
    vm = F.vm()
    x = build(F, vm, kind, 'x')
    y = build(F, vm, other, 'y')
    st = newstate()
    st.roots['x'], st.roots['y'] = x[0], y[0]
    sts = [st]
    what = 'x %s, y %s: %s' % (kindname(kind), kindname(other), '; '.join(seq))
    loc = '?'
    for op in seq:
        fn, mk, how = OPS[op]
        loc = where(F, fn)
        nxt = []
        for s in sts:
            s.frames = []
            vm = F.vm()
            vm.start(F.fn(fn)['id'], mk(s.roots['x'], s.roots['y']), s)
            for o in vm.run(s):
                if infeasible(o):
                    continue
                if badout(c, o, what):
                    return
                if how == 'out':
                    # value semantics: x becomes the result
                    o.st.roots['x'] = o.value
                o.st.frames = []
                nxt.append(o.st)
            account(c, vm)
        sts = nxt
    for s in sts:
        queries(c, F, s, what, loc)


def repr_task(F, fn, args, what, want):
    def run(c):
        vm = F.vm()
        a, n = args(vm)
        loc = where(F, fn)
        outs = call(vm, F, fn, a)
        account(c, vm)
        for o in outs:
            if infeasible(o):
                continue
            c.paths += 1
            c.compared += 1
            if badout(c, o, what):
                continue
            ob = F.read(o.value)
            m = o.value.f[F.f_map]
            if len(m.ent):
                c.violation('%s: carries a per-variable table of %d entries' % (what, len(m.ent)), loc)
            if len(ob.coef) > n:
                c.violation('%s: depends on %d variables instead of %d' % (what, len(ob.coef), n), loc)
        c.sample = what
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    ks = [('C', ()), ('I', (0,)), ('D', (0, 1)), ('Dc', (0, 1))]
    ys = [('C', ()), ('I', (0,)), ('I', (1,)), ('D', (1, 2)), ('Dc', (0, 2))]
    names = list(OPS)
    long_ok = [n for n in names if n != 'convert']
    for k in ks:
        for y in ys:
            for a in names:
                seqs = [(a,)] + [(b, a) for b in long_ok]
                ts.append(Task('seq2/%s,%s/%s' % (kindname(k), kindname(y), a), seq_task(F, k, y, seqs)))
    core = ['s', 'x+=y', 'x/=r', 'x=y', 'unary', 'x+y', 'change_nom', 'copy', 'assign2']
    n = 4 if THOROUGH else 3
    for k in ks[1:]:
        for y in ys[1:]:
            allseq = list(itertools.product(core, repeat=n))
            step = 60
            for i in range(0, len(allseq), step):
                ts.append(Task('seq%d/%s,%s/%d' % (n, kindname(k), kindname(y), i), seq_task(F, k, y, allseq[i:i + step])))
            if not THOROUGH and y[0] not in ('Dc', 'I'):
                break
    I = ('I', (0,))

    def b(k, tag='x'):
        return lambda vm: build(F, vm, k, tag)[0]
    R = [
        ('constructed', 'u_make', lambda vm: ([sym('n'), sym('s', 0)], 1)),
        ('constructed with zero error', 'u_make', lambda vm: ([sym('n'), ZERO], 1)),
        ('constant', 'u_make1', lambda vm: ([sym('n')], 0)),
        ('default', 'u_make0', lambda vm: ([], 0)),
        ('unary of an independent variable', 'u_unary', lambda vm: ([b(I)(vm), sym('f'), sym('d')], 1)),
        ('unary with zero derivative', 'u_unary', lambda vm: ([b(I)(vm), sym('f'), ZERO], 1)),
        ('unary of a constant', 'u_unary', lambda vm: ([b(('C', ()))(vm), sym('f'), sym('d')], 0)),
        ('negation', 'u_neg', lambda vm: ([b(I)(vm)], 1)),
        ('copy', 'u_copy', lambda vm: ([b(I)(vm)], 1)),
        ('change_nom', 'u_change', lambda vm: ([b(I)(vm), sym('n')], 1)),
        ('conversion', 'u_conv', lambda vm: ([b(I)(vm)], 1)),
        ('conversion of a constant', 'u_conv', lambda vm: ([b(('C', ()))(vm)], 0)),
        ('copy of a constant', 'u_copy', lambda vm: ([b(('C', ()))(vm)], 0)),
        ('exp', 'm_exp', lambda vm: ([b(I)(vm)], 1)),
        ('sin', 'm_sin', lambda vm: ([b(I)(vm)], 1)),
        ('atan', 'm_atan', lambda vm: ([b(I)(vm)], 1)),
    ]
    for n, fn, a in R:
        ts.append(Task('single-source/%s' % n.replace(' ', '_'), repr_task(F, fn, a, n, None)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C08', lambda: main('C08', tasks(), RULE, floors={'seq2': 50, 'single': 10},
                                       assumptions=['real arithmetic: rounding is not modelled',
                                                    'sequences of up to 3 operations (thorough: 4), each from every kind of '
                                                    'representation'])))
