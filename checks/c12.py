"""C12: traversal of and lookups in the sparse Hessian."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from runner import Task, main, guard, THOROUGH
from c09 import patterns, pname, chunks

RULE = ('abstract interpretation of every iterator and lookup of the sparse Hessian for every sparsity pattern over up to '
        'four (thorough: five) ordered variables with symbolic contents; the abstract sequence of visits must be exactly the '
        'required id pairs in increasing order, each with the stored value or zero and the two right gradient records; '
        'lookups and insertions must answer and store under the right ids; no operation may leave an off-diagonal '
        'entry for a variable without gradient record')


def mk(S, p, vm):
    diag, tri = {}, {}
    for i in p[0]:
        n = str(i + 1)
        diag[K[i]] = (sym('g' + n), sym('h' + n + n), momsyms(K[i]))
    for i, j in p[1]:
        tri[(K[i], K[j])] = sym('h%d%d' % (i + 1, j + 1))
    return S.hg(vm, diag, tri), diag, tri


def unptr(v):
    return v.deref() if isinstance(v, V.Ptr) else v


def same_hess(c, S, h, diag, tri, facts, what, loc):
    r = S.readhg(h)
    for k in set(r.grad) | set(diag):
        if (k in r.grad) != (k in diag):
            c.violation('%s: gradient record of variable %s %s' % (what, kname(k), 'appeared' if k in r.grad else 'was lost'), loc)
            continue
        eq(c, r.grad[k], diag[k][0], facts, '%s: gradient of %s' % (what, kname(k)), loc)
        eq(c, r.hess[(k, k)], diag[k][1], facts, '%s: diagonal of %s' % (what, kname(k)), loc)
        for n in range(6):
            eq(c, r.mom[k][n], diag[k][2][n], facts, '%s: moment %d of %s' % (what, n + 3, kname(k)), loc)
    for q in {x for x in r.hess if x[0] is not x[1]} | set(tri):
        if (q in r.hess) != (q in tri):
            c.violation('%s: off-diagonal entry %s,%s %s' % (what, q[0], q[1], 'appeared' if q in r.hess else 'was lost'), loc)
            continue
        eq(c, r.hess[q], tri[q], facts, '%s: entry %s,%s' % (what, q[0], q[1]), loc)


def visits(c, S, vm, o, want, diag, what, loc):
    if not isinstance(o.value, V.Arr):
        raise Undecided('list of visits not understood')
    got = o.value.items
    seq = [(x.f['i'].v, x.f['j'].v) for x in got]
    if [(a.name, b.name) for a, b in seq] != [(a.name, b.name) for a, b, v in want]:
        c.compared += 1
        c.violation('%s: visits %s instead of %s' % (what, ' '.join('%s,%s' % x for x in seq) or 'nothing',
                                                     ' '.join('%s,%s' % x[:2] for x in want) or 'nothing'), loc)
        return
    c.compared += 1
    for x, (a, b, v) in zip(got, want):
        w = '%s: at %s,%s' % (what, a, b)
        eq(c, x.f['h'].v, v, o.st.facts, w + ': value', loc)
        for f, k in (('a', a), ('b', b)):
            d = unptr(x.f[f].v)
            if not isinstance(d, Struct):
                raise Undecided('gradient record not understood')
            eq(c, d.f[S.f_grad].v, diag[k][0], o.st.facts, w + ': gradient of record %s' % f, loc)
            eq(c, d.f[S.f_hh].v, diag[k][1], o.st.facts, w + ': diagonal of record %s' % f, loc)


def trav(S, pats, which):
    def run(c):
        for p in pats:
            vm = S.vm()
            h, diag, tri = mk(S, p, vm)
            ks = [K[i] for i in p[0]]
            for skip in ((None,) if which == 'diag' else (True, False)):
                if which == 'diag':
                    want = [(k, k, diag[k][1]) for k in ks]
                else:
                    want = []
                    for i, a in enumerate(ks):
                        if which == 'hess':
                            want.append((a, a, diag[a][1]))
                        for b in ks[i + 1:]:
                            if (a, b) in tri:
                                want.append((a, b, tri[(a, b)]))
                            elif not skip:
                                want.append((a, b, ZERO))
                fn = S.P.fn('vph::h_' + which)
                st = newstate()
                st.roots['h'] = h
                what = '%s traversal%s of pattern %s' % ({'tri': 'off-diagonal', 'hess': 'full', 'diag': 'diagonal'}[which],
                                                        '' if skip is None else ', skipping missing' if skip else ', all pairs', pname(p))
                loc = 'uncertainties/internal/hessgrad.hpp'
                for o in call(vm, S, fn, [h] + ([] if skip is None else [skip]), st):
                    if infeasible(o):
                        continue
                    c.paths += 1
                    if badout(c, o, what):
                        continue
                    visits(c, S, vm, o, want, diag, what, loc)
                    same_hess(c, S, o.st.roots['h'], diag, tri, o.st.facts, what, loc)
            account(c, vm)
        c.sample = '%s traversal of %s and %d more patterns' % (which, pname(pats[-1]), len(pats) - 1)
    return run


def lookups(S, pats):
    def run(c):
        for p in pats:
            vm = S.vm()
            h, diag, tri = mk(S, p, vm)
            have = [K[i] for i in p[0]]
            probe = K[:max(p[0], default=0) + 2][:5]

            def ask(name, args, check, what, allow=None):
                st = newstate()
                st.roots['h'] = h
                fn = S.P.fn('vph::' + name)
                loc = where_h(S, fn)
                for o in call(vm, S, fn, [h] + args, st):
                    if infeasible(o):
                        continue
                    c.paths += 1
                    if allow is not None:
                        c.compared += 1
                        if o.kind != 'throw' or o.value != allow:
                            c.violation('%s: ends with %s instead of %s' % (what, o.kind, allow), loc)
                        continue
                    if badout(c, o, what):
                        continue
                    check(o, what, loc)
                    same_hess(c, S, o.st.roots['h'], diag, tri, o.st.facts, what, loc)

            def num_is(v):
                return lambda o, what, loc: eq(c, unptr(o.value).v if isinstance(unptr(o.value), Cell) else o.value, v, o.st.facts, what, loc)

            def diag_is(k):
                def f(o, what, loc):
                    d = unptr(o.value)
                    if not isinstance(d, Struct):
                        raise Undecided('gradient record not understood')
                    g, hh = (diag[k][0], diag[k][1]) if k in diag else (ZERO, ZERO)
                    eq(c, d.f[S.f_grad].v, g, o.st.facts, what + ': gradient', loc)
                    eq(c, d.f[S.f_hh].v, hh, o.st.facts, what + ': diagonal', loc)
                    if k in diag:
                        for n in range(6):
                            eq(c, S.moms(d)[n].v, diag[k][2][n], o.st.facts, '%s: moment %d' % (what, n + 3), loc)
                return f

            def find_is(v):
                def f(o, what, loc):
                    c.compared += 1
                    r = o.value
                    null = r is None or (isinstance(r, int) and r == 0)
                    if (v is None) != null:
                        c.violation('%s: %s' % (what, 'no entry found' if null else 'an entry is returned for a missing pair'), loc)
                    elif v is not None:
                        eq(c, unptr(r).v, v, o.st.facts, what, loc)
                return f
            t = 'pattern %s: ' % pname(p)
            ask('h_size', [], lambda o, what, loc: eq(c, o.value, num(len(have)), o.st.facts, what, loc), t + 'size')
            for k in probe:
                ask('h_diag_get', [k], diag_is(k), t + 'diag_get(%s)' % k)
                if k in diag:
                    ask('h_diagc', [k], diag_is(k), t + 'diag(%s)' % k)
                else:
                    ask('h_diagc', [k], None, t + 'diag(%s)' % k, 'std::out_of_range')
            for a, b in itertools.product(probe, probe):
                i, j = probe.index(a), probe.index(b)
                v = tri.get((a, b), tri.get((b, a)))
                if i < j:
                    ask('h_tri_get', [a, b], num_is(ZERO if v is None else v), t + 'tri_get(%s,%s)' % (a, b))
                    if v is None:
                        ask('h_tric', [a, b], None, t + 'tri(%s,%s)' % (a, b), 'std::out_of_range')
                    else:
                        ask('h_tric', [a, b], num_is(v), t + 'tri(%s,%s)' % (a, b))
                if i != j:
                    ask('h_tri_find', [a, b], find_is(v), t + 'tri_find(%s,%s)' % (a, b))
                    ask('h_hhess_get', [a, b], num_is(ZERO if v is None else v), t + 'hhess_get(%s,%s)' % (a, b))
                else:
                    ask('h_hhess_get', [a, b], num_is(diag[a][1] if a in diag else ZERO), t + 'hhess_get(%s,%s)' % (a, b))
            account(c, vm)
        c.sample = 'every lookup in %s and %d more patterns' % (pname(pats[-1]), len(pats) - 1)
    return run


def where_h(S, fn):
    return where(S, fn['qn'].split('(')[0]) if False else S.P.loc(fn)


def stores(S, pats):
    """mutable access creates or changes exactly the addressed entry"""
    def run(c):
        for p in pats:
            have = [K[i] for i in p[0]]
            probe = K[:max(p[0], default=0) + 2][:5]
            val = sym('w')
            for name in ('h_set_diag', 'h_set_tri', 'h_set_hhess'):
                for a, b in itertools.combinations_with_replacement(probe, 2):
                    if name == 'h_set_diag' and a is not b or name == 'h_set_tri' and a is b:
                        continue
                    vm = S.vm()
                    h, diag, tri = mk(S, p, vm)
                    st = newstate()
                    st.roots['h'] = h
                    fn = S.P.fn('vph::' + name)
                    what = 'pattern %s: %s at %s,%s' % (pname(p), name[2:], a, b)
                    d2, t2 = dict(diag), dict(tri)
                    if a is b:
                        old = diag.get(a)
                        g, hh = (old[0], old[1]) if old else (ZERO, ZERO)
                        d2[a] = (val, hh) if name == 'h_set_diag' else (g, val)
                        d2[a] += (old[2] if old else None,)
                    else:
                        t2[(a, b)] = val
                    args = [h, a, val] if name == 'h_set_diag' else [h, a, b, val]
                    for o in call(vm, S, fn, args, st):
                        if infeasible(o):
                            continue
                        c.paths += 1
                        if badout(c, o, what):
                            continue
                        if a is b and d2[a][2] is None:
                            d2[a] = d2[a][:2] + (S.readhg(o.st.roots['h']).mom.get(a),)
                        same_hess(c, S, o.st.roots['h'], d2, t2, o.st.facts, what, S.P.loc(fn))
                    account(c, vm)
        c.sample = 'every mutable access to %s and %d more patterns' % (pname(pats[-1]), len(pats) - 1)
    return run


def conv(S, pats):
    def run(c):
        for p in pats:
            vm = S.vm()
            h, diag, tri = mk(S, p, vm)
            st = newstate()
            st.roots['h'] = h
            fn = S.P.fn('vph::h_conv')
            what = 'conversion of pattern %s' % pname(p)
            for o in call(vm, S, fn, [h], st):
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, what):
                    continue
                same_hess(c, S, o.value, diag, tri, o.st.facts, what, 'uncertainties/internal/hessgrad.hpp')
                same_hess(c, S, o.st.roots['h'], diag, tri, o.st.facts, what + ': source', 'uncertainties/internal/hessgrad.hpp')
            account(c, vm)
        c.sample = 'conversion of %s and %d more patterns' % (pname(pats[-1]), len(pats) - 1)
    return run


def closed(F, prs, op):
    """no off-diagonal entry without gradient record after an operation (coefficients may vanish)"""
    def run(c):
        for p, q, z in prs:
            vm = F.vm()
            x = build2(F, vm, p[0], p[1], 'x')
            y = build2(F, vm, q[0], q[1], 'y')
            st = newstate()
            st.roots['x'] = x[0]
            z1 = [ZERO if 'x' in z else sym('dx'), ZERO if 'y' in z else sym('dy')]
            z2 = [ZERO if 'X' in z else sym('dxx'), ZERO if 'Y' in z else sym('dyy'), ZERO if 'M' in z else sym('dxy')]
            if op == 'unary':
                args = [x[0], sym('f'), z1[0], z2[0]]
            else:
                args = [x[0], y[0], sym('f')] + z1 + z2
            what = '%s on %s%s, zero derivatives %s' % (op, pname(p), pname(q) if op != 'unary' else '', z or 'none')
            loc = where(F, 'w_' + op)
            for o in call(vm, F, 'w_' + op, args, st):
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, what):
                    continue
                r = F.read(o.st.roots['x'] if op == 'binary_assign' else o.value)
                c.compared += 1
                for a, b in r.hess:
                    for k in (a, b):
                        if k not in r.grad:
                            c.violation('%s: off-diagonal entry %s,%s but no gradient record for %s' % (what, a, b, k), loc)
                    if a is not b and K.index(a) > K.index(b):
                        c.violation('%s: off-diagonal entry stored as %s,%s' % (what, a, b), loc)
                for k in (x[4] if op == 'unary' else dict(x[4], **y[4]) if False else {**x[4], **y[4]}):
                    if k not in r.grad:
                        c.compared += 1
                        # dropping a variable is harmless only if nothing refers to it
                        if any(k in q2 for q2 in r.hess):
                            c.violation('%s: record of %s lost' % (what, k), loc)
            account(c, vm)
        c.sample = '%s: %d combinations of patterns and vanishing derivatives' % (op, len(prs))
    return run


def tasks():
    P = program('second.cpp')
    S = Second(P, 'vpe::')
    H = S
    H.f_diag = S.h.f_diag
    ts = []
    pats = patterns(5 if THOROUGH else 4)
    for which in ('tri', 'hess', 'diag'):
        for ch in chunks(pats, 10):
            ts.append(Task('traverse-%s/%s..' % (which, pname(ch[0])), trav(S, ch, which)))
    six = tuple(range(6))
    full = tuple(itertools.combinations(six, 2))
    for n, s in enumerate((full, full[::2], full[1::3], (), ((0, 5),), ((4, 5),), ((0, 1),), full[-3:], full[:5])):
        for which in ('tri', 'hess'):
            ts.append(Task('traverse-%s/wide%d' % (which, n), trav(S, [(six, s)], which)))
    for ch in chunks(patterns(3), 3):
        ts.append(Task('lookup/%s..' % pname(ch[0]), lookups(S, ch)))
        ts.append(Task('store/%s..' % pname(ch[0]), stores(S, ch)))
    for ch in chunks(pats, 10):
        ts.append(Task('conversion/%s..' % pname(ch[0]), conv(S, ch)))
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        F = Second(P, pre)
        p2, p3 = patterns(2), patterns(3)
        l = [(p, ((), ()), z) for p in p3 for z in ('', 'x', 'X', 'xX')]
        for ch in chunks(l, 20):
            ts.append(Task('closed-unary/%s/%s%s..' % (mode, pname(ch[0][0]), ch[0][2]), closed(F, ch, 'unary')))
        zs = ['', 'x', 'y', 'XYM', 'xXYM', 'xyM', 'M', 'xyXYM', 'XY', 'xyX']
        l = [(p, q, z) for p in p3 for q in p3 for z in zs if len(p[0]) + len(q[0]) <= 4 or z in ('', 'XYM')]
        for op in ('binary', 'binary_assign') if mode == 'est' else ('binary',):
            for ch in chunks(l, 60):
                ts.append(Task('closed-%s/%s/%s%s%s..' % (op, mode, pname(ch[0][0]), pname(ch[0][1]), ch[0][2]), closed(F, ch, op)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C12', lambda: main('C12', tasks(), RULE, floors={'traverse-tri': 3, 'traverse-hess': 3, 'lookup': 2}, assumptions=[
        'every sparsity pattern over up to four variables (thorough: five), selected ones over six'])))
