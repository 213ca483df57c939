"""C13: independent-variable ids are unique, positive and race-free."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
import tree
from runner import Task, main, guard, THOROUGH
from c19 import contract, vec

RULE = ('(1) all atomic accesses of the library only ever advance the counter (query over the typed syntax tree); (2) every '
        'constructor of a variable with uncertainty, for all classes and numerical types, reaches one and the same counter, an '
        'atomic object of one definition for the whole program, not smaller than an id; (3) abstract interpretation of every '
        'pair of constructions with interference: other threads may advance the counter between any two accesses; each id must '
        'lie in the interval taken by an indivisible update of its own construction, be positive and differ from the other; (4) '
        'the counter is unreachable in the call graph from constants, copies, conversions and operations')

MAKERS = ('a_make', 'a_make6', 'a_make6d', 'a_make7', 'a_make7d', 'a_ureals', 'a_normal', 'a_uniform', 'a_chisquare')
ADVANCE = ('operator++', 'fetch_add', 'operator+=')
PASSIVE = ('load', 'is_lock_free', 'compare_exchange_weak', 'compare_exchange_strong')
LATENT = ('store', 'operator=', 'exchange', 'operator--', 'fetch_sub', 'operator-=', 'fetch_and', 'fetch_or', 'fetch_xor',
          'operator&=', 'operator|=', 'operator^=')


def is_atomic(T, t):
    return t is not None and t >= 0 and T.types[T.unref(t)].get('sqn') in ('std::atomic', 'std::__atomic_base')


def const_int(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'mat'):
        n = n.get('e')
    if isinstance(n, dict) and n.get('k') == 'un' and n.get('op') == '-':
        v = const_int(n.get('e'))
        return -v if v is not None else None
    if isinstance(n, dict) and n.get('k') == 'int':
        return int(n['val'])
    return None


def init_value(T, v):
    """initial value of an atomic object"""
    n = v.get('init')
    if n is None:
        return 0
    vals = [x for x in tree.walk(n) if x.get('k') == 'int' or (x.get('k') == 'un' and x.get('op') == '-')]
    if not vals:
        return 0
    return const_int(vals[0])


def accesses(T, f):
    """(node, method name, argument nodes) of the atomic accesses of a function"""
    for n in T.nodes(f):
        if n.get('k') not in ('mcall', 'opcall') or not isinstance(n.get('fn'), int):
            continue
        fr = T.P.fnrefs.get(n['fn'])
        if fr is None or fr.get('proj'):
            continue
        q = prog.strip_targs(fr['qn'])
        if q.startswith(('std::atomic::', 'std::__atomic_base::')):
            args = n.get('args', [])
            if n['k'] == 'opcall':
                args = args[1:]
            yield n, q.split('::')[-1], args


def scan_task(T, f):
    def run(c):
        name = T.fname(f)
        c.fns.add(name)
        c.compared += 1
        for n, m, args in accesses(T, f):
            c.paths += 1
            at = '%s (%s)' % (T.loc(n), name)
            if m in ADVANCE:
                if m != 'operator++':
                    k = const_int(args[0]) if args else None
                    if k is not None and k <= 0:
                        c.violation('the counter is changed by %d' % k, at)
            elif m in LATENT:
                c.violation('the counter is changed by %s, which does not only advance it' % m, at)
            elif m in PASSIVE or m.startswith('operator ') or m.startswith('~') or m in ('atomic', '__atomic_base'):
                pass
            else:
                c.undecided('atomic operation %s at %s' % (m, at))
        for n in T.nodes(f):
            # the free functions of <atomic>
            if n.get('k') == 'call' and isinstance(n.get('fn'), int):
                fr = T.P.fnrefs.get(n['fn'])
                if fr and not fr.get('proj') and prog.strip_targs(fr['qn']).startswith('std::atomic_'):
                    m = prog.strip_targs(fr['qn'])[12:]
                    if m in ('store', 'store_explicit', 'exchange', 'exchange_explicit', 'init', 'fetch_sub', 'fetch_sub_explicit'):
                        c.violation('the counter is changed by std::atomic_%s' % m, '%s (%s)' % (T.loc(n), name))
                    elif not m.startswith(('load', 'fetch_add', 'compare_exchange', 'thread_fence', 'signal_fence')):
                        c.undecided('atomic operation std::atomic_%s' % m)
        c.sample = '%s at %s' % (name, T.loc(f))
    return run


def advanced_by(T, fns):
    """ids of the atomic variables that a set of functions changes: {id: [node]}"""
    out = {}
    for i in fns:
        f = T.by_id.get(i)
        if f is None:
            continue
        for n in T.nodes(f):
            if n.get('k') == 'ref' and n.get('dk') == 'var' and n.get('global') and is_atomic(T, n.get('t')):
                u = T.use(n)
                if u[0] in ('call', 'arg', 'alias', 'addr', 'return', 'write'):
                    out.setdefault(n['d'], []).append((n, f))
    return out


def plain_written(T, fns):
    out = []
    for i in fns:
        f = T.by_id.get(i)
        if f is None:
            continue
        for n in T.nodes(f):
            if n.get('k') == 'ref' and n.get('dk') == 'var' and n.get('global') and not is_atomic(T, n.get('t')):
                ty = T.types[T.unref(n['t'])]
                if ty['k'] == 'int' and T.use(n)[0] in ('write', 'addr', 'arg', 'alias'):
                    out.append((n, f))
    return out


def roots(T, names):
    return [f for f in T.fns if f['name'] in names and f['qn'].split('::')[0].startswith('va')]


def declaration_task(T):
    def run(c):
        per = {}
        rs = roots(T, [x for x in MAKERS if x != 'a_ureals'])     # constructs inside a container; interpreted
        for f in rs:
            c.compared += 1
            reach = T.reach([f['id']])
            adv = advanced_by(T, reach)
            per[f['qn']] = set(adv)
            if not adv:
                pw = plain_written(T, reach)
                if pw:
                    n, g = pw[0]
                    c.violation('%s advances the counter %s, which is not atomic' % (f['qn'], n['name']),
                                '%s (%s)' % (T.loc(n), T.fname(g)))
                else:
                    c.undecided('%s: no counter found' % f['qn'])
        c.paths = len(rs)
        if c.fail or c.und:
            return
        common = set.intersection(*per.values())
        allv = set.union(*per.values())
        names = {v['id']: v for v in T.gvars}
        locals_ = {}
        for f in T.fns:
            for n in T.nodes(f):
                if n.get('k') == 'decl':
                    for v in n['vars']:
                        if v.get('static'):
                            locals_[v['id']] = f
                            names.setdefault(v['id'], v)
        if not common:
            c.violation('constructors use different counters: %s' % ', '.join(
                sorted({prog.strip_targs(names[i].get('qn') or names[i]['name']) for i in allv if i in names})),
                T.loc(names[sorted(allv)[0]]) if sorted(allv)[0] in names else '?')
            return
        bad = []
        for i in sorted(common):
            why = None
            vs = [v for v in T.gvars if v['id'] == i] or ([names[i]] if i in names else [])
            if not vs:
                c.undecided('declaration of the counter not found')
                return
            v = vs[0]
            if i in locals_:
                v = dict(v, _fn=locals_[i])
            name = prog.strip_targs(v.get('qn') or v['name'])
            if any(x.get('tls') for x in vs):
                why = 'every thread has its own %s' % name
            elif v.get('_fn'):
                f = v['_fn']
                if f.get('tmplinst'):
                    why = '%s is a separate object in every instantiation of %s' % (name, T.fname(f))
                elif f.get('linkage') is not None and f['linkage'] < 6 and not f.get('method'):
                    why = '%s is a separate object in every translation unit' % name
            elif v.get('linkage') is not None and v['linkage'] < 5:
                why = '%s is a separate object in every translation unit' % name
            for x in vs:
                if x.get('init') is not None or x.get('def'):
                    k = init_value(T, x)
                    if k is None:
                        c.undecided('initial value of %s not understood' % name)
                    elif k < 0:
                        why = '%s starts at %d' % (name, k)
            ty = T.types[T.unref(v['t'])]
            el = T.types[ty['targs'][0]['t']] if ty.get('targs') and isinstance(ty['targs'][0], dict) and 't' in ty['targs'][0] else None
            if el is not None and el['k'] == 'int' and el.get('bits', 32) < 32:
                why = '%s has only %d bits' % (name, el['bits'])
            if why:
                bad.append((why, T.loc(v)))
        if len(bad) == len(common):
            c.violation(bad[0][0], bad[0][1])
        c.sample = 'counter %s, %d constructors' % (', '.join(prog.strip_targs(names[i].get('qn') or names[i]['name']) for i in common), len(rs))
    return run


# ------------------------------------------------------------------ interpretation with interference
def accept(k):
    return {'info': 0, 'values': [num(1)] * k}


def kinds13(P):
    U, E, M = First(P), Second(P, 'vpe::'), Second(P, 'vpm::')
    out = [('UReal', U, 'u_make'), ('ureals 2', U, 'w_ureals')]
    for n, F in (('est', E), ('mean', M)):
        for fn in ('w_make6', 'w_make6d', 'w_make7', 'w_make7d', 'w_normal', 'w_uniform', 'w_chisquare'):
            out.append(('%s %s' % (n, fn[2:]), F, fn))
    return out


def arguments(vm, F, fn, tag):
    f = F.fn(fn)
    if fn == 'w_ureals':
        return [vec(vm, F, 0, [sym('mu%d' % i) for i in range(2)]), vec(vm, F, 1, [sym('c%d' % i) for i in range(4)])]
    if fn == 'w_chisquare':
        return [3]
    if fn == 'w_uniform':
        return [sym('a' + tag), cas.add(sym('a' + tag), sym('d' + tag, 0))]
    a = []
    for i, p in enumerate(f['params']):
        t = vm.unref(p['t'])
        if vm.types[t]['k'] == 'rec':
            o = vm.storage(t, 0)
            n = len(o.items)
            for j, x in zip(range(9 - n, 9), o.items):
                x.v = sym('m%d%s' % (j, tag), 0 if j == 2 else None)
            a.append(o)
        elif i == 0:
            a.append(sym('n' + tag))
        else:
            a.append(sym('s' + tag, 0))
    return a


def ids_of(F, fn, v):
    if fn == 'w_ureals':
        out = set()
        for x in v.items:
            out |= set(F.read(x).coef)
        return out
    r = F.read(v)
    if isinstance(F, First):
        return {r.ident} if not isinstance(r.ident, int) or r.ident != -1 else set(r.coef)
    return set(r.grad)


def runs(c, vm, F, fn, tag, st):
    eigen.SPEC['selfadjoint'] = accept
    eigen.SPEC['ldlt'] = lambda k: contract(k, range(k), ())
    n0 = len(st.events)
    for o in call(vm, F, fn, arguments(vm, F, fn, tag), st):
        if o.kind != 'ret' or infeasible(o):
            continue
        c.paths += 1
        yield o, o.st.events[n0:]


def judge(c, what, fn, F, ids, ev, loc):
    """each id lies in an interval taken by one update; returns the end of the intervals the ids sit at"""
    c.compared += 1
    if any(e[0] == 'store' for e in ev):
        c.violation('%s: the counter is overwritten, ids taken by other threads meanwhile are handed out again' % what, loc)
        return False
    rmw = [e for e in ev if e[0] == 'rmw']
    want = 2 if fn == 'w_ureals' else 1
    if len(ids) != want:
        c.violation('%s: %d ids instead of %d' % (what, len(ids), want), loc)
        return False
    if not rmw:
        c.violation('%s: the id does not come from an indivisible update of the counter' % what, loc)
        return False
    for i in ids:
        c.compared += 1
        if not isinstance(i, Key) or i.ctr is None:
            c.violation('%s: the id %r does not come from the counter' % (what, i), loc)
            return False
        if i.ctr <= 0:
            c.violation('%s: the id %d is not positive' % (what, i.ctr), loc)
            return False
        if not any(a < i.ctr <= b for _, a, b in rmw) and not any(a <= i.ctr < b for _, a, b in rmw):
            c.violation('%s: the id was read apart from the update of the counter, another thread may have the same' % what, loc)
            return False
    total = sum(b - a for _, a, b in rmw)
    if total < want:
        c.violation('%s: the counter is advanced by %d for %d ids' % (what, total, want), loc)
        return False
    return True


def offset(ids, ev):
    """do all ids sit in (old, new] / in [old, new)?"""
    rmw = [e for e in ev if e[0] == 'rmw']
    post = all(any(a < i.ctr <= b for _, a, b in rmw) for i in ids)
    pre = all(any(a <= i.ctr < b for _, a, b in rmw) for i in ids)
    return post, pre


def single_task(P, k):
    """first construction of the program, other threads are busy"""
    name, F, fn = k

    def run(c):
        loc = where(F, fn)
        for race in (0, 1):
            V.lib_race(race)
            vm = F.vm()
            for o, ev in runs(c, vm, F, fn, 'x', newstate([])):
                judge(c, name + (', other threads between any two accesses' if race else ', first of the program'),
                      fn, F, ids_of(F, fn, o.value), ev, loc)
            account(c, vm)
        if not c.compared:
            raise Undecided('%s never succeeds' % name)
        c.sample = '%s: id within the interval taken by its own update' % name
    return run


def pair_task(P, k1, k2):
    def run(c):
        for race in (0, 1):
            V.lib_race(race)
            (n1, F1, f1), (n2, F2, f2) = k1, k2
            vm = F1.vm()
            vm2 = F2.vm()
            loc = where(F2, f2)
            what = '%s then %s' % (n1, n2)
            for o1, ev1 in runs(c, vm, F1, f1, 'x', newstate([])):
                i1 = ids_of(F1, f1, o1.value)
                st = o1.st.clone()
                st.frames = []
                for o2, ev2 in runs(c, vm2, F2, f2, 'y', st):
                    i2 = ids_of(F2, f2, o2.value)
                    c.compared += 1
                    if i1 & i2:
                        c.violation('%s: the same id %s' % (what, ', '.join(map(kname, i1 & i2))), loc)
                        continue
                    if not all(isinstance(i, Key) and i.ctr is not None for i in i1 | i2):
                        continue
                    a, b = offset(i1, ev1), offset(i2, ev2)
                    if not (a[0] and b[0]) and not (a[1] and b[1]) and (a[0] or a[1]) and (b[0] or b[1]):
                        c.violation('%s: one takes the value before, the other the value after the update; ids coincide' % what, loc)
            account(c, vm)
            account(c, vm2)
        c.sample = '%s then %s: different ids' % (k1[0], k2[0])
    return run


# ------------------------------------------------------------------ nothing else draws
def operand_args(F, vm, f, kind, counter):
    a = []
    for i, p in enumerate(f['params']):
        ty = vm.types[p['t']]
        t = vm.unref(p['t'])
        u = vm.types[t]
        if t == F.t:
            if isinstance(F, First):
                a.append(build(F, vm, kind, 'xyz'[i])[0])
            else:
                ks = {'C': (), 'I': (0,), 'D': (0, 1)}[kind[0]]
                a.append(build2(F, vm, ks, tuple((p, q) for p in ks for q in ks if p <= q), 'xyz'[i])[0])
        elif u['k'] == 'float' and ty['k'] != 'ptr':
            a.append(sym('r%d' % i))
        elif u['k'] == 'int':
            a.append(3)
        else:
            return None
    return a


def nodraw_task(T, f, reach_adv):
    """a path to the counter exists: look at the abstract executions"""
    P = T.P

    def run(c):
        c.compared += 1
        c.paths += 1
        c.fns.add(f['qn'])
        c.sample = '%s: %s' % (f['qn'], 'call graph does not reach the counter' if not reach_adv else 'interpreted')
        if not reach_adv:
            return
        ns, name = f['qn'].split('::')[0], f['name']
        if ns not in ('vad1', 'vade', 'vadm'):
            return                      # the same templates with another numerical type
        F = (First if ns == 'vad1' else Second)(P, ns + '::')
        for kind in (('C', ()), ('I', (0,)), ('D', (0, 1))):
            vm = F.vm()
            a = operand_args(F, vm, f, kind, None)
            if a is None:
                raise Undecided('%s may reach the counter' % f['qn'])
            for o in call(vm, F, f, a):
                if infeasible(o):
                    continue
                c.paths += 1
                if any(e[0] in ('rmw', 'store') for e in o.st.events):
                    n, g = list(reach_adv.values())[0][0]
                    c.violation('%s draws a new id%s' % (f['qn'], '' if not f['params'] else ' on operands of kind ' + kindname(kind)),
                                '%s (%s)' % (T.loc(n), T.fname(g)))
                    return
            account(c, vm)
    return run


def made(T, fr):
    """types a function of the standard library may construct"""
    out = fr['qn']
    if fr.get('cls') is not None and fr['cls'] >= 0:
        out += T.types[fr['cls']]['s']
    if fr.get('ret') is not None and fr['ret'] >= 0:
        out += T.types[fr['ret']]['s']
    return out


def complete(T):
    """edges for objects constructed in place by the standard library"""
    g = T.graph()
    ctors = {}
    for f in T.fns:
        fr = T.P.fnrefs.get(f['id'])
        if fr and fr.get('kind') == 'ctor' and T.in_lib(f):
            ctors.setdefault(len(f['params']), []).append(f['id'])
    for f in T.fns:
        for n in T.nodes(f):
            if n.get('k') in ('call', 'mcall') and isinstance(n.get('fn'), int):
                fr = T.P.fnrefs.get(n['fn'])
                if fr and not fr.get('proj') and 'uncertainties::UReal' in made(T, fr) and (fr['name'].startswith(('emplace', 'make_', 'construct')) or fr['name'] == 'try_emplace'):
                    g[f['id']] |= {i for k in range(len(n.get('args', [])) + 1) for i in ctors.get(k, ())}


def static_tasks(driver, ts, withroots=True):
    P = program(driver)
    T = tree.Tree(P)
    complete(T)
    tag = driver.split('.')[0]
    n = {}
    for f in T.fns:
        if T.in_lib(f):
            s = T.fname(f)
            n[s] = n.get(s, 0) + 1
            ts.append(Task('accesses/%s:%s#%d' % (tag, s, n[s]), scan_task(T, f)))
    if withroots:
        ts.append(Task('counter/%s' % tag, declaration_task(T)))
    for f in T.fns:
        q = f['qn']
        if not (q.startswith('va') or (not withroots and q.startswith('vp'))) or f['name'] in MAKERS or T.in_lib(f):
            continue
        if not f['name'][:2] in ('a_', 'm_', 'u_', 'w_', 'd_'):
            continue
        ts.append(Task('nodraw/%s:%s' % (tag, q), nodraw_task(T, f, advanced_by(T, T.reach([f['id']])))))


def tasks():
    ts = []
    static_tasks('all.cpp', ts)
    static_tasks('io.cpp', ts, False)
    if THOROUGH:
        static_tasks('wide.cpp', ts)
    P = program('misc.cpp')
    ks = kinds13(P)
    for k in ks:
        ts.append(Task('construct/%s' % k[0], single_task(P, k)))
    for k1 in ks:
        for k2 in ks:
            ts.append(Task('pair/%s-%s' % (k1[0], k2[0]), pair_task(P, k1, k2)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C13', lambda: main('C13', tasks(), RULE, technique='effect analysis of the typed syntax tree and abstract '
        'interpretation with interference', floors={'construct': 5, 'pair': 25, 'nodraw': 100, 'accesses': 100, 'counter': 1},
        assumptions=['std::atomic meets its contract', 'fewer than 2^31 variables are constructed',
                     'the program has one copy of the implementation header'])))
