"""C17: reading a const variable has no hidden side effect or shared mutable state."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
import prog
import tree
from runner import Task, main, THOROUGH

RULE = ('effect query over the typed syntax tree of the whole library, instantiated for both classes: (1) no member that stays '
        'writable in a const object is written through a const object, (2) no cast drops const from a place that is then '
        'written or handed on, (3) no object with static storage is written except by atomic operations on the one counter of '
        'ids, (4) no function object handed to the user writes state it captured, (5) no function of the C library with hidden '
        'global state is called and nothing is printed; without these the type system excludes any write through const')

GLOBAL_STATE = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'strtok', 'setlocale', 'tmpnam', 'localtime',
                'gmtime', 'asctime', 'ctime', 'lgamma', 'lgammaf', 'lgammal', 'setenv', 'putenv', 'unsetenv', 'signal', 'printf',
                'fprintf', 'puts', 'putchar', 'fputs', 'perror', 'set_new_handler', 'set_terminate', 'sync_with_stdio', 'atexit'}
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'stdout', 'stderr'}
WRITES = ('write', 'addr', 'call', 'arg', 'alias', 'return')
SYNC = ('std::mutex', 'std::recursive_mutex', 'std::once_flag', 'std::shared_mutex', 'std::condition_variable')


class Q:
    def __init__(self, T):
        self.T = T
        self.P = T.P
        self.refs = {}
        self.mems = {}
        for f in T.fns:
            for n in T.nodes(f):
                if n.get('k') == 'ref' and n.get('dk') == 'var':
                    self.refs.setdefault(n['d'], []).append(n)
                elif n.get('k') == 'mem' and 'd' in n:
                    self.mems.setdefault(n['d'], []).append(n)
        for v in T.gvars:
            if v.get('init'):
                for n in tree.walk(v['init']):
                    if n.get('k') == 'ref' and n.get('dk') == 'var':
                        self.refs.setdefault(n['d'], []).append(n)

    def where(self, n):
        f = n.get('_fn')
        return '%s (%s)' % (self.T.loc(n), self.T.fname(f) if f else 'initialiser')

    def indirect(self, n):
        """use of what a pointer, smart pointer or iterator denoted by n points to"""
        T = self.T
        p, s = n.get('_p'), n.get('_slot')
        while p is not None and p.get('k') == 'cast' and p['ck'] in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase'):
            n, p, s = p, p.get('_p'), p.get('_slot')
        if p is None:
            return None
        if p.get('k') == 'un' and p['op'] == '*':
            return T.use(p)
        if p.get('k') == 'idx' and s == 'a':
            return T.use(p)
        if p.get('k') == 'mem' and p.get('arrow'):
            return T.use(p)
        if p.get('k') == 'mcall' and s == 'obj' and p.get('arrow'):
            fr = self.P.fnrefs.get(p.get('fn'))
            return ('read', p) if fr and fr.get('mconst') else ('call', p)
        if p.get('k') == 'opcall' and p.get('op') == '*':
            return T.use(p)
        if p.get('k') == 'opcall' and p.get('op') in ('->', '[]'):
            q = p.get('_p')
            if q is not None and q.get('k') == 'mem' and q.get('arrow'):
                return T.use(q)
            if q is not None and q.get('k') == 'mcall' and q.get('arrow'):
                fr = self.P.fnrefs.get(q.get('fn'))
                return ('read', q) if fr and fr.get('mconst') else ('call', q)
            if p.get('op') == '[]':
                return T.use(p)
        if p.get('k') == 'mcall' and s == 'obj':
            fr = self.P.fnrefs.get(p.get('fn'))
            if fr and fr['name'] == 'get':
                return self.indirect(p)
        return None

    def pointee_mutable(self, t):
        ty = self.P.types[t]
        if ty['k'] == 'ptr' or ty['k'] == 'ref':
            return not self.P.types[ty['sub']].get('const')
        if ty['k'] == 'rec' and ty.get('sqn') in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::reference_wrapper'):
            for a in ty.get('targs', []):
                if 't' in a:
                    return not self.P.types[a['t']].get('const')
        return False

    def writable(self, t):
        """a type whose objects of static storage can be written"""
        return not self.P.types[self.T.unref(t)].get('const')


def record_task(q, r):
    def run(c):
        c.paths = len(r['fields'])
        name = prog.strip_targs(r['qn'])
        c.fns.add(name)
        for x in r['fields']:
            c.compared += 1
            ms = q.mems.get(x['id'], [])
            sqn = q.P.types[x['t']].get('sqn', '')
            if x.get('mutable') and sqn not in SYNC:
                for m in ms:
                    base = m['e']
                    bt = q.P.types[q.T.unref(base['t'])]
                    if bt['k'] == 'ptr':
                        bt = q.P.types[bt['sub']]
                    u = q.T.use(m)
                    if bt.get('const') and u[0] in WRITES:
                        c.violation('the mutable member %s::%s is written through a const object' % (name, x['name']), q.where(m))
            if q.pointee_mutable(x['t']):
                for m in ms:
                    bt = q.P.types[q.T.unref(m['e']['t'])]
                    if bt['k'] == 'ptr':
                        bt = q.P.types[bt['sub']]
                    u = q.T.use(m) if q.P.types[x['t']]['k'] == 'ref' else q.indirect(m)
                    if bt.get('const') and u and u[0] in WRITES:
                        c.violation('what the member %s::%s points to is written through a const object' % (name, x['name']), q.where(m))
        c.sample = '%s: %d fields' % (name, len(r['fields']))
    return run


def drops_const(q, n):
    a, b = n['e'].get('t'), n.get('t')
    if a is None or b is None:
        return False
    ta, tb = q.P.types[q.T.unref(a)], q.P.types[q.T.unref(b)]
    if n.get('v') in ('l', 'x') or q.P.types[b]['k'] == 'ref':
        return bool(ta.get('const')) and not tb.get('const')
    while ta['k'] == 'ptr' and tb['k'] == 'ptr':
        ta, tb = q.P.types[ta['sub']], q.P.types[tb['sub']]
        if ta.get('const') and not tb.get('const'):
            return True
    return False


def const_origin(q, n):
    """does the operand denote a part of something that the function itself sees as const?  A const view that the function
    added to an object it may modify does not count"""
    f = n.get('_fn')
    this_const = False
    if f is not None:
        fr = q.P.fnrefs.get(f['id'])
        this_const = bool(fr and fr.get('mconst'))
    for x in tree.walk(n['e']):
        k = x.get('k')
        if k == 'this' and this_const:
            return True
        if k == 'ref' and x.get('dk') == 'var' and q.P.types[q.T.unref(x['t'])].get('const'):
            return True
    return False


def fn_task(q, f):
    def run(c):
        T = q.T
        name = T.fname(f)
        c.fns.add(name)
        for n in T.nodes(f):
            c.paths += 1
            k = n.get('k')
            if k == 'cast' and not n.get('impl') and drops_const(q, n):
                c.compared += 1
                if not const_origin(q, n):
                    continue
                if n.get('v') in ('l', 'x'):
                    u = T.use(n)
                else:
                    u = q.indirect(n)
                    p = n.get('_p')
                    if u is None and p is not None and p.get('k') not in ('bin', 'if', 'expr'):
                        u = ('kept', p)
                        if p.get('k') is None and 'name' in p:
                            # a local pointer: follow it
                            us = [q.indirect(r) for r in q.refs.get(p.get('id'), [])]
                            us = [x for x in us if x and x[0] in WRITES]
                            u = us[0] if us else ('read', p)
                if u and u[0] == 'alias':
                    us = [T.use(r) for r in q.refs.get(u[1].get('id'), [])]
                    us = [x for x in us if x[0] in WRITES]
                    u = us[0] if us else ('read', None)
                if u and u[0] not in ('read', 'none'):
                    c.violation('a cast drops const and the object is then written or handed on (%s)' % u[0], q.where(n))
            elif k in ('call', 'mcall', 'opcall') and isinstance(n.get('fn'), int):
                fr = q.P.fnrefs.get(n['fn'])
                if fr and not fr.get('proj') and fr['name'] in GLOBAL_STATE:
                    qn = fr['qn']
                    if qn in (fr['name'], 'std::' + fr['name']) or 'ios_base' in qn:
                        c.compared += 1
                        c.violation('%s uses hidden global state' % qn, q.where(n))
            elif k == 'ref' and n.get('global') and (n.get('qn') in STREAMS):
                c.compared += 1
                c.violation('%s is used' % n['qn'], q.where(n))
            elif k == 'lambda':
                c.compared += 1
                lam(q, c, f, n)
        c.sample = '%s at %s' % (name, T.loc(f))
    return run


def lam(q, c, f, n):
    """a lambda stored in a function object must not write what it captured"""
    T = q.T
    p = n.get('_p')
    kept = False
    while p is not None:
        if p.get('k') == 'ctor':
            fr = q.P.fnrefs.get(p.get('fn'))
            if fr and prog.strip_targs(fr['qn']).startswith('std::function'):
                kept = True
                break
        if p.get('k') not in ('cast', 'mat', 'ctor', 'ret', None) or p.get('k') == 'ret':
            kept = kept or p.get('k') == 'ret'
            break
        p = p.get('_p')
    if not kept:
        return
    g = T.by_id.get(n['fn'])
    if g is None:
        return
    caps = {x.get('d') for x in n['caps'] if not x.get('byref')}
    for m in T.nodes(g):
        if m.get('k') == 'ref' and m.get('d') in caps:
            u = T.use(m)
            if u[0] in ('write', 'addr', 'arg') or (u[0] == 'call' and not u[1].get('op') == '()'):
                c.violation('the function object writes its captured state %s' % m['name'], q.where(m))
            if q.pointee_mutable(m['t']):
                u = q.indirect(m)
                if u and u[0] in WRITES:
                    c.violation('the function object writes what its captured %s points to' % m['name'], q.where(m))


def var_task(q, vs, counters):
    v = vs[0]

    def run(c):
        T = q.T
        c.compared += 1
        name = prog.strip_targs(v['qn'])
        ty = q.P.types[T.unref(v['t'])]
        ids = {x['id'] for x in vs}
        rs = [r for i in ids for r in q.refs.get(i, [])]
        c.paths = len(rs)
        c.sample = '%s (%s): %d uses' % (name, ty['s'][:60], len(rs))
        if v.get('tls') or ty.get('sqn') in SYNC:
            return
        ptr = q.P.types[v['t']]['k'] in ('ptr',) or q.pointee_mutable(v['t'])
        if ptr:
            for r in rs:
                u = T.use(r) if q.P.types[v['t']]['k'] == 'ref' else q.indirect(r)
                if u and u[0] in WRITES:
                    c.violation('what the static %s refers to is written (%s)' % (name, u[0]), q.where(r))
        if not q.writable(v['t']):
            return
        for r in rs:
            u = T.use(r)
            if u[0] not in WRITES:
                continue
            if ty.get('sqn') == 'std::atomic':
                if u[0] == 'call' and (len(counters) == 1 or v['id'] in counters[:1]):
                    continue
                if u[0] in ('arg', 'alias', 'return', 'addr') and len(counters) == 1:
                    continue
                c.violation('%s is a second atomic object that is written' % name, q.where(r))
            else:
                c.violation('the static object %s is written (%s)' % (name, u[0]), q.where(r))
    return run


def tasks(drivers):
    out = []
    for d in drivers:
        P = prog.Program(d)
        T = tree.Tree(P)
        q = Q(T)
        tag = d.split('.')[0]
        n = {}

        def label(s):
            k = n[s] = n.get(s, 0) + 1
            return '%s:%s#%d' % (tag, s, k)
        for r in P.d['records']:
            if 'fields' in r and T.in_lib(r):
                out.append(Task('record ' + label(prog.strip_targs(r['qn'])), record_task(q, r), 'record'))
        for f in T.fns:
            if T.in_lib(f):
                out.append(Task('function ' + label(T.fname(f)), fn_task(q, f), 'function'))
        byid = {}
        for v in T.gvars:
            if T.in_lib(v):
                byid.setdefault(v['id'], []).append(v)
        counters = []
        for i, vs in byid.items():
            ty = P.types[T.unref(vs[0]['t'])]
            if ty.get('sqn') == 'std::atomic' and any(T.use(r)[0] in WRITES for r in q.refs.get(i, [])):
                counters.append(i)
        makers = T.reach([f['id'] for f in T.fns if f['name'] in ('a_make', 'a_make6', 'a_make7')])

        def score(i):
            return -sum(1 for r in q.refs.get(i, []) if r.get('_fn') and r['_fn']['id'] in makers)
        counters.sort(key=score)
        for i, vs in byid.items():
            out.append(Task('static ' + label(prog.strip_targs(vs[0]['qn'])), var_task(q, vs, counters), 'static'))
    return out


if __name__ == '__main__':
    sys.exit(main('C17', tasks(['all.cpp'] + (['wide.cpp'] if THOROUGH else [])), RULE, technique='effect analysis of the typed syntax tree',
                  floors={'record': 10, 'function': 200, 'static': 5},
                  assumptions=['the containers of the standard library do not write through const access',
                               'the user calls const operations on const variables']))
