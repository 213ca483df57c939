"""C29: every function has one meaning in every build configuration."""
import hashlib
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
import prog
import tree
from runner import Task, main, guard, THOROUGH, Undecided

RULE = ('the typed syntax tree of every function of the library (all overloads, callees, conversions and constants resolved) is '
        'compared between configurations: orders of inclusion, headers included before by the user, extern templates, NDEBUG; '
        'for NDEBUG the trees must agree outside assertions and no assertion may have an effect')

HEADERS = ['core', 'distr', 'functions', 'impl', 'io', 'math', 'stat', 'ureal', 'ureal2', 'ureals']
TYPES = ('t', 'ct', 'clt', 'ret', 'rt')
MUTATORS = ('insert', 'erase', 'emplace', 'emplace_back', 'emplace_hint', 'push_back', 'pop_back', 'clear', 'reset', 'release', 'swap',
            'assign', 'resize', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'append', 'store', 'exchange',
            'fetch_add', 'fetch_sub', 'push_front', 'merge', 'sort', 'reverse', 'splice', 'try_emplace', 'insert_or_assign', 'extract')


def hd(order):
    return ['VP_H%d=<uncertainties/%s.hpp>' % (i, h) for i, h in enumerate(order)]


def is_assert(n):
    """(condition) of an assertion, else None"""
    while isinstance(n, dict) and n.get('k') in ('cast', 'un') and n.get('op', '__extension__') == '__extension__' and n.get('k') == 'un':
        n = n['e']
    if isinstance(n, dict) and n.get('k') == 'cond':
        for x in tree.walk(n.get('b')):
            if x.get('k') == 'call' and isinstance(x.get('fn'), int) and x['fn'] in ASSERT:
                return n['c']
    return None


ASSERT = set()


def is_void0(n):
    return isinstance(n, dict) and n.get('k') == 'cast' and isinstance(n.get('e'), dict) and n['e'].get('k') == 'int' and n['ck'] == 'ToVoid'


class Canon:
    def __init__(self, P):
        self.P = P
        self.sig = {}

    def type(self, i):
        if i is None or i < 0:
            return None
        return self.P.types[i]['s'].replace('uncertainties::', '')

    def fn(self, i):
        s = self.sig.get(i)
        if s is None:
            r = self.P.fnrefs.get(i)
            s = '?' if r is None else r['qn'].replace('uncertainties::', '') + '(' + ','.join(self.type(t) for t in r['ptypes']) + ')' + ('c' if r.get('mconst') else '')
            self.sig[i] = s
        return s

    def of(self, f):
        num = {}
        P = self.P

        def loc(i):
            return num.setdefault(i, len(num))

        def go(n):
            if isinstance(n, list):
                out = []
                for x in n:
                    if isinstance(x, dict) and x.get('k') == 'null':
                        continue
                    if isinstance(x, dict) and x.get('k') == 'expr' and (is_assert(x['e']) is not None or is_void0(x['e'])):
                        continue
                    out.append(go(x))
                return out
            if not isinstance(n, dict):
                return n
            k = n.get('k')
            if k == 'expr' and (is_assert(n['e']) is not None or is_void0(n['e'])):
                return 'assert'
            if k == 'un' and n.get('op') == '__extension__':
                return go(n['e'])
            o = []
            for a in sorted(n):
                v = n[a]
                if a in ('F', 'L', '_p', '_slot', '_fn', 'written', 'rid', 'inline', 'linkage', 'tmplinst'):
                    continue
                if a in TYPES:
                    v = self.type(v)
                elif a in ('fn', 'conv') and isinstance(v, int):
                    v = self.fn(v)
                elif a == 'd' and k == 'mem':
                    continue
                elif a == 'field':
                    continue
                elif a == 'd' and isinstance(v, int):
                    v = 'G' if n.get('global') and not n.get('static') else loc(v)
                elif a == 'id' and isinstance(v, int):
                    v = loc(v)
                else:
                    v = go(v)
                o.append((a, v))
            return o
        return json.dumps(go({'params': f['params'], 'ret': f['ret'], 'inits': f.get('inits') or [], 'body': f.get('body')}), sort_keys=True)


def digest(order, defines):
    P = prog.Program('order.cpp', hd(order) + list(defines))
    global ASSERT
    ASSERT = {i for i, r in P.fnrefs.items() if r['name'] == '__assert_fail'}
    C = Canon(P)
    out = {}
    for f in P.d['functions']:
        file = P.files[f['F']]
        if not file.startswith(prog.REPO + '/uncertainties'):
            continue
        key = '%s:%d %s(%s)' % (file[len(prog.REPO) + 1:], f['L'], f['qn'], ','.join(C.type(p['t']) for p in f['params']) + ' -> ' + str(C.type(f['ret'])))
        out.setdefault(key, []).append(hashlib.sha1(C.of(f).encode()).hexdigest())
    for k in out:
        out[k] = sorted(out[k])
    return out, P.dropped


BASE = None


def compare_task(what, order, defines):
    def run(c):
        b, bd = BASE
        d, dropped = digest(order, defines)
        if bd or dropped:
            raise Undecided('parts of the interface are rejected by the front end: ' + '; '.join(bd + dropped)[:200])
        both = sorted(set(b) & set(d))
        c.paths = len(both)
        if len(both) < 100:
            raise Undecided('only %d functions in common' % len(both))
        for k in both:
            c.compared += 1
            x, y = set(b[k]), set(d[k])
            if x != y and not (x <= y or y <= x):
                c.violation('%s means something else with %s' % (k.split(' ', 1)[1], what), k.split(' ')[0])
            elif x != y and len(b[k]) == len(d[k]):
                c.violation('%s means something else with %s' % (k.split(' ', 1)[1], what), k.split(' ')[0])
        c.sample = '%s: %d functions agree' % (what, len(both))
    return run


# ------------------------------------------------------------------ assertions
class Effects:
    """does evaluating an expression change anything that outlives it?"""

    def __init__(self, T):
        self.T = T
        self.memo = {}

    def function(self, i):
        """does the function write to anything but its own locals and parameters passed by value"""
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = None
        f = self.T.by_id.get(i)
        if f is None:
            return None
        own = {p['id'] for p in f['params'] if self.T.types[p['t']]['k'] != 'ref'}
        for n in self.T.nodes(f):
            if n.get('k') == 'decl':
                own |= {v['id'] for v in n['vars'] if not v.get('static') and self.T.types[v['t']]['k'] not in ('ref', 'ptr')}
            if n.get('k') == 'rfor':
                own.add(n['var'].get('id'))
        r = None
        for n in self.T.nodes(f):
            r = self.node(n, own)
            if r:
                break
        self.memo[i] = r
        return r

    def root(self, n, own):
        """is the object written one of the function's own?"""
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'ref':
                return n.get('d') in own
            if k == 'mem' and n.get('arrow'):
                return False
            if k in ('cast', 'mem', 'mat'):
                n = n.get('e')
            elif k == 'idx':
                n = n.get('a')
            elif k == 'opcall' and n.get('op') == '[]':
                n = n['args'][0]
            elif k in ('call', 'mcall', 'opcall', 'ctor', 'init'):
                return n.get('v') == 'r'
            else:
                return False
        return False

    def node(self, n, own):
        k = n.get('k')
        T = self.T
        if k == 'casg' or (k == 'bin' and n['op'] == '='):
            return None if self.root(n['a'], own) else 'assigns'
        if k == 'un' and n['op'] in ('++', '--'):
            return None if self.root(n['e'], own) else 'increments'
        if k in ('new', 'delete'):
            return k
        if k in ('call', 'mcall', 'opcall', 'ctor') and isinstance(n.get('fn'), int):
            fr = T.P.fnrefs.get(n['fn'])
            if fr is None:
                return None
            if fr.get('proj'):
                e = self.function(n['fn'])
                if e:
                    return 'calls %s, which %s' % (prog.strip_targs(fr['qn']), e if e.startswith(('assigns', 'increments', 'calls')) else 'uses ' + e)
                return None
            obj = n.get('obj') if k == 'mcall' else (n['args'][0] if k == 'opcall' and n.get('method') and n['args'] else None)
            name = fr['name']
            if obj is not None and not fr.get('mconst'):
                if name in MUTATORS or (name in ('operator++', 'operator--')):
                    return None if self.root(obj, own) else 'calls %s' % prog.strip_targs(fr['qn'])
                if name == 'operator[]' and 'map' in fr['qn']:
                    return None if self.root(obj, own) else 'calls %s' % prog.strip_targs(fr['qn'])
            if k == 'call' and fr['qn'].split('<')[0] in ('std::sort', 'std::swap', 'std::fill', 'std::copy', 'std::reverse', 'std::move_backward',
                                                        'std::exchange', 'rand', 'std::rand', 'std::transform', 'std::iota'):
                return None if n.get('args') and self.root(n['args'][0], own) else 'calls %s' % fr['qn'].split('<')[0]
        return None


def assert_task(T, f, E, conds):
    def run(c):
        name = T.fname(f)
        c.fns.add(name)
        for cond in conds:
            c.paths += 1
            c.compared += 1
            for n in tree.walk(cond):
                r = E.node(n, set())
                if r:
                    c.violation('the assertion %s: with NDEBUG the effect is gone' % r, '%s (%s)' % (T.loc(cond), name))
                    break
        c.sample = '%s: %d assertions without effect' % (name, len(conds))
    return run


def tasks():
    global BASE, ASSERT
    BASE = digest(HEADERS, ())
    ts = []
    for i in range(len(HEADERS)):
        o = HEADERS[i:] + HEADERS[:i]
        if i:
            ts.append(Task('order/' + '-'.join(o), compare_task('the order ' + ', '.join(o), o, ())))
        if i % 2 == 0 or THOROUGH:
            o = o[::-1]
            ts.append(Task('order/' + '-'.join(o), compare_task('the order ' + ', '.join(o), o, ())))
    for n in ('MANY', 'MATH', 'STDLIB', 'EIGEN'):
        for o, t in ((HEADERS, ''), (HEADERS[::-1], '/reverse')):
            ts.append(Task('before/' + n.lower() + t, compare_task('%s included before' % n.lower(), o, ('VP_BEFORE_' + n,))))
    ts.append(Task('config/ndebug', compare_task('NDEBUG', HEADERS, ('NDEBUG',))))
    for d in (('UNCERTAINTIES_EXTERN_UDOUBLE',), ('UNCERTAINTIES_EXTERN_UDOUBLE2',),
              ('UNCERTAINTIES_EXTERN_UDOUBLE', 'UNCERTAINTIES_EXTERN_UDOUBLE2')):
        ts.append(Task('config/' + '+'.join(x[14:].lower() for x in d), compare_task(' and '.join(d), HEADERS, d)))
    P = prog.Program('order.cpp', hd(HEADERS))
    ASSERT = {i for i, r in P.fnrefs.items() if r['name'] == '__assert_fail'}
    T = tree.Tree(P)
    E = Effects(T)
    n = {}
    for f in T.fns:
        if not T.in_lib(f):
            continue
        conds = []
        for x in T.nodes(f):
            if x.get('k') == 'expr':
                a = is_assert(x['e'])
                if a is not None:
                    conds.append(a)
        if conds:
            s = T.fname(f)
            n[s] = n.get(s, 0) + 1
            ts.append(Task('assertion/%s#%d' % (s, n[s]), assert_task(T, f, E, conds)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C29', lambda: main('C29', tasks(), RULE, technique='comparison of typed syntax trees across configurations and effect '
        'analysis of assertions', floors={'order': 10, 'before': 4, 'config': 4, 'assertion': 10},
        assumptions=['the assert macro of the C library is the only one that depends on NDEBUG in the headers of the system'])))
