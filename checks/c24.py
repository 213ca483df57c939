"""C24: computations stay in the user's numerical type."""
import os
import re
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
import prog
import tree
from runner import Task, main

RULE = ('type-level flow query over every function instantiated with long double and reachable from an operation on variables: '
        'no conversion of a long double to a narrower floating type, none to an integer type that flows back into a number, no value '
        'of a narrower floating type that flows into a long double unless it is an exactly represented constant, no container, '
        'function object or matrix of a narrower type')

ROUND = ('lround', 'llround', 'lrint', 'llrint')
SCALE = ('ldexp', 'scalbn', 'scalbln')


class Narrow:
    def __init__(self, T, names):
        self.T = T
        self.P = T.P
        self.an = names        # analysed function ids
        self.seen = set()

    def isf(self, t):
        x = self.P.types[self.T.unref(t)] if t is not None else None
        return x is not None and x.get('k') == 'float'

    def bits(self, t):
        return self.P.types[self.T.unref(t)].get('bits', 0)

    # -------------------------------------------------- constants
    def exact(self, n, depth=0):
        """the value of a constant that is exactly held by its type, or None"""
        k = n.get('k')
        if depth > 20:
            return None
        if k == 'flt':
            return Fraction(n['text'].rstrip('fFlL')) if n.get('exact') and 'x' not in n['text'].lower() else \
                (Fraction(float.fromhex(n['text'].rstrip('fFlL'))) if n.get('exact') else None)
        if k == 'int':
            return Fraction(int(n['val']))
        if k == 'cast':
            v = self.exact(n['e'], depth + 1)
            return v
        if k == 'un' and n['op'] in ('-', '+'):
            v = self.exact(n['e'], depth + 1)
            return None if v is None else -v if n['op'] == '-' else v
        if k == 'bin' and n['op'] in '+-*/':
            a, b = self.exact(n['a'], depth + 1), self.exact(n['b'], depth + 1)
            if a is None or b is None:
                return None
            if n['op'] == '/':
                if b == 0:
                    return None
                v = a / b
            else:
                v = a + b if n['op'] == '+' else a - b if n['op'] == '-' else a * b
            if self.isf(n['t']) and self.bits(n['t']) < 80 and Fraction(float(v)) != v:
                return None
            return v
        if k == 'ref' and n.get('dk') == 'var':
            i = self.init_of(n['d'])
            return self.exact(i, depth + 1) if i is not None else None
        if k in ('init', 'mat') and (k == 'mat' or len(n['args']) == 1):
            return self.exact(n['e'] if k == 'mat' else n['args'][0], depth + 1)
        if k == 'cond':
            a, b = self.exact(n['a'], depth + 1), self.exact(n['b'], depth + 1)
            return a if a is not None and b is not None else None
        return None

    def init_of(self, d):
        """initialiser of a constant variable"""
        if not hasattr(self, '_inits'):
            self._inits = {}
            for f in self.T.fns:
                for n in self.T.nodes(f):
                    if n.get('k') == 'decl':
                        for v in n.get('vars', []):
                            if v.get('init') and self.P.types[v['t']].get('const'):
                                self._inits[v['id']] = v['init']
            for v in self.T.gvars:
                if v.get('init') and self.P.types[v['t']].get('const'):
                    self._inits[v['id']] = v['init']
        return self._inits.get(d)

    def integral_origin(self, n, depth=0):
        """a narrower floating value that comes from an integer (of at most 32 bits: exact)"""
        k = n.get('k')
        if depth > 20:
            return False
        if self.exact(n) is not None:
            return True
        if k == 'cast':
            if n['ck'] in ('IntegralToFloating',):
                return True
            if n['ck'] in ('FloatingCast', 'LValueToRValue', 'NoOp'):
                return self.integral_origin(n['e'], depth + 1)
            return False
        if k == 'un' and n['op'] in ('-', '+'):
            return self.integral_origin(n['e'], depth + 1)
        if k == 'mat':
            return self.integral_origin(n['e'], depth + 1)
        if k == 'init' and len(n['args']) == 1:
            return self.integral_origin(n['args'][0], depth + 1)
        if k == 'bin' and n['op'] in '+-*':
            return self.integral_origin(n['a'], depth + 1) and self.integral_origin(n['b'], depth + 1)
        if k == 'cond':
            return self.integral_origin(n['a'], depth + 1) and self.integral_origin(n['b'], depth + 1)
        if k == 'ref' and n.get('dk') == 'var':
            i = self.init_of(n['d'])
            return i is not None and self.integral_origin(i, depth + 1)
        if k in ('call', 'mcall'):
            fr = self.P.fnrefs.get(n.get('fn'))
            if fr and 'numeric_limits' in fr['qn']:
                return True
            if fr and fr['name'] in ('numeric_limits',):
                return True
        return False

    # -------------------------------------------------- flow of a narrowed value
    def uses(self, d):
        if not hasattr(self, '_uses'):
            self._uses = {}
            for f in self.T.fns:
                for n in self.T.nodes(f):
                    if n.get('k') == 'ref' and n.get('dk') == 'var':
                        self._uses.setdefault(n['d'], []).append(n)
        return self._uses.get(d, [])

    def calls(self, fid):
        if not hasattr(self, '_calls'):
            self._calls = {}
            for f in self.T.fns:
                if f['id'] not in self.an:
                    continue
                for n in self.T.nodes(f):
                    if n.get('k') in ('call', 'mcall', 'opcall', 'ctor') and isinstance(n.get('fn'), int):
                        self._calls.setdefault(n['fn'], []).append(n)
        return self._calls.get(fid, [])

    def becomes_number(self, n):
        """does the narrowed value flow back into a floating number?  Returns the node or None"""
        self.seen = set()
        return self.flow(n, 0)

    def flow(self, n, depth):
        if id(n) in self.seen or depth > 60:
            return None
        self.seen.add(id(n))
        p, s = n.get('_p'), n.get('_slot')
        if p is None:
            return None
        k = p.get('k')
        if k == 'cast':
            ck = p['ck']
            if ck in ('IntegralToFloating',):
                return p
            if ck == 'FloatingCast':
                return p if self.bits(p['t']) > self.bits(n['t']) else self.flow(p, depth + 1)
            if ck in ('FloatingToBoolean', 'IntegralToBoolean', 'ToVoid'):
                return None
            return self.flow(p, depth + 1)
        if k in ('mat',):
            return self.flow(p, depth + 1)
        if k == 'init':
            return self.flow(p, depth + 1)
        if k == 'un':
            return self.flow(p, depth + 1)
        if k == 'bin':
            if p['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return None
            if p['op'] == '=':
                if s == 'a':
                    return self.flow(p, depth + 1)
                return self.flow(p, depth + 1) or self.target(p['a'], depth)
            if p['op'] == ',' and s == 'a':
                return None
            return self.flow(p, depth + 1)
        if k == 'casg':
            if s == 'b' and self.isf(p['a'].get('t')) and not self.isf(n.get('t')):
                return p
            return self.flow(p, depth + 1) or (self.target(p['a'], depth) if s == 'b' else None)
        if k == 'idx':
            return None if s == 'b' else self.flow(p, depth + 1)
        if k == 'cond':
            return None if s == 'c' else self.flow(p, depth + 1)
        if k in ('if', 'while', 'for', 'do', 'switch', 'expr', 'block', 'case'):
            return None
        if k is None and 'field' in p:
            return None if not self.isf(p['init'].get('t')) else p
        if k is None and 't' in p and 'name' in p:
            for u in self.uses(p['id']):
                r = self.flow(u, depth + 1)
                if r is not None:
                    return r
            return None
        if k == 'ret':
            f = p.get('_fn')
            if f is None:
                return None
            for c in self.calls(f['id']):
                r = self.flow(c, depth + 1)
                if r is not None:
                    return r
            return None
        if k in ('call', 'mcall', 'opcall', 'ctor') and isinstance(p.get('fn'), int):
            fr = self.P.fnrefs.get(p['fn'])
            name = fr['name'] if fr else ''
            if s == 'obj':
                return None
            if name in SCALE or name in ('operator[]', 'at'):
                return None
            g = self.T.by_id.get(p['fn'])
            if g is not None and s[0] == 'args':
                i = s[1] - (1 if k == 'opcall' and p.get('method') else 0)
                if 0 <= i < len(g['params']):
                    for u in self.uses(g['params'][i]['id']):
                        r = self.flow(u, depth + 1)
                        if r is not None:
                            return r
                return None
            if fr and self.P.types[fr['ret']].get('k') == 'float':
                return p      # a function of the narrowed value
            if fr and name in ('abs', 'min', 'max', 'labs', 'llabs'):
                return self.flow(p, depth + 1)
            return None
        return None

    def target(self, a, depth):
        """the narrowed value is stored in the lvalue a"""
        while a.get('k') in ('cast', 'mat'):
            a = a['e']
        if a.get('k') == 'ref' and a.get('dk') == 'var':
            for u in self.uses(a['d']):
                r = self.flow(u, depth + 1)
                if r is not None:
                    return r
            return None
        return None

    # -------------------------------------------------- one function
    def narrow_type(self, t, depth=0):
        """a container, function object or matrix of a narrower floating type"""
        ty = self.P.types[t]
        if depth > 6:
            return None
        if ty['k'] in ('ref', 'ptr'):
            return self.narrow_type(ty['sub'], depth + 1)
        if ty['k'] == 'arr' and 'sub' in ty:
            return self.narrow_elem(ty['sub'], depth)
        if ty['k'] == 'rec':
            if ty.get('sqn', '').startswith('std::numeric_limits'):
                return None
            for a in ty.get('targs', []):
                if 't' in a:
                    r = self.narrow_elem(a['t'], depth)
                    if r is not None:
                        return r
        return None

    def narrow_elem(self, t, depth):
        x = self.P.types[t]
        if x['k'] == 'float' and x['bits'] < 80:
            return x['s']
        if x['k'] == 'func':
            m = re.search(r'\b(double|float)\b', x['s'].replace('long double', ''))
            return m.group(1) if m else None
        return self.narrow_type(t, depth + 1)

    def function(self, c, f):
        T = self.T
        name = T.fname(f)
        c.fns.add(name)
        nodes = 0
        for n in T.nodes(f):
            nodes += 1
            k = n.get('k')
            if k == 'cast' and n['ck'] == 'FloatingCast':
                c.compared += 1
                a, b = self.bits(n['e']['t']), self.bits(n['t'])
                if b < a:
                    if self.exact(n['e']) is None and self.becomes_number(n) is not None:
                        c.violation('a %s is converted to %s and used as a number again'
                                    % (self.P.types[T.unref(n['e']['t'])]['s'], self.P.types[T.unref(n['t'])]['s']),
                                    '%s (%s)' % (T.loc(n), name))
                elif b > a:
                    e = n['e']
                    if not self.integral_origin(e):
                        c.violation('a value computed or held in %s flows into a %s'
                                    % (self.P.types[T.unref(e['t'])]['s'], self.P.types[T.unref(n['t'])]['s']),
                                    '%s (%s)' % (T.loc(n), name))
            elif k == 'cast' and n['ck'] == 'FloatingToIntegral':
                c.compared += 1
                if self.exact(n['e']) is None:
                    r = self.becomes_number(n)
                    if r is not None:
                        c.violation('a %s is converted to %s and used as a number again at %s'
                                    % (self.P.types[T.unref(n['e']['t'])]['s'], self.P.types[T.unref(n['t'])]['s'], T.loc(r)),
                                    '%s (%s)' % (T.loc(n), name))
            elif k == 'casg' and n.get('ct') is not None and self.isf(n['ct']):
                c.compared += 1
                if not self.isf(n['a']['t']):
                    r = self.target(n['a'], 0) if n['a'].get('k') == 'ref' else None
                    if r is not None:
                        c.violation('a %s is accumulated in %s' % (self.P.types[n['ct']]['s'], self.P.types[T.unref(n['a']['t'])]['s']),
                                    '%s (%s)' % (T.loc(n), name))
                elif self.bits(n['a']['t']) < self.bits(n['ct']):
                    c.violation('a %s is accumulated in %s' % (self.P.types[n['ct']]['s'], self.P.types[T.unref(n['a']['t'])]['s']),
                                '%s (%s)' % (T.loc(n), name))
            elif k == 'call' and isinstance(n.get('fn'), int):
                fr = self.P.fnrefs.get(n['fn'])
                if fr and fr['name'] in ROUND and fr['ptypes'] and self.isf(fr['ptypes'][0]):
                    c.compared += 1
                    r = self.becomes_number(n)
                    if r is not None:
                        c.violation('%s rounds a number through an integer type' % fr['name'], '%s (%s)' % (T.loc(n), name))
            for t in [n.get('t')] if k in ('ctor', 'ref', 'call', 'mcall', 'mat') else [v['t'] for v in n.get('vars', []) if 't' in v]:
                if t is None:
                    continue
                r = self.narrow_type(t)
                if r is not None:
                    c.violation('numbers are held as %s in a %s' % (r, self.P.types[T.unref(t)]['s'][:80]),
                                '%s (%s)' % (T.loc(n), name))
                    break
        for v in f['params']:
            if T.in_lib(f) and self.P.types[T.unref(v['t'])].get('k') == 'float' and self.bits(v['t']) < 80 and v['name']:
                used = [u for u in self.uses(v['id'])]
                for u in used:
                    r = self.flow(u, 0)
                    if r is not None:
                        c.violation('the parameter %s is %s and is used in numbers of the wider type'
                                    % (v['name'], self.P.types[T.unref(v['t'])]['s']), '%s (%s)' % (T.loc(f), name))
                        break
        c.paths += nodes
        return nodes


def tasks():
    P = prog.Program('wide.cpp')
    T = tree.Tree(P)
    roots, fmt = [], []
    for f in P.d['functions']:
        q = f['qn']
        if q.startswith('val') and not T.in_lib(f):
            n = f['name']
            (fmt if 'format' in n or 'stream' in n else roots).append(f['id'])
    an = T.reach(roots)
    N = Narrow(T, an)
    out = []
    groups = {}
    for f in P.d['functions']:
        if f['id'] in an:
            groups.setdefault((T.fname(f), f['id']), f)
    count = {}
    for (name, i), f in sorted(groups.items()):
        if name.startswith('val'):
            continue
        j = count[name] = count.get(name, 0) + 1

        def run(c, f=f, name=name):
            n = N.function(c, f)
            c.sample = '%s: %d nodes' % (name, n)
        out.append(Task('%s#%d' % (name, j), run, 'lib' if T.in_lib(f) else 'std'))
    return out, len(roots)


if __name__ == '__main__':
    prog_tasks, nroots = tasks()
    sys.exit(main('C24', prog_tasks, RULE, technique='type-level flow analysis of the typed syntax tree',
                  floors={'uncertainties::': 150},
                  assumptions=['long double stands for every type wider than double',
                               'the C++ standard library computes in the type it is instantiated with']))
