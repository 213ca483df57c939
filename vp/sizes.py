"""Size thresholds: comparisons of the number of elements of a container with a constant which the abstract inputs, of a few
elements each, leave on one side.  They are analysed a second time with the constant brought within reach, so that code which
behaves differently for long containers is seen too."""
import re

import prog

COV = {}            # key of a candidate comparison -> outcomes seen
FLAG = set()        # candidates whose constant is brought within reach
CMP = {'<', '<=', '>', '>=', '==', '!='}
ARITH = {'+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'}
LOOPS = ('for', 'while', 'do', 'rfor')
CONTAINERS = ('std::map::', 'std::set::', 'std::vector::', 'std::list::', 'std::deque::', 'std::multimap::', 'std::unordered_map::',
              'std::unordered_set::', 'std::initializer_list::', 'uncertainties::')


def seen(key, v):
    s = COV.get(key)
    if s is None:
        s = COV[key] = set()
    s.add(v)


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'mat', 'paren', 'bindtemp', 'cleanups') and isinstance(n.get('e'), dict):
        n = n['e']
    return n


def walk(node):
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            for k, v in n.items():
                if k[0] != '_' and isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            stack.extend(x for x in n if isinstance(x, (dict, list)))


class Sizes:
    """which integer expressions of the library grow with a container without bound"""

    def __init__(self, P):
        self.P = P
        self.T = P.types
        self.vars = set()       # ids of variables holding sizes
        self.fns = set()        # functions returning sizes
        self.counters = set()
        self.lits = {}          # id(node) -> key: constants which follow that of a comparison
        self.keys = {}          # id(node) -> (key, kind, side of the constant)
        self.consts = {}
        lib = [f for f in P.d['functions'] if self.in_lib(f)]
        self.bodies = [(f, [f.get('body'), f.get('inits')]) for f in lib]
        nodes = [(f, list(walk(b))) for f, b in self.bodies]
        for f, ns in nodes:
            for n in ns:
                if n.get('k') == 'decl':
                    for v in n.get('vars', ()):
                        i = strip(v.get('init'))
                        if isinstance(i, dict) and i.get('k') == 'int' and self.T[v['t']].get('const', True):
                            self.consts[v.get('id')] = int(i['val'])
        for _ in range(4):
            before = len(self.vars) + len(self.fns)
            for f, ns in nodes:
                for n in ns:
                    self.flow(f, n)
            if len(self.vars) + len(self.fns) == before:
                break
        for f, ns in nodes:
            for n in ns:
                if n.get('k') in LOOPS and self.overall(n):
                    for m in walk(n):
                        if m.get('k') == 'un' and m.get('op') in ('++',) or m.get('k') == 'casg' and m.get('op') == '+=':
                            t = strip(m.get('e') if m['k'] == 'un' else m.get('a'))
                            if isinstance(t, dict) and t.get('k') == 'ref' and t.get('dk') == 'var' and self.isint(t):
                                self.counters.add(t.get('d'))
        for f, ns in nodes:
            for n in ns:
                self.candidate(f, n)
        for f, ns in nodes:
            for n in ns:
                # size > c ? c : size
                k = self.keys.get(id(strip(n.get('c')))) if n.get('k') == 'cond' else None
                if k is not None and k[1] == 'scale':
                    for s in ('a', 'b'):
                        m = strip(n[s])
                        if isinstance(m, dict) and m.get('k') == 'int' and k[0].endswith(' %s' % m['val']):
                            self.lits[id(m)] = k[0]
        for f, ns in nodes:
            mine = [n for n in ns if id(n) in self.keys and self.keys[id(n)][1] == 'scale']
            if mine:
                self.strides(f, ns, mine)

    def in_lib(self, f):
        i = f.get('F')
        return i is not None and i < len(self.P.files) and self.P.files[i].startswith(prog.REPO + '/uncertainties')

    def isint(self, n):
        t = n.get('t')
        if t is None:
            return False
        ty = self.T[t]
        if ty['k'] == 'ref':
            ty = self.T[ty['sub']]
        return ty['k'] == 'int' and ty.get('bits', 0) >= 8

    def flow(self, f, n):
        k = n.get('k')
        if k == 'decl':
            for v in n.get('vars', ()):
                if self.size(v.get('init')) and self.isint(v):
                    self.vars.add(v.get('id'))
        elif k == 'bin' and n.get('op') == '=' or k == 'casg':
            t = strip(n.get('a'))
            if isinstance(t, dict) and t.get('k') == 'ref' and self.size(n.get('b')) and self.isint(t):
                self.vars.add(t.get('d'))
        elif k == 'ret' and n.get('e') is not None and self.size(n['e']):
            self.fns.add(f['id'])
        elif k in ('call', 'mcall') and n.get('fn') in self.P.functions:
            g = self.P.functions[n['fn']]
            if self.in_lib(g):
                for p, a in zip(g['params'], n.get('args', ())):
                    if self.size(a) and self.isint(p):
                        self.vars.add(p['id'])

    def size(self, n):
        n = strip(n)
        if not isinstance(n, dict):
            return False
        k = n.get('k')
        if k == 'ref':
            return n.get('d') in self.vars or n.get('d') in self.counters
        if k in ('mcall', 'call'):
            if n.get('fn') in self.fns:
                return True
            r = self.P.fnrefs.get(n.get('fn'))
            if r is None:
                return False
            q = r['sqn']
            if q.endswith('::size') and q.startswith(CONTAINERS) or q == 'std::distance' or q.endswith('::count') and 'multi' in q:
                return True
            return q in ('std::min', 'std::max') and any(self.size(a) for a in n.get('args', ()))
        if k == 'bin':
            return n.get('op') in ARITH and (self.size(n['a']) or self.size(n['b']))
        if k == 'cond':
            return self.size(n.get('a')) or self.size(n.get('b'))
        if k == 'un':
            return n.get('op') in ('+', '-', '++', '--', '~') and self.size(n.get('e'))
        return False

    def overall(self, loop):
        """does the loop run over a whole container?"""
        if loop['k'] == 'rfor':
            return True
        for n in walk(loop.get('c')):
            if n.get('k') in ('bin', 'opcall', 'call') and n.get('op') in CMP:
                ops = n.get('args') or [n.get('a'), n.get('b')]
                if any(isinstance(o, dict) and o.get('t') is not None and self.iterator(o) for o in ops):
                    return True
                if n['k'] == 'bin' and any(self.size(o) for o in ops):
                    return True
        return False

    def iterator(self, o):
        ty = self.T[o['t']]
        while ty['k'] == 'ref':
            ty = self.T[ty['sub']]
        return ty['k'] not in ('int', 'float', 'flt', 'bool', 'enum')

    def const(self, n):
        n = strip(n)
        if not isinstance(n, dict):
            return None
        k = n.get('k')
        if k == 'int':
            return int(n['val'])
        if k == 'ref' and n.get('dk') == 'var':
            return self.consts.get(n.get('d'))
        if k == 'bin' and n.get('op') in ('+', '-', '*', '<<'):
            a, b = self.const(n['a']), self.const(n['b'])
            if a is None or b is None:
                return None
            return {'+': a + b, '-': a - b, '*': a * b, '<<': a << min(b, 64)}[n['op']]
        return None

    def periodic(self, n):
        return any(m.get('k') == 'bin' and m.get('op') in ('%', '/', '&', '>>') and (self.const(m['b']) or 0) > (0 if m['op'] in '&>>' else 1)
                   and self.size(m['a']) for m in walk(n))

    def strides(self, f, ns, mine):
        """a constant used for something else too (the step of an unrolled loop, the extent of a local buffer) stays as it is"""
        own = set()
        for n in mine:
            c = n['args'][self.keys[id(n)][2]] if n['k'] == 'call' else n[self.keys[id(n)][2]]
            own.update(id(m) for m in walk(c))
        other = set()
        for n in ns:
            if n.get('k') == 'int' and id(n) not in own and id(n) not in self.lits:
                other.add(int(n['val']))
            elif n.get('k') == 'decl':
                for v in n.get('vars', ()):
                    ty = self.T[v['t']]
                    other.update(int(x) for x in re.findall(r'\b\d+\b', str(ty.get('name', ''))))
                    while ty['k'] == 'arr':
                        other.add(ty.get('n') or 0)
                        ty = self.T[ty['sub']]
        for n in mine:
            c = n['args'][self.keys[id(n)][2]] if n['k'] == 'call' else n[self.keys[id(n)][2]]
            v = self.const(c)
            if any(abs(x - v) <= 1 for x in other if x > 2):
                del self.keys[id(n)]

    def candidate(self, f, n):
        k = n.get('k')
        if k == 'bin' and n.get('op') in CMP:
            sides = ((n['a'], n['b'], 'b'), (n['b'], n['a'], 'a'))
        elif k == 'call' and self.P.fnrefs.get(n.get('fn'), {}).get('sqn') in ('std::min', 'std::max') and len(n.get('args', ())) == 2:
            sides = ((n['args'][0], n['args'][1], 1), (n['args'][1], n['args'][0], 0))
        else:
            return
        for s, c, side in sides:
            v = self.const(c)
            if v is None or not self.size(s):
                continue
            if k == 'bin' and self.periodic(s):
                kind = 'force'
            elif v >= 3:
                kind = 'scale'
            else:
                continue
            i = n.get('F', f.get('F'))
            key = '%s:%s' % (self.P.files[i].replace(prog.REPO + '/', '') if i is not None else '?', n.get('L', '?'))
            key += ' %s %d' % (n.get('op') or 'min/max', v)
            self.keys[id(n)] = (key, kind, side)
            return


def of(P):
    s = getattr(P, '_sizes', None)
    if s is None:
        s = P._sizes = Sizes(P)
    return s
