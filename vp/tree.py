"""Queries over the typed syntax tree: parents, call graph, uses of storage."""
import prog

SKIP = ('_p', '_slot', '_fn')


def link(node, parent=None, slot=None, fn=None):
    """adds parent links to the expressions and statements below a node"""
    stack = [(node, parent, slot)]
    while stack:
        n, p, s = stack.pop()
        if isinstance(n, dict):
            n['_p'], n['_slot'], n['_fn'] = p, s, fn
            for k, v in n.items():
                if k in SKIP or not isinstance(v, (dict, list)):
                    continue
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance(x, dict):
                            stack.append((x, n, (k, i)))
                else:
                    stack.append((v, n, k))


def walk(node):
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            for k, v in n.items():
                if k not in SKIP and isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            stack.extend(x for x in n if isinstance(x, (dict, list)))


class Tree:
    def __init__(self, P):
        self.P = P
        self.types = P.types
        self.fns = list(P.d['functions'])
        self.lib = {}           # function id -> is it written in the library?
        for f in self.fns:
            for k in ('inits', 'body'):
                link(f.get(k) if k == 'body' else {'k': 'inits', 's': f.get(k) or []}, None, None, f)
        self.gvars = [v for v in P.d['vars']]
        for v in self.gvars:
            if v.get('init'):
                link(v['init'], {'k': 'decl', 'vars': [v]}, ('vars', 0), None)
        # default member initialisers belong to every constructor: reachable as their own pseudo functions
        self.by_id = {f['id']: f for f in self.fns}

    def file(self, n):
        i = n.get('F')
        return self.P.files[i] if i is not None and i < len(self.P.files) else '?'

    def in_lib(self, n):
        return self.file(n).startswith(prog.REPO + '/uncertainties')

    def loc(self, n):
        f = self.file(n)
        if f.startswith(prog.REPO + '/'):
            f = f[len(prog.REPO) + 1:]
        return '%s:%s' % (f, n.get('L'))

    def nodes(self, f):
        for x in walk([f.get('inits') or [], f.get('body') or {}]):
            yield x

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else None

    def unref(self, i):
        t = self.types[i]
        return t['sub'] if t['k'] == 'ref' else i

    def is_const(self, i):
        return bool(self.types[self.unref(i)].get('const'))

    # ------------------------------------------------------------- call graph
    def callees(self, f):
        out = set()
        for n in self.nodes(f):
            for k in ('fn', 'conv'):
                if isinstance(n.get(k), int):
                    out.add(n[k])
        return out

    def graph(self):
        if not hasattr(self, '_g'):
            self._g = {f['id']: self.callees(f) for f in self.fns}
        return self._g

    def reach(self, roots):
        g = self.graph()
        seen = set()
        work = list(roots)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(g.get(x, ()))
        return seen

    # ------------------------------------------------------------- uses of an lvalue
    def use(self, n):
        """how the lvalue denoted by the node is used: 'read', 'write', 'addr', ('call', node), ('bind', node)..."""
        p = n.get('_p')
        while True:
            if p is None:
                return ('none', None)
            k = p.get('k')
            s = n['_slot']
            if k == 'cast':
                ck = p['ck']
                if ck == 'LValueToRValue':
                    return ('read', p)
                if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived'):
                    if p.get('t') is not None and self.is_const(p['t']) and ck == 'NoOp':
                        return ('read', p)
                    n, p = p, p.get('_p')
                    continue
                if ck == 'ArrayToPointerDecay':
                    n, p = p, p.get('_p')
                    continue
                if ck == 'ToVoid':
                    return ('read', p)
                return ('other', p)
            if k == 'mem' and s == 'e':
                # a member of it
                if p.get('fn') is not None:
                    n, p = p, p.get('_p')
                    continue
                if p.get('t') is not None and self.is_const(p['t']):
                    return ('read', p)
                n, p = p, p.get('_p')
                continue
            if k == 'bin':
                if p['op'] == '=' and s == 'a':
                    return ('write', p)
                if p['op'] == ',' and s == 'b':
                    n, p = p, p.get('_p')
                    continue
                return ('read', p)
            if k == 'casg':
                return ('write', p) if s == 'a' else ('read', p)
            if k == 'un':
                if p['op'] in ('++', '--'):
                    return ('write', p)
                if p['op'] == '&':
                    return ('addr', p)
                if p['op'] == '*':
                    n, p = p, p.get('_p')
                    continue
                return ('read', p)
            if k == 'idx':
                if s == 'a':
                    n, p = p, p.get('_p')
                    continue
                return ('read', p)
            if k in ('mcall', 'opcall'):
                fr = self.P.fnrefs.get(p.get('fn'))
                if s == 'obj' or (k == 'opcall' and p.get('method') and s == ('args', 0)):
                    if fr is None:
                        return ('other', p)
                    if fr.get('mconst'):
                        return ('read', p)
                    if not fr.get('proj') and fr['name'] in ('operator[]', 'at', 'front', 'back') and \
                            fr['qn'].startswith('std::') and p.get('v') == 'l' and 'map' not in fr['qn']:
                        n, p = p, p.get('_p')       # the element is what is used
                        continue
                    return ('call', p)
            if k in ('call', 'mcall', 'opcall', 'ctor'):
                fr = self.P.fnrefs.get(p.get('fn'))
                if fr is None:
                    return ('other', p)
                if s[0] == 'args':
                    i = s[1] - (1 if k == 'opcall' and p.get('method') else 0)
                    if i < len(fr['ptypes']):
                        pt = self.types[fr['ptypes'][i]]
                        if pt['k'] == 'ref':
                            return ('read', p) if self.is_const(pt['sub']) else ('arg', p)
                        return ('read', p)
                return ('other', p)
            if k == 'cond' and s in ('a', 'b'):
                n, p = p, p.get('_p')
                continue
            if k == 'mat':
                return ('read', p)
            if k == 'ret':
                f = p.get('_fn')
                if f is not None and self.types[f['ret']]['k'] == 'ref' and not self.is_const(f['ret']):
                    return ('return', p)
                return ('read', p)
            if k in ('expr', 'decl', 'if', 'while', 'for', 'do', 'switch', 'rfor', None):
                if k is None and p.get('name') is not None and 't' in p:
                    # initialiser of a variable
                    t = self.types[p['t']]
                    if t['k'] == 'ref' and not self.is_const(p['t']):
                        return ('alias', p)
                    return ('read', p)
                if k is None and 'field' in p:
                    t = self.types[p['init'].get('t')] if p.get('init') else None
                    return ('member', p)
                return ('read', p)
            if k == 'lambda':
                return ('capture', p)
            if k is None and ('byref' in p):
                return ('capture', p)
            return ('other', p)

    def fname(self, f):
        return prog.strip_targs(f['qn'])
