"""Abstract interpreter over the typed tree.

Each function is lowered once to a small register code (a control-flow graph with explicit temporaries).  A
worklist explores (program point, abstract store) pairs.  Stores are exact for objects, references and closures;
numbers are canonical expressions (cas.py); sorted maps keyed by variable ids are abstracted by a few exact
"focus" keys plus an optional summary of all the others ("open" maps).  At loop heads stores are put in canonical
form and merged, so loops over an unbounded number of summary elements reach a fixpoint.
"""
from fractions import Fraction
import itertools
import math
import re

from cas import Num, Special, NAN, INF, NINF, UNINIT, ZERO, ONE, rho, num
import cas
from prog import strip_targs, AnalysisError


class Unsupported(Exception):
    pass


class Split(Exception):
    def __init__(self, n):
        self.n = n


class Prune(Exception):
    pass


import digits


class Stop(Exception):
    """path ends: kind in throw/terminate/assert/ub"""

    def __init__(self, kind, what, node=None):
        self.kind = kind
        self.what = what
        self.node = node


class Throw(Exception):
    def __init__(self, tqn, node):
        self.tqn = tqn
        self.node = node


# ------------------------------------------------------------------ values and storage
class Key:
    """an independent-variable id: only its place in the order is known"""
    __slots__ = ('name', 'temp', 'ctr')

    def __init__(self, name, temp=False, ctr=None):
        self.name = name
        self.temp = temp
        self.ctr = ctr

    def __repr__(self):
        return self.name


class Cell:
    __slots__ = ('v', 'own')

    def __init__(self, v=UNINIT, own=None):
        self.v = v
        self.own = own

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


class Struct:
    __slots__ = ('t', 'f', 'own')

    def __init__(self, t, f, own=None):
        self.t = t
        self.f = f
        self.own = own

    def __repr__(self):
        return 'Struct(%s)' % (self.f,)


class Arr:
    """std::array, C array or std::vector: items are storage objects"""
    __slots__ = ('t', 'items', 'own')

    def __init__(self, t, items, own=None):
        self.t = t
        self.items = items
        self.own = own


class MapObj:
    __slots__ = ('t', 'ent', 'absent', 'open', 'parent', 'pairs', 'fill', 'own', 'label')

    def __init__(self, t, pairs):
        self.t = t
        self.ent = {}
        self.absent = set()
        self.open = False
        self.parent = None
        self.pairs = pairs
        self.fill = None
        self.own = None
        self.label = None


CUR = [None]        # the state the current instruction runs in


def elem(items, idx):
    """value (not a place: it cannot be written) of items[idx] for a symbolic digit idx: over consecutive integers,
    as in "0123456789"[d], it is a linear form again; the path forks over whatever does not fit"""
    import digits
    st = CUR[0]
    if st is None or digits.linear(idx) is None:
        raise Unsupported('symbolic index')
    if not digits.cmp(st, '>=', idx, ZERO) or not digits.cmp(st, '<=', idx, num(len(items) - 1)):
        raise Stop('ub', 'access outside the bounds of an array of %d' % len(items))
    b = digits.bounds(idx, digits.box(st.facts) or {})
    lo, hi = 0, len(items) - 1
    if b[0] is not None:
        lo = max(lo, math.ceil(b[0]))
    if b[2] is not None:
        hi = min(hi, math.floor(b[2]))
    vs = []
    for x in items[lo:hi + 1]:
        x = x.v if x.__class__ is Cell else x
        c = x.const() if x.__class__ is Num else x
        if not isinstance(c, (int, Fraction)) or isinstance(c, bool):
            raise Unsupported('symbolic index')
        vs.append(c)
    n = len(vs)
    while n > 1:
        if all(v == vs[0] + i for i, v in enumerate(vs[:n])):
            return cas.add(idx, num(vs[0] - lo))
        if digits.cmp(st, '==', idx, num(lo + n - 1)):
            return num(vs[n - 1])
        n -= 1
    return num(vs[0])


class Ptr:
    __slots__ = ('obj', 'idx')

    def __init__(self, obj, idx=None):
        self.obj = obj
        self.idx = idx

    def deref(self):
        if self.idx is None:
            return self.obj
        it = self.obj.items
        if not isinstance(self.idx, int):
            return elem(it, self.idx)
        if not (0 <= self.idx < len(it)):
            raise Stop('ub', 'access outside the bounds of an array (index %d of %d)' % (self.idx, len(it)))
        return it[self.idx]

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.obj, self.idx)


class MapIter:
    __slots__ = ('m', 'key', 'src')     # src: where a monitored traversal that has not moved yet begins

    def __init__(self, m, key, src=None):
        self.m = m
        self.key = key
        self.src = src

    def __repr__(self):
        return 'MapIter(%r)' % (self.key,)


class FnPtr:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Closure:
    """value of std::function: callable object or FnPtr"""
    __slots__ = ('target',)

    def __init__(self, target):
        self.target = target


class Opaque:
    """string / stream / exception content not tracked"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


SELF = '$self'
_ATOMIC = (int, bool, Num, Key, str, type(None), Special, FnPtr, Opaque, tuple, Fraction, float)


class Frame:
    __slots__ = ('code', 'pc', 'regs', 'vars', 'this', 'dst', 'base', 'tries')

    def __init__(self, code):
        self.code = code
        self.pc = 0
        self.regs = [None] * code.nreg
        self.vars = {}
        self.this = None
        self.dst = None
        self.base = 0
        self.tries = []


class State:
    def __init__(self):
        self.frames = []
        self.globals = {}
        self.order = []          # materialised keys in increasing order
        self.facts = []          # (op, Num) : Num op 0
        self.choices = []
        self.snap = None
        self.cpos = 0
        self.roots = {}          # objects of the harness
        self.ntemp = 0
        self.draws = 0
        self.open = False
        self.events = []
        self.heads = 0
        self.cls = ()               # answers given to classification queries
        self.trav = frozenset()     # traversals and copies begun, when a monitor is active

    def clone(self):
        memo = {}

        def cp(v):
            c = v.__class__
            if c is Cell:
                r = memo.get(id(v))
                if r is None:
                    r = Cell(None, v.own)
                    memo[id(v)] = r
                    r.v = cp(v.v)
                return r
            if c is Struct:
                r = memo.get(id(v))
                if r is None:
                    r = Struct(v.t, None, v.own)
                    memo[id(v)] = r
                    r.f = {k: cp(x) for k, x in v.f.items()}
                return r
            if c is Arr:
                r = memo.get(id(v))
                if r is None:
                    r = Arr(v.t, None, v.own)
                    memo[id(v)] = r
                    r.items = [cp(x) for x in v.items]
                return r
            if c is MapObj:
                r = memo.get(id(v))
                if r is None:
                    r = MapObj(v.t, v.pairs)
                    memo[id(v)] = r
                    r.ent = {k: cp(x) for k, x in v.ent.items()}
                    r.absent = set(v.absent)
                    r.open = v.open
                    r.parent = cp(v.parent) if v.parent is not None else None
                    r.fill = v.fill
                    r.own = v.own
                    r.label = v.label
                return r
            if c is Ptr:
                return Ptr(cp(v.obj), v.idx)
            if c is MapIter:
                return MapIter(cp(v.m), v.key, v.src)
            if c is Closure:
                return Closure(cp(v.target))
            if hasattr(v, 'vpclone'):
                r = memo.get(id(v))
                if r is None:
                    r = v.vpclone(cp, memo)
                return r
            return v
        s = State()
        for f in self.frames:
            g = Frame.__new__(Frame)
            g.code = f.code
            g.pc = f.pc
            g.regs = [cp(x) for x in f.regs]
            g.vars = {k: cp(x) for k, x in f.vars.items()}
            g.this = cp(f.this)
            g.dst = f.dst
            g.base = f.base
            g.tries = list(f.tries)
            s.frames.append(g)
        s.globals = {k: cp(x) for k, x in self.globals.items()}
        s.roots = {k: cp(x) for k, x in self.roots.items()}
        s.order = list(self.order)
        s.facts = list(self.facts)
        s.choices = list(self.choices)
        s.ntemp = self.ntemp
        s.draws = self.draws
        s.open = self.open
        s.events = list(self.events)
        s.heads = self.heads
        s.trav = self.trav
        s.cls = self.cls
        return s

    def choose(self, n):
        if self.cpos < len(self.choices):
            r = self.choices[self.cpos]
            self.cpos += 1
            return r
        raise Split(n)

    # ------------------------------------------------------------ canonical form
    def canonical(self):
        seen = {}
        pos = {k: i for i, k in enumerate(self.order)}

        def cv(v):
            c = v.__class__
            if c is int or c is bool or c is str or v is None:
                return (c.__name__, v)
            if c is Num:
                return v.key()
            if c is Key:
                return ('K', v.name) if not v.temp else ('T', pos.get(v, -1))
            if c is tuple:
                return tuple(cv(x) for x in v)
            if c in (Special, FnPtr, Opaque, Fraction, float):
                return (c.__name__, getattr(v, 'name', None) or getattr(v, 'tag', None) or getattr(v, 'fn', None))
            if c is Ptr:
                return ('P', cv(v.obj), v.idx)
            if c is MapIter:
                return ('I', cv(v.m), cv(v.key)) if v.src is None else ('I', cv(v.m), cv(v.key), v.src)
            if c is Closure:
                return ('C', cv(v.target))
            i = seen.get(id(v))
            if i is not None:
                return ('#', i)
            seen[id(v)] = len(seen)
            if c is Cell:
                return ('c', cv(v.v))
            if c is Struct:
                return ('s', v.t, tuple((k, cv(x)) for k, x in sorted(v.f.items())))
            if c is Arr:
                return ('a', v.t, tuple(cv(x) for x in v.items))
            if c is MapObj:
                ks = sorted(v.ent, key=lambda k: _sortkey(k, pos))
                ab = sorted((cv(k) for k in v.absent), key=repr)
                return ('m', v.open, tuple((cv(k), cv(v.ent[k])) for k in ks), tuple(ab), cv(v.parent))
            if hasattr(v, 'vpcanon'):
                return v.vpcanon(cv)
            raise Unsupported('canonical form of %s' % c)
        fr = []
        n = len(self.frames)
        for j, f in enumerate(self.frames):
            live = f.regs[:f.base] if j < n - 1 else ()
            fr.append((f.code.id, f.pc, tuple(cv(x) for x in live),
                       tuple((k, cv(x)) for k, x in sorted(f.vars.items(), key=lambda t: str(t[0]))), cv(f.this), f.dst))
        gl = tuple((k, cv(x)) for k, x in sorted(self.globals.items(), key=lambda t: str(t[0])))
        rt = tuple((k, cv(x)) for k, x in sorted(self.roots.items()))
        return (tuple(fr), gl, rt, tuple((op, f.key()) for op, f in sorted(self.facts, key=lambda t: repr(t))),
                tuple(('K', k.name) if not k.temp else 'T' for k in self.order), self.draws, self.trav,
                tuple((n, v.key(), r) for (n, v), r in self.cls))

    def fold(self):
        """forget summary keys nothing refers to any more"""
        if not any(k.temp for k in self.order):
            return
        used = set()
        seen = set()
        stack = []
        n = len(self.frames)
        for j, f in enumerate(self.frames):
            if j < n - 1:
                stack.extend(f.regs[:f.base])
            stack.extend(f.vars.values())
            stack.append(f.this)
        stack.extend(self.globals.values())
        stack.extend(self.roots.values())
        maps = []
        while stack:
            v = stack.pop()
            c = v.__class__
            if c is Key:
                used.add(v)
                continue
            if c is tuple:
                stack.extend(v)
                continue
            if c is Ptr:
                stack.append(v.obj)
                continue
            if c is MapIter:
                stack.append(v.m)
                stack.append(v.key)
                continue
            if c is Closure:
                stack.append(v.target)
                continue
            if hasattr(v, 'vprefs'):
                if id(v) not in seen:
                    seen.add(id(v))
                    stack.extend(v.vprefs())
                continue
            if c not in (Cell, Struct, Arr, MapObj):
                continue
            if id(v) in seen:
                continue
            seen.add(id(v))
            if c is MapObj:
                maps.append(v)
                if v.parent is not None:
                    stack.append(v.parent)
                continue
            own = v.own
            if own is not None:
                stack.append(own)
            if c is Cell:
                stack.append(v.v)
            elif c is Struct:
                stack.extend(v.f.values())
            else:
                stack.extend(v.items)
        drop = [k for k in self.order if k.temp and k not in used]
        if not drop:
            return
        ds = set(drop)
        for m in maps:
            gone = [k for k in m.ent if ((k in ds) if not isinstance(k, tuple) else (k[0] in ds or k[1] in ds))]
            if gone and not m.open:
                # an exact map becomes a summary: remember which of the remaining keys are certainly not in it
                rest = [k for k in self.order if k not in ds]
                if m.pairs:
                    for i, a in enumerate(rest):
                        for b in rest[i + 1:]:
                            if (a, b) not in m.ent:
                                m.absent.add((a, b))
                else:
                    m.absent.update(k for k in rest if k not in m.ent)
            for k in list(m.ent):
                if (k in ds) if not isinstance(k, tuple) else (k[0] in ds or k[1] in ds):
                    del m.ent[k]
                    m.open = True
            for k in list(m.absent):
                if (k in ds) if not isinstance(k, tuple) else (k[0] in ds or k[1] in ds):
                    m.absent.discard(k)
        self.order = [k for k in self.order if k not in ds]

    def newtemp(self, at):
        self.ntemp += 1
        k = Key('T%d' % self.ntemp, True)
        self.order.insert(at, k)
        return k


def _sortkey(k, pos):
    if isinstance(k, tuple):
        return tuple(_sortkey(x, pos) for x in k)
    if isinstance(k, Key):
        return (1, pos.get(k, 10 ** 6))
    return (0, k)


MAXID = None


# ------------------------------------------------------------------ comparison of numbers with recorded facts
def primitive(d):
    """d scaled by a positive rational; returns (flip, num)"""
    lead = d.d[max(d.d)]
    if lead == 1:
        return 1, d
    f = Fraction(1) / abs(Fraction(lead))
    d2 = Num({m: cas._q(c * f) for m, c in d.d.items()})
    if lead < 0:
        return -1, cas.neg(d2)
    return 1, d2


OPS = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def cmpnum(st, op, a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if UNINIT in (a, b):
            st.events.append(('uninit',))
            return bool(st.choose(2))
        if NAN in (a, b):
            return op == '!='
        ra = {NINF: -2, INF: 2}.get(a, 0) if isinstance(a, Special) else 0
        rb = {NINF: -2, INF: 2}.get(b, 0) if isinstance(b, Special) else 0
        return {'<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb, '==': ra == rb, '!=': ra != rb}[op]
    if digits.ON[0]:
        return digits.cmp(st, op, a, b)
    d = cas.sub(a, b)
    if not d.d:
        if a.has_rho():
            return bool(st.choose(2))
        return 0 in OPS[op]
    c = d.const()
    if c is not None:
        return (1 if c > 0 else -1) in OPS[op]
    if d.has_rho():
        return bool(st.choose(2))
    s = cas.sign(d)
    if s is not None:
        return s in OPS[op]
    fl, p = primitive(d)
    want = OPS[op] if fl == 1 else {-x for x in OPS[op]}
    poss = {-1, 0, 1}
    lo, hi = cas.interval(p)
    if lo is not None and lo >= 0:
        poss.discard(-1)
    if hi is not None and hi <= 0:
        poss.discard(1)
    m = cas.solve_eqs(st.facts) if any(o == '==' for o, _ in st.facts) else None
    if m:
        p2 = cas.subst(p, m)
        if isinstance(p2, Special):
            raise Prune()
        s = cas.sign(p2)
        if s is not None:
            poss &= {s}
    for o, f in st.facts:
        if f == p:
            poss &= OPS[o]
    yes, no = poss & want, poss - want
    if not no:
        return True
    if not yes:
        return False
    r = st.choose(2)
    side = yes if r else no
    o = _opof(side)
    st.facts = [x for x in st.facts if x[1] != p] + [(o, p)]
    if not feasible(st):
        raise Prune()
    return bool(r)


def _opof(s):
    for o, v in OPS.items():
        if v == s:
            return o
    raise Unsupported('sign set')


_feas = {}


def feasible(st):
    m = cas.solve_eqs(st.facts)
    fs = []
    for op, f in st.facts:
        g = cas.subst(f, m) if m else f
        if isinstance(g, Special):
            return False
        c = g.const()
        if c is not None:
            if ((c > 0) - (c < 0)) not in OPS[op]:
                return False
            continue
        fs.append((op, g))
    # substituted symbols must stay in their domain
    for at, v in m.items():
        k = cas.ATOMS[at]
        if not isinstance(v, Special):
            if k[2] is not None:
                fs.append(('>', cas.sub(v, num(k[2]))))
            if k[3] is not None:
                fs.append(('<', cas.sub(v, num(k[3]))))
    fs2 = []
    for op, g in fs:
        c = g.const()
        if c is not None:
            if ((c > 0) - (c < 0)) not in OPS[op]:
                return False
        else:
            fs2.append((op, g))
    if not fs2:
        return True
    key = tuple(sorted((op, f.key()) for op, f in fs2))
    r = _feas.get(key)
    if r is None:
        r = bool(cas.points(set(), fs2, n=1, tries=300))
        _feas[key] = r
    return r


# ------------------------------------------------------------------ code
class Label:
    __slots__ = ('pc',)

    def __init__(self):
        self.pc = None


class Code:
    _n = itertools.count()

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.lines = []
        self.nreg = 0
        self.id = next(Code._n)
        self.params = []
        self.ret = None
        self.noexcept = False
        self.fnid = None
        self.tries = []


class VM:
    def __init__(self, prog, budget=4000000):
        self.p = prog
        self.types = prog.types
        self.codes = {}
        self.defaults = {}
        self.budget = budget
        self.steps = 0
        self.visited_fns = set()
        self.calls = 0
        self.merged = 0
        self.hooks = {}
        self.unsupported = set()
        import lib
        self.lib = lib
        self.objcache = {}

    # ---------------------------------------------------------------- types
    def T(self, t):
        return self.types[t]

    def unref(self, t):
        ty = self.types[t]
        return ty['sub'] if ty['k'] == 'ref' else t

    def is_obj(self, t):
        """class types represented by storage objects (as opposed to immutable values in a Cell)"""
        r = self.objcache.get(t)
        if r is None:
            r = self._is_obj(t)
            self.objcache[t] = r
        return r

    def _is_obj(self, t):
        ty = self.types[t]
        if ty['k'] == 'arr':
            return True
        if ty['k'] != 'rec':
            return False
        if ty['rid'] in self.p.records:
            return True
        return self.lib.std_is_obj(ty['sqn'])

    def storage(self, t, fillv=UNINIT):
        ty = self.types[t]
        k = ty['k']
        if k == 'arr':
            return Arr(t, [self.storage(ty['sub'], fillv) for _ in range(ty['n'])])
        if k == 'rec':
            rec = self.p.records.get(ty['rid'])
            if rec is not None:
                f = {}
                for b in rec.get('bases', ()):
                    bs = self.storage(b, fillv)
                    if isinstance(bs, Struct):
                        f.update(bs.f)
                for x in rec['fields']:
                    f[x['name']] = self.storage(x['t'], fillv)
                return Struct(t, f)
            return self.lib.std_storage(self, t, ty, fillv)
        if fillv is not UNINIT:
            if k == 'float':
                return Cell(num(fillv))
            if k == 'bool':
                return Cell(bool(fillv))
            if k in ('int', 'enum'):
                return Cell(fillv)
            if k in ('ptr', 'nullptr'):
                return Cell(None)
        return Cell(UNINIT)

    def zero(self, t):
        """value-initialised storage, running default constructors"""
        tpl = self.defaults.get(t)
        if tpl is None:
            tpl = self._zero(t)
            self.defaults[t] = tpl
        return deep(tpl)

    def _zero(self, t):
        o = self.storage(t, 0)
        ty = self.types[t]
        if ty['k'] == 'arr':
            o.items = [self.zero(ty['sub']) for _ in range(ty['n'])]
        if ty['k'] == 'rec':
            rec = self.p.records.get(ty['rid'])
            if rec is not None:
                c = self.default_init_code(t, rec)
                st = State()
                fr = Frame(c)
                fr.this = o
                st.frames.append(fr)
                outs = self.run(st, nested=True)
                if len(outs) != 1 or outs[0].kind != 'ret':
                    raise Unsupported('default construction of %s' % ty['s'])
                o = outs[0].this
        return o

    def default_init_code(self, t, rec):
        key = ('di', t)
        c = self.codes.get(key)
        if c is None:
            from lower import Lower
            c = Lower(self).default_init(t, rec)
            self.codes[key] = c
        return c

    def code(self, fnid):
        c = self.codes.get(fnid)
        if c is None:
            f = self.p.functions[fnid]
            from lower import Lower
            c = Lower(self).function(f)
            self.codes[fnid] = c
        return c

    def has_body(self, fnid):
        return fnid in self.p.functions

    # ---------------------------------------------------------------- globals
    def global_lv(self, st, d, node=None):
        o = st.globals.get(d)
        if o is None:
            v = self.p.vars.get(d)
            if v is None:
                raise Unsupported('global %s' % (node or {}).get('qn'))
            t = v['t']
            ty = self.types[t]
            if 'init' in v and v['init'] is not None:
                from lower import Lower
                key = ('gi', d)
                c = self.codes.get(key)
                if c is None:
                    c = Lower(self).global_init(v)
                    self.codes[key] = c
                s2 = State()
                s2.frames.append(Frame(c))
                outs = self.run(s2, nested=True)
                if len(outs) != 1 or outs[0].kind != 'ret':
                    raise Unsupported('initialiser of %s' % v['name'])
                val = outs[0].value
                if ty['k'] == 'ref' or self.is_obj(t):
                    o = val
                else:
                    o = Cell(val)
            else:
                o = self.zero(t) if self.is_obj(t) else self.storage(t, 0)
            if ty.get('sqn') == 'std::atomic':
                o = self.lib.atomic_cell(st, o)
            st.globals[d] = o
        return o

    # ---------------------------------------------------------------- execution
    def start(self, fnid, args, st):
        fr = self.frame_for(fnid, args)
        st.frames.append(fr)
        return fr

    def frame_for(self, fnid, args, this=None):
        c = self.code(fnid)
        fr = Frame(c)
        fr.this = this
        if len(args) < len(c.params):
            raise Unsupported('call of %s with %d arguments' % (c.name, len(args)))
        for (d, isref, isobj), a in zip(c.params, args):
            if isref or isobj:
                fr.vars[d] = a
            else:
                fr.vars[d] = Cell(a)
        return fr

    def run(self, st, nested=False, budget=None):
        work = [st]
        outs = []
        visited = set()
        limit = self.steps + (budget or self.budget)
        cur = CUR[0]
        while work:
            st = work.pop()
            try:
                self.run_path(st, work, outs, visited, limit)
            except Prune:
                self.merged += 1
        CUR[0] = cur
        return outs

    def run_path(self, st, work, outs, visited, limit):
        base = 1
        steps = 0
        fr = st.frames[-1]
        ins = fr.code.ins
        try:
            while True:
                try:
                    CUR[0] = st
                    if MON is not None:
                        MON.st = st
                    r = ins[fr.pc](st, fr)
                    if st.choices:
                        st.choices = []
                        st.cpos = 0
                        st.snap = None
                except Split as s:
                    # the instruction starts again with one more answer; what it already recorded is undone
                    ch = st.choices
                    if st.snap is None:
                        st.snap = st.clone()
                    for i in range(s.n - 1, 0, -1):
                        t = st.snap.clone()
                        t.choices = ch + [i]
                        t.snap = st.snap
                        work.append(t)
                    if ch:
                        t = st.snap.clone()
                        t.snap = st.snap
                        st = t
                        fr = st.frames[-1]
                        ins = fr.code.ins
                    st.choices = ch + [0]
                    st.cpos = 0
                    continue
                except Throw as t:
                    if st.choices:
                        st.choices = []
                        st.cpos = 0
                        st.snap = None
                    h = self.unwind(st, t)
                    if h is not None:
                        outs.append(Outcome(h, t.tqn, st, t.node, self))
                        return
                    fr = st.frames[-1]
                    ins = fr.code.ins
                    continue
                if r is None:
                    fr.pc += 1
                elif r >= 0:
                    fr.pc = r
                elif r == -1:
                    fr = st.frames[-1]
                    ins = fr.code.ins
                elif r == -2:      # return from outermost frame
                    o = Outcome('ret', st.retval, st, None, self)
                    o.this = st.retthis
                    outs.append(o)
                    return
                elif r == -3:      # loop head
                    if st.open:
                        st.fold()
                        k = st.canonical()
                        if k in visited:
                            raise Prune()
                        visited.add(k)
                        if st.heads > 150:
                            raise Unsupported('no fixpoint: the loop does not forget how often it ran')
                    st.heads += 1
                    if st.heads > 20000 and not st.open:
                        k = st.canonical()
                        if k in visited:
                            outs.append(Outcome('diverges', 'loop does not terminate', st, fr.code.lines[fr.pc], self))
                            return
                        visited.add(k)
                    fr.pc += 1
                steps += 1
                if steps & 1023 == 0:
                    self.steps += 1024
                    if self.steps > limit:
                        raise Unsupported('analysis budget exceeded')
        except Stop as s:
            outs.append(Outcome(s.kind, s.what, st, s.node or fr.code.lines[min(fr.pc, len(fr.code.lines) - 1)], self))
        except Unsupported as u:
            if not getattr(u, 'loc', None):
                node = fr.code.lines[min(fr.pc, len(fr.code.lines) - 1)]
                u.loc = self.p.loc(node) if node else '?'
                u.args = ('%s (at %s in %s)' % (u.args[0] if u.args else '', u.loc, fr.code.name),)
            raise
        finally:
            self.steps += steps & 1023

    def unwind(self, st, t):
        """None if a handler was found"""
        while st.frames:
            fr = st.frames[-1]
            while fr.tries:
                hl, handlers = fr.tries.pop()
                for (tqn, lab, var) in handlers:
                    if tqn is None or self.lib.catches(tqn, t.tqn):
                        if var is not None:
                            fr.vars[var] = Cell(Opaque(t.tqn))
                        fr.pc = lab.pc
                        return None
            if fr.code.noexcept:
                return 'terminate'
            st.frames.pop()
        return 'throw'


class Outcome:
    def __init__(self, kind, value, st, node, vm):
        self.kind = kind
        self.value = value
        self.st = st
        self.node = node
        self.loc = vm.p.loc(node) if node else '?'
        self.this = None

    def __repr__(self):
        return 'Outcome(%s, %r at %s)' % (self.kind, self.value, self.loc)


MON = None      # monitor of traversals, copies, growth


class Monitor:
    """told about what is done to containers while an operation runs"""
    st = None

    def begin(self, st):
        return None

    def step(self, st, m, src):
        pass

    def copy(self, m):
        pass

    def grow(self, m):
        pass

    def model(self, st, ref, args, value):
        pass


class silent:
    """moves and swaps are not copies"""

    def __enter__(self):
        global MON
        self.m, MON = MON, None

    def __exit__(self, *a):
        global MON
        MON = self.m


def deep(o):
    """deep copy of a storage object"""
    c = o.__class__
    if c is Cell:
        v = o.v
        if isinstance(v, Closure):
            v = Closure(deep(v.target) if isinstance(v.target, (Struct,)) else v.target)
        elif hasattr(v, 'vpdeep'):
            v = v.vpdeep()
        return Cell(v)
    if c is Struct:
        r = Struct(o.t, {k: deep(v) for k, v in o.f.items()})
        for k, v in r.f.items():
            if v.__class__ is MapObj and v.parent is not None:
                for k2, v2 in o.f.items():
                    if v2 is v.parent:
                        v.parent = r.f[k2]
        return r
    if c is Arr:
        return Arr(o.t, [deep(v) for v in o.items])
    if c is MapObj:
        if MON is not None:
            MON.copy(o)
        m = MapObj(o.t, o.pairs)
        m.ent = {k: own(deep(v), k) for k, v in o.ent.items()}
        m.absent = set(o.absent)
        m.open = o.open
        m.parent = o.parent
        m.fill = o.fill
        m.label = o.label
        return m
    if hasattr(o, 'vpdeep'):
        return o.vpdeep()
    return o


def own(node, k):
    """mark the storage of a map element with its key"""
    node.own = k
    if isinstance(node, Struct):
        for x in node.f.values():
            own(x, k)
    elif isinstance(node, Arr):
        for x in node.items:
            own(x, k)
    return node


def assign(dst, src):
    """memberwise assignment of storage, keeping the identity of dst"""
    if dst is src:
        return
    c = dst.__class__
    if c is Cell:
        v = src.v if src.__class__ is Cell else src
        if isinstance(v, Closure):
            v = Closure(deep(v.target) if isinstance(v.target, Struct) else v.target)
        dst.v = v
    elif c is Struct:
        for k in dst.f:
            assign(dst.f[k], src.f[k])
    elif c is Arr:
        if len(dst.items) == len(src.items):
            for a, b in zip(dst.items, src.items):
                assign(a, b)
        else:
            dst.items = [deep(x) for x in src.items]
    elif c is MapObj:
        m = deep(src)
        dst.ent = m.ent
        dst.absent = m.absent
        dst.open = m.open
        dst.parent = m.parent
        dst.fill = m.fill
    elif hasattr(dst, 'vpassign'):
        dst.vpassign(src)
    else:
        raise Unsupported('assignment of %s' % c)


def lib_race(x):
    import lib
    lib.RACE[0] = x
