"""Models of the standard library entities the headers use."""
from fractions import Fraction
import re

from cas import Num, Special, NAN, INF, NINF, UNINIT, ZERO, ONE, rho, num
import cas
import digits
import vm as V
from vm import (Cell, Struct, Arr, MapObj, Ptr, MapIter, FnPtr, Closure, Opaque, Key, Unsupported, Stop, Throw, deep,
                assign, own, cmpnum, _sortkey)

M = {}
GLOBALS = {}


def model(*names):
    def dec(f):
        for n in names:
            M[n] = f
        return f
    return dec


MATH1 = ('exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'sqrt', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos',
         'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'trunc', 'floor', 'ceil', 'round',
         'rint', 'nearbyint', 'tgamma', 'lgamma', 'logb')
MATH2 = ('pow', 'hypot', 'atan2', 'fmod', 'remainder', 'fmax', 'fmin', 'copysign')

OBJ_STD = {'std::map', 'std::set', 'std::vector', 'std::array', 'std::pair', 'std::tuple', 'std::initializer_list'}


def std_is_obj(sqn):
    return sqn in OBJ_STD or sqn in EXTRA_OBJ


EXTRA_OBJ = {}      # sqn -> storage factory


def std_storage(vm, t, ty, fillv):
    n = ty['sqn']
    ta = ty.get('targs') or []
    if n == 'std::map':
        kt = vm.types[ta[0]['t']]
        return MapObj(t, kt['k'] == 'rec')
    if n == 'std::set':
        return MapObj(t, vm.types[ta[0]['t']]['k'] == 'rec')
    if n in ('std::vector', 'std::initializer_list'):
        return Arr(t, [])
    if n == 'std::array':
        return Arr(t, [vm.storage(ta[0]['t'], fillv) for _ in range(ta[1]['i'])])
    if n == 'std::pair':
        return Struct(t, {'first': vm.storage(ta[0]['t'], fillv), 'second': vm.storage(ta[1]['t'], fillv)})
    if n == 'std::tuple':
        return Struct(t, {str(i): vm.storage(a['t'], fillv) for i, a in enumerate(ta) if a and 't' in a})
    if n in EXTRA_OBJ:
        return EXTRA_OBJ[n](vm, t, ty)
    if n == 'std::function':
        return Cell(Closure(None))
    return Cell(Opaque(n))


def find(vm, ref, e):
    n = ref['sqn'].replace('__cxx11::', '')
    h = M.get(n)
    if h is not None:
        return h
    b = n[5:] if n.startswith('std::') else n
    if '::' not in b:
        s = b
        if s[-1:] in 'fl' and s[:-1] in MATH1 + MATH2 and s not in MATH1 + MATH2:
            s = s[:-1]
        if s in MATH1:
            return _math1(s)
        if s in MATH2:
            return _math2(s)
    if n.startswith('std::atomic::') or n.startswith('std::__atomic_base::'):
        if ref.get('kind') != 'ctor':
            return ATOMIC.get(n.split('::')[-1])
    if ref.get('kind') == 'ctor':
        cls = vm.types[ref['cls']]
        s = cls['sqn'].replace('__cxx11::', '')
        if s in CTORS:
            return CTORS[s]
        if s.startswith('std::') and (s.endswith('_error') or s in ('std::invalid_argument', 'std::exception',
                                                                   'std::out_of_range')):
            return lambda c, *a: Opaque(s)
    if n.startswith(('std::basic_ostringstream::', 'std::basic_stringstream::', 'std::basic_ostream::', 'std::basic_ios::',
                     'std::ios_base::')):
        return lambda c, *a: a[0]
    if not ref.get('proj') and ref['kind'] == 'function' and not vm.has_body(ref['id']) and n in UNINT:
        return None
    if ref.get('proj') and ref['kind'] == 'function' and not vm.has_body(ref['id']):
        # declared but not defined: uninterpreted function of its arguments
        name = 'ext:' + ref['name']

        def ext(c, *a):
            return EXTVAL[0](name, tuple(_num(load(x)) for x in a))
        return ext
    return None


# value of an uninterpreted function
EXTVAL = [cas.fnatom]
UNINT = set()
CTORS = {}
OVERRIDE = {}


def override(ref):
    return OVERRIDE.get(ref['sqn'])


def catches(handler, thrown):
    if handler == thrown:
        return True
    base = {'std::exception'}
    logic = {'std::logic_error'} | base
    runtime = {'std::runtime_error'} | base
    sup = {'std::invalid_argument': logic, 'std::out_of_range': logic, 'std::domain_error': logic,
           'std::length_error': logic, 'std::logic_error': base, 'std::runtime_error': base,
           'std::range_error': runtime, 'std::overflow_error': runtime}
    return handler in sup.get(thrown, ())


def load(x):
    return x.v if x.__class__ is Cell else x


def _num(v):
    if v.__class__ in (int, bool):
        return num(int(v))
    if isinstance(v, (Num, Special)):
        return v
    raise Unsupported('number expected, got %r' % (v,))


def _math1(s):
    if s == 'nearbyint':
        s = 'rint'

    def f(c, x):
        v = _num(load(x))
        if isinstance(v, Num) and v.has_rho():
            return rho
        import lower
        if lower.FREE[0] and isinstance(v, Num):
            return cas.fnatom('fl:' + s, (v,))
        if digits.ON[0]:
            r = digits.fn1(c.st, s, v)
            if r is not None:
                return r
        return cas.fn1(s, v)
    return f


def _math2(s):
    def f(c, x, y):
        a, b = _num(load(x)), _num(load(y))
        if isinstance(a, Num) and isinstance(b, Num) and (a.has_rho() or b.has_rho()):
            return rho
        import lower
        if lower.FREE[0] and isinstance(a, Num) and isinstance(b, Num):
            return cas.fnatom('fl:' + s, (a, b))
        if digits.ON[0]:
            r = digits.fn2(c.st, s, a, b)
            if r is not None:
                return r
        if s in ('fmax', 'fmin') and isinstance(a, Num) and isinstance(b, Num) and cas.sign(cas.sub(a, b)) is None:
            g = cmpnum(c.st, '>=', a, b)
            return (a if g else b) if s == 'fmax' else (b if g else a)
        return cas.fn2(s, a, b)
    return f


@model('abs', 'std::abs', 'fabs', 'std::fabs', 'labs', 'llabs')
def m_abs(c, x):
    v = load(x)
    if v.__class__ is int:
        return abs(v)
    if isinstance(v, Num) and v.has_rho():
        return rho
    import lower
    if lower.FREE[0] and isinstance(v, Num):
        return cas.fnatom('fl:abs', (v,))
    if isinstance(v, Num) and (digits.ON[0] or cas.sign(v) is None):
        return v if cmpnum(c.st, '>=', v, ZERO) else cas.neg(v)
    return cas.fn1('abs', v)


CLASSIFY = [False]      # numbers may be infinite, NaN, zero or subnormal: every answer is possible, once per number


def classify(st, name, v):
    k = (name, v)
    for a, r in st.cls:
        if a[0] == name and (a[1] == v or a[1] == cas.neg(v)):
            return r
    r = bool(st.choose(2))
    st.cls = st.cls + ((k, r),)
    return r


@model('std::isfinite', 'isfinite', 'std::isnormal')
def m_isfinite(c, x):
    v = load(x)
    if CLASSIFY[0] and isinstance(v, Num) and v.const() is None:
        return classify(c.st, c.ref['name'], v)
    if digits.ON[0] and isinstance(v, Num):
        v = digits.overflow(c.st, v)
    if v is UNINIT:
        return bool(c.st.choose(2))
    if isinstance(v, Special):
        return False
    if c.ref['name'] == 'isnormal':
        return cmpnum(c.st, '!=', v, ZERO)
    for at in _num(v).atoms():
        k = cas.ATOMS[at]
        if k[0] == 'fn' and k[1].startswith('class:'):
            return bool(c.st.choose(2))
    return True


@model('std::isnan', 'isnan')
def m_isnan(c, x):
    return load(x) is NAN


@model('std::isinf', 'isinf')
def m_isinf(c, x):
    v = load(x)
    if digits.ON[0] and isinstance(v, Num):
        v = digits.overflow(c.st, v)
    return v in (INF, NINF)


@model('std::signbit', 'signbit')
def m_signbit(c, x):
    return cmpnum(c.st, '<', _num(load(x)), ZERO)


@model('std::fma', 'fma')
def m_fma(c, x, y, z):
    return cas.add(cas.mul(_num(load(x)), _num(load(y))), _num(load(z)))


def trunc_sym(st, v):
    """conversion of a symbolic number to an integer"""
    if isinstance(v, Num) and cas._intvalued(v):
        return v
    if isinstance(v, Num) and v.has_rho():
        raise Unsupported('integer from summary value')
    if digits.ON[0]:
        r = digits.fn1(st, 'trunc', v)
        if r is not None:
            return r
    return cas.fn1('trunc', v)


def intdiv(st, a, b):
    c = b.const()
    if c is not None and c != 0 and isinstance(a, Num):
        # exact only when the sign is known: C++ truncates towards zero
        q = cas.div(a, b)
        if cas._intvalued(q):
            return q
        return cas.fnatom('tdiv', (a, b))
    return cas.fnatom('tdiv', (a, b))


def intmod(st, a, b):
    return cas.sub(a, cas.mul(b, intdiv(st, a, b)))


# ------------------------------------------------------------------ keys and sorted maps
CTR = {}


def ctrkey(st, n):
    k = CTR.get(n)
    if k is None:
        k = CTR[n] = Key('new%d' % n, False, n)
    if k not in st.order:
        # fresh ids are larger than every id handed out before
        i = len(st.order)
        while i > 0 and st.order[i - 1].ctr is not None and st.order[i - 1].ctr > n:
            i -= 1
        st.order.insert(i, k)
    return k


def key_add(st, k, d):
    if k.ctr is None:
        raise Unsupported('arithmetic on an id')
    return ctrkey(st, k.ctr + d)


def keynum(st, k):
    """the value of an id as a number: positive, and in the order of the ids"""
    if k.__class__ is int or k.__class__ is bool:
        return num(int(k))
    if k.__class__ is not Key:
        return k
    v = cas.sym('id:' + k.name, 0, 2 ** 31, True)
    for o in st.order:
        if o is not k:
            w = cas.sym('id:' + o.name, 0, 2 ** 31, True)
            d = cas.sub(v, w)
            fl, p = V.primitive(d)
            if all(f != p for _, f in st.facts):
                s = order(st, k, o) * fl
                st.facts = st.facts + [('<' if s < 0 else '>', p)]
    return v


def order(st, a, b):
    """-1, 0, 1"""
    if a is b:
        return 0
    ka, kb = a.__class__ is Key, b.__class__ is Key
    if (ka or kb) and (a.__class__ is Num or b.__class__ is Num) or a.__class__ is Num and b.__class__ is Num:
        x, y = keynum(st, a), keynum(st, b)
        return 0 if V.cmpnum(st, '==', x, y) else -1 if V.cmpnum(st, '<', x, y) else 1
    if ka and kb:
        ia, ib = st.order.index(a), st.order.index(b)
        return -1 if ia < ib else 1
    if ka:
        if b.__class__ is bool:
            b = int(b)
        if b.__class__ is not int:
            raise Unsupported('id compared with %r' % (b,))
        if b <= 0:
            return 1
        if b >= 2 ** 31 - 1:
            return -1
        x = keynum(st, a)
        return 0 if V.cmpnum(st, '==', x, num(b)) else -1 if V.cmpnum(st, '<', x, num(b)) else 1
    if kb:
        return -order(st, b, a)
    return (a > b) - (a < b)


def cmpkey(st, op, a, b):
    return order(st, a, b) in V.OPS[op]


def cmppair(st, op, a, b):
    o = order(st, a[0], b[0])
    if o == 0:
        o = order(st, a[1], b[1])
    return o in V.OPS[op]


def cmpptr(st, op, a, b):
    if a is None or b is None:
        eq = a is b
    elif a.__class__ is FnPtr or b.__class__ is FnPtr:
        eq = a.__class__ is b.__class__ and a.fn == b.fn
    else:
        ia, ib = a.idx, b.idx
        same = a.obj is b.obj
        if same and (ia is None or ib is None):
            ia, ib = ia or 0, ib or 0
        if same and ia.__class__ is int and ib.__class__ is int:
            return {'==': ia == ib, '!=': ia != ib, '<': ia < ib, '>': ia > ib, '<=': ia <= ib, '>=': ia >= ib}[op]
        if same:
            return cmpnum(st, op, num(ia) if ia.__class__ is int else ia, num(ib) if ib.__class__ is int else ib)
        if not same and a.obj.__class__ is Arr and a.obj.t is None or b.obj.__class__ is Arr and b.obj.t is None:
            # pointers one past a single object
            oa = a.obj.items[0] if (a.obj.__class__ is Arr and a.obj.t is None) else a.obj
            ob = b.obj.items[0] if (b.obj.__class__ is Arr and b.obj.t is None) else b.obj
            if oa is ob:
                ia, ib = ia or 0, ib or 0
                return {'==': ia == ib, '!=': ia != ib, '<': ia < ib, '>': ia > ib, '<=': ia <= ib,
                        '>=': ia >= ib}[op]
        # pointer into an array element versus pointer to that element
        ra = a.obj.items[ia] if isinstance(a.obj, Arr) and ia.__class__ is int and 0 <= ia < len(a.obj.items) else a.obj
        rb = b.obj.items[ib] if isinstance(b.obj, Arr) and ib.__class__ is int and 0 <= ib < len(b.obj.items) else b.obj
        eq = ra is rb
    if op == '==':
        return eq
    if op == '!=':
        return not eq
    raise Unsupported('ordering of unrelated pointers')


def mapkey(x):
    x = x.v if x.__class__ is Cell else x
    if x.__class__ is Struct:
        return (load(x.f['first']), load(x.f['second']))
    return x


def fillrho(o):
    if o.__class__ is Cell:
        if o.v is UNINIT or isinstance(o.v, Num):
            o.v = rho
    elif o.__class__ is Struct:
        for x in o.f.values():
            fillrho(x)
    elif o.__class__ is Arr:
        for x in o.items:
            fillrho(x)
    return o


def vtype(vm, m):
    return vm.types[m.t]['targs'][1]['t']


def ktype(vm, m):
    return vm.types[m.t]['targs'][0]['t']


def keyobj(vm, m, k):
    if m.pairs:
        return Struct(ktype(vm, m), {'first': Cell(k[0]), 'second': Cell(k[1])})
    return Cell(k)


def insert_node(vm, m, k, val):
    n = Struct('node', {'first': keyobj(vm, m, k), 'second': val})
    own(n, k)
    m.ent[k] = n
    m.absent.discard(k)
    if V.MON is not None:
        V.MON.grow(m)
    return n


def materialise(vm, m, k):
    val = m.fill(vm, m, k) if m.fill else fillrho(vm.storage(vtype(vm, m), 0))
    return insert_node(vm, m, k, val)


def status(m, k):
    """True/False/None"""
    if k in m.ent:
        return True
    if not m.open or k in m.absent:
        return False
    if m.pairs:
        if k[0].__class__ is not Key or k[1].__class__ is not Key:
            return False
        p = m.parent
        if p is not None:
            if status(p, k[0]) is False or status(p, k[1]) is False:
                return False
    elif k.__class__ is not Key:
        return False
    if not m.pairs and k.ctr is not None:
        return False
    return None


def ensure(vm, m, k):
    if k not in m.ent:
        materialise(vm, m, k)


def mfind(vm, st, m, k):
    s = status(m, k)
    if s is None:
        s = bool(st.choose(2))
        if s:
            if m.pairs and m.parent is not None:
                ensure(vm, m.parent, k[0])
                ensure(vm, m.parent, k[1])
            materialise(vm, m, k)
        else:
            m.absent.add(k)
    return m.ent[k] if s else None


def mnext(vm, st, m, after):
    """smallest key greater than `after` (None: first); returns a key or None"""
    if not m.open:
        pos = {k: i for i, k in enumerate(st.order)}
        best = None
        bk = None
        a = None if after is None else _sortkey(after, pos)
        for k in m.ent:
            s = _sortkey(k, pos)
            if (a is None or s > a) and (best is None or s < best):
                best, bk = s, k
        return bk
    if not m.pairs:
        return scan_id(vm, st, m, after)
    return scan_pair(vm, st, m, after)


def scan_id(vm, st, m, after):
    i = 0 if after is None else st.order.index(after) + 1
    j = i
    gone = []
    while True:
        last = j >= len(st.order)
        fresh = not last and st.order[j].ctr is not None
        # keys not yet materialised between order[j-1] and order[j]
        if not (j > 0 and st.order[j - 1].ctr is not None):
            if st.choose(2):
                m.absent.update(gone)
                k = st.newtemp(j)
                materialise(vm, m, k)
                return k
        if last:
            m.absent.update(gone)
            return None
        k = st.order[j]
        s = status(m, k)
        if s is None:
            s = bool(st.choose(2))
            if s:
                m.absent.update(gone)
                materialise(vm, m, k)
                return k
            gone.append(k)
        if s:
            m.absent.update(gone)
            return k
        j += 1


def scan_pair(vm, st, m, after):
    """next stored pair in lexicographic order; rows and columns lie in the parent map"""
    p = m.parent
    gone = []

    def fin(k, newkeys=()):
        m.absent.update(gone)
        for x in newkeys:
            ensure(vm, p, x)
        ensure(vm, p, k[0])
        ensure(vm, p, k[1])
        if k not in m.ent:
            materialise(vm, m, k)
        return k

    def row(i, j):
        """row order[i], columns from position j on; returns key or None"""
        r = st.order[i]
        while True:
            if st.choose(2):
                if status(p, r) is False:
                    raise V.Prune()
                c = st.newtemp(j)
                return fin((r, c))
            if j >= len(st.order):
                return None
            c = st.order[j]
            s = status(m, (r, c))
            if s is None:
                s = bool(st.choose(2))
                if not s:
                    gone.append((r, c))
            if s:
                return fin((r, c))
            j += 1
    if after is not None:
        i = st.order.index(after[0])
        if status(p, after[0]) is not False:
            k = row(i, st.order.index(after[1]) + 1)
            if k is not None:
                return k
        i += 1
    else:
        i = 0
    while True:
        # a new row in the gap before order[i]
        if st.choose(2):
            # its column: a new key in some later gap or a materialised key
            n = len(st.order) - i
            opts = [('new', j) for j in range(i, len(st.order) + 1)]
            opts += [('old', j) for j in range(i, len(st.order)) if status(p, st.order[j]) is not False]
            what, j = opts[st.choose(len(opts))] if len(opts) > 1 else opts[0]
            if what == 'new':
                c = st.newtemp(j)
                r = st.newtemp(i)
            else:
                c = st.order[j]
                r = st.newtemp(i)
            return fin((r, c))
        if i >= len(st.order):
            m.absent.update(gone)
            return None
        if status(p, st.order[i]) is not False:
            k = row(i, i + 1)
            if k is not None:
                return k
        i += 1


# -------------------- map interface
@model('std::map::begin', 'std::map::cbegin')
def map_begin(c, m):
    k = mnext(c.vm, c.st, m, None)
    return MapIter(m, k, V.MON.begin(c.st) if V.MON is not None else None)


@model('std::map::end', 'std::map::cend')
def map_end(c, m):
    return MapIter(m, None)


@model('std::map::find')
def map_find(c, m, k):
    k = mapkey(k)
    return MapIter(m, k if mfind(c.vm, c.st, m, k) is not None else None)


@model('std::map::count')
def map_count(c, m, k):
    return 1 if mfind(c.vm, c.st, m, mapkey(k)) is not None else 0


@model('std::map::at')
def map_at(c, m, k):
    n = mfind(c.vm, c.st, m, mapkey(k))
    if n is None:
        raise Throw('std::out_of_range', c.e)
    return n.f['second']


@model('std::map::operator[]')
def map_sub(c, m, k):
    k = mapkey(k)
    n = mfind(c.vm, c.st, m, k)
    if n is None:
        t = vtype(c.vm, m)
        v = c.vm.zero(t) if c.vm.is_obj(t) else c.vm.storage(t, 0)
        n = insert_node(c.vm, m, k, v)
    return n.f['second']


@model('std::map::size')
def map_size(c, m):
    if m.open:
        raise Unsupported('size of a summarised map')
    return len(m.ent)


@model('std::map::empty')
def map_empty(c, m):
    return mnext(c.vm, c.st, m, None) is None


@model('std::map::clear')
def map_clear(c, m):
    m.ent = {}
    m.absent = set()
    m.open = False


@model('std::map::lower_bound')
def map_lb(c, m, k):
    k = mapkey(k)
    if mfind(c.vm, c.st, m, k) is not None:
        return MapIter(m, k)
    return map_ub(c, m, k)


@model('std::map::upper_bound')
def map_ub(c, m, k):
    k = mapkey(k)
    pos = {x: i for i, x in enumerate(c.st.order)}
    if m.open:
        comps = k if isinstance(k, tuple) else (k,)
        if any(x.__class__ is not Key for x in comps):
            raise Unsupported('upper_bound')
        return MapIter(m, mnext(c.vm, c.st, m, k))
    best = None
    for x in m.ent:
        if _cmpany(c.st, x, k) > 0 and (best is None or _cmpany(c.st, x, best) < 0):
            best = x
    return MapIter(m, best)


def _cmpany(st, a, b):
    if isinstance(a, tuple):
        o = order(st, a[0], b[0])
        return o if o else order(st, a[1], b[1])
    return order(st, a, b)


@model('std::map::erase')
def map_erase(c, m, x, *rest):
    if rest:
        raise Unsupported('range erase')
    v = load(x)
    if v.__class__ is MapIter:
        nk = mnext(c.vm, c.st, m, v.key)
        m.ent.pop(v.key)
        if m.open:
            m.absent.add(v.key)
        return MapIter(m, nk)
    k = mapkey(x)
    n = mfind(c.vm, c.st, m, k)
    if n is not None:
        del m.ent[k]
        if m.open:
            m.absent.add(k)
    return 0 if n is None else 1


@model('std::map::insert', 'std::map::emplace', 'std::map::emplace_hint', 'std::map::insert_or_assign')
def map_insert(c, m, *a):
    a = list(a)
    name = c.ref['name']
    hint = False
    if a and load(a[0]).__class__ is MapIter and (name == 'emplace_hint' or len(a) == 2 and load(a[1]).__class__ is not MapIter):
        hint = True
        a = a[1:]
    if len(a) == 2 and load(a[0]).__class__ is MapIter:
        # range insert
        import lower
        return lower.RangeInsert(m, load(a[0]), load(a[1]), None, c.e)
    if len(a) == 1 and a[0].__class__ is Struct and 'first' in a[0].f:
        k, v = mapkey(a[0].f['first']), a[0].f['second']
    elif len(a) == 2:
        k, v = mapkey(a[0]), a[1]
    else:
        raise Unsupported('map insertion')
    n = mfind(c.vm, c.st, m, k)
    done = n is None
    t = vtype(c.vm, m)
    if n is None:
        if c.vm.is_obj(t):
            s = c.vm.storage(t, 0)
            assign(s, v)
        else:
            s = Cell(load(v))
        if isinstance(s, Cell) and c.vm.types[t]['k'] == 'float' and s.v.__class__ is int:
            s.v = num(s.v)
        insert_node(c.vm, m, k, s)
    elif name == 'insert_or_assign':
        assign(n.f['second'], v if v.__class__ is not Num else Cell(v))
    it = MapIter(m, k)
    if hint:
        return it
    return Struct('node', {'first': Cell(it), 'second': Cell(done)})


@model('std::map::swap')
def map_swap(c, a, b):
    with V.silent():
        t = deep(a)
        assign(a, b)
        assign(b, t)


@model('std::map::operator=')
def map_assign(c, a, b):
    if b.__class__ is MapObj:
        if moved(c):
            with V.silent():
                assign(a, b)
        else:
            assign(a, b)
    else:
        raise Unsupported('assignment of a list to a map')
    return a


def moved(c):
    pt = c.vm.types[c.ref['ptypes'][0]]
    return pt['k'] == 'ref' and pt.get('rv')


def map_ctor(c, *a):
    m = std_storage(c.vm, c.t, c.vm.types[c.t], 0)
    if not a:
        return m
    if len(a) == 1 and a[0].__class__ is MapObj:
        if moved(c):
            with V.silent():
                return deep(a[0])
        return deep(a[0])
    if a[0].__class__ is Arr:
        for x in a[0].items:
            k = mapkey(x.f['first'])
            if k not in m.ent:
                insert_node(c.vm, m, k, deep(x.f['second']))
        return m
    if len(a) == 2 and load(a[0]).__class__ is MapIter:
        import lower
        return lower.RangeInsert(m, load(a[0]), load(a[1]), m, c.e)
    raise Unsupported('map constructor')


CTORS['std::map'] = map_ctor


def iter_ctor(c, *a):
    return load(a[0]) if a else MapIter(None, None)


CTORS['std::_Rb_tree_const_iterator'] = iter_ctor
CTORS['std::_Rb_tree_iterator'] = iter_ctor
CTORS['__gnu_cxx::__normal_iterator'] = iter_ctor

RB = ('std::_Rb_tree_const_iterator::', 'std::_Rb_tree_iterator::')


def rb(*ops):
    return model(*[p + o for p in RB for o in ops])


def it_node(it):
    if it.__class__ is not MapIter:
        raise Stop('ub', 'uninitialised map iterator used')
    if it.key is None:
        raise Stop('ub', 'end iterator of a map dereferenced')
    n = it.m.ent.get(it.key)
    if n is None:
        raise Stop('ub', 'iterator to an erased map element dereferenced')
    return n


@rb('operator++')
def it_inc(c, cell, *post):
    it = cell.v
    if it.__class__ is not MapIter or it.key is None:
        raise Stop('ub', 'end iterator of a map incremented')
    new = MapIter(it.m, mnext(c.vm, c.st, it.m, it.key))
    if it.src is not None and V.MON is not None:
        V.MON.step(c.st, it.m, it.src)
    cell.v = new
    return it if post else cell


@rb('operator--')
def it_dec(c, cell, *post):
    it = cell.v
    if it.m.open:
        raise Unsupported('backward iteration over a summarised map')
    best = None
    for k in it.m.ent:
        if (it.key is None or _cmpany(c.st, k, it.key) < 0) and (best is None or _cmpany(c.st, k, best) > 0):
            best = k
    if best is None:
        raise Stop('ub', 'begin iterator of a map decremented')
    cell.v = MapIter(it.m, best)
    return it if post else cell


@rb('operator*')
def it_star(c, cell):
    it = load(cell)
    n = it_node(it)
    return n.f['first'] if isset(c.vm, it.m) else n


def isset(vm, m):
    return vm.types[m.t].get('sqn') == 'std::set'


@rb('operator->')
def it_arrow(c, cell):
    return Ptr(it_star(c, cell))


@rb('operator==')
def it_eq(c, a, b):
    return gen_eq(c, a, b)


@rb('operator!=')
def it_ne(c, a, b):
    return not gen_eq(c, a, b)


def gen_eq(c, a, b):
    if a.__class__ is Struct and b.__class__ is Struct:
        return all(gen_eq(c, a.f[k], b.f[k]) for k in a.f)
    a, b = load(a), load(b)
    if a.__class__ is MapIter and b.__class__ is MapIter:
        if a.m is not b.m:
            raise Stop('ub', 'iterators of different maps compared')
        return a.key == b.key
    if a.__class__ is MapObj or b.__class__ is MapObj:
        raise Unsupported('comparison of maps')
    from lower import compare
    return compare(c.st, '==', a, b)


def gen_lt(c, a, b):
    """lexicographic for pairs"""
    if a.__class__ is Struct and b.__class__ is Struct:
        return cmppair(c.st, '<', mapkey(a), mapkey(b))
    from lower import compare
    return compare(c.st, '<', load(a), load(b))


@model('std::operator==', '__gnu_cxx::operator==')
def op_eq(c, a, b):
    return gen_eq(c, a, b)


@model('std::operator!=', '__gnu_cxx::operator!=')
def op_ne(c, a, b):
    return not gen_eq(c, a, b)


@model('std::operator<', '__gnu_cxx::operator<')
def op_lt(c, a, b):
    return gen_lt(c, a, b)


@model('std::operator>', '__gnu_cxx::operator>')
def op_gt(c, a, b):
    return gen_lt(c, b, a)


@model('std::operator<=', '__gnu_cxx::operator<=')
def op_le(c, a, b):
    return not gen_lt(c, b, a)


@model('std::operator>=', '__gnu_cxx::operator>=')
def op_ge(c, a, b):
    return not gen_lt(c, a, b)


@model('std::operator-', '__gnu_cxx::operator-')
def op_minus(c, a, b):
    from lower import arith
    return arith(c.st, '-', load(a), load(b), {'k': 'int', 'bits': 64, 'uns': False})


@model('std::next')
def m_next(c, it, n=1):
    it = load(it)
    n = load(n)
    if it.__class__ is Ptr:
        return V_ptr_add(it, n)
    k = it.key
    for _ in range(n):
        if k is None:
            raise Stop('ub', 'end iterator advanced')
        k = mnext(c.vm, c.st, it.m, k)
        if n > 1 and it.m.open:
            raise Unsupported('std::next on a summarised map')
    return MapIter(it.m, k)


@model('std::prev')
def m_prev(c, it, n=1):
    cell = Cell(load(it))
    if cell.v.__class__ is Ptr:
        return V_ptr_add(cell.v, -load(n))
    for _ in range(load(n)):
        it_dec(c, cell)
    return cell.v


@model('std::advance')
def m_advance(c, cell, n):
    cell.v = m_next(c, cell.v, n)


@model('std::distance')
def m_distance(c, a, b):
    a, b = load(a), load(b)
    if a.__class__ is Ptr:
        from lower import arith
        return arith(c.st, '-', b, a, {'k': 'int', 'bits': 64, 'uns': False})
    if a.m.open:
        raise Unsupported('distance in a summarised map')
    n = 0
    k = a.key
    while k != b.key:
        k = mnext(c.vm, c.st, a.m, k)
        n += 1
    return n


def V_ptr_add(p, n):
    from lower import ptr_add
    return ptr_add(p, n)


# ------------------------------------------------------------------ pair, array, vector
def pair_ctor(c, *a):
    o = std_storage(c.vm, c.t, c.vm.types[c.t], 0)
    if len(a) == 1 and a[0].__class__ is Struct:
        a = fields(a[0])
    if len(a) == 2:
        for n, x, ty in zip(('first', 'second'), a, c.vm.types[c.t]['targs']):
            if c.vm.types[ty['t']]['k'] == 'ref':
                o.f[n] = refcell(x)
            else:
                put(c.vm, o.f[n], x)
    elif a:
        raise Unsupported('pair constructor')
    return o


def put(vm, dst, x):
    if dst.__class__ is Cell:
        v = load(x)
        if isinstance(dst.v, Num) and v.__class__ is int:
            v = num(v)
        dst.v = v
    else:
        assign(dst, x)


CTORS['std::pair'] = pair_ctor


@model('std::make_pair')
def make_pair(c, a, b):
    t = c.ref['ret']
    o = std_storage(c.vm, t, c.vm.types[t], 0)
    put(c.vm, o.f['first'], a)
    put(c.vm, o.f['second'], b)
    return o


@model('std::pair::operator=')
def pair_assign(c, a, b):
    for x, y in zip(fields(a), fields(b)):
        put(c.vm, x, y)
    return a


def array_ctor(c, *a):
    if a:
        return deep(a[0])
    return std_storage(c.vm, c.t, c.vm.types[c.t], UNINIT)


CTORS['std::array'] = array_ctor


@model('std::array::begin', 'std::array::cbegin', 'std::array::data', 'std::vector::begin', 'std::vector::cbegin',
       'std::vector::data', 'std::initializer_list::begin', 'std::begin', 'std::cbegin')
def arr_begin(c, a):
    if a.__class__ is MapObj:
        return map_begin(c, a)
    if hasattr(a, 'vpbegin'):
        return a.vpbegin()
    return Ptr(a, 0)


@model('std::array::end', 'std::array::cend', 'std::vector::end', 'std::vector::cend', 'std::initializer_list::end',
       'std::end', 'std::cend')
def arr_end(c, a):
    if a.__class__ is MapObj:
        return map_end(c, a)
    if hasattr(a, 'vpend'):
        return a.vpend()
    return Ptr(a, len(a.items))


@model('std::array::size', 'std::vector::size', 'std::initializer_list::size', 'std::array::max_size')
def arr_size(c, a):
    if hasattr(a, 'vpsize'):
        return a.vpsize()
    return len(a.items)


@model('std::array::empty', 'std::vector::empty')
def arr_empty(c, a):
    if hasattr(a, 'vpsize'):
        return cmpnum(c.st, '==', num(a.vpsize()), ZERO)
    return len(a.items) == 0


@model('std::array::operator[]', 'std::vector::operator[]')
def arr_sub(c, a, i):
    i = load(i)
    if i.__class__ is Num:
        k = i.const()
        if k is not None:
            i = int(k)
    if hasattr(a, 'vpindex'):
        return a.vpindex(c.st, i)
    return Ptr(a, i).deref()


@model('std::array::at', 'std::vector::at')
def arr_at(c, a, i):
    i = load(i)
    if not (0 <= i < len(a.items)):
        raise Throw('std::out_of_range', c.e)
    return a.items[i]


@model('std::array::front', 'std::vector::front')
def arr_front(c, a):
    return Ptr(a, 0).deref()


@model('std::array::back', 'std::vector::back')
def arr_back(c, a):
    return Ptr(a, len(a.items) - 1).deref()


@model('std::array::fill')
def arr_fill(c, a, v):
    for x in a.items:
        put(c.vm, x, v)


@model('std::get')
def std_get(c, a):
    ta = c.ref.get('targs') or [{}]
    i = ta[0].get('i')
    if i is None:
        raise Unsupported('std::get by type')
    if a.__class__ is Arr:
        return Ptr(a, i).deref()
    if 'first' in a.f:
        return fields(a)[i]
    x = a.f[str(i)]
    return x.v if x.__class__.__name__ == 'RefCell' else x


def elem_t(vm, t):
    return vm.types[t]['targs'][0]['t']


def fresh_elem(vm, t, x=None):
    if x is None:
        return vm.zero(t) if vm.is_obj(t) else vm.storage(t, 0)
    if vm.is_obj(t):
        if x.__class__ in (Struct, Arr, MapObj) and getattr(x, 't', None) in (t, 'node'):
            return deep(x)
        s = vm.storage(t, 0)
        assign(s, x)
        return s
    v = load(x)
    if vm.types[t]['k'] == 'float' and v.__class__ is int:
        v = num(v)
    return Cell(v)


def vec_ctor(c, *a):
    a = [x for x in a if not (x.__class__ is Opaque or x.__class__ is Cell and x.v.__class__ is Opaque)] \
        if len(a) > 1 else list(a)
    t = c.t
    et = elem_t(c.vm, t)
    r = Arr(t, [])
    if not a:
        return r
    h = VEC_HOOK.get('ctor')
    if h:
        x = h(c, t, et, a)
        if x is not None:
            return x
    a0 = a[0]
    if a0.__class__ is Arr:
        src = a0
        r.items = [fresh_elem(c.vm, et, x) for x in src.items]
        return r
    v0 = load(a0)
    if v0.__class__ is Opaque:
        return r
    if v0.__class__ is Num and v0.const() is not None:
        v0 = int(v0.const())
    if v0.__class__ is int and (len(a) == 1 or load(a[1]).__class__ is not int or c.vm.types[c.ref['ptypes'][1]]['k'] == 'ref'):
        x = a[1] if len(a) > 1 else None
        r.items = [fresh_elem(c.vm, et, x) for _ in range(v0)]
        return r
    if v0.__class__ is Ptr and len(a) >= 2:
        v1 = load(a[1])
        i = v0
        n = m_distance(c, v0, v1)
        if n.__class__ is not int:
            raise Unsupported('vector of symbolic length')
        for j in range(n):
            r.items.append(fresh_elem(c.vm, et, V_ptr_add(v0, j).deref()))
        return r
    if (v0.__class__ is RevIt or hasattr(v0, 'rev') or v0.__class__ is MapIter and not v0.m.open) and len(a) >= 2:
        r.items = [fresh_elem(c.vm, et, x) for x in rng(c, v0, a[1])]
        return r
    raise Unsupported('vector constructor')


VEC_HOOK = {}
CTORS['std::vector'] = vec_ctor


@model('std::vector::push_back', 'std::vector::emplace_back')
def vec_push(c, a, *x):
    et = elem_t(c.vm, a.t)
    if hasattr(a, 'vppush'):
        return a.vppush(c, x)
    if len(x) == 1:
        a.items.append(fresh_elem(c.vm, et, x[0]))
    elif not x:
        a.items.append(fresh_elem(c.vm, et))
    else:
        return construct(c, et, a, x)


def construct(c, et, a, x):
    """emplace_back(args...): constructor of the element type with that many parameters"""
    from lower import Invoke
    vm = c.vm
    rid = vm.types[et].get('rid')
    best = []
    for f in vm.p.functions.values():
        r = vm.p.fnrefs.get(f['id'])
        if r is None or r.get('kind') != 'ctor' or vm.types[r['cls']].get('rid') != rid or len(r['ptypes']) != len(x):
            continue
        score = 0
        for pt, v in zip(r['ptypes'], x):
            ty = vm.types[pt]
            if ty['k'] == 'ref':
                ty = vm.types[ty['sub']]
            v = load(v)
            arith = v.__class__ in (int, bool, Num, Special)
            if arith != (ty['k'] in ('int', 'float', 'bool')):
                score = None
                break
        if score is not None:
            best.append((f, r))
    if len(best) != 1:
        raise Unsupported('emplace_back: constructor not determined')
    f, r = best[0]
    args = []
    for pt, v in zip(r['ptypes'], x):
        ty = vm.types[pt]
        ref = ty['k'] == 'ref'
        if ref:
            ty = vm.types[ty['sub']]
        if vm.types[pt]['k'] == 'rec' or v.__class__ not in (Cell, int, bool, Num, Special):
            args.append(v if ref else deep(v))
            continue
        w = load(v)
        if ty['k'] == 'float' and w.__class__ in (int, bool):
            w = num(int(w))
        args.append(Cell(w) if ref else w)
    it = vm.storage(et)
    a.items.append(it)
    return Invoke(f['id'], args, it)


@model('std::vector::insert')
def vec_insert(c, a, pos, *x):
    if hasattr(a, 'vppush'):
        raise Unsupported('insertion in a summarised vector')
    et = elem_t(c.vm, a.t)
    i = load(pos).idx
    if len(x) == 2 and load(x[0]).__class__ in (Ptr, MapIter):
        new = [fresh_elem(c.vm, et, y) for y in rng(c, x[0], x[1])]
    elif len(x) == 2:
        new = [fresh_elem(c.vm, et, x[1]) for _ in range(load(x[0]))]
    elif x[0].__class__ is Arr and getattr(x[0], 't', None) != et:
        new = [fresh_elem(c.vm, et, y) for y in x[0].items]
    else:
        new = [fresh_elem(c.vm, et, x[0])]
    a.items[i:i] = new
    return Ptr(a, i)


@model('std::vector::erase')
def vec_erase(c, a, p, q=None):
    i = load(p).idx
    j = i + 1 if q is None else load(q).idx
    if not 0 <= i <= j <= len(a.items):
        raise Stop('ub', 'erasure outside the bounds of a vector')
    del a.items[i:j]
    return Ptr(a, i)


@model('std::vector::pop_back')
def vec_pop(c, a):
    a.items.pop()


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def vec_reserve(c, a, *n):
    return None


@model('std::vector::clear')
def vec_clear(c, a):
    a.items = []


@model('std::vector::resize', 'std::vector::assign')
def vec_resize(c, a, n, *v):
    et = elem_t(c.vm, a.t)
    n = load(n)
    if hasattr(a, 'vpresize'):
        return a.vpresize(c, n, v)
    if n.__class__ is Num and n.const() is not None:
        n = int(n.const())
    if n.__class__ is not int:
        raise Unsupported('vector of symbolic length')
    if c.ref['name'] == 'assign':
        a.items = []
    del a.items[n:]
    while len(a.items) < n:
        a.items.append(fresh_elem(c.vm, et, v[0] if v else None))


@model('std::vector::operator=', 'std::array::operator=')
def vec_assign(c, a, b):
    assign(a, b)
    return a


NI = '__gnu_cxx::__normal_iterator::'


@model(NI + 'operator++')
def ni_inc(c, cell, *post):
    old = cell.v
    cell.v = V_ptr_add(old, 1)
    return old if post else cell


@model(NI + 'operator--')
def ni_dec(c, cell, *post):
    old = cell.v
    cell.v = V_ptr_add(old, -1)
    return old if post else cell


@model(NI + 'operator*')
def ni_star(c, cell):
    from lower import deref
    return deref(load(cell))


@model(NI + 'operator->')
def ni_arrow(c, cell):
    return load(cell)


@model(NI + 'operator[]')
def ni_idx(c, cell, n):
    from lower import deref
    return deref(V_ptr_add(load(cell), load(n)))


@model(NI + 'operator+')
def ni_add(c, cell, n):
    return V_ptr_add(load(cell), load(n))


@model(NI + 'operator-')
def ni_sub(c, cell, n):
    return V_ptr_add(load(cell), -load(n))


@model(NI + 'operator+=')
def ni_iadd(c, cell, n):
    cell.v = V_ptr_add(cell.v, load(n))
    return cell


@model(NI + 'operator-=')
def ni_isub(c, cell, n):
    cell.v = V_ptr_add(cell.v, -load(n))
    return cell


# ------------------------------------------------------------------ utilities
@model('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof')
def m_move(c, x, *r):
    if c.ref['name'] == 'addressof':
        return Ptr(x)
    if r:
        return m_copy(c, x, *r)
    return x


@model('std::swap')
def m_swap(c, a, b):
    if a.__class__ is Cell:
        a.v, b.v = b.v, a.v
    else:
        with V.silent():
            t = deep(a)
            assign(a, b)
            assign(b, t)


@model('std::exchange')
def m_exchange(c, a, b):
    old = deep(a)
    put(c.vm, a, b)
    return load(old)


@model('std::min', 'std::max')
def m_minmax(c, a, b, *r):
    if r:
        raise Unsupported('std::min with a comparison')
    if c.ref['name'] == 'min':
        return b if gen_lt(c, b, a) else a
    return b if gen_lt(c, a, b) else a


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest',
       'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN',
       'Eigen::GenericNumTraits::epsilon', 'Eigen::GenericNumTraits::highest', 'Eigen::GenericNumTraits::lowest',
       'Eigen::GenericNumTraits::infinity', 'Eigen::NumTraits::dummy_precision')
def m_limits(c):
    ty = c.vm.types[c.ref['ret']]
    n = c.ref['name']
    if n == 'highest':
        n = 'max'
    if n == 'dummy_precision':
        return num(Fraction(1, 10 ** (5 if ty.get('bits') == 32 else 12)))
    if n == 'infinity':
        return INF
    if n == 'quiet_NaN':
        return NAN
    if ty['k'] == 'int':
        b = ty['bits']
        if n == 'max':
            return (1 << b) - 1 if ty['uns'] else (1 << (b - 1)) - 1
        return 0 if ty['uns'] else -(1 << (b - 1))
    if n == 'epsilon':
        b = c.vm.types[c.vm.unref(c.ref['ret'])].get('bits')
        return num(Fraction(1, 2 ** (23 if b == 32 else 63 if b in (80, 96, 128) else 52)))
    if n == 'max':
        return num(Fraction(2) ** 1023)
    if n == 'lowest':
        return num(-Fraction(2) ** 1023)
    return num(Fraction(1, 2 ** 1022))


@model('std::fill')
def m_fill(c, a, b, v):
    a, b = load(a), load(b)
    if a.obj is not b.obj:
        raise Unsupported('std::fill')
    et = None
    for i in range(a.idx, b.idx):
        put(c.vm, a.obj.items[i], v)
        x = a.obj.items[i]
        if x.__class__ is Cell and x.v.__class__ is int:
            t = a.obj.t
            if t is not None:
                ty = c.vm.types[t]
                e = ty.get('sub') if ty['k'] == 'arr' else ty['targs'][0]['t']
                if c.vm.types[e]['k'] == 'float':
                    x.v = num(x.v)


@model('std::copy')
def m_copy(c, a, b, d):
    a, b, d = load(a), load(b), load(d)
    if d.__class__ is OutIt:
        d = Cell(d)
        for x in rng(c, a, b):
            out_write(c, d, x)
        return d.v
    if a.__class__ is MapIter and d.__class__ is Ptr:
        for x in rng(c, a, b):
            put(c.vm, d.deref(), x)
            d = V_ptr_add(d, 1)
        return d
    if a.__class__ is not Ptr or d.__class__ is not Ptr or a.obj is not b.obj:
        raise Unsupported('std::copy')
    n = b.idx - a.idx
    for i in range(n):
        if not (0 <= a.idx + i < len(a.obj.items)) or not (0 <= d.idx + i < len(d.obj.items)):
            raise Stop('ub', 'std::copy outside the bounds of an array')
        put(c.vm, d.obj.items[d.idx + i], a.obj.items[a.idx + i])
    return V_ptr_add(d, n)


@model('std::copy_n')
def m_copy_n(c, a, n, d):
    a = load(a)
    return m_copy(c, a, V_ptr_add(a, load(n)), d)


# ------------------------------------------------------------------ atomic counter
def at_value(c, cell):
    v = cell.v
    if v.__class__ is Opaque or v is UNINIT:
        raise Unsupported('atomic of unknown value')
    return v


# interference: when the flag is set other threads take ids between any two accesses of this one
RACE = [0]
STRIDE = 1000000


def at_env(c, cell, keep=False):
    v = at_value(c, cell)
    if RACE[0] and v.__class__ is Key and v.ctr is not None and not keep:
        v = cell.v = ctrkey(c.st, v.ctr + STRIDE)
    return v


def at_add(c, cell, d, old):
    v = at_env(c, cell)
    d = load(d)
    if v.__class__ is Key:
        w = key_add(c.st, v, d)
        if d == 1:
            c.st.draws += 1
        c.st.events.append(('rmw', v.ctr, w.ctr))
    else:
        w = v + d
    cell.v = w
    return v if old else w


def at_ctor(c, *a):
    return load(a[0]) if a else 0


def at_load(c, cell, *r):
    v = at_env(c, cell)
    if v.__class__ is Key:
        c.st.events.append(('load', v.ctr))
    return v


def at_cas(c, cell, expected, desired, *r):
    keep = bool(c.st.events) and c.st.events[-1][0] == 'cas-failed'
    v = at_env(c, cell, keep)
    e = expected.v
    if e is v or (not isinstance(v, Key) and e == v):
        cell.v = load(desired)
        if isinstance(v, Key):
            if not isinstance(cell.v, Key) or cell.v.ctr is None:
                raise Unsupported('counter replaced by %r' % (cell.v,))
            c.st.events.append(('rmw', v.ctr, cell.v.ctr))
            if cell.v.ctr - v.ctr == 1:
                c.st.draws += 1
        return True
    expected.v = v
    c.st.events.append(('cas-failed',))
    return False


def at_xchg(c, cell, v, *r):
    old = at_env(c, cell)
    c.st.events.append(('store',))
    cell.v = load(v)
    return old


def atomic_cell(st, v):
    """the storage of an atomic object of static duration"""
    v = load(v)
    if v.__class__ is int:
        v = ctrkey(st, v)
    return Cell(v)


CTORS['std::atomic'] = at_ctor


def at_store(c, cell, v, *r):
    c.st.events.append(('store',))
    cell.v = load(v)
    return cell.v


ATOMIC = {
    'operator++': lambda c, cell, *p: at_add(c, cell, 1, bool(p)),
    'operator--': lambda c, cell, *p: at_add(c, cell, -1, bool(p)),
    'operator+=': lambda c, cell, d: at_add(c, cell, d, False),
    'operator-=': lambda c, cell, d: at_add(c, cell, -load(d), False),
    'fetch_add': lambda c, cell, d, *r: at_add(c, cell, d, True),
    'fetch_sub': lambda c, cell, d, *r: at_add(c, cell, -load(d), True),
    'load': at_load,
    'compare_exchange_weak': at_cas,
    'compare_exchange_strong': at_cas,
    'exchange': at_xchg,
    'store': at_store,
    'operator=': at_store,
}
for _k in list(ATOMIC):
    pass


at_conv = at_load


for n in ('std::atomic::operator int', 'std::__atomic_base::operator int', 'std::atomic::operator long',
          'std::__atomic_base::operator long'):
    M[n] = at_conv
for n in ('std::atomic', 'std::__atomic_base'):
    for k, f in ATOMIC.items():
        M[n + '::' + k] = f


# ------------------------------------------------------------------ std::function and functors
def fun_ctor(c, *a):
    if not a:
        return Closure(None)
    x = a[0]
    v = load(x)
    if v.__class__ is Closure:
        return Closure(deep(v.target) if isinstance(v.target, Struct) else v.target)
    if v is None:
        return Closure(None)
    return Closure(deep(x) if x.__class__ is Struct else v)


CTORS['std::function'] = fun_ctor


@model('std::function::operator()')
def fun_call(c, cell, *a):
    from lower import invoke
    return invoke(c.vm, load(cell), list(a))


@model('std::function::operator bool')
def fun_bool(c, cell):
    v = load(cell)
    return v.target is not None


@model('std::function::operator=')
def fun_assign(c, cell, x):
    cell.v = fun_ctor(c, x)
    return cell


@model('std::operator+')
def str_plus(c, a, b):
    a, b = load(a), load(b)
    if a.__class__ is Ptr or b.__class__ is Ptr:
        if a.__class__ is Ptr and isinstance(b, (int, Num)):
            return V_ptr_add(a, b)
        if b.__class__ is Ptr and isinstance(a, (int, Num)):
            return V_ptr_add(b, a)
    raise Unsupported('operator + of the standard library')


@model('std::__iterator_category')
def iter_cat(c, *a):
    return Opaque('tag')


@model('std::__niter_base', 'std::__miter_base')
def iter_base(c, a):
    return load(a)


@model('std::__niter_wrap')
def iter_wrap(c, a, b):
    return load(b)


# ------------------------------------------------------------------ sets
for _n in ('begin', 'cbegin', 'end', 'cend', 'find', 'count', 'size', 'empty', 'clear', 'lower_bound', 'upper_bound', 'erase', 'swap',
           'operator='):
    M['std::set::' + _n] = M['std::map::' + _n]


@model('std::set::insert', 'std::set::emplace', 'std::set::emplace_hint')
def set_insert(c, m, *a):
    hint = False
    if len(a) == 2 and load(a[0]).__class__ is MapIter:
        if load(a[1]).__class__ is MapIter or c.ref['name'] == 'insert' and c.vm.types[c.ref['ptypes'][1]]['k'] != 'ref':
            for x in rng(c, a[0], a[1]):
                set_put(c, m, mapkey(x))
            return None
        hint = True
        a = a[1:]
    if len(a) == 2:
        for x in rng(c, a[0], a[1]):
            set_put(c, m, mapkey(x))
        return None
    if len(a) == 1 and a[0].__class__ is Arr:
        for x in a[0].items:
            set_put(c, m, mapkey(x))
        return None
    if len(a) != 1:
        raise Unsupported('set insertion')
    k = mapkey(a[0])
    done = set_put(c, m, k)
    it = MapIter(m, k)
    return it if hint else Struct('node', {'first': Cell(it), 'second': Cell(done)})


def set_put(c, m, k):
    if mfind(c.vm, c.st, m, k) is not None:
        return False
    insert_node(c.vm, m, k, Cell(0))
    return True


def set_ctor(c, *a):
    m = std_storage(c.vm, c.t, c.vm.types[c.t], 0)
    if len(a) == 1 and a[0].__class__ is MapObj:
        return deep(a[0])
    if a and a[0].__class__ is Arr:
        for x in a[0].items:
            set_put(c, m, mapkey(x))
    elif len(a) >= 2:
        for x in rng(c, a[0], a[1]):
            set_put(c, m, mapkey(x))
    return m


CTORS['std::set'] = set_ctor


def rng(c, a, b):
    """the elements of an iterator range, as storage"""
    a, b = load(a), load(b)
    if a.__class__ is Ptr:
        if b.__class__ is not Ptr or a.obj is not b.obj:
            raise Unsupported('iterator range')
        n = m_distance(c, a, b)
        if n.__class__ is not int:
            raise Unsupported('range of symbolic length')
        for j in range(n):
            yield V_ptr_add(a, j).deref()
    elif a.__class__ is MapIter:
        if b.m is not a.m:
            raise Stop('ub', 'iterators of different maps delimit a range')
        k = a.key
        one = isset(c.vm, a.m)
        while k != b.key:
            if k is None:
                raise Stop('ub', 'iterator range runs past the end of a map')
            n = it_node(MapIter(a.m, k))
            yield n.f['first'] if one else n
            k = mnext(c.vm, c.st, a.m, k)
    elif a.__class__ is RevIt and b.__class__ is RevIt:
        for x in reversed(list(rng(c, b.b, a.b))):
            yield x
    elif hasattr(a, 'rev'):
        for x in a.rev(b):
            yield x
    else:
        raise Unsupported('iterator range')


@model('std::map::equal_range')
def map_equal_range(c, m, k):
    return Struct('node', {'first': Cell(map_lb(c, m, k)), 'second': Cell(map_ub(c, m, k))})


# ------------------------------------------------------------------ iterator adaptors
class OutIt:
    """back_insert_iterator / insert_iterator: a container and, for the latter, a position"""
    __slots__ = ('o', 'pos')

    def __init__(self, o, pos=None):
        self.o = o
        self.pos = pos

    def vpclone(self, cp, memo):
        r = OutIt(None)
        memo[id(self)] = r
        r.o = cp(self.o)
        r.pos = cp(self.pos)
        return r

    def vpcanon(self, cv):
        return ('out', cv(self.o), cv(self.pos))

    def vprefs(self):
        return [self.o, self.pos]

    def vpdeep(self):
        return self


@model('std::inserter')
def m_inserter(c, o, it):
    return OutIt(o, load(it))


@model('std::back_inserter')
def m_back_inserter(c, o):
    return OutIt(o)


def out_ctor(c, *a):
    v = load(a[0]) if a else None
    if v.__class__ is OutIt:
        return v
    o = a[0]
    if v.__class__ is Ptr:
        o = v.deref()
    return OutIt(o, load(a[1]) if len(a) > 1 else None)


def out_self(c, cell, *r):
    return cell


def out_put(c, cell, x):
    v = load(x)
    if v.__class__ is OutIt:
        cell.v = v
        return cell
    out_write(c, cell, x)
    return cell


def out_write(c, cell, x):
    o = cell.v.o
    if o.__class__ is MapObj:
        if isset(c.vm, o):
            set_put(c, o, mapkey(x))
        else:
            k = mapkey(x.f['first'])
            if mfind(c.vm, c.st, o, k) is None:
                t = vtype(c.vm, o)
                s = c.vm.storage(t, 0)
                put(c.vm, s, x.f['second'])
                insert_node(c.vm, o, k, s)
        return
    if o.__class__ is not Arr:
        raise Unsupported('output iterator')
    if hasattr(o, 'vppush'):
        o.vppush(c, (x,))
        return
    et = elem_t(c.vm, o.t)
    p = cell.v.pos
    i = len(o.items) if p is None else p.idx
    o.items.insert(i, fresh_elem(c.vm, et, x))
    if p is not None:
        cell.v = OutIt(o, Ptr(o, i + 1))


for _n in ('std::insert_iterator', 'std::back_insert_iterator', 'std::front_insert_iterator'):
    M[_n + '::operator*'] = out_self
    M[_n + '::operator++'] = out_self
    M[_n + '::operator='] = out_put
    CTORS[_n] = out_ctor


class RevIt:
    """reverse_iterator over an array or a map"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def vpclone(self, cp, memo):
        r = RevIt(None)
        memo[id(self)] = r
        r.b = cp(self.b)
        return r

    def vpcanon(self, cv):
        return ('rev', cv(self.b))

    def vprefs(self):
        return [self.b]

    def vpdeep(self):
        return self


@model('std::array::rbegin', 'std::vector::rbegin', 'std::map::rbegin', 'std::set::rbegin', 'std::array::crbegin',
       'std::vector::crbegin', 'std::map::crbegin', 'std::set::crbegin')
def m_rbegin(c, a):
    return RevIt(arr_end(c, a))


@model('std::array::rend', 'std::vector::rend', 'std::map::rend', 'std::set::rend', 'std::array::crend', 'std::vector::crend',
       'std::map::crend', 'std::set::crend')
def m_rend(c, a):
    return RevIt(arr_begin(c, a))


def rev_move(back):
    def f(c, cell, *post):
        old = cell.v
        x = Cell(old.b)
        if old.b.__class__ is Ptr:
            x.v = V_ptr_add(old.b, 1 if back else -1)
        else:
            (it_inc if back else it_dec)(c, x)
        cell.v = RevIt(x.v)
        return old if post else cell
    return f


def rev_star(c, cell):
    x = Cell(load(cell).b)
    if x.v.__class__ is Ptr:
        return V_ptr_add(x.v, -1).deref()
    it_dec(c, x)
    return it_star(c, x)


M['std::reverse_iterator::operator++'] = rev_move(False)
M['std::reverse_iterator::operator--'] = rev_move(True)
M['std::reverse_iterator::operator*'] = rev_star
M['std::reverse_iterator::operator->'] = lambda c, cell: Ptr(rev_star(c, cell))
M['std::reverse_iterator::base'] = lambda c, cell: load(cell).b


def rev_ctor(c, *a):
    v = load(a[0])
    return v if v.__class__ is RevIt else RevIt(v)


CTORS['std::reverse_iterator'] = rev_ctor


# ------------------------------------------------------------------ tuples
def refcell(x):
    from lower import RefCell
    return RefCell(x)


def tuple_of(c, t, a):
    vm = c.vm
    f = {}
    ta = vm.types[t].get('targs') or []
    if len(ta) == 1 and 'pack' in ta[0]:
        ta = ta[0]['pack']
    for i, (x, ty) in enumerate(zip(a, ta)):
        if vm.types[ty['t']]['k'] == 'ref':
            f[str(i)] = refcell(x)
        else:
            s = vm.storage(ty['t'], 0)
            put(vm, s, x)
            f[str(i)] = s
    if len(f) != len(a):
        raise Unsupported('tuple')
    return Struct(t, f)


@model('std::tie', 'std::make_tuple', 'std::forward_as_tuple')
def m_tie(c, *a):
    return tuple_of(c, c.ref['ret'], a)


def tuple_ctor(c, *a):
    if len(a) == 1 and a[0].__class__ is Struct:
        a = fields(a[0])
    if not a:
        return std_storage(c.vm, c.t, c.vm.types[c.t], 0)
    return tuple_of(c, c.t, a)


CTORS['std::tuple'] = tuple_ctor


def fields(s):
    if 'first' in s.f:
        x = [s.f['first'], s.f['second']]
    else:
        x = [s.f[str(i)] for i in range(len(s.f))]
    return [y.v if y.__class__.__name__ == 'RefCell' else y for y in x]


@model('std::tuple::operator=')
def tuple_assign(c, a, b):
    vals = [deep(y) for y in fields(b)] if b is not a else fields(b)
    for x, y in zip(fields(a), vals):
        put(c.vm, x, y)
    return a


import strs  # noqa: E402  (registers the models of strings and streams)
import eigen  # noqa: E402  (registers the models of the linear algebra library)
