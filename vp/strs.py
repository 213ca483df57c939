"""Model of std::string: a sequence of cells, each a character code, a symbolic digit (48 + digit) or an opaque piece of text.
Streams into memory keep what was written in the same form."""
import cas
import digits
import vm as V
from cas import Num, ZERO, num
from lib import M, CTORS, EXTRA_OBJ, load, model
from vm import Cell, Struct, Arr, Ptr, Opaque, Unsupported, Stop, Throw, cmpnum
from fractions import Fraction

NPOS = (1 << 64) - 1
TEXT = Opaque('text')


def is_str(x):
    return x.__class__ is Arr


def chars(x):
    if x.__class__ is Cell:
        x = x.v
    if x.__class__ is Opaque:
        return [TEXT]
    if x.__class__ is Ptr:
        if x.obj.__class__ is not Arr:
            raise Unsupported('text at %r' % (x,))
        out = []
        i = x.idx or 0
        while True:
            if i >= len(x.obj.items):
                return out
            v = x.obj.items[i].v
            if v.__class__ is int and v == 0:
                return out
            out.append(v)
            i += 1
    if x.__class__ is Arr:
        out = [i.v for i in x.items]
        if out and out[-1].__class__ is int and out[-1] == 0:
            out.pop()
        return out
    if x.__class__ is str:
        return [ord(ch) for ch in x]
    if x.__class__ in (int, Num):
        return [x]
    raise Unsupported('text %r' % (x,))


def mk(t, cs):
    return Arr(t, [Cell(v) for v in cs])


def known(a):
    for x in a.items:
        if x.v is TEXT:
            raise Unsupported('length of an unknown text')


def integer(v):
    v = load(v)
    if v.__class__ is Num and v.const() is not None:
        v = int(v.const())
    if v.__class__ is bool:
        v = int(v)
    if v.__class__ is not int:
        raise Unsupported('symbolic length or position in a string')
    return v


def strt(c):
    """a string type for results"""
    vm = c.vm
    for i in ([c.ref['ret']] if c.ref.get('ret') is not None else []):
        u = vm.unref(i)
        if vm.types[u].get('sqn', '').endswith('basic_string'):
            return u
    return None


for n in ('std::basic_string', 'std::__cxx11::basic_string'):
    EXTRA_OBJ[n] = lambda vm, t, ty: Arr(t, [])
for n in ('std::basic_ostringstream', 'std::__cxx11::basic_ostringstream', 'std::basic_stringstream',
          'std::__cxx11::basic_stringstream'):
    EXTRA_OBJ[n] = lambda vm, t, ty: Struct(t, {'buf': Arr(None, [])})


def drop_alloc(a):
    return [x for x in a if not (x.__class__ is Opaque and x.tag in ('allocator', 'std::allocator')) and
            not (x.__class__ is Cell and x.v.__class__ is Opaque and x.v.tag in ('allocator', 'std::allocator'))]


def str_ctor(c, *a):
    a = drop_alloc(a)
    t = c.t
    if not a:
        return Arr(t, [])
    v0 = load(a[0])
    if len(a) == 1:
        return mk(t, chars(a[0]))
    v1 = load(a[1])
    if v0.__class__ in (int, Num) and v1.__class__ in (int, Num):
        return mk(t, [v1] * integer(v0))
    if v0.__class__ is Ptr and v1.__class__ is Ptr or hasattr(v0, 'rev'):
        return mk(t, between(v0, v1))
    if v0.__class__ is Ptr:
        return mk(t, chars(v0)[:integer(v1)])
    if v0.__class__ is Arr:
        known(v0)
        p = integer(v1)
        n = integer(a[2]) if len(a) > 2 else NPOS
        if p > len(v0.items):
            raise Throw('std::out_of_range', c.e)
        return mk(t, chars(v0)[p:p + n])
    raise Unsupported('construction of a string')


def between(p, q):
    if p.__class__ is Ptr and q.__class__ is Ptr and p.obj is q.obj:
        return [x.v for x in p.obj.items[p.idx or 0:q.idx or 0]]
    if hasattr(p, 'rev'):
        return [x.v for x in p.rev(q)]
    raise Unsupported('range of characters')


CTORS['std::basic_string'] = str_ctor
CTORS['std::basic_ostringstream'] = CTORS['std::basic_stringstream'] = lambda c, *a: Struct(c.t, {'buf': Arr(None, [])})
CTORS['std::allocator'] = lambda c, *a: Opaque('allocator')
S = 'std::basic_string::'
for n in ('begin', 'cbegin', 'data', 'c_str', 'end', 'cend', 'empty', 'operator[]', 'at', 'front', 'back', 'clear'):
    M[S + n] = M['std::vector::' + ('begin' if n == 'c_str' else n)]


@model(S + 'size', S + 'length')
def s_size(c, a):
    known(a)
    return len(a.items)


@model(S + 'push_back')
def s_push(c, a, x):
    a.items.append(Cell(load(x)))


@model(S + 'pop_back')
def s_pop(c, a):
    if not a.items:
        raise Stop('ub', 'pop_back of an empty string')
    a.items.pop()


@model(S + 'reserve', S + 'shrink_to_fit')
def s_reserve(c, a, *x):
    return None


@model(S + 'resize')
def s_resize(c, a, n, *ch):
    known(a)
    n = integer(n)
    if n < 0 or n > 10000:
        raise Unsupported('string of length %d' % n)
    del a.items[n:]
    while len(a.items) < n:
        a.items.append(Cell(load(ch[0]) if ch else 0))


@model(S + 'operator+=')
def s_iadd(c, a, b):
    a.items += [Cell(v) for v in chars(b)]
    return a


@model(S + 'append')
def s_append(c, a, b, *r):
    b0 = load(b)
    if not r:
        cs = chars(b)
    elif b0.__class__ in (int, Num):
        cs = [load(r[0])] * length(integer(b0))
    else:
        cs = str_ctor(_C(c), b, *r).items
        cs = [x.v for x in cs]
    a.items += [Cell(v) for v in cs]
    return a


class _C:
    def __init__(self, c):
        self.t = None
        self.vm, self.st, self.e, self.ref = c.vm, c.st, c.e, c.ref


def length(n):
    if n < 0 or n > 100000:
        raise Stop('ub', 'string of length %d' % n)
    return n


@model(S + 'assign', S + 'operator=')
def s_assign(c, a, b, *r):
    if not r:
        cs = chars(b)
    else:
        cs = [x.v for x in str_ctor(_C(c), b, *r).items]
    a.items = [Cell(v) for v in cs]
    return a


@model(S + 'insert')
def s_insert(c, a, p, *r):
    pv = load(p)
    if pv.__class__ is Ptr:
        i = pv.idx or 0
        if len(r) == 1:
            cs = [load(r[0])]
        elif len(r) == 2 and load(r[0]).__class__ is Ptr:
            cs = between(load(r[0]), load(r[1]))
        else:
            cs = [load(r[1])] * length(integer(r[0]))
        a.items[i:i] = [Cell(v) for v in cs]
        return Ptr(a, i)
    i = integer(p)
    known(a)
    if i < 0 or i > len(a.items):
        raise Throw('std::out_of_range', c.e)
    r0 = load(r[0])
    if len(r) == 1:
        cs = chars(r[0])
    elif r0.__class__ in (int, Num):
        cs = [load(r[1])] * length(integer(r0))
    elif r0.__class__ is Ptr:
        cs = chars(r0)[:integer(r[1])]
    else:
        cs = [x.v for x in str_ctor(_C(c), *r).items]
    a.items[i:i] = [Cell(v) for v in cs]
    return a


@model(S + 'erase')
def s_erase(c, a, *r):
    known(a)
    if not r:
        a.items = []
        return a
    v = load(r[0])
    if v.__class__ is Ptr:
        i = v.idx or 0
        j = load(r[1]).idx if len(r) > 1 else i + 1
        del a.items[i:j]
        return Ptr(a, i)
    i = integer(v)
    n = integer(r[1]) if len(r) > 1 else NPOS
    if i > len(a.items):
        raise Throw('std::out_of_range', c.e)
    del a.items[i:i + n]
    return a


@model(S + 'substr')
def s_substr(c, a, *r):
    known(a)
    i = integer(r[0]) if r else 0
    n = integer(r[1]) if len(r) > 1 else NPOS
    if i > len(a.items):
        raise Throw('std::out_of_range', c.e)
    return mk(a.t, chars(a)[i:i + n])


@model(S + 'swap')
def s_swap(c, a, b):
    a.items, b.items = b.items, a.items


def samechar(c, x, y):
    if x is TEXT or y is TEXT:
        raise Unsupported('comparison of unknown text')
    if x.__class__ is int and y.__class__ is int:
        return x == y
    return cmpnum(c.st, '==', num(x), num(y))


def str_eq(c, a, b):
    x, y = chars(a), chars(b)
    if TEXT in x or TEXT in y:
        raise Unsupported('comparison of unknown text')
    if len(x) != len(y):
        return False
    return all(samechar(c, p, q) for p, q in zip(x, y))


@model(S + 'find', S + 'find_first_of')
def s_find(c, a, x, *r):
    p = integer(r[0]) if r else 0
    cs, w = chars(a), chars(x)
    if c.ref['name'] == 'find_first_of' or len(w) == 1:
        for i in range(p, len(cs)):
            if any(samechar(c, cs[i], y) for y in w):
                return i
        return NPOS
    for i in range(p, len(cs) - len(w) + 1):
        if all(samechar(c, cs[i + j], w[j]) for j in range(len(w))):
            return i
    return NPOS


@model('std::reverse')
def s_reverse(c, a, b):
    p, q = load(a), load(b)
    if p.__class__ is not Ptr or q.__class__ is not Ptr or p.obj is not q.obj:
        raise Unsupported('reverse')
    i, j = p.idx or 0, q.idx or 0
    p.obj.items[i:j] = p.obj.items[i:j][::-1]


class Rev:
    """reverse iterator: refers to the element before base"""
    __slots__ = ('obj', 'i')

    def __init__(self, obj, i):
        self.obj, self.i = obj, i

    def rev(self, q):
        return self.obj.items[q.i:self.i][::-1]

    def vpclone(self, cp, memo):
        return Rev(cp(self.obj), self.i)

    def vpcanon(self, cv):
        return ('rev', cv(self.obj), self.i)

    def vpdeep(self):
        return Rev(self.obj, self.i)

    def vprefs(self):
        return [self.obj]


for b in ('std::basic_string', 'std::vector'):
    M[b + '::rbegin'] = M[b + '::crbegin'] = lambda c, a: Rev(a, len(a.items))
    M[b + '::rend'] = M[b + '::crend'] = lambda c, a: Rev(a, 0)


@model('std::to_string')
def to_string(c, x):
    v = load(x)
    if v.__class__ is Num and v.const() is not None and Fraction(v.const()).denominator == 1:
        ty = c.vm.types[c.vm.unref(c.ref['ptypes'][0])]
        v = int(v.const()) if ty['k'] != 'float' else v
    if v.__class__ is bool:
        v = int(v)
    if v.__class__ is int:
        return mk(strt(c), [ord(ch) for ch in str(v)])
    if v.__class__ is Num:
        if digits.ON[0] and cas._intvalued(v):
            return mk(strt(c), digits.text(c.st, v))
        lo, hi = cas.interval(v)
        ty = c.vm.types[c.vm.unref(c.ref['ptypes'][0])]
        if ty['k'] == 'int' and lo is not None and hi is not None and lo >= 0 and hi <= 9 and cas._intvalued(v):
            return mk(strt(c), [cas.add(num(48), v)])
    return mk(strt(c), [TEXT])


old_plus = M['std::operator+']


@model('std::operator+')
def plus(c, a, b):
    t = strt(c)
    if t is not None:
        return mk(t, chars(a) + chars(b))
    return old_plus(c, a, b)


def is_text(c, a):
    pt = c.ref.get('ptypes') or []
    return any(c.vm.types[c.vm.unref(p)].get('sqn', '').endswith('basic_string') for p in pt)


def wrapcmp(name, f):
    old = M[name]

    def g(c, a, b):
        if is_text(c, a):
            return f(c, a, b)
        return old(c, a, b)
    M[name] = g


wrapcmp('std::operator==', str_eq)
wrapcmp('std::operator!=', lambda c, a, b: not str_eq(c, a, b))


# ------------------------------------------------------------------ streams
def is_stream(s):
    return s.__class__ is Struct and 'buf' in s.f


def piece(c, x):
    v = load(x)
    if v.__class__ is Arr or v.__class__ is Ptr and v.obj.__class__ is Arr:
        return chars(x)
    ty = c.vm.types[c.vm.unref((c.ref.get('ptypes') or [0])[-1])]
    if v.__class__ is int and ty['k'] == 'int':
        return [v] if ty['bits'] == 8 else [ord(ch) for ch in str(v)]
    if v.__class__ is Num and ty['k'] == 'int' and ty['bits'] == 8:
        return [v]
    return [TEXT]


def to_stream(c, s, *x):
    while s.__class__ is Ptr:
        s = s.deref()
    if is_stream(s) and x:
        try:
            cs = piece(c, x[0])
        except Unsupported:
            cs = [TEXT]
        s.f['buf'].items += [Cell(v) for v in cs]
    return s


M['std::operator<<'] = to_stream
for b in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream'):
    for n in ('operator<<', 'put'):
        M[b + '::' + n] = to_stream


def stream_str(c, s, *a):
    while s.__class__ is Ptr:
        s = s.deref()
    if is_stream(s) and not a:
        return mk(strt(c), [x.v for x in s.f['buf'].items])
    return mk(strt(c), [TEXT])


for b in ('std::basic_ostringstream', 'std::basic_stringstream'):
    M[b + '::str'] = stream_str
