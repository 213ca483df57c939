"""Models of the parts of Eigen the headers use: dense storage and the contracts of two decompositions.

A matrix is a Struct with integer cells rows, cols and an array of elements in column-major order. A decomposition does
not compute: it records the triangle it would read (event of the abstract state) and answers with the abstract result
supplied by the check (SPEC), i.e. with its contract."""
import lib
import vm as V
from cas import UNINIT, ZERO, ONE
from lib import M, CTORS, EXTRA_OBJ, load
from vm import Cell, Struct, Arr, Unsupported, Stop

SPEC = {}       # 'selfadjoint': fn(n) -> {'info': int, 'values': [..]};  'ldlt': fn(n) -> {'info', 'positive', 'L', 'D', 'tr'}
E = 'Eigen::'


def dims(vm, t):
    ta = vm.types[t].get('targs') or []
    if len(ta) >= 3 and 'i' in ta[1] and 'i' in ta[2]:
        return ta[1]['i'], ta[2]['i']
    return -1, -1


def matrix(t, r, c, items=None):
    return Struct(t, {'rows': Cell(r), 'cols': Cell(c), 'd': Arr(None, items if items is not None else [Cell(UNINIT) for _ in range(r * c)])})


def new_matrix(vm, t, ty):
    r, c = dims(vm, t)
    return matrix(t, max(r, 0), max(c, 0))


EXTRA_OBJ[E + 'Matrix'] = new_matrix


def opaque(vm, t, ty):
    return Struct(t, {})


for n in ('SelfAdjointEigenSolver', 'LDLT', 'Transpositions', 'TriangularView', 'Diagonal'):
    EXTRA_OBJ[E + n] = opaque


def integer(v):
    v = load(v)
    if hasattr(v, 'const') and v.const() is not None:
        v = int(v.const())
    if v.__class__ is not int:
        raise Unsupported('symbolic index or size of a matrix')
    return v


def is_matrix(x):
    return x.__class__ is Struct and 'rows' in x.f and 'd' in x.f


def copy_matrix(t, m):
    return matrix(t, m.f['rows'].v, m.f['cols'].v, [Cell(x.v) for x in m.f['d'].items])


def ctor_matrix(c, *a):
    t = c.t
    r, k = dims(c.vm, t)
    if not a:
        return matrix(t, max(r, 0), max(k, 0))
    if len(a) == 1 and is_matrix(a[0]):
        return copy_matrix(t, a[0])
    if len(a) == 1:
        n = integer(a[0])
        return matrix(t, n if r < 0 else r, k if k > 0 else 1 if r < 0 else n)
    if len(a) == 2 and (r < 0 or k < 0 or r * k > 2):
        return matrix(t, integer(a[0]), integer(a[1]))
    raise Unsupported('constructor of a matrix')


CTORS[E + 'Matrix'] = ctor_matrix


def element(c, m, i, j=None):
    while m.__class__ is V.Ptr:
        m = m.deref()
    if not is_matrix(m):
        raise Unsupported('element of an unknown matrix expression')
    r, k = m.f['rows'].v, m.f['cols'].v
    i = integer(i)
    if j is None:
        if not 0 <= i < r * k:
            raise Stop('ub', 'access outside the bounds of a matrix (%d of %d)' % (i, r * k))
        return m.f['d'].items[i]
    j = integer(j)
    if not (0 <= i < r and 0 <= j < k):
        raise Stop('ub', 'access outside the bounds of a matrix (%d,%d of %dx%d)' % (i, j, r, k))
    return m.f['d'].items[i + r * j]


for b in ('DenseCoeffsBase', 'PlainObjectBase', 'TriangularBase', 'TriangularView', 'TriangularViewImpl', 'Matrix', 'MapBase'):
    for op in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        M[E + b + '::' + op] = element
for b in ('EigenBase', 'PlainObjectBase', 'DenseBase', 'TriangularView', 'TriangularBase', 'LDLT', 'Diagonal', 'Transpositions', 'DenseCoeffsBase'):
    M[E + b + '::size'] = lambda c, m: m.f['rows'].v * m.f['cols'].v
    M[E + b + '::rows'] = lambda c, m: m.f['rows'].v
    M[E + b + '::cols'] = lambda c, m: m.f['cols'].v


def fill(v):
    def f(c, m, *a):
        for x in m.f['d'].items:
            x.v = v
        return m
    return f


for b in ('DenseBase', 'PlainObjectBase'):
    M[E + b + '::setZero'] = fill(ZERO)
    M[E + b + '::setOnes'] = fill(ONE)
    M[E + b + '::setConstant'] = lambda c, m, v: fill(load(v))(c, m)
    M[E + b + '::fill'] = lambda c, m, v: fill(load(v))(c, m)


def m_assign(c, a, b):
    if not is_matrix(b):
        raise Unsupported('assignment of a matrix expression')
    a.f['rows'].v, a.f['cols'].v = b.f['rows'].v, b.f['cols'].v
    a.f['d'].items = [Cell(x.v) for x in b.f['d'].items]
    return a


M[E + 'Matrix::operator='] = m_assign


def extremum(sign):
    def f(c, m, *a):
        if a:
            raise Unsupported('extremum with an index')
        best = m.f['d'].items[0].v
        for x in m.f['d'].items[1:]:
            if V.cmpnum(c.st, '<', x.v, best) if sign < 0 else V.cmpnum(c.st, '>', x.v, best):
                best = x.v
        return best
    return f


M[E + 'DenseBase::minCoeff'] = extremum(-1)
M[E + 'DenseBase::maxCoeff'] = extremum(1)


def triangle(m, upper):
    """[(i, j, value)] of the triangle read, as i >= j"""
    r, k = m.f['rows'].v, m.f['cols'].v
    if r != k:
        raise Stop('ub', 'decomposition of a matrix that is not square')
    out = []
    for j in range(r):
        for i in range(j, r):
            out.append((i, j, m.f['d'].items[j + r * i if upper else i + r * j].v))
    return r, out


def compute_sae(c, s, m, *a):
    if not is_matrix(m):
        raise Unsupported('decomposition of a matrix expression')
    n, tri = triangle(m, False)
    c.st.events.append(('selfadjoint', n, tuple(tri)))
    if 'selfadjoint' not in SPEC:
        raise Unsupported('eigenvalues of a matrix')
    r = SPEC['selfadjoint'](n)
    s.f['info'] = Cell(r['info'])
    s.f['values'] = Arr(None, [Cell(x) for x in r['values']])
    return s


def ctor_sae(c, *a):
    s = Struct(c.t, {})
    if a and is_matrix(a[0]):
        compute_sae(c, s, a[0])
    return s


CTORS[E + 'SelfAdjointEigenSolver'] = ctor_sae
M[E + 'SelfAdjointEigenSolver::compute'] = compute_sae


def part(name):
    def f(c, s, *a):
        while s.__class__ is V.Ptr:
            s = s.deref()
        if name not in s.f:
            raise Unsupported('decomposition not computed')
        return s.f[name]
    return f


M[E + 'SelfAdjointEigenSolver::info'] = lambda c, s: part('info')(c, s).v
M[E + 'SelfAdjointEigenSolver::eigenvalues'] = lambda c, s: matrix(None, len(part('values')(c, s).items), 1, part('values')(c, s).items)


def compute_ldlt(c, s, m):
    if not is_matrix(m):
        raise Unsupported('decomposition of a matrix expression')
    ta = c.vm.types[s.t].get('targs') or []
    upper = len(ta) > 1 and ta[1].get('i') == 2
    n, tri = triangle(m, upper)
    c.st.events.append(('ldlt', n, tuple(tri)))
    if 'ldlt' not in SPEC:
        raise Unsupported('decomposition of a matrix')
    r = SPEC['ldlt'](n)
    s.f['info'] = Cell(r['info'])
    s.f['positive'] = Cell(r['positive'])
    s.f['rows'] = s.f['cols'] = Cell(n)
    s.f['L'] = matrix(None, n, n, [Cell(r['L'][i][j]) for j in range(n) for i in range(n)])
    s.f['U'] = matrix(None, n, n, [Cell(r['L'][j][i]) for j in range(n) for i in range(n)])
    s.f['D'] = matrix(None, n, 1, [Cell(x) for x in r['D']])
    s.f['tr'] = matrix(None, n, 1, [Cell(x) for x in r['tr']])
    return s


def ctor_ldlt(c, *a):
    s = Struct(c.t, {})
    if a and is_matrix(a[0]):
        compute_ldlt(c, s, a[0])
    return s


CTORS[E + 'LDLT'] = ctor_ldlt
M[E + 'LDLT::compute'] = compute_ldlt
M[E + 'LDLT::info'] = lambda c, s: part('info')(c, s).v
M[E + 'LDLT::isPositive'] = lambda c, s: part('positive')(c, s).v
M[E + 'LDLT::isNegative'] = lambda c, s: False
M[E + 'LDLT::matrixL'] = part('L')
M[E + 'LDLT::matrixU'] = part('U')
M[E + 'LDLT::vectorD'] = part('D')
M[E + 'LDLT::transpositionsP'] = part('tr')
M[E + 'Transpositions::indices'] = lambda c, s: s
M[E + 'Transpositions::coeff'] = element
M[E + 'Transpositions::operator()'] = element
M[E + 'Transpositions::operator[]'] = element


def same(c, *a):
    return a[0]


for n in ('TriangularView', 'Diagonal', 'Transpositions'):
    CTORS[E + n] = same
