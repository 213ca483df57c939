"""Abstract operands and reading of abstract results, shared by the checks."""
from fractions import Fraction
import itertools
import re

import cas
from cas import num, sym, Num, Special, ZERO, ONE, NAN
import lib
import prog
import vm as V
from vm import Cell, Struct, Arr, MapObj, Key, State, Ptr, Unsupported
from runner import Undecided

# variables that are in focus: their place in the order of ids is fixed, their number is not what matters
K = [Key('K%d' % i) for i in range(1, 7)]

_progs = {}


def program(driver, defines=()):
    k = (driver, tuple(defines))
    if k not in _progs:
        _progs[k] = prog.Program(driver, defines)
    return _progs[k]


class Obs:
    """what can be observed of a first-order variable: mean, coefficients, cached standard deviation"""

    def __init__(self, mean, coef, ident, cache, open_, table):
        self.mean = mean
        self.coef = coef
        self.ident = ident      # id field
        self.cache = cache      # cached standard deviation or None
        self.open = open_
        self.table = table      # stored keys


class First:
    """UReal<double> as seen by the interpreter"""

    def __init__(self, P, prefix='vpd::'):
        self.P = P
        self.prefix = prefix
        f = P.fn(prefix + 'u_n')
        vm = V.VM(P)
        self.t = vm.unref(f['params'][0]['t'])
        rec = P.records.get(P.types[self.t]['rid'])
        if rec is None:
            raise prog.AnalysisError('no record for the first-order class')
        ints, reals, maps, other = [], [], [], []
        for x in rec['fields']:
            ty = P.types[x['t']]
            if ty['k'] == 'int':
                ints.append(x['name'])
            elif ty['k'] == 'float':
                reals.append(x['name'])
            elif ty['k'] == 'rec' and ty.get('sqn') == 'std::map':
                maps.append(x['name'])
            else:
                other.append(x['name'])
        if len(ints) != 1 or len(reals) != 2 or len(maps) != 1 or other:
            raise prog.AnalysisError('representation of UReal not understood: %s' % [x['name'] for x in rec['fields']])
        self.f_id, self.f_map = ints[0], maps[0]
        # roles of the two numbers: n() returns the mean
        o = vm.storage(self.t, 0)
        for x in reals:
            o.f[x].v = sym('field:' + x)
        o.f[self.f_id].v = K[0]
        st = State()
        st.order = list(K)
        vm.start(f['id'], [o], st)
        outs = vm.run(st)
        mean = None
        if len(outs) == 1 and outs[0].kind == 'ret':
            for x in reals:
                if outs[0].value == sym('field:' + x):
                    mean = x
        if mean is None:
            mean = 'mu' if 'mu' in reals else reals[1]
        self.f_mean = mean
        self.f_sd = [x for x in reals if x != mean][0]

    def vm(self):
        return V.VM(self.P)

    def fn(self, name):
        return self.P.fn(self.prefix + name)

    def const(self, vm, mean):
        o = vm.storage(self.t, 0)
        o.f[self.f_id].v = 0
        o.f[self.f_sd].v = ZERO
        o.f[self.f_mean].v = mean
        return o

    def indep(self, vm, k, coef, mean):
        o = vm.storage(self.t, 0)
        o.f[self.f_id].v = k
        o.f[self.f_sd].v = coef
        o.f[self.f_mean].v = mean
        return o

    def dep(self, vm, coefs, mean, cache='stale', open_=False, absent=()):
        o = vm.storage(self.t, 0)
        o.f[self.f_id].v = -1
        o.f[self.f_mean].v = mean
        m = o.f[self.f_map]
        for k, v in coefs:
            lib.insert_node(vm, m, k, Cell(v))
        m.open = open_
        m.absent = set(absent)
        if cache == 'stale':
            o.f[self.f_sd].v = num(-1)
        else:
            s2 = ZERO
            for k, v in coefs:
                s2 = cas.add(s2, cas.mul(v, v))
            if open_:
                s2 = cas.add(s2, cas.rho)
            o.f[self.f_sd].v = cas.fn1('sqrt', s2) if s2.d else ZERO
        return o

    def read(self, o):
        if not isinstance(o, Struct) or self.f_id not in o.f:
            raise Undecided('result is not a first-order variable')
        i = o.f[self.f_id].v
        m = o.f[self.f_map]
        sd = o.f[self.f_sd].v
        mean = o.f[self.f_mean].v
        coef = {}
        cache = None
        if isinstance(i, Key):
            coef[i] = sd
        elif isinstance(i, int) and i < 0:
            for k, n in m.ent.items():
                coef[k] = n.f['second'].v
            if isinstance(sd, Num) and not (sd.const() is not None and sd.const() < 0):
                cache = sd
        elif isinstance(i, int):
            cache = sd
        return Obs(mean, coef, i, cache, m.open if isinstance(i, int) and i < 0 else False, list(m.ent))


def kname(k):
    return k.name if isinstance(k, Key) else str(k)


# kinds of operands: constant, independent variable, dependent on a set of variables
def kinds(ks_list, indep=(0, 1), cached=False):
    out = [('C', ())]
    for i in indep:
        out.append(('I', (i,)))
    for ks in ks_list:
        out.append(('D', tuple(ks)))
        if cached:
            out.append(('Dc', tuple(ks)))
    return out


def kindname(k):
    return k[0] + ''.join(str(i + 1) for i in k[1])


def build(F, vm, kind, tag, mean=None):
    """operand of the given kind; returns (object, mean, {key: coefficient})"""
    mean = sym('m' + tag) if mean is None else mean
    k, ks = kind
    if k == 'C':
        return F.const(vm, mean), mean, {}
    if k == 'I':
        c = sym('s' + tag)
        return F.indep(vm, K[ks[0]], c, mean), mean, {K[ks[0]]: c}
    cs = [(K[i], sym('c%s%d' % (tag, i + 1))) for i in ks]
    return F.dep(vm, cs, mean, 'cached' if k == 'Dc' else 'stale'), mean, dict(cs)


def build_open(F, vm, tag, focus, present, cached=False):
    """dependent variable on arbitrarily many others besides the focus keys"""
    mean = sym('m' + tag)
    cs = [(k, sym('c%s_%s' % (tag, k.name))) for k in focus if k in present]
    o = F.dep(vm, cs, mean, 'cached' if cached else 'stale', True, [k for k in focus if k not in present])
    return o, mean, dict(cs)


def newstate(order=None):
    st = State()
    st.order = list(order if order is not None else K)
    return st


def call(vm, F, name, args, st=None, roots=None):
    f = F.fn(name) if isinstance(name, str) else name
    st = st or newstate()
    if roots:
        st.roots.update(roots)
    vm.start(f['id'], args, st)
    return vm.run(st)


def eq(c, got, want, facts, what, loc, extra=None):
    """compare a computed abstract value with the specification; records the verdict"""
    c.compared += 1
    if isinstance(got, (int, bool)):
        got = num(int(got))
    if not isinstance(got, (Num, Special)):
        c.undecided('%s: value %r not understood' % (what, got))
        return False
    if isinstance(got, Num) and got.has_rho() and not (isinstance(want, Num) and want.has_rho()):
        c.undecided('%s: may depend on unrelated variables (%s)' % (what, repr(got)[:120]))
        return False
    v, how, w = cas.equal(got, want, facts)
    c.how[how] = c.how.get(how, 0) + 1
    if v == 'eq':
        return True
    if v == 'unknown':
        c.undecided('%s: %s' % (what, how))
        return False
    d = {'computed': repr(got)[:400], 'specified': repr(want)[:400]}
    if w is not None:
        d['witness'] = w
    if facts:
        d['when'] = ', '.join('%s %s 0' % (f, op) for op, f in facts)[:300]
    if extra:
        d.update(extra)
    c.violation(what, loc, **d)
    return False


def badout(c, o, what, allow=()):
    """True if the outcome is not a plain return"""
    if o.kind == 'ret':
        return False
    c.violation('%s: ends with %s (%s)' % (what, o.kind, o.value), o.loc,
                when=', '.join('%s %s 0' % (f, op) for op, f in o.st.facts)[:300])
    return True


def infeasible(o):
    """no real point satisfies the recorded branch conditions"""
    return not V.feasible(o.st)


def account(c, vm):
    c.steps += vm.steps
    for f in vm.visited_fns:
        fn = vm.p.functions.get(f)
        if fn:
            c.fns.add('%s (%s)' % (prog.strip_targs(fn['qn']), vm.p.loc(fn)))


def where(F, name):
    """location of the library code behind a driver function"""
    f = F.fn(name)
    loc = [None]

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') in ('call', 'opcall', 'mcall') and 'fn' in n:
                g = F.P.functions.get(n['fn'])
                if g and loc[0] is None and not re.match(r'vp[a-z]::', g['qn']):
                    loc[0] = '%s (%s)' % (F.P.loc(g), prog.strip_targs(g['qn']))
            for x in n.values():
                walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(f['body'])
    return loc[0] or F.P.loc(f)


def check_first(c, F, o, res, mean, coef, what, loc, keys, check_mean=True, check_coef=True, check_cache=True):
    """compare an abstract first-order result with the specification (mean, coefficient per focus key)"""
    ob = F.read(res)
    facts = o.st.facts
    ok = True
    if check_mean:
        ok &= eq(c, ob.mean, mean, facts, '%s: mean' % what, loc)
    if check_coef:
        for k in keys:
            ok &= eq(c, ob.coef.get(k, ZERO), coef.get(k, ZERO), facts,
                     '%s: coefficient on variable %s' % (what, kname(k)), loc)
        if not ob.open:
            for k in ob.coef:
                if k not in keys and not k.temp:
                    ok &= eq(c, ob.coef[k], ZERO, facts, '%s: coefficient on unrelated variable %s' % (what, kname(k)), loc)
    if check_cache and ob.cache is not None and not ob.open:
        s2 = ZERO
        for k, v in ob.coef.items():
            s2 = cas.add(s2, cas.mul(v, v))
        if isinstance(ob.cache, Num):
            ok &= eq(c, cas.mul(ob.cache, ob.cache), s2, facts, '%s: cached standard deviation' % what, loc)
    return ok


# ------------------------------------------------------------------ second order
class Obs2:
    """what can be observed of a second-order variable; half second derivatives"""

    def __init__(self, mean, grad, hess, mom):
        self.mean = mean
        self.grad = grad    # {key: value}
        self.hess = hess    # {(key, key): half second derivative}
        self.mom = mom      # {key: [six values]}


class Hess:
    """internal::HessGrad<double>: roles of its parts"""

    def __init__(self, P, t):
        self.P = P
        self.t = t
        rec = P.records.get(P.types[t]['rid'])
        if rec is None:
            raise prog.AnalysisError('no record for the Hessian class')
        self.f_diag = self.f_tri = None
        for x in rec['fields']:
            ty = P.types[x['t']]
            if ty['k'] == 'rec' and ty.get('sqn') == 'std::map':
                kt = P.types[ty['targs'][0]] if isinstance(ty.get('targs', [None])[0], int) else None
                o = V.VM(P).storage(x['t'], 0)
                if o.pairs:
                    self.f_tri = x['name']
                else:
                    self.f_diag = x['name']
                    self.t_diagmap = x['t']
        if not self.f_diag or not self.f_tri or len(rec['fields']) != 2:
            raise prog.AnalysisError('representation of HessGrad not understood: %s' % [x['name'] for x in rec['fields']])


class Second:
    """UReal2<double, prop> as seen by the interpreter"""

    def __init__(self, P, prefix):
        self.P = P
        self.prefix = prefix
        self.sign = -1 if prefix in ('vpe::', 'vade::', 'vafe::') else 1
        f = P.fn(prefix + 'w_fn')
        vm = V.VM(P)
        self.t = vm.unref(f['params'][0]['t'])
        rec = P.records.get(P.types[self.t]['rid'])
        if rec is None:
            raise prog.AnalysisError('no record for the second-order class')
        reals, recs = [], []
        for x in rec['fields']:
            ty = P.types[x['t']]
            (reals if ty['k'] == 'float' else recs).append(x)
        if len(reals) != 1 or len(recs) != 1:
            raise prog.AnalysisError('representation of UReal2 not understood: %s' % [x['name'] for x in rec['fields']])
        self.f_mu = reals[0]['name']
        self.f_hg = recs[0]['name']
        self.t_hg = recs[0]['t']
        self.h = Hess(P, self.t_hg)
        # a node of the diagonal map: which number is the gradient
        o = vm.storage(self.t, 0)
        m = o.f[self.f_hg].f[self.h.f_diag]
        lib.insert_node(vm, m, K[0], vm.storage(lib.vtype(vm, m), 0))
        d = m.ent[K[0]].f['second']
        nums = [n for n, x in d.f.items() if isinstance(x, Cell)]
        oth = [n for n, x in d.f.items() if not isinstance(x, Cell)]
        if len(nums) != 2 or len(oth) != 1:
            raise prog.AnalysisError('representation of Diag not understood: %s' % list(d.f))
        self.f_mom = oth[0]
        hh = [n for n in nums if 'hess' in n.lower()]
        self.f_hh = hh[0] if len(hh) == 1 else nums[1]
        self.f_grad = [n for n in nums if n != self.f_hh][0]

    def vm(self):
        return V.VM(self.P)

    def fn(self, name):
        return self.P.fn(self.prefix + name)

    def moms(self, d):
        """the six moment cells of a node"""
        o = d.f[self.f_mom]
        while isinstance(o, Struct):
            xs = list(o.f.values())
            if len(xs) != 1:
                raise Undecided('representation of the moments not understood')
            o = xs[0]
        if not isinstance(o, Arr) or len(o.items) != 6:
            raise Undecided('representation of the moments not understood')
        return o.items

    def hg(self, vm, diag, tri):
        """HessGrad with diag {key: (grad, hhess, [moments])} and tri {(key, key): value}"""
        h = vm.storage(self.t_hg, 0)
        self.fill(vm, h, diag, tri)
        return h

    def fill(self, vm, h, diag, tri):
        m = h.f[self.h.f_diag]
        for k, (g, hh, mom) in diag.items():
            lib.insert_node(vm, m, k, vm.storage(lib.vtype(vm, m), 0))
            d = m.ent[k].f['second']
            d.f[self.f_grad].v = g
            d.f[self.f_hh].v = hh
            for c, v in zip(self.moms(d), mom):
                c.v = v
        m = h.f[self.h.f_tri]
        for k, v in tri.items():
            lib.insert_node(vm, m, k, Cell(v))

    def make(self, vm, mean, diag, tri):
        o = vm.storage(self.t, 0)
        o.f[self.f_mu].v = mean
        self.fill(vm, o.f[self.f_hg], diag, tri)
        return o

    def read(self, o):
        if not isinstance(o, Struct) or self.f_hg not in o.f:
            raise Undecided('result is not a second-order variable')
        r = self.readhg(o.f[self.f_hg])
        r.mean = o.f[self.f_mu].v
        return r

    def readhg(self, h):
        g, hs, mom = {}, {}, {}
        m = h.f[self.h.f_diag]
        if m.open:
            raise Undecided('open map')
        for k, n in m.ent.items():
            d = n.f['second']
            g[k] = d.f[self.f_grad].v
            hs[(k, k)] = d.f[self.f_hh].v
            mom[k] = [c.v for c in self.moms(d)]
        for k, n in h.f[self.h.f_tri].ent.items():
            hs[k] = n.f['second'].v
        return Obs2(None, g, hs, mom)


def momsyms(k):
    return [sym('v%d_%s' % (n, k.name)) for n in range(3, 9)]


def build2(F, vm, ks, pairs, tag, mean=None, moms=None):
    """second-order operand on the variables ks (indices) with the given stored off-diagonal pairs;
    returns (object, mean, grad, hess, mom)"""
    mean = sym('m' + tag) if mean is None else mean
    diag, tri = {}, {}
    for i in ks:
        k = K[i]
        diag[k] = (sym('g%s%d' % (tag, i + 1)), sym('h%s%d%d' % (tag, i + 1, i + 1)), (moms or momsyms)(k))
    for i, j in pairs:
        tri[(K[i], K[j])] = sym('h%s%d%d' % (tag, i + 1, j + 1))
    o = F.make(vm, mean, diag, tri)
    g = {k: v[0] for k, v in diag.items()}
    h = {(k, k): v[1] for k, v in diag.items()}
    h.update(tri)
    return o, mean, g, h, {k: v[2] for k, v in diag.items()}


def hget(h, a, b):
    if (a, b) in h:
        return h[(a, b)]
    return h.get((b, a), ZERO)


def korder(ks, order=None):
    order = order or K
    return sorted(ks, key=order.index)


def chain(args, ds, dds):
    """chain rule: args = [(grad, hess)], ds = first derivatives, dds[i][j] = second derivatives.
    Returns gradient and half-Hessian of the composition."""
    ks = korder({k for g, h in args for k in g})
    G, H = {}, {}
    half = num(Fraction(1, 2))
    for a in ks:
        G[a] = ZERO
        for (g, h), d in zip(args, ds):
            G[a] = cas.add(G[a], cas.mul(d, g.get(a, ZERO)))
    for i, a in enumerate(ks):
        for b in ks[i:]:
            t = ZERO
            for p, (g, h) in enumerate(args):
                t = cas.add(t, cas.mul(ds[p], hget(h, a, b)))
                for q, (g2, h2) in enumerate(args):
                    x = cas.mul(cas.mul(half, dds[p][q]), cas.mul(g.get(a, ZERO), g2.get(b, ZERO)))
                    t = cas.add(t, x)
            H[(a, b)] = t
    return G, H


def check_second(c, F, o, res, mean, G, H, mom, what, loc, keys, check_mean=True, check_deriv=True):
    ob = F.read(res)
    facts = o.st.facts
    ok = True
    if check_mean:
        ok &= eq(c, ob.mean, mean, facts, '%s: first-order mean' % what, loc)
    if check_deriv:
        ks = list(keys) + [k for k in ob.grad if k not in keys]
        for k in ks:
            ok &= eq(c, ob.grad.get(k, ZERO), G.get(k, ZERO), facts, '%s: gradient on variable %s' % (what, kname(k)), loc)
        ks = korder(ks) if all(k in K for k in ks) else ks
        for i, a in enumerate(ks):
            for b in ks[i:]:
                got = [v for (p, q), v in ob.hess.items() if (p, q) in ((a, b), (b, a))]
                if len(got) > 1 and a is not b:
                    c.violation('%s: Hessian entry (%s, %s) is stored twice' % (what, kname(a), kname(b)), loc)
                    ok = False
                    continue
                if a is not b and (b, a) in ob.hess:
                    c.violation('%s: Hessian entry stored with ids in the wrong order (%s, %s)' % (
                        what, kname(b), kname(a)), loc)
                    ok = False
                    continue
                ok &= eq(c, got[0] if got else ZERO, hget(H, a, b), facts,
                         '%s: Hessian on variables %s, %s' % (what, kname(a), kname(b)), loc)
        for p, q in ob.hess:
            for k in (p, q):
                if k not in ob.grad:
                    c.violation('%s: off-diagonal Hessian entry for variable %s which has no gradient record' % (
                        what, kname(k)), loc)
                    ok = False
    if mom is not None:
        for k, vs in mom.items():
            # moments matter only where the variable is present
            if k not in ob.mom:
                continue
            for n in range(6):
                ok &= eq(c, ob.mom[k][n], vs[n], facts, '%s: moment %d of variable %s' % (what, n + 3, kname(k)), loc)
    return ok
