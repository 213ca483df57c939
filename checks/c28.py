"""C28: operation cost follows the documented complexity."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation with summarised (arbitrarily large) coefficient tables, recording where a traversal or copy of an '
        "operand's table begins: no place in the code may begin a traversal or copy of the same table twice within one operation "
        '(a traversal inside a loop over another table), an in-place sum may not traverse or copy the left table at all, and a '
        'query of a cached standard deviation may not traverse again')


class Monitor(V.Monitor):
    def __init__(self, vm):
        self.vm = vm
        self.st = None
        self.again = []
        self.seen = set()

    def note(self, st, m, how, place, loc):
        if m.label is None:
            # a table made on the way: no entry may be passed over twice from the same place
            new = {(how, k.name) + place for k in m.ent if isinstance(k, Key) and not k.temp}
            if new & st.trav:
                self.again.append(('an intermediate result', how, loc))
            st.trav = st.trav | new
            return
        site = (how, m.label) + place
        self.seen.add((m.label, how, loc))
        if site in st.trav:
            self.again.append((m.label, how, loc))
        st.trav = st.trav | {site}

    def place(self, st):
        return tuple((f.code.fnid, f.pc) for f in st.frames)

    def here(self, st):
        fr = st.frames[-1]
        node = fr.code.lines[min(fr.pc, len(fr.code.lines) - 1)]
        return '%s (%s)' % (self.vm.p.loc(node) if node else '?', fr.code.name)

    def begin(self, st):
        """mark of an iterator to the beginning; it counts once the iterator moves"""
        return (self.place(st), self.here(st))

    def step(self, st, m, src):
        self.note(st, m, 'traversal', *src)

    def copy(self, m):
        if self.st is not None:
            self.note(self.st, m, 'copy', self.place(self.st), self.here(self.st))


def operand(F, vm, kind, tag):
    """kind: C, I1, I2, D1 (table of one), D12, O (any number), O1 (any number, K1 among them), Oc (cached)"""
    if kind[0] == 'O':
        k = [K[0], K[1]]
        o = build_open(F, vm, tag, k, k[:1] if '1' in kind else [], cached='c' in kind)
    else:
        o = build(F, vm, (kind[0], tuple(int(i) - 1 for i in kind[1:])), tag)
    o[0].f[F.f_map].label = tag
    return o[0]


def watch(F, fn, mk, kx, ky, what, never=(), twice=False):
    """run an operation under the monitor; `never`: tables that must not be traversed at all;
    twice: run the query once before, unwatched"""
    def run(c):
        vm = F.vm()
        x = operand(F, vm, kx, 'x')
        y = operand(F, vm, ky, 'y')
        st = newstate([K[0], K[1]])
        st.open = True
        st.roots['x'], st.roots['y'] = x, y
        loc = where(F, fn)
        sts = [st]
        if twice:
            vm.start(F.fn(fn)['id'], mk(x, y), st)
            sts = []
            for o in vm.run(st):
                if o.kind == 'ret':
                    o.st.frames = []
                    sts.append(o.st)
        for st in sts:
            vm = F.vm()
            mon = Monitor(vm)
            vm.start(F.fn(fn)['id'], mk(st.roots['x'], st.roots['y']), st)
            V.MON = mon
            try:
                outs = vm.run(st)
            finally:
                V.MON = None
            account(c, vm)
            c.compared += 1
            c.paths += len(outs)
            for o in outs:
                if o.kind not in ('ret', 'throw') and not infeasible(o):
                    badout(c, o, what)
            for lab, how, l in sorted(set(mon.again)):
                c.violation('%s: a %s of the table of %s begins again for every step of a loop' % (what, how, lab), l)
            for lab, how, l in sorted(mon.seen):
                if lab in never:
                    c.violation('%s: %s of the whole table of %s%s' % (
                        what, how, lab, ', although the standard deviation was computed and stored before' if twice else
                        ', which an in-place sum leaves alone'), l)
        c.sample = what
    return run


def listed(F, ks):
    """nary of several variables without common sources: every coefficient is handled a fixed number of times"""
    def run(c):
        vm = F.vm()
        xs = [operand(F, vm, k, 'x%d' % i) for i, k in enumerate(ks)]
        what = 'nary of %s' % ', '.join(ks)
        st = newstate()
        vm.start(F.fn('u_nary3')['id'], [Ptr(Arr(None, xs), 0), sym('f'), Ptr(Arr(None, [Cell(sym('d%d' % i)) for i in range(3)]), 0)],
                 st)
        V.MON = mon = Monitor(vm)
        try:
            outs = vm.run(st)
        finally:
            V.MON = None
        account(c, vm)
        c.compared += 1
        c.paths += len(outs)
        for lab, how, l in sorted(set(mon.again)):
            c.violation('%s: a %s of the table of %s begins again for every argument' % (what, how, lab), l)
        c.sample = what
    return run


def two(*extra):
    return lambda x, y: [x, y] + list(extra)


def one(*extra):
    return lambda x, y: [x] + list(extra)


def ptrs(x, y):
    return [Ptr(Arr(None, [x, y]), 0), sym('f'), Ptr(Arr(None, [Cell(sym('a')), Cell(sym('b'))]), 0)]


OPS1 = {'s': ('u_s', one()), 's const': ('u_s_const', one()), 'var': ('u_var', one()), 'var const': ('u_var_const', one()),
        'unary': ('u_unary', one(sym('f'), sym('d'))), '-x': ('u_neg', one()), 'copy': ('u_copy', one()),
        'change_nom': ('u_change', one(sym('n'))), 'conversion': ('u_conv', one()), 'x+r': ('u_iadd_r', one(sym('r'))),
        'exp': ('m_exp', one()), 'sin': ('m_sin', one()), 'x*=x': ('u_imul', lambda x, y: [x, x]), 'x/=r': ('u_idiv_r', one(sym('r', 0))),
        'x+x': ('u_add', lambda x, y: [x, x]), 'cov(x,x)': ('u_cov', lambda x, y: [x, x])}
OPS2 = {'x+y': ('u_add', two()), 'x-y': ('u_sub', two()), 'x*y': ('u_mul', two()), 'x/y': ('u_div', two()),
        'binary': ('u_binary', two(sym('f'), sym('a'), sym('b'))), 'nary': ('u_nary2', ptrs), 'cov': ('u_cov', two()),
        'corr': ('u_corr', two()), 'x*=y': ('u_imul', two()), 'x/=y': ('u_idiv', two()), 'x+=y': ('u_iadd', two()),
        'x-=y': ('u_isub', two()), 'binary_assign': ('u_binary_assign', two(sym('f'), sym('a'), sym('b'))),
        'x=y': ('u_assign', two()), 'grad': ('u_grad', two()), 'pow': ('m_pow', two()), 'atan2': ('m_atan2', two())}
SUMS = {'x+=y': ('u_iadd', two()), 'x-=y': ('u_isub', two()),
        'binary_assign with derivative 1 on the left': ('u_binary_assign', two(sym('f'), ONE, sym('b')))}
CACHED = {'s': ('u_s', one()), 'var': ('u_var', one())}


def tasks():
    F = First(program('first.cpp'))

    def has(fn):
        try:
            F.fn(fn)
            return True
        except Exception:
            return False
    ts = []
    for n, (fn, mk) in OPS1.items():
        if has(fn):
            for kx in ('O', 'O1', 'Oc'):
                ts.append(Task('one/%s/%s' % (n, kx), watch(F, fn, mk, kx, 'C', '%s with x on any number of variables' % n)))
    for n, (fn, mk) in OPS2.items():
        if has(fn):
            for kx, ky in (('O', 'O'), ('O1', 'O1'), ('O', 'I1'), ('I1', 'O1'), ('O1', 'C'), ('C', 'O'), ('Oc', 'D12'), ('D12', 'Oc')):
                if n == 'grad' and ky[0] == 'O':
                    continue
                ts.append(Task('two/%s/%s,%s' % (n, kx, ky), watch(F, fn, mk, kx, ky, '%s with x %s, y %s' % (n, kx, ky))))
    for ks in (('D1', 'D2', 'D3'), ('I1', 'D2', 'I3'), ('D12', 'I3', 'D4')):
        ts.append(Task('list/nary/%s' % ','.join(ks), listed(F, ks)))
    for n, (fn, mk) in SUMS.items():
        for kx in ('O', 'O1', 'Oc'):
            for ky in ('C', 'I1', 'I2', 'D1', 'D12', 'O', 'O1'):
                ts.append(Task('sum/%s/%s,%s' % (n, kx, ky), watch(F, fn, mk, kx, ky, '%s with x %s, y %s' % (n, kx, ky), never=('x',))))
    for n, (fn, mk) in CACHED.items():
        for kx in ('D12', 'D1', 'I1'):
            ts.append(Task('cached/%s/%s' % (n, kx), watch(F, fn, mk, kx, 'C', 'second %s of a variable' % n, never=('x',), twice=True)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C28', lambda: main('C28', tasks(), RULE, floors={'one': 20, 'two': 60, 'sum': 20, 'cached': 2, 'list': 3},
                                       assumptions=['lookups and insertions in a sorted map count as constant up to logarithms',
                                                    'work on tables created inside an operation is not bounded separately'])))
