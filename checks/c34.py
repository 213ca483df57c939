"""C34: independent first-order variables and constants never use the heap."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of construction, copy, assignment, conversion, reading and one-argument functions of independent '
        'first-order variables and constants under a monitor of container growth: on no path is an entry put into a table, a '
        'table with entries copied or another container given elements, and the table of the result has no entry')

GROW = {'std::vector': ('vector', 'push_back', 'emplace_back', 'resize', 'reserve', 'insert', 'emplace', 'assign', 'operator='),
        'std::list': ('list', 'push_back', 'push_front', 'emplace_back', 'insert', 'resize', 'assign'),
        'std::deque': ('deque', 'push_back', 'push_front', 'emplace_back', 'insert', 'resize', 'assign')}
MAKE = ('std::make_shared', 'std::make_unique', 'std::allocate_shared', 'std::allocator::allocate', 'operator new', 'malloc', 'calloc')


class Heap(V.Monitor):
    def __init__(self, vm):
        self.vm = vm
        self.seen = {}

    def here(self):
        st = self.st
        if st is None or not st.frames:
            return '?'
        fr = st.frames[-1]
        node = fr.code.lines[min(fr.pc, len(fr.code.lines) - 1)]
        return self.vm.p.loc(node) if node else '?'

    def hit(self, what):
        self.seen.setdefault((what, self.here()), []).append(self.st)

    def copy(self, m):
        if m.ent:
            self.hit('a table with entries is copied')

    def grow(self, m):
        self.hit('an entry is put into a table')

    def model(self, st, ref, args, value):
        q = ref['sqn']
        if q in MAKE:
            self.hit('call of ' + q)
            return
        cls, _, name = q.rpartition('::')
        if name in GROW.get(cls, ()):
            if name == cls[5:] and not getattr(value, 'items', None):
                return
            self.hit('%s of a %s' % ('construction' if name == cls[5:] else name, cls))


def work(F, fn, args, what, setup=None):
    def run(c):
        vm = F.vm()
        a = args(F, vm)
        st = newstate()
        for i, x in enumerate(a):
            if isinstance(x, Struct):
                st.roots['xyz'[i]] = x
        vm.start(F.fn(fn)['id'], a, st)
        V.MON = mon = Heap(vm)
        try:
            outs = vm.run(st)
        finally:
            V.MON = None
        account(c, vm)
        loc = where(F, fn)
        bad = {}
        for (w, l), sts in mon.seen.items():
            for s in sts:
                bad.setdefault(id(s), (w, l))
        n = 0
        for o in outs:
            if o.kind == 'ret' and infeasible(o):
                continue
            c.paths += 1
            if o.kind == 'throw':
                continue
            if badout(c, o, what):
                continue
            n += 1
            c.compared += 1
            if id(o.st) in bad:
                c.violation('%s: %s' % (what, bad[id(o.st)][0]), bad[id(o.st)][1])
                continue
            for nm, v in [('result', o.value)] + sorted(o.st.roots.items()):
                if isinstance(v, Struct) and any(isinstance(m, MapObj) and (m.ent or m.open) for m in v.f.values()):
                    c.violation('%s: the %s holds a table with entries' % (what, nm), loc)
        if not n:
            c.undecided('%s: no path returns' % what)
        elif bad and not c.fail and not any(id(o.st) in bad for o in outs):
            # seen on a state that went on as a copy of itself
            c.violation('%s: %s' % (what, next(iter(bad.values()))[0]), next(iter(bad.values()))[1])
        c.sample = what
    return run


def tasks():
    F = First(program('first.cpp'))
    ts = []
    I, C = ('I', (0,)), ('C', ())
    op = lambda k, t: (lambda F, vm: build(F, vm, k, t)[0])

    def add(name, fn, mk, what):
        try:
            F.fn(fn)
        except Exception:
            return
        ts.append(Task(name, work(F, fn, lambda F, vm: [m(F, vm) if callable(m) else m for m in mk], what)))
    for sn, s in (('zero', ZERO), ('positive', sym('s', 0))):
        add('make/%s' % sn, 'u_make', [sym('n'), s], 'UReal(n, s) with %s s' % sn)
    add('make/number', 'u_make1', [sym('n')], 'UReal(n)')
    add('make/default', 'u_make0', [], 'UReal()')
    for kn, k in (('independent', I), ('constant', C)):
        for fn, extra in (('u_n', []), ('u_s_const', []), ('u_s', []), ('u_nom', []), ('u_sdev', []), ('u_isindep', []), ('u_indepid', []),
                          ('u_var_const', []), ('u_var', []), ('u_copy', []), ('u_change', [sym('m')]), ('u_conv', []),
                          ('u_unary', [sym('f'), sym('d')]), ('u_unary', [sym('f'), ZERO]), ('u_neg', []), ('u_pos', []),
                          ('m_isfinite', []), ('m_isnormal', [])):
            add('one/%s/%s%s' % (fn[2:], kn, '/zero' if extra and extra[-1] is ZERO else ''), fn, [op(k, 'x')] + extra,
                '%s of a variable (%s)' % (fn[2:], kn))
        for f in F.P.d['functions']:
            if f['qn'].startswith(F.prefix + 'm_') and len(f['params']) == 1 and f['qn'] not in (F.prefix + 'm_isfinite', F.prefix + 'm_isnormal'):
                fn = f['qn'][len(F.prefix):]
                add('math/%s/%s' % (fn[2:], kn), fn, [op(k, 'x')], '%s of a variable (%s)' % (fn[2:], kn))
        for k2n, k2 in (('independent', I), ('other', ('I', (1,))), ('constant', C)):
            for fn in ('u_cov', 'u_corr', 'u_grad', 'u_assign'):
                if fn == 'u_grad' and k2 is C:
                    continue
                add('two/%s/%s,%s' % (fn[2:], kn, k2n), fn, [op(k, 'x'), op(k2, 'y')], '%s of variables (%s, %s)' % (fn[2:], kn, k2n))
        for fn in ('u_assign',):
            def same(F, vm, k=k):
                x = build(F, vm, k, 'x')[0]
                return [x, x]
            ts.append(Task('self/%s/%s' % (fn[2:], kn), work(F, fn, same, '%s of a variable to itself (%s)' % (fn[2:], kn))))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C34', lambda: main('C34', tasks(), RULE, floors={'make': 4, 'one': 20, 'math': 40, 'two': 12, 'self': 2}, assumptions=[
        'a map without entries owns no memory (as in the standard libraries in use)', 'a path that ends with an exception may allocate'])))
