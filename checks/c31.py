"""C31: finite / normal classification looks at everything."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from model import *
from runner import Task, main, guard, THOROUGH

RULE = ('abstract interpretation of isfinite and isnormal with the class of every number unknown: on every path that answers true each '
        'number that counts has been asked about and found finite (normal), on every path that answers false at least one of them was '
        'found not to be')


def known(o, name, v):
    """class of the number on this path: True, False or None"""
    if v is ZERO or isinstance(v, Num) and v.const() is not None:
        return name == 'isfinite' or v.const() != 0
    if cas.equal(v, ZERO, o.st.facts)[0] == 'eq':
        return name == 'isfinite'
    for (n, a), r in o.st.cls:
        if n == name and any(cas.equal(a, w, o.st.facts)[0] == 'eq' for w in (v, cas.neg(v))):
            return r
    return None


def compared(o, v):
    """a branch on the path compares the number with something other than zero"""
    a = set(v.atoms()) if isinstance(v, Num) else set()
    return any(isinstance(p, Num) and a & set(p.atoms()) and cas.equal(p, v, [])[0] != 'eq' and cas.equal(p, cas.neg(v), [])[0] != 'eq'
               for _, p in o.st.facts)


def judge(c, o, name, need, what, loc):
    c.compared += 1
    if not isinstance(o.value, (bool, int)):
        c.undecided('%s: answer %r' % (what, o.value))
        return
    cls = [(lab, known(o, name, v)) for lab, v in need]
    adj = name[2:]
    if o.value:
        for lab, k in cls:
            if k is None and compared(o, dict(need)[lab]):
                c.undecided('%s: the %s is compared instead of classified' % (what, lab))
                return
            if k is not True:
                c.violation('%s is true %s' % (what, 'although the %s is not %s' % (lab, adj) if k is False else
                                               'without looking at the %s' % lab), loc)
                return
    elif not any(k is False for _, k in cls):
        if any(compared(o, v) for _, v in need):
            c.undecided('%s: comparisons instead of classification' % what)
            return
        # a quantity outside the list, or zero treated as not finite
        c.violation('%s is false although nothing that counts was found not to be %s' % (what, adj), loc,
                    asked=', '.join('%s(%r)=%s' % (n, v, r) for (n, v), r in o.st.cls)[:300])


def first_task(F, kind, name):
    def run(c):
        lib.CLASSIFY[0] = True
        try:
            vm = F.vm()
            x = build(F, vm, kind, 'x')
            s2 = ZERO
            for v in x[2].values():
                s2 = cas.add(s2, cas.mul(v, v))
            vals = list(x[2].values())
            what = '%s(%s)' % (name, kindname(kind))
            loc = where(F, 'm_' + name)
            outs = call(vm, F, 'm_' + name, [x[0]])
            account(c, vm)
            for o in outs:
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, what):
                    continue
                s = ZERO if not vals else vals[0] if kind[0] == 'I' else cas.fn1('sqrt', s2)
                judge(c, o, name, [('mean', x[1]), ('standard deviation', s)], what, loc)
            c.sample = what
        finally:
            lib.CLASSIFY[0] = False
    return run


def nm(p):
    return '{%s|%s}' % (''.join(str(i + 1) for i in p[0]), ','.join('%d%d' % (i + 1, j + 1) for i, j in p[1]))


def second_task(F, p, name):
    def run(c):
        lib.CLASSIFY[0] = True
        try:
            vm = F.vm()
            x = build2(F, vm, p[0], p[1], 'x')
            what = '%s(%s)' % (name, nm(p))
            loc = where(F, 'm_' + name)
            need = [('first-order mean', x[1])]
            need += [('first derivative with respect to %s' % k.name, v) for k, v in x[2].items()]
            need += [('second derivative with respect to %s and %s' % (a.name, b.name), v) for (a, b), v in x[3].items()]
            outs = call(vm, F, 'm_' + name, [x[0]])
            account(c, vm)
            for o in outs:
                if infeasible(o):
                    continue
                c.paths += 1
                if badout(c, o, what):
                    continue
                judge(c, o, name, need, what, loc)
            c.sample = what
        finally:
            lib.CLASSIFY[0] = False
    return run


def tasks():
    ts = []
    F = First(program('first.cpp'))
    for name in ('isfinite', 'isnormal'):
        for k in kinds([(), (0,), (0, 1), (0, 1, 2)], cached=True):
            ts.append(Task('first/%s/%s' % (name, kindname(k)), first_task(F, k, name)))
    P = program('second.cpp')
    ps = []
    for n in range(4 + (1 if THOROUGH else 0)):
        prs = list(itertools.combinations(range(n), 2))
        for r in range(len(prs) + 1):
            ps += [(tuple(range(n)), q) for q in itertools.combinations(prs, r)]
    ps = [p for p in ps if len(p[0]) < 4 or len(p[1]) in (0, 1, 6)]
    for pre, mode in (('vpe::', 'est'), ('vpm::', 'mean')):
        G = Second(P, pre)
        for name in ('isfinite', 'isnormal'):
            for p in ps:
                ts.append(Task('second/%s/%s/%s' % (mode, name, nm(p)), second_task(G, p, name)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C31', lambda: main('C31', tasks(), RULE, floors={'first': 10, 'second': 30},
                                       assumptions=['arithmetic on infinite values is not evaluated: the standard deviation is taken as '
                                                    'the symbolic square root of the sum of squares'])))
