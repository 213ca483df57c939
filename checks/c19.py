"""C19: correlated variables have the requested means and covariances."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
from runner import Task, main, guard, THOROUGH
from c10 import total

RULE = ('abstract interpretation of ureals on symbolic means and covariances with the pivoted LDLT decomposition replaced by '
        'its contract (reads one triangle, answers unit lower L, D >= 0 and any transpositions P with A = P^T L D L^T P); the '
        'triangle read must be the documented one of the input, and means and all pairwise covariances of the abstract result '
        'must equal the input means and P^T L D L^T P')


def contract(n, tr, dzero):
    L = [[ONE if i == j else sym('L%d%d' % (i, j)) if i > j else ZERO for j in range(n)] for i in range(n)]
    D = [ZERO if i in dzero else sym('d%d' % i, 0) for i in range(n)]
    return {'info': 0, 'positive': True, 'L': L, 'D': D, 'tr': list(tr)}


def recompose(n, r):
    """P^T L D L^T P"""
    M = [[total([cas.mul(cas.mul(r['L'][i][k], r['L'][j][k]), r['D'][k]) for k in range(n)]) for j in range(n)] for i in range(n)]
    p = list(range(n))
    # rows of P^T M: transpositions applied in reverse order
    for k in range(n - 1, -1, -1):
        j = r['tr'][k]
        p[k], p[j] = p[j], p[k]
    return [[M[p[i]][p[j]] for j in range(n)] for i in range(n)]


def vec(vm, F, pos, vals):
    return V.Arr(vm.unref(F.fn('w_ureals')['params'][pos]['t']), [Cell(v) for v in vals])


def task(F, n, tr, dzero):
    def run(c):
        r = contract(n, tr, dzero)
        eigen.SPEC['ldlt'] = lambda k: r if k == n else contract(k, range(k), ())
        vm = F.vm()
        mu = [sym('mu%d' % i) for i in range(n)]
        cov = [sym('c%d' % i) for i in range(n * n)]
        loc = where(F, 'w_ureals')
        what = 'ureals of %d variables, transpositions %s%s' % (n, list(tr), ', zero pivots %s' % list(dzero) if dzero else '')
        want = recompose(n, r)
        for o in call(vm, F, 'w_ureals', [vec(vm, F, 0, mu), vec(vm, F, 1, cov)], newstate([])):
            if infeasible(o):
                continue
            c.paths += 1
            if badout(c, o, what):
                continue
            ev = [e for e in o.st.events if e[0] == 'ldlt']
            c.compared += 1
            if not ev:
                raise Undecided('no decomposition of the covariance matrix was seen')
            for e in ev:
                if e[1] != n:
                    c.violation('%s: a matrix of size %d is decomposed' % (what, e[1]), loc)
                    continue
                for i, j, v in e[2]:
                    eq(c, v, cov[i + n * j], o.st.facts, '%s: element (%d,%d) of the matrix' % (what, i, j), loc)
            if len(o.value.items) != n:
                c.violation('%s: %d variables' % (what, len(o.value.items)), loc)
                continue
            obs = [F.read(x) for x in o.value.items]
            for i in range(n):
                eq(c, obs[i].mean, mu[i], o.st.facts, '%s: mean %d' % (what, i), loc)
                for j in range(i + 1):
                    got = total([cas.mul(v, obs[j].coef[k]) for k, v in obs[i].coef.items() if k in obs[j].coef])
                    eq(c, got, want[i][j], o.st.facts, '%s: covariance (%d,%d)' % (what, i, j), loc)
                if obs[i].cache is not None:
                    eq(c, cas.mul(obs[i].cache, obs[i].cache), want[i][i], o.st.facts, '%s: standard deviation %d' % (what, i), loc)
        account(c, vm)
        c.sample = what + ': %d means, %d covariances' % (n, n * (n + 1) // 2)
    return run


def reject_task(F, n, m, info, positive):
    def run(c):
        def k(n):
            r = contract(n, range(n), ())
            r['info'] = info
            r['positive'] = positive
            return r
        eigen.SPEC['ldlt'] = k
        vm = F.vm()
        loc = where(F, 'w_ureals')
        what = 'ureals of sizes %d, %d%s%s' % (n, m, '' if not info else ', decomposition fails', '' if positive else ', matrix not positive')
        exp = 'std::invalid_argument' if m != n * n else 'std::runtime_error' if n and (info or not positive) else None
        for o in call(vm, F, 'w_ureals', [vec(vm, F, 0, [sym('mu%d' % i) for i in range(n)]),
                                         vec(vm, F, 1, [sym('c%d' % i) for i in range(m)])], newstate([])):
            if infeasible(o):
                continue
            c.paths += 1
            c.compared += 1
            if exp is None:
                if not badout(c, o, what) and len(o.value.items) != n:
                    c.violation('%s: %d variables' % (what, len(o.value.items)), loc)
            elif o.kind != 'throw' or not lib.catches(exp, o.value):
                c.violation('%s: ends with %s %s instead of %s' % (what, o.kind, '' if o.kind == 'ret' else o.value, exp), loc)
        account(c, vm)
        c.sample = what
    return run


def perms(n):
    return itertools.product(*[range(i, n) for i in range(n)])


def tasks():
    P = program('misc.cpp')
    F = First(P)
    ts = [Task('reject/0-0', reject_task(F, 0, 0, 0, True))]
    for n in range(1, 5 if THOROUGH else 4):
        for tr in perms(n):
            ts.append(Task('covariance/%d/%s' % (n, ''.join(map(str, tr))), task(F, n, tr, ())))
            ts.append(Task('covariance/%d/%s/last-pivot-zero' % (n, ''.join(map(str, tr))), task(F, n, tr, (n - 1,))))
        ts.append(Task('covariance/%d/zero' % n, task(F, n, tuple(range(n)), tuple(range(n)))))
    for tr in list(perms(4))[::5] + [(3, 2, 2, 3), (1, 2, 3, 3), (3, 3, 3, 3)]:
        ts.append(Task('covariance/4/%s' % ''.join(map(str, tr)), task(F, 4, tr, ())))
    ts.append(Task('covariance/5', task(F, 5, (4, 2, 2, 4, 4), ())))
    for n in range(4):
        for m in sorted({0, 1, n, n * n - 1, n * n + 1, n * (n + 1), n * n, 2 * n * n}):
            if m >= 0 and m != n * n:
                ts.append(Task('reject/size-%d-%d' % (n, m), reject_task(F, n, m, 0, True)))
        if n:
            ts.append(Task('reject/failed-%d' % n, reject_task(F, n, n * n, 1, True)))
            ts.append(Task('reject/failed-%d-notpositive' % n, reject_task(F, n, n * n, 1, False)))
            ts.append(Task('reject/notpositive-%d' % n, reject_task(F, n, n * n, 0, False)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C19', lambda: main('C19', tasks(), RULE, floors={'covariance': 2, 'reject': 3}, assumptions=[
        'the pivoted LDLT decomposition of Eigen meets its contract', 'real arithmetic: rounding is not modelled',
        'up to three variables with every pivot order (thorough: four), selected orders for four and five'])))
