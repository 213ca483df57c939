"""Obligations: declaration, execution on all cores, verdict, evidence."""
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from prog import VERIF, REPO, AnalysisError, FrontendError
import vm as V
import digits
import sizes

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
TASK_LIMIT = 3000 if THOROUGH else 240


class Undecided(Exception):
    pass


class Timeout(Exception):
    pass


class Ctx:
    """collects what one obligation saw"""

    def __init__(self):
        self.fail = []
        self.und = []
        self.paths = 0
        self.compared = 0
        self.how = {}
        self.fns = set()
        self.steps = 0
        self.notes = []
        self.sample = None

    def violation(self, what, loc='?', **kw):
        d = {'what': what, 'at': loc}
        d.update(kw)
        self.fail.append(d)

    def undecided(self, why):
        self.und.append(why)


class Task:
    def __init__(self, name, fn, group=None):
        self.name = name
        self.fn = fn
        self.group = group or name.split('/')[0]


TASKS = []


def _alarm(sig, frm):
    raise Timeout()


def _run(i):
    t = TASKS[i]
    c = Ctx()
    t0 = time.time()
    digits.ON[0] = 0
    sizes.COV.clear()
    V.lib_race(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT)
    try:
        t.fn(c)
    except V.Unsupported as e:
        c.und.append('outside the analysed fragment: %s' % (e.args[0] if e.args else '?'))
    except Undecided as e:
        c.und.append(str(e))
    except Timeout:
        c.und.append('time limit of the obligation reached')
    except V.Prune:
        pass
    except RecursionError:
        c.und.append('expression too deep')
    except Exception:
        tb = traceback.format_exc().strip().splitlines()
        c.und.append('internal: ' + ' | '.join(tb[-4:]))
    finally:
        signal.alarm(0)
    return {'name': t.name, 'group': t.group, 'fail': c.fail, 'und': c.und, 'paths': c.paths, 'compared': c.compared,
            'how': c.how, 'fns': sorted(c.fns), 'steps': c.steps, 'wall': round(time.time() - t0, 2),
            'notes': c.notes, 'sample': c.sample, 'cov': {k: sorted(v) for k, v in sizes.COV.items()}}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


START = time.time()
BUDGET = None if THOROUGH else 600      # seconds for all obligations of a check
ENOUGH = 24                             # broken obligations after which the rest is not analysed


def _all(order):
    order = list(order)
    n = len(order)
    if n == 0:
        return []
    if n == 1:
        return [_run(i) for i in order]
    ctx = multiprocessing.get_context('fork')
    res, bad, why = [], 0, None
    with ctx.Pool(min(8, n), maxtasksperchild=200) as pool:
        it = pool.imap_unordered(_run, order)
        for _ in range(n):
            try:
                r = it.next(None if BUDGET is None else max(0.1, START + BUDGET - time.time()))
            except multiprocessing.TimeoutError:
                why = 'time limit of the check reached'
                break
            res.append(r)
            bad += 1 if r['fail'] else 0
            if bad >= ENOUGH:
                why = 'not analysed: %d obligations are broken already' % bad
                break
        pool.terminate()
    if why:
        done = {r['name'] for r in res}
        for i in order:
            if TASKS[i].name not in done:
                res.append({'name': TASKS[i].name, 'group': TASKS[i].group, 'fail': [], 'und': [why], 'paths': 0, 'compared': 0,
                            'how': {}, 'fns': [], 'steps': 0, 'wall': 0, 'notes': [], 'sample': None, 'cov': {}})
    return res


def _long(res):
    """the obligations once more where a container size is compared with a constant and only one answer was met"""
    out = {}
    who = {}
    for r in res:
        for k, v in r['cov'].items():
            out.setdefault(k, set()).update(() if r['und'] else v)
            who.setdefault(k, set()).add(r['name'])
    one = {k for k, v in out.items() if len(v) < 2}
    if not one or any(r['fail'] for r in res):
        return []
    sizes.FLAG.update(one)
    names = set().union(*(who[k] for k in one))
    try:
        more = _all([i for i, t in enumerate(TASKS) if t.name in names])
    finally:
        sizes.FLAG.clear()
        sizes.FLAG.update(one)
    for r in more:
        r['name'] += '@long'
        for x in r['fail']:
            x['what'] = 'with containers of more elements than the code compares with (%s): %s' % (', '.join(sorted(one)), x['what'])
    return more


def main(pid, tasks, rule, level='other', assumptions=(), floors=None, extra=None, technique=''):
    """floors: {group prefix: minimal number of obligations}: vanished anchors are an error, not a pass"""
    global TASKS
    t0 = time.time()
    TASKS = tasks
    res = _all(range(len(tasks)))
    long_ = _long(res)
    if long_:
        print('NOTE: analysed again for containers beyond a fixed number of elements: ' + ', '.join(sorted(sizes.FLAG)))
        res += long_
    n = len(res)
    res.sort(key=lambda r: r['name'])
    viol = [r for r in res if r['fail']]
    und = [r for r in res if not r['fail'] and r['und']]
    held = [r for r in res if not r['fail'] and not r['und']]
    known = known_findings(pid)
    listed, fresh = [], []
    for r in viol:
        k = [x for x in known if x[0] == r['name']]
        (listed if k else fresh).append(r)
    for r in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, r['name'], r['fail'][0]['what']))
    outdir = os.path.join(VERIF, 'build', 'violations')
    os.makedirs(outdir, exist_ok=True)
    rp = os.path.join(outdir, pid + '.json')
    if os.path.exists(rp):
        os.remove(rp)
    fns = set()
    how = {}
    for r in res:
        fns.update(r['fns'])
        for k, v in r['how'].items():
            how[k] = how.get(k, 0) + v
    groups = {}
    for r in res:
        g = groups.setdefault(r['group'], {'obligations': 0, 'discharged': 0})
        g['obligations'] += 1
        g['discharged'] += 1 if not r['fail'] and not r['und'] else 0
    wall = time.time() - t0
    cov = {
        'explanation': 'Static analysis. Rule: ' + rule,
        'evaluations': n,
        'distinct_nontrivial': sum(1 for r in res if r['compared']),
        'rule': 'one evaluation = one static obligation (a function, an abstract input pattern and the rule); '
                'non-trivial when at least one abstract result was compared with the specification',
        'obligations': n,
        'discharged': len(held),
        'undecided': len(und),
        'groups': groups,
        'abstract_paths': sum(r['paths'] for r in res),
        'comparisons': sum(r['compared'] for r in res),
        'decided_by': how,
        'analysed_functions': len(fns),
        'functions': sorted(fns)[:400],
        'abstract_steps': sum(r['steps'] for r in res),
        'samples': [r['sample'] or r['name'] for r in held[:: max(1, len(held) // 6)]][:6],
        'undecided_obligations': [{'name': r['name'], 'why': r['und'][:2]} for r in und][:40],
    }
    if extra:
        cov.update(extra)
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in und[:12]:
        print('UNDECIDED %s: %s' % (r['name'], '; '.join(r['und'][:2])))
    if fresh:
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'rule': rule, 'violations': fresh}, f, indent=1, default=str)
        for r in fresh[:12]:
            for x in r['fail'][:2]:
                print('  %s  %s: %s' % (x.get('at', '?'), r['name'], x['what']))
                for k, v in x.items():
                    if k not in ('what', 'at'):
                        print('      %s: %s' % (k, v))
        if len(fresh) > 12:
            print('  ... and %d more obligations' % (len(fresh) - 12))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.stdout.flush()
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %d abstract paths, %.1f s' % (
        pid, n, len(held), len(und), cov['abstract_paths'], wall))
    for g, lo in (floors or {}).items():
        k = sum(1 for r in res if r['name'].startswith(g) and not r['und'])
        if k < lo:
            print('NOTE: only %d decided obligations for %s (%d expected)' % (k, g, lo))
        if not any(r['name'].startswith(g) for r in res):
            print('ERROR: no obligation for %s' % g)
            return 2
    if n == 0 or sum(1 for r in und if not r['name'].endswith('@long')) * 2 > n:
        print('ERROR: no answer: %d of %d obligations undecided' % (len(und), n))
        return 2
    return 0


def guard(pid, f):
    try:
        return f()
    except FrontendError as e:
        print('ERROR: %s' % e)
        print(e.err[:3000])
        return 2
    except AnalysisError as e:
        print('ERROR: %s' % e)
        return 2
