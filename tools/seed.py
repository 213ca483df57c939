#!/usr/bin/env python3
"""Development aid: plant a bug, confirm it, and keep it under /verif/seeded.

usage: seed.py DEFS.py [id ...]

DEFS.py assigns SEEDS = [dict(id, property, file, edits=[(old, new[, nth])],
needs, what_it_breaks, demo=C++ source, checks=[...]?)].  Everything happens
in a scratch copy of /repo (SCRATCH), never in /repo itself."""
import json, os, subprocess, sys
SCRATCH = os.environ.get('SCRATCH', '/tmp/w/mut')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds, nonzero when the planted bug shows.
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -r "$out"' EXIT
g++ -std=c++11 -w %s-I"$PWD" -isystem /usr/include/eigen3 -o "$out/demo" "$here/demo.cpp" || exit 2
timeout 120 "$out/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def tests():
    sh('rm -f $(make -pn 2>/dev/null | sed -n "s/^tests :\\{0,1\\}= *//p")',
       cwd=SCRATCH + '/test')
    env = dict(os.environ, CPLUS_INCLUDE_PATH='/usr/include/eigen3')
    t = sh('make -pn 2>/dev/null | sed -n "s/^tests :\\{0,1\\}= *//p"',
           cwd=SCRATCH + '/test').stdout.split()
    r = sh('make -k -j8 CC=g++ LDFLAGS="-Wl,--no-as-needed -lmpfr" ' +
           ' '.join(t), cwd=SCRATCH + '/test', env=env)
    bad = []
    for x in t:
        p = os.path.join(SCRATCH, 'test', x)
        if not os.path.exists(p) or sh('timeout 300 ./' + x,
                                       cwd=SCRATCH + '/test').returncode:
            bad.append(x)
    return bad, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- . && git clean -qfdx -e test && git fetch -q '
           '/repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SCRATCH)
        for e in s['edits']:
            f, old, new = e[:3]
            p = os.path.join(SCRATCH, 'uncertainties', f)
            t = open(p).read()
            nth = e[3] if len(e) > 3 else None
            c = t.count(old)
            assert c == 1 or nth, (s['id'], f, c, old)
            if nth:
                i = -1
                for _ in range(nth):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff -- uncertainties', cwd=SCRATCH).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(s.get('demo_sh') or
                                        DEMO_SH % s.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['what_it_breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        bad, log = tests()
        withp = sh('bash %s/demo.sh' % d, cwd=SCRATCH)
        without = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = not bad and withp.returncode != 0 and without.returncode == 0 \
            and withp.returncode != 2
        print(s['id'], 'VALID' if ok else 'INVALID', 'tests failing:', bad,
              'demo patched', withp.returncode, 'unpatched',
              without.returncode)
        if not ok:
            print(withp.stdout[-800:], without.stdout[-800:], log[-800:] if bad else '')
        for c in s.get('checks') or [s['property']]:
            r = sh('VP_REPO=%s python3-vt %s/checks/%s.py' %
                   (SCRATCH, VERIF, c.lower()), env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   ', c, 'exit', r.returncode, v[:1], len(v))
        sys.stdout.flush()
    sh('git checkout -q -- .', cwd=SCRATCH)


if __name__ == '__main__':
    main()
