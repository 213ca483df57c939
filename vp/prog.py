"""Loading of the typed tree produced by the clang dumper."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = ['clang++', '-std=c++11', '-I' + REPO, '-isystem', '/usr/include/eigen3']


class AnalysisError(Exception):
    """the machinery cannot give an answer (exit code 2)"""


def strip_targs(s):
    if '<' not in s:
        return s
    if 'operator' in s:
        i = s.rindex('operator')
        head, tail = s[:i], s[i:]
        m = re.match(r'operator\s*(<<=|>>=|<=|>=|<<|>>|->\*|->|<|>|\(\)|\[\]|[^\w\s<]+|new|delete|)(.*)', tail)
        if m and m.group(1):
            return strip_targs(head) + 'operator' + m.group(1)
        return strip_targs(head) + tail
    out = []
    depth = 0
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out)


def dumper():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'frontend', 'dump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'dump-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['bash', os.path.join(VERIF, 'frontend', 'build.sh'), tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build the dumper: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


class Program:
    def __init__(self, driver, defines=(), prefixes=None):
        self.driver = driver
        if prefixes is None:
            prefixes = [REPO + '/uncertainties', VERIF + '/tu']
        path = os.path.join(VERIF, 'tu', driver)
        cmd = [dumper(), ','.join(prefixes)] + CXX + ['-D' + d for d in defines] + ['-I' + os.path.join(VERIF, 'tu'),
                                                                                    '-fsyntax-only', path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.dropped = []
        if r.returncode or not r.stdout.strip():
            r = self.retry(cmd, r, path)
        d = json.loads(r.stdout)
        self.d = d
        self.types = d['types']
        self.files = d['files']
        self.fnrefs = {x['id']: x for x in d['fnrefs']}
        self.functions = {x['id']: x for x in d['functions']}
        self.records = {x['rid']: x for x in d['records']}
        self.vars = {}
        for v in d['vars']:
            if v['id'] not in self.vars or 'init' in v or v.get('def') == 1:
                old = self.vars.get(v['id'])
                if old and 'init' in old and 'init' not in v:
                    continue
                self.vars[v['id']] = v
        self.by_name = {}
        for f in d['functions']:
            self.by_name.setdefault(f['qn'], []).append(f)
        for x in self.fnrefs.values():
            x['sqn'] = strip_targs(x['qn'])
        for t in self.types:
            if t and t.get('k') == 'rec':
                t['sqn'] = strip_targs(t['qn'])

    def retry(self, cmd, r, path):
        """an instantiation is rejected: leave out the driver lines concerned (C23 reports them) and try again"""
        first = r.stderr
        tmp = tempfile.mkdtemp(prefix='vptu')
        try:
            tus = os.path.join(VERIF, 'tu')
            for f in os.listdir(tus):
                shutil.copy(os.path.join(tus, f), os.path.join(tmp, f))
            for attempt in range(12):
                bad = {}
                for l in r.stderr.splitlines():
                    m = re.match(r'(?:In file included from )?(\S+?):(\d+)(?::\d+: (error|note: in instantiation))?', l)
                    if m and m.group(3) and os.path.dirname(os.path.abspath(m.group(1))) in (tus, tmp):
                        bad.setdefault(os.path.basename(m.group(1)), set()).add(int(m.group(2)))
                if not bad:
                    break
                for f, lines in bad.items():
                    q = os.path.join(tmp, f)
                    ls = open(q).read().split('\n')
                    for n in lines:
                        if ls[n - 1].strip() and not ls[n - 1].startswith('//'):
                            self.dropped.append('%s:%d %s' % (f, n, ls[n - 1].strip()[:80]))
                            ls[n - 1] = '//'
                    open(q, 'w').write('\n'.join(ls))
                c2 = [x.replace(tus, tmp) for x in cmd]
                r = subprocess.run(c2, capture_output=True, text=True)
                if not r.returncode and r.stdout.strip():
                    sys.stderr.write('note: rejected by the front end and left out: %s\n' % '; '.join(self.dropped)[:400])
                    return r
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        raise FrontendError(self.driver, first)

    def fn(self, qn):
        l = self.by_name.get(qn)
        if not l:
            raise AnalysisError('%s: function %s not found' % (self.driver, qn))
        return l[0]

    def loc(self, node):
        if 'L' not in node:
            return '?'
        f = self.files[node['F']]
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        elif f.startswith(VERIF + '/'):
            f = f[len(VERIF) + 1:]
        return '%s:%d' % (f, node['L'])


class FrontendError(Exception):
    def __init__(self, driver, err):
        Exception.__init__(self, 'front end rejects %s' % driver)
        self.driver = driver
        self.err = err
