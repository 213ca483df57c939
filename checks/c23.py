"""C23: the whole public API instantiates and every header stands alone."""
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
import prog
from prog import REPO, VERIF
from runner import Task, main, THOROUGH, Undecided

RULE = ('type-level witnesses: programs that the compiler must accept (each header alone, every ordered pair of headers, whole '
        'orders followed by the whole interface, the interface with built-in and user-defined numerical types and all dialects '
        'since C++11, the documented uses) and sets of translation units that must link; a rejected witness names the construct')

PUBLIC = ['core', 'distr', 'functions', 'impl', 'io', 'math', 'stat', 'ureal', 'ureal2', 'ureals']
STD = '#include <array>\n#include <map>\n#include <ostream>\n#include <string>\n#include <utility>\n#include <vector>\n'
COMPILERS = {'clang': 'clang++', 'gcc': 'g++'}
FLAGS = ['-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'tu'), '-isystem', '/usr/include/eigen3']


def inc(hs):
    return ''.join('#include <uncertainties/%s.hpp>\n' % h for h in hs)


def api(ns, real, alt, first=True, second=('est', 'mean'), examples=True):
    """uses of the whole interface in namespaces starting with ns"""
    s = '#include <iostream>\n#define VP_REAL %s\n#define VP_ALT %s\n' % (real, alt)
    if first:
        s += '#define VP_NS %s1\n#include "api1.inc"\n#undef VP_NS\n' % ns
    for p in second:
        s += '#define VP_NS %s%s\n#define VP_PROP Prop::%s\n#define VP_OTHER Prop::%s\n#include "api2.inc"\n' % (
            ns, p, p, 'mean' if p == 'est' else 'est')
        s += '#undef VP_NS\n#undef VP_PROP\n#undef VP_OTHER\n'
    if examples:
        s += '#define VP_NS %sx\n#define VP_TYPE %s\n#include "examples.inc"\n#undef VP_NS\n#undef VP_TYPE\n' % (ns, real)
    return s + '#undef VP_REAL\n#undef VP_ALT\n'


def short(e):
    for p in (REPO + '/', VERIF + '/'):
        e = e.replace(p, '')
    return e


def judge(c, what, r):
    """compiler verdict; r = completed process"""
    c.paths += 1
    c.compared += 1
    if r.returncode == 0:
        return True
    errs = [l for l in r.stderr.splitlines() if re.search(r'(fatal )?error:', l) and ':' in l]
    if not errs:
        c.undecided('%s: the compiler fails without a diagnosis: %s' % (what, r.stderr[-200:]))
        return False
    m = re.match(r'(\S+?:\d+):\d+: (?:fatal )?error: (.*)', errs[0])
    loc, msg = (short(m.group(1)), m.group(2)) if m else ('?', errs[0])
    # the construct of the library and the line of the witness
    ins = [short(x.group(1)) for x in (re.match(r'(\S+?:\d+):\d+: note: in instantiation', l) for l in r.stderr.splitlines()) if x]
    c.violation('%s is rejected: %s%s' % (what, msg[:200], ' (instantiated from %s)' % ins[-1] if ins else ''), loc)
    return False


def syntax(comp, std, text, defs=()):
    return subprocess.run([COMPILERS[comp], '-std=c++' + std, '-fsyntax-only', '-x', 'c++'] + ['-D' + d for d in defs] + FLAGS + ['-'],
                          input=text, capture_output=True, text=True)


def witness(what, comp, std, text, defs=()):
    def run(c):
        judge(c, what, syntax(comp, std, text, defs))
        c.sample = '%s, %s, C++%s' % (what, comp, std)
    return run


USES = {     # a minimal use of each header together with the class headers
    'core': 'uncertainties::Id use1() { return uncertainties::invalid_id; }',
    'ureal': 'double use2(const uncertainties::udouble &x) { return (x + x).s() + x.n(); }',
    'ureal2': 'double use3(const uncertainties::udouble2e &x) { return (x + x).s() + x.n(); }',
}
WITH = {     # header: (needs, use)
    'math': (('ureal', 'ureal2'), 'uncertainties::udouble u(const uncertainties::udouble &x) { return sin(x) + pow(x, x); }\n'
             'uncertainties::udouble2e v(const uncertainties::udouble2e &x) { return sin(x) + pow(x, x); }'),
    'io': (('ureal', 'ureal2'), '#include <iostream>\nvoid u(const uncertainties::udouble &x, const uncertainties::udouble2m &y) {'
           ' std::cout << x << y << x.format(2) << format(y) << format(x, 2, "+-"); }'),
    'stat': (('ureal', 'ureal2'), '#include <vector>\nstd::vector<double> u(const std::vector<uncertainties::udouble> &x) {'
             ' return uncertainties::cov_matrix<std::vector<double> >(x); }\n'
             'std::vector<double> v(const std::vector<uncertainties::udouble2e> &x) {'
             ' return uncertainties::corr_matrix<std::vector<double> >(x); }'),
    'functions': (('ureal', 'ureal2'), 'uncertainties::udouble u(const uncertainties::udouble &x) {'
                  ' return uncertainties::uunary<double>([](double x) { return x * x; })(x); }'),
    'distr': (('ureal2',), 'uncertainties::udouble2e u() { return uncertainties::distr::normal<uncertainties::udouble2e>(0, 1); }\n'
              'uncertainties::udouble2m v() { return uncertainties::distr::chisquare<uncertainties::udouble2m>(3); }'),
    'ureals': (('ureal',), '#include <vector>\nstd::vector<uncertainties::udouble> u(const std::vector<double> &m) {'
               ' return uncertainties::ureals<std::vector<uncertainties::udouble> >(m, m); }'),
}


def driver_task(driver, defines=()):
    def run(c):
        P = prog.Program(driver, defines)
        c.paths += 1
        c.compared += 1
        for f in P.d['functions']:
            c.fns.add(prog.strip_targs(f['qn']))
        for l in P.dropped:
            c.violation('the use "%s" is rejected by the front end' % l, 'tu/' + l.split(' ')[0])
        c.sample = '%s: %d functions instantiated' % (driver, len(P.d['functions']))
    return run


def link_task(name, units, comp, defs):
    """units: sources that make up one program"""
    def run(c):
        tmp = tempfile.mkdtemp(prefix='vplink')
        try:
            objs = []
            procs = []
            for i, u in enumerate(units):
                p = os.path.join(tmp, 'u%d.cpp' % i)
                open(p, 'w').write(u)
                objs.append(os.path.join(tmp, 'u%d.o' % i))
                procs.append(subprocess.Popen([COMPILERS[comp], '-std=c++11', '-O0', '-g0', '-c', '-o', objs[-1]] + ['-D' + d for d in defs] +
                                              FLAGS + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
            ok = True
            for i, p in enumerate(procs):
                out, err = p.communicate()
                ok &= judge(c, '%s, unit %d' % (name, i + 1), subprocess.CompletedProcess([], p.returncode, out, err))
            if not ok:
                return
            r = subprocess.run([COMPILERS[comp], '-o', os.path.join(tmp, 'prog')] + objs, capture_output=True, text=True)
            c.compared += 1
            if r.returncode:
                e = [l for l in r.stderr.splitlines() if 'multiple definition' in l or 'undefined reference' in l]
                if not e:
                    raise Undecided('the linker fails: ' + r.stderr[-200:])
                m = re.search(r"(multiple definition of|undefined reference to) [`'](.*?)'", e[0])
                c.violation('%s does not link: %s %s' % (name, m.group(1), m.group(2)) if m else e[0][:200],
                            'uncertainties/impl.hpp')
            c.sample = '%s: %d translation units link' % (name, len(units))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return run


def tasks():
    ts = []
    for h in PUBLIC:
        for comp in COMPILERS:
            for std in ('11', '20') if THOROUGH or comp == 'clang' else ('11',):
                ts.append(Task('alone/%s/%s/c++%s' % (h, comp, std), witness('%s.hpp alone' % h, comp, std, inc([h]) + USES.get(h, ''))))
    for a, b in itertools.permutations(PUBLIC, 2):
        ts.append(Task('pair/%s-%s' % (a, b), witness('%s.hpp before %s.hpp' % (a, b), 'clang', '11', inc([a, b]) + USES.get(a, '') + '\n' + USES.get(b, ''))))
    for h, (needs, use) in WITH.items():
        for k, hs in enumerate(itertools.permutations([h] + list(needs))):
            for comp in COMPILERS:
                ts.append(Task('use/%s/%s/%s' % (h, '-'.join(hs), comp), witness('use of %s.hpp' % h, comp, '11', inc(hs) + use)))
        for n in needs:
            # one of the class headers is enough, as long as only that class is used
            for hs in ((h, n), (n, h)):
                u = {'io': '#include <iostream>\nvoid u(const uncertainties::%s &x) { std::cout << x << x.format(2) << format(x); }',
                     'math': 'uncertainties::%s u(const uncertainties::%s &x) { return exp(x) + atan2(x, x); }',
                     'stat': '#include <vector>\nstd::vector<double> u(const std::vector<uncertainties::%s> &x) {'
                             ' return uncertainties::nom_vector<std::vector<double> >(x); }'}.get(h)
                if u is None:
                    continue
                u = u.replace('%s', 'udouble' if n == 'ureal' else 'udouble2e')
                ts.append(Task('use/%s/only-%s' % (h, '-'.join(hs)), witness('use of %s.hpp with %s.hpp only' % (h, n), 'clang', '11', inc(hs) + u)))
    base = [x for x in PUBLIC]
    orders = []
    for i in range(len(base)):
        orders.append(base[i:] + base[:i])
        orders.append((base[i:] + base[:i])[::-1])
    if THOROUGH:
        import random
        rnd = random.Random(1)
        for i in range(60):
            o = list(base)
            rnd.shuffle(o)
            orders.append(o)
    for o in orders:
        ts.append(Task('order/' + '-'.join(o), witness('the order %s' % ', '.join(o), 'clang', '11',
                                                       inc(o) + STD + api('vo', 'double', 'long double', second=('est',)))))
    for comp in COMPILERS:
        for std in ('11', '14', '17', '20'):
            for real, alt in (('double', 'long double'), ('float', 'double'), ('long double', 'long double')):
                if std not in ('11', '20') and real != 'double' and not THOROUGH:
                    continue
                ts.append(Task('api/%s/c++%s/%s' % (comp, std, real.replace(' ', '_')), witness(
                    'the whole interface with %s' % real, comp, std, STD + inc(base) + api('vi', real, alt))))
    for t in ('mpfr_float', 'cpp_bin_float_50') + (('mpfr_float_50', 'cpp_dec_float_50') if THOROUGH else ()):
        for std in ('11', '17'):
            q = 'boost::multiprecision::' + t
            ts.append(Task('user/%s/c++%s' % (t, std), witness(
                'the whole interface with the user-defined type ' + t, 'clang', std,
                '#define VP_USER\n#include <boost/multiprecision/mpfr.hpp>\n#include <boost/multiprecision/cpp_bin_float.hpp>\n'
                '#include <boost/multiprecision/cpp_dec_float.hpp>\n' + STD + inc(base) + api('vm', q, q))))
    for d in ('first.cpp', 'second.cpp', 'fun.cpp', 'misc.cpp', 'io.cpp', 'all.cpp', 'wide.cpp'):
        ts.append(Task('driver/' + d, driver_task(d)))
    ext = ('UNCERTAINTIES_EXTERN_UDOUBLE', 'UNCERTAINTIES_EXTERN_UDOUBLE2')
    no_impl = [h for h in base if h != 'impl']
    body = lambda ns: api(ns, 'double', 'long double')
    for dn, defs in (('', ()), ('/extern', ext), ('/extern-first', ext[:1]), ('/extern-second', ext[1:])):
        ts.append(Task('link/impl-apart' + dn, link_task('two users and a separate impl.hpp', [
            STD + inc(no_impl) + body('la'), STD + inc(no_impl[::-1]) + body('lb'), '#include <uncertainties/impl.hpp>\nint main() {}\n'],
            'clang', defs)))
        if not dn or THOROUGH:
            ts.append(Task('link/impl-last' + dn, link_task('two users, impl.hpp at the end of one', [
                STD + inc(no_impl) + body('la'), STD + inc(no_impl[::-1]) + body('lb') + inc(['impl']) + 'int main() {}\n'], 'clang', defs)))
            ts.append(Task('link/impl-first' + dn, link_task('two users, impl.hpp first in one', [
                STD + inc(['impl'] + no_impl) + body('la') + 'int main() {}\n', STD + inc(no_impl) + body('lb')], 'gcc', defs)))
    return ts


if __name__ == '__main__':
    sys.exit(main('C23', tasks(), RULE, technique='type-level witnesses (compile and link)',
                  floors={'alone': 20, 'pair': 90, 'use': 20, 'order': 20, 'api': 8, 'user': 2, 'driver': 7, 'link': 3},
                  assumptions=['clang 18 and gcc 13 implement the language', 'the instantiations of the drivers stand for all uses of a template']))
