"""C32: uncertainty is never dropped, mixed up or narrowed by an implicit conversion (compile-fail witnesses)."""
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
from prog import REPO, VERIF
from runner import Task, main, THOROUGH

RULE = ('compile-fail witnesses: programs which drop the uncertainty of a variable, mix the two classes or the two propagation '
        'modes, or convert a second-order variable to a narrower numerical type without saying so, or write through an '
        'accessor; each is typechecked by the compiler against the current headers and must be rejected, while the same '
        'program with matching types (or the explicit form) must be accepted')

FLAGS = ['-w', '-Wc++11-narrowing', '-ferror-limit=0', '-I' + REPO, '-I' + os.path.join(VERIF, 'tu'), '-isystem', '/usr/include/eigen3']
INC = ''.join('#include <uncertainties/%s.hpp>\n' % h for h in ('ureal', 'ureal2', 'math', 'distr', 'stat', 'functions', 'io', 'ureals'))
REALS = {'d': 'double', 'f': 'float', 'l': 'long double'}
DIALECTS = ('11', '20') if THOROUGH else ('11',)


def cls(k, r):
    """spelling of a class: k in first, est, mean"""
    return 'UReal<%s>' % REALS[r] if k == 'first' else 'UReal2<%s, Prop::%s>' % (REALS[r], k)


def run_clang(text, std):
    return subprocess.run(['clang++', '-std=c++' + std, '-fsyntax-only', '-x', 'c++'] + FLAGS + ['-'], input=text,
                          capture_output=True, text=True)


def src(decl, body):
    return INC + 'using namespace uncertainties;\n' + decl + '\n' + body + '\n'


def errors(r):
    return [l for l in r.stderr.splitlines() if re.search(r'(fatal )?error:', l)]


BATCH = []
SEEN = {}


def batch(std):
    """all programs as one: which of the wrong ones have an error on their own line, are all the right ones accepted

    Only a first look: an error inside a template is reported once, so whatever has none here is looked at alone.
    """
    if std not in SEEN:
        bad, good, line = [], [], {}
        head = INC + 'using namespace uncertainties;\n'
        k = head.count('\n')
        for i, (b, g) in enumerate(BATCH):
            bad.append('namespace n%d { %s }' % (i, ' '.join(b)))
            good.append('namespace n%d { %s }' % (i, ' '.join(g)))
            line[k + i + 1] = i
        r = run_clang(head + '\n'.join(bad) + '\n', std)
        hit = {line[int(m.group(1))] for m in (re.match(r'<stdin>:(\d+):\d+: error:', l) for l in r.stderr.splitlines())
               if m and int(m.group(1)) in line}
        SEEN[std] = hit, run_clang(head + '\n'.join(good) + '\n', std).returncode == 0
    return SEEN[std]


def pair(what, bad, good, where):
    """bad and good: programs (declaration, definition); bad has to be rejected, good accepted"""
    k = len(BATCH)
    BATCH.append((bad, good))

    def run(c):
        for std in DIALECTS:
            c.paths += 2
            c.compared += 1
            hit, fine = batch(std)
            if not fine:
                g = run_clang(src(*good), std)
                if g.returncode:
                    c.undecided('%s: the program with matching types is rejected as well: %s' % (what, (errors(g) or ['?'])[0][:160]))
                    return
            if k in hit:
                continue
            b = run_clang(src(*bad), std)
            if b.returncode == 0:
                c.violation('%s compiles' % what, where, program=' '.join(bad).strip())
                return
            if not errors(b):
                c.undecided('%s: the compiler fails without a diagnosis' % what)
                return
        c.fns.add(where)
        c.sample = '%s: rejected, the form with matching types is accepted' % what
    return run


BINARY = ['pow', 'atan2', 'hypot', 'fmax', 'fmin', 'fmod', 'remainder']
OPS = ['+', '-', '*', '/']


def combos():
    """(name, bad types a b, good types) of variables which must not meet"""
    for r in ('d',) + (('f', 'l') if THOROUGH else ()):
        for a, b in (('est', 'mean'), ('mean', 'est'), ('first', 'est'), ('est', 'first'), ('first', 'mean'), ('mean', 'first')):
            yield '%s-%s-%s' % (a, b, r), cls(a, r), cls(b, r), a


def tasks():
    ts = []
    add = lambda name, what, bad, good, where: ts.append(Task(name, pair(what, bad, good, where)))
    prog = lambda ret, params, expr: ('', '%s f(%s) { return %s; }' % (ret, params, expr))
    # plain numbers
    for k in ('first', 'est', 'mean'):
        for r in REALS:
            T = cls(k, r)
            R = REALS[r]
            w = 'uncertainties/ureal%s.hpp' % ('' if k == 'first' else '2')
            for how, e in (('implicit', 'x'), ('cast', 'static_cast<%s>(x)' % R), ('bool', 'static_cast<bool>(x)'), ('int', 'static_cast<int>(x)'),
                           ('compare', 'x < x')):
                if how != 'implicit' and r != 'd' and not THOROUGH:
                    continue
                if how == 'compare':
                    continue
                ret = {'bool': 'bool', 'int': 'int'}.get(how, R)
                add('drop/%s/%s/%s' % (k, r, how), 'a conversion (%s) from %s to %s' % (how, T, ret),
                    prog(ret, 'const %s &x' % T, e), prog(ret, 'const %s &x' % T, e.replace('x', 'x.n()') if how == 'implicit' else e.replace('(x)', '(x.n())')), w)
            add('drop/%s/%s/call' % (k, r), 'a call of a function of a plain number with a %s' % T,
                ('void g(%s);' % R, 'void f(const %s &x) { g(x); }' % T), ('void g(%s);' % R, 'void f(const %s &x) { g(x.n()); }' % T), w)
            add('drop/%s/%s/assign' % (k, r), 'an assignment of a %s to a number' % T,
                ('', 'void f(const %s &x, %s &y) { y = x; }' % (T, R)), ('', 'void f(const %s &x, %s &y) { y = x.n(); }' % (T, R)), w)
    # between classes and modes
    for name, A, B, a in combos():
        same = 'first' not in name
        w = 'uncertainties/ureal2.hpp'
        add('mix/convert/' + name, 'an implicit conversion of a %s to a %s' % (A, B),
            prog(B, 'const %s &x' % A, 'x'), prog(B, 'const %s &x' % B, 'x'), w)
        add('mix/assign/' + name, 'an assignment of a %s to a %s' % (A, B),
            ('', 'void f(const %s &x, %s &y) { y = x; }' % (A, B)), ('', 'void f(const %s &x, %s &y) { y = x; }' % (B, B)), w)
        if same:
            # the explicit form is what is documented
            add('mix/explicit/' + name, 'a conversion without a cast from a %s to a %s' % (A, B),
                prog(B, 'const %s &x' % A, '{x}'), prog(B, 'const %s &x' % A, '%s(x)' % B), w)
        else:
            add('mix/cast/' + name, 'a cast of a %s to a %s' % (A, B),
                prog(B, 'const %s &x' % A, 'static_cast<%s>(x)' % B), prog(B, 'const %s &x' % B, 'static_cast<%s>(x)' % B), w)
        for o in OPS:
            add('mix/operator%s/%s' % (o, name), 'a %s %s a %s' % (A, o, B),
                ('', 'void f(const %s &x, const %s &y) { x %s y; }' % (A, B, o)), ('', 'void f(const %s &x, const %s &y) { x %s y; }' % (A, A, o)), w)
        if a == 'first':
            for o in OPS:
                add('mix/operator%s=/%s' % (o, name), 'a %s %s= a %s' % (A, o, B),
                    ('', 'void f(%s &x, const %s &y) { x %s= y; }' % (A, B, o)), ('', 'void f(%s &x, const %s &y) { x %s= y; }' % (A, A, o)), w)
        for fn in BINARY:
            add('mix/%s/%s' % (fn, name), '%s of a %s and a %s' % (fn, A, B),
                ('', 'void f(const %s &x, const %s &y) { %s(x, y); }' % (A, B, fn)), ('', 'void f(const %s &x, const %s &y) { %s(x, y); }' % (A, A, fn)),
                'uncertainties/math.hpp')
        for fn in ('cov', 'corr'):
            add('mix/%s/%s' % (fn, name), '%s of a %s and a %s' % (fn, A, B),
                ('', 'void f(const %s &x, const %s &y) { %s(x, y); }' % (A, B, fn)), ('', 'void f(const %s &x, const %s &y) { %s(x, y); }' % (A, A, fn)), w)
        add('mix/grad/' + name, 'the derivative of a %s with respect to a %s' % (A, B),
            ('', 'void f(const %s &x, const %s &y) { x.grad(y); }' % (A, B)), ('', 'void f(const %s &x, const %s &y) { x.grad(y); }' % (A, A)), w)
        if a != 'first':
            add('mix/hess/' + name, 'the second derivative of a %s with respect to a %s' % (A, B),
                ('', 'void f(const %s &x, const %s &y) { x.hess(y, y); }' % (A, B)), ('', 'void f(const %s &x, const %s &y) { x.hess(y, y); }' % (A, A)), w)
            add('mix/binary/' + name, 'binary() of a %s and a %s' % (A, B),
                ('', 'void f(const %s &x, const %s &y) { binary(x, y, 0, 0, 0, 0, 0, 0); }' % (A, B)),
                ('', 'void f(const %s &x, const %s &y) { binary(x, y, 0, 0, 0, 0, 0, 0); }' % (A, A)), w)
            add('mix/binary_assign/' + name, 'binary_assign() of a %s and a %s' % (A, B),
                ('', 'void f(%s &x, const %s &y) { binary_assign(x, y, 0, 0, 0, 0, 0, 0); }' % (A, B)),
                ('', 'void f(%s &x, const %s &y) { binary_assign(x, y, 0, 0, 0, 0, 0, 0); }' % (A, A)), w)
        else:
            add('mix/binary/' + name, 'binary() of a %s and a %s' % (A, B),
                ('', 'void f(const %s &x, const %s &y) { binary(x, y, 0, 0, 0); }' % (A, B)), ('', 'void f(const %s &x, const %s &y) { binary(x, y, 0, 0, 0); }' % (A, A)), w)
    # narrower numerical types
    for p in ('est', 'mean'):
        for a, b in (('d', 'f'), ('l', 'd'), ('l', 'f')):
            A, B = cls(p, a), cls(p, b)
            w = 'uncertainties/ureal2.hpp'
            what = 'a %s from a %s' % (B, A)
            n = '%s/%s-%s' % (p, a, b)
            add('narrow/return/' + n, 'an implicit conversion: ' + what, prog(B, 'const %s &x' % A, 'x'), prog(B, 'const %s &x' % A, '%s(x)' % B), w)
            add('narrow/init/' + n, 'a copy initialisation: ' + what, ('', 'void f(const %s &x) { %s y = x; }' % (A, B)),
                ('', 'void f(const %s &x) { %s y(x); }' % (A, B)), w)
            add('narrow/assign/' + n, 'an assignment: ' + what, ('', 'void f(const %s &x, %s &y) { y = x; }' % (A, B)),
                ('', 'void f(const %s &x, %s &y) { y = %s(x); }' % (A, B, B)), w)
            add('narrow/call/' + n, 'an argument: ' + what, ('void g(const %s &);' % B, 'void f(const %s &x) { g(x); }' % A),
                ('void g(const %s &);' % A, 'void f(const %s &x) { g(x); }' % B), w)
    # handles on the internals
    for k in ('first', 'est', 'mean'):
        T, w = cls(k, 'd'), 'uncertainties/ureal%s.hpp' % ('' if k == 'first' else '2')
        acc = ['x.n()', 'nom(x)', 'x.s()', 'sdev(x)', 'var(x)', 'cov(x, x)', 'corr(x, x)', 'x.grad(x)', 'x.indepid()']
        acc += [] if k == 'first' else ['x.first_order_n()', 'x.skew()', 'x.kurt()', 'x.m(2)', 'x.hess(x, x)']
        for e in acc:
            R = 'Id' if 'indepid' in e else 'double'
            n = re.sub(r'\W+', '_', e).strip('_')
            add('handle/%s/%s' % (k, n), 'a write through %s of a %s' % (e, T), ('', 'void f(%s &x) { %s &r = %s; r = 1; }' % (T, R, e)),
                ('', 'void f(%s &x) { const %s &r = %s; (void)r; }' % (T, R, e)), w)
        add('handle/%s/const' % k, 'an assignment to a const %s' % T, ('', 'void f(const %s &x, const %s &y) { x = y; }' % (T, T)),
            ('', 'void f(%s &x, const %s &y) { x = y; }' % (T, T)), w)
    for std in DIALECTS:
        batch(std)
    return ts


if __name__ == '__main__':
    sys.exit(main('C32', tasks(), RULE, technique='compile-fail witnesses (type checking of the current headers)',
                  floors={'drop': 20, 'mix': 80, 'narrow': 20, 'handle': 20},
                  assumptions=['clang 18 implements the language', 'instantiations for float, double and long double stand for every numerical type']))
