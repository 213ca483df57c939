"""C33: a function declared not to throw never throws (effect analysis over the call graph)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import eigen
import prog
import tree
from c09 import patterns, pname
from runner import Task, main, guard, THOROUGH

RULE = ('exception effects over the call graph of the typed program: from no function of the library declared noexcept a throw, a '
        'checked container access that can fail or a function of the user is reached; where one is, the paths from the public '
        'interface to it are run with abstract interpretation on every sparsity pattern, and a path on which the exception meets '
        'the noexcept boundary is the violation')

# functions of the standard library which throw, by the end of the name, whatever the memory left
THROWING = ('::at', '::substr', '::stoi', '::stol', '::stod', '::stof', '::stold', '::stoul', '::stoull', '::stoll', '::value',
            '::rethrow_exception', '::__throw_out_of_range', '::__throw_logic_error', '::__throw_invalid_argument',
            '::throw_with_nested', '::bitset', '::erase_at', '::any_cast', '::compare_at', '::reserve', '::resize')
USER = ('std::function::operator()', 'std::invoke', 'std::ref')
# exhaustion of memory is left out of the statement, so growing a container does not count
SAFE = ('std::map::', 'std::set::', 'std::vector::', 'std::array::', 'std::pair::', 'std::tuple::', 'std::list::', 'std::deque::',
        'std::unordered_map::', 'std::unordered_set::', 'std::numeric_limits::', 'std::unique_ptr::', 'std::shared_ptr::',
        'std::make_', 'std::operator', 'std::basic_string::', 'std::__cxx11::', 'std::basic_ostringstream', 'std::basic_ios',
        'std::basic_ostream', 'std::basic_stringstream', 'std::_Rb_tree', 'std::reverse_iterator', 'std::initializer_list',
        'std::chrono', 'std::atomic', 'std::__atomic', 'std::less', 'std::greater', 'std::complex', 'std::ios_base', 'std::locale',
        'std::char_traits', 'std::allocator', '__gnu_cxx::', 'Eigen::', 'std::to_string')
MATH = {'std::' + x for x in
        'sqrt cbrt abs fabs exp exp2 expm1 log log10 log2 log1p pow sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh erf erfc '
        'tgamma lgamma hypot fmod remainder fmax fmin fdim fma floor ceil trunc round nearbyint rint copysign isfinite isnormal isnan '
        'isinf signbit ldexp frexp modf scalbn ilogb logb nextafter lround llround lrint min max minmax swap move forward tie get '
        'begin end cbegin cend advance distance next prev copy fill fill_n count find accumulate inner_product sort lower_bound '
        'upper_bound equal reverse transform for_each all_of any_of none_of find_if count_if max_element min_element size data '
        'addressof declval ignore'.split()}


class Calls:
    def __init__(self, P):
        self.P = P
        self.T = tree.Tree(P)
        self.out = {}       # function -> [(callee, node)]
        self.throws = {}
        self.tries = set()
        self.open = {}
        self.taken = set()  # functions whose address is taken: what a call through a pointer may call
        for f in self.T.fns:
            cs = []
            for n in self.T.nodes(f):
                k = n.get('k')
                if k == 'throw':
                    self.throws.setdefault(f['id'], []).append(n)
                elif k == 'try':
                    self.tries.add(f['id'])
                elif k in ('call', 'opcall', 'mcall') and n.get('fn') is None:
                    self.open.setdefault(f['id'], []).append(n)
                if n.get('fn') is not None:
                    cs.append((n['fn'], n))
                    if k == 'ref' and n.get('dk') == 'fn':
                        self.taken.add(n['fn'])
            self.out[f['id']] = cs

    def root(self, n):
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'ref':
                return n
            n = n.get('a') if k == 'idx' else n.get('e')
        return None

    def external(self, g, n):
        """may the function called through a pointer come from outside the library?"""
        r = self.root(n.get('callee') or n.get('obj'))
        return r is None or r.get('dk') != 'var' or r.get('d') in {p['id'] for p in g['params']} or not self.taken

    def effects(self, f):
        """[(what, function, node)] that can leave f with an exception, unknown callees, functions visited"""
        seen, st, bad, unk = {f['id']: None}, [f['id']], [], []
        while st:
            x = st.pop()
            g = self.P.functions[x]
            for n in self.throws.get(x, ()):
                bad.append(('throw', g, n))
            for n in self.open.get(x, ()):
                if self.external(g, n):
                    unk.append(('a call through a pointer or function object', g, n))
            if self.open.get(x):
                also = [(y, n) for y in sorted(self.taken)]
            else:
                also = []
            for y, n in self.out[x] + also:
                if y in self.P.functions:
                    if y not in seen:
                        seen[y] = x
                        st.append(y)
                    continue
                r = self.P.fnrefs.get(y)
                if not r or r.get('noexcept'):
                    continue
                q = r['sqn']
                if q in USER or any(q.endswith(t) for t in THROWING) and not q.endswith(('vector::resize', 'vector::reserve')):
                    bad.append(('call of %s' % q, g, n))
                elif q in MATH or q.startswith(SAFE) or q.startswith('std::') and q[5:] in MATH or '::' not in q or \
                        q.startswith('std::__') and '::__throw' not in q:
                    continue
                else:
                    unk.append(('call of %s' % q, g, n))
        return bad, unk, seen

    def path(self, seen, x):
        p = []
        while x is not None:
            p.append(prog.strip_targs(self.P.functions[x]['qn']))
            x = seen[x]
        return ' <- '.join(p)

    def reaches(self, g, targets):
        seen, st = {g}, [g]
        while st:
            x = st.pop()
            if x in targets:
                return True
            for y, _ in self.out.get(x, ()):
                if y not in seen and y in self.P.functions:
                    seen.add(y)
                    st.append(y)
        return False


def arguments(F, vm, f, second):
    """abstract arguments of a driver function: list of lists"""
    pats = patterns(3 if second else 3)
    alts = []
    for i, p in enumerate(f['params']):
        t = vm.unref(p['t'])
        ty = vm.p.types[t]
        q = ty.get('sqn', '')
        tag = 'xyz'[i] if i < 3 else 'v%d' % i
        if q == 'uncertainties::UReal2' and second:
            alts.append([(lambda m, p=p, tag=tag: build2(F, m, p[0], p[1], tag)[0]) for p in pats])
        elif q == 'uncertainties::UReal' and not second:
            alts.append([(lambda m, k=k, tag=tag: build(F, m, k, tag)[0]) for k in kinds([(), (0,), (0, 1), (1, 2)], cached=True)])
        elif ty['k'] == 'flt':
            alts.append([lambda m, i=i: sym('a%d' % i, 0), lambda m, i=i: cas.neg(sym('a%d' % i, 0)), lambda m: ZERO])
        elif ty['k'] == 'bool':
            alts.append([lambda m: True, lambda m: False])
        elif ty['k'] == 'int':
            alts.append([lambda m, v=v: v for v in (1, 2, 3, 4)])
        else:
            return None
    n = 1
    for a in alts:
        n *= len(a)
    combos = itertools.product(*alts)
    if n > 1500:
        import random
        rnd = random.Random(1)
        combos = [[rnd.choice(a) for a in alts] for _ in range(1500)]
    return combos


PROGS = [('first.cpp', lambda P: First(P), False, 'vpd::'), ('second.cpp', lambda P: Second(P, 'vpe::'), True, 'vpe::'),
         ('second.cpp', lambda P: Second(P, 'vpm::'), True, 'vpm::')]


def confirm(c, name, thrower):
    """does an exception meet the boundary of the noexcept function on a feasible path?  None: not decided"""
    ran = 0
    missed = []
    for driver, mk, second, pre in PROGS:
        P = program(driver)
        F = mk(P)
        C = Calls(P)
        targets = {f['id'] for f in P.d['functions'] if prog.strip_targs(f['qn']) == name and noexcept(P, f)}
        if not targets:
            continue
        for f in P.d['functions']:
            if not f['qn'].startswith(pre) or not C.reaches(f['id'], targets):
                continue
            short = f['qn'][len(pre):]
            probe = arguments(F, F.vm(), f, second)
            if probe is None:
                missed.append(short)
                continue
            for combo in probe:
                vm = F.vm()
                eigen.SPEC['selfadjoint'] = lambda k: {'info': 0, 'values': [num(1)] * k}
                try:
                    outs = call(vm, F, short, [a(vm) for a in combo])
                except (V.Unsupported, V.Prune) as e:
                    missed.append('%s: %s' % (short, e.args[0] if e.args else ''))
                    break
                account(c, vm)
                ran += 1
                for o in outs:
                    c.paths += 1
                    if o.kind == 'terminate' and not infeasible(o):
                        return 'in %s an exception (%s) meets the boundary and ends the program' % (short[2:], o.value), o.loc
    if missed or not ran:
        return None
    return ()


def noexcept(P, f):
    return f.get('noexcept') or P.fnrefs.get(f['id'], {}).get('noexcept')


def fn_task(C, name, fs):
    def run(c):
        P = C.P
        c.fns.add('%s (%s)' % (name, C.T.loc(fs[0])))
        und = None
        for f in fs:
            bad, unk, seen = C.effects(f)
            c.paths += len(seen)
            c.compared += 1
            for what, g, n in bad:
                where_ = C.T.loc(n)
                r = ('a function given by the user is called, which may throw', where_) if 'std::function' in what else confirm(c, name, g)
                if r is None:
                    und = '%s reaches %s at %s (%s)' % (name, what, where_, C.path(seen, g['id']))
                elif r:
                    c.violation('%s is declared noexcept but reaches %s: %s' % (name, what, r[0]), where_, path=C.path(seen, g['id']))
                    return
                break
            if not bad and unk:
                what, g, n = unk[0]
                und = '%s reaches %s at %s, whose exceptions are not known' % (name, what, C.T.loc(n))
        if und:
            c.undecided(und)
        c.sample = '%s: nothing that throws in %d functions reached' % (name, c.paths)
    return run


def tasks():
    ts = []
    done = set()
    for driver in ('all.cpp', 'misc.cpp', 'fun.cpp'):
        P = program(driver)
        C = Calls(P)
        groups = {}
        for f in P.d['functions']:
            if noexcept(P, f) and C.T.in_lib(f):
                groups.setdefault(prog.strip_targs(f['qn']), []).append(f)
        for name, fs in sorted(groups.items()):
            if driver != 'all.cpp' and name in done:
                continue
            done.add(name)
            ts.append(Task('noexcept/' + name.replace('uncertainties::', ''), fn_task(C, name, fs)))
    return ts


if __name__ == '__main__':
    sys.exit(guard('C33', lambda: main('C33', tasks(), RULE, technique='exception-effect analysis over the call graph, with abstract interpretation of what it flags',
                                       floors={'noexcept': 25}, assumptions=[
        'running out of memory is left out', 'built-in numerical types: their operations do not throw',
        'functions of the standard library throw only where the standard says so'])))
