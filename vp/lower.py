"""Lowering of the typed tree to register code."""
from fractions import Fraction

from cas import Num, Special, UNINIT, ZERO, ONE, num
import cas
import vm as V
from vm import (Cell, Struct, Arr, MapObj, Ptr, MapIter, FnPtr, Closure, Opaque, Key, Label, Code, Frame, Unsupported,
                Split, Stop, Throw, Prune, deep, assign, cmpnum)
import lib
import digits
import sizes


def lit(text, val):
    """floating literal: short decimals are exact, long ones approximate a constant"""
    t = text.rstrip('fFlL').replace("'", '')
    try:
        f = Fraction(t)
    except (ValueError, ZeroDivisionError):
        try:
            f = Fraction(val)
        except ValueError:
            f = Fraction(float(val))
    digits = len(str(abs(f.numerator)).strip('0'))
    if f.denominator != 1 and len(t.split('e')[0].split('E')[0].replace('.', '').lstrip('0')) >= 12:
        return cas.fnatom('lit', (num(f),))
    return num(f)


def trunc_int(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def wrap(ty, v):
    if ty['k'] == 'int' and isinstance(v, int):
        b = ty['bits']
        if ty['uns']:
            return v & ((1 << b) - 1)
        m = 1 << (b - 1)
        if not (-m <= v < m):
            raise Unsupported('signed integer overflow')
    return v


def toint(ty, v):
    """value of the integer v after conversion to the integer type"""
    b = ty['bits']
    v = int(v)
    if b == 1:
        return bool(v)
    v &= (1 << b) - 1
    if not ty['uns'] and v >> (b - 1):
        v -= 1 << b
    return v


class Lower:
    def __init__(self, vm):
        self.vm = vm
        self.p = vm.p
        self.T = vm.types
        self.sizes = sizes.of(vm.p)

    # ------------------------------------------------------------ plumbing
    def begin(self, name):
        self.c = Code(name)
        self.top = 0
        self.brk = []
        self.cont = []
        self.node = None
        self.scopes = []
        self.patches = []

    def new(self):
        r = self.top
        self.top += 1
        if self.top > self.c.nreg:
            self.c.nreg = self.top
        return r

    def emit(self, f):
        self.c.ins.append(f)
        self.c.lines.append(self.node)

    def place(self, lab):
        lab.pc = len(self.c.ins)

    def jump(self, lab):
        self.emit(lambda st, fr: lab.pc)

    # ------------------------------------------------------------ entry points
    def function(self, f):
        self.begin(f['qn'])
        c = self.c
        ref = self.p.fnrefs.get(f['id'], {})
        c.noexcept = bool(ref.get('noexcept'))
        c.fnid = f['id']
        self.retref = self.T[f['ret']]['k'] == 'ref'
        self.retvoid = self.T[f['ret']]['k'] == 'void'
        self.retobj = (not self.retref) and self.vm.is_obj(f['ret'])
        for p in f['params']:
            ty = self.T[p['t']]
            c.params.append((p['id'], ty['k'] == 'ref', ty['k'] != 'ref' and self.vm.is_obj(p['t'])))
        self.vm.visited_fns.add(f['id'])
        self.node = f
        if 'inits' in f:
            self.inits(f['inits'], f)
        self.stmt(f['body'])
        self.node = f
        self.emit_ret(None)
        return c

    def inits(self, inits, f):
        for i in inits:
            self.top = 0
            if i['init'] is None:
                continue
            self.node = i['init'] if isinstance(i['init'], dict) and 'L' in i['init'] else f
            if i.get('deleg'):
                r = self.ev(i['init'])

                def deleg(st, fr, r=r):
                    with V.silent():
                        assign(fr.this, fr.regs[r])
                self.emit(deleg)
            elif 'base' in i:
                r = self.ev(i['init'])

                def basei(st, fr, r=r):
                    o = fr.regs[r]
                    if isinstance(o, Struct):
                        for k, v in o.f.items():
                            fr.this.f[k] = v
                self.emit(basei)
            else:
                self.init_field(i['fname'], i['init'])

    def field_type(self, name):
        return None

    def init_field(self, name, e):
        # reference members hold an alias
        r = self.ev(e)
        glv = e.get('v') in ('l', 'x')
        isobj = self.vm.is_obj(e['t']) if e.get('t') is not None else False

        def setf(st, fr, r=r):
            v = fr.regs[r]
            if glv:
                fr.this.f[name] = Cell(('ref', v)) if False else RefCell(v)
            elif isobj:
                fr.this.f[name] = v
            else:
                c = fr.this.f.get(name)
                if c is None or c.__class__ is not Cell:
                    fr.this.f[name] = Cell(v)
                else:
                    c.v = v
        self.emit(setf)

    def default_init(self, t, rec):
        """code that runs in-class initialisers and default constructors of the fields on `this`"""
        self.begin('init ' + rec['qn'])
        self.retref = self.retobj = False
        self.retvoid = True
        # a user-written default constructor, if there is one
        for f in self.p.functions.values():
            ref = self.p.fnrefs.get(f['id'])
            if ref and ref.get('defctor') and not ref.get('implicit') and not ref.get('defaulted') \
                    and self.T[ref['cls']].get('rid') == rec['rid'] and not f['params']:
                return self.function(f)
        for x in rec['fields']:
            self.top = 0
            self.node = x
            if x.get('init') is not None:
                self.init_field(x['name'], x['init'])
            elif self.vm.is_obj(x['t']):
                ft = x['t']

                def z(st, fr, ft=ft, n=x['name']):
                    fr.this.f[n] = self.vm.zero(ft)
                self.emit(z)
        self.emit_ret(None)
        return self.c

    def global_init(self, v):
        self.begin('init ' + v['name'])
        ty = self.T[v['t']]
        self.retref = ty['k'] == 'ref'
        self.retobj = not self.retref and self.vm.is_obj(v['t'])
        self.retvoid = False
        self.node = v
        r = self.ev(v['init'])
        self.emit_ret(r)
        return self.c

    def emit_ret(self, r):
        if r is None:
            def ret0(st, fr):
                st.frames.pop()
                if not st.frames:
                    st.retval = None
                    st.retthis = fr.this
                    return -2
                g = st.frames[-1]
                if fr.dst is not None:
                    g.regs[fr.dst] = None
                return -1
            self.emit(ret0)
        else:
            def ret1(st, fr):
                v = fr.regs[r]
                st.frames.pop()
                if not st.frames:
                    st.retval = v
                    st.retthis = fr.this
                    return -2
                g = st.frames[-1]
                if fr.dst is not None:
                    g.regs[fr.dst] = v
                return -1
            self.emit(ret1)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        self.top = self.basetop = 0
        self.node = s if 'L' in s else self.node
        getattr(self, 's_' + s['k'], self.s_unk)(s)

    def s_unk(self, s):
        self.unsupported('statement %s' % s.get('cls', s['k']))

    def unsupported(self, what):
        def u(st, fr):
            raise Unsupported(what)
        self.emit(u)

    def s_block(self, s):
        self.scopes.append([])
        for x in s['s']:
            self.stmt(x)
        self.kill(self.scopes.pop())

    def kill(self, ds):
        ds = [d for d in ds]
        if ds:
            def k(st, fr):
                for d in ds:
                    fr.vars.pop(d, None)
            self.emit(k)

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s['vars']:
            self.top = 0
            if 'unk' in v:
                continue
            self.vardecl(v)

    def vardecl(self, v):
        d = v['id']
        self.node = v if 'L' in v else self.node
        ty = self.T[v['t']]
        if v.get('static'):
            # function-local static: process-wide object
            end = Label()

            def have(st, fr):
                return end.pc if d in st.globals else None
            self.emit(have)
            r = self.ev(v['init']) if v.get('init') else None
            t = v['t']
            once = ty['k'] != 'ref' and ty.get('const')

            def mk(st, fr):
                if ty.get('sqn') == 'std::atomic':
                    st.globals[d] = lib.atomic_cell(st, 0 if r is None else fr.regs[r])
                elif r is None:
                    st.globals[d] = self.vm.zero(t) if self.vm.is_obj(t) else self.vm.storage(t, 0)
                else:
                    x = fr.regs[r]
                    st.globals[d] = x if (ty['k'] == 'ref' or self.vm.is_obj(t)) else Cell(x)
                if once and not digits.ON[0]:
                    earlier(st.globals[d], v.get('name', '?'))
            self.emit(mk)
            self.place(end)
            self.nop()
            return
        if self.scopes:
            self.scopes[-1].append(d)
        t = v['t']
        if v.get('init') is None:
            if self.vm.is_obj(t):
                def mk0(st, fr):
                    fr.vars[d] = self.vm.storage(t)
            else:
                def mk0(st, fr):
                    fr.vars[d] = self.vm.storage(t)
            self.emit(mk0)
            return
        r = self.ev(v['init'], want=t)
        if ty['k'] == 'ref':
            def mk1(st, fr):
                fr.vars[d] = fr.regs[r]
        elif self.vm.is_obj(t):
            def mk1(st, fr):
                fr.vars[d] = fr.regs[r]
        else:
            def mk1(st, fr):
                fr.vars[d] = Cell(fr.regs[r])
        self.emit(mk1)

    def nop(self):
        self.emit(lambda st, fr: None)

    def s_expr(self, s):
        self.ev(s['e'], discard=True)

    def cond_jump(self, e, lt, lf):
        """jump to lt / lf according to the condition"""
        while e['k'] == 'cast' and e['ck'] in ('NoOp',):
            e = e['e']
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            mid = Label()
            if e['op'] == '&&':
                self.cond_jump(e['a'], mid, lf)
            else:
                self.cond_jump(e['a'], lt, mid)
            self.place(mid)
            self.nop()
            self.cond_jump(e['b'], lt, lf)
            return
        if e['k'] == 'un' and e['op'] == '!':
            self.cond_jump(e['e'], lf, lt)
            return
        save = self.top
        r = self.ev(e)
        self.top = save

        def cj(st, fr):
            v = fr.regs[r]
            if v is True:
                return lt.pc
            if v is False:
                return lf.pc
            return lt.pc if truth(st, v) else lf.pc
        self.emit(cj)

    def s_if(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvar'):
            self.stmt(s['cvar'])
        self.node = s
        lt, lf, end = Label(), Label(), Label()
        self.top = 0
        self.cond_jump(s['c'], lt, lf)
        self.place(lt)
        self.stmt(s['a'])
        self.jump(end)
        self.place(lf)
        if s.get('b'):
            self.stmt(s['b'])
        else:
            self.nop()
        self.place(end)
        self.nop()
        self.kill(self.scopes.pop())

    def loop_head(self, s):
        self.node = s

        def lh(st, fr):
            return -3
        self.emit(lh)

    def s_while(self, s):
        head, body, end = Label(), Label(), Label()
        self.place(head)
        self.loop_head(s)
        self.scopes.append([])
        if s.get('cvar'):
            self.stmt(s['cvar'])
        self.top = 0
        self.cond_jump(s['c'], body, end)
        self.place(body)
        self.nop()
        self.loopbody(s['body'], end, head)
        self.kill(self.scopes.pop())
        self.jump(head)
        self.place(end)
        self.nop()

    def loopbody(self, b, end, cont):
        n = len(self.scopes)
        self.brk.append((end, n))
        self.cont.append((cont, n))
        self.stmt(b)
        self.brk.pop()
        self.cont.pop()

    def s_do(self, s):
        head, cond, end = Label(), Label(), Label()
        self.place(head)
        self.loop_head(s)
        self.loopbody(s['body'], end, cond)
        self.place(cond)
        self.top = 0
        self.node = s
        self.cond_jump(s['c'], head, end)
        self.place(end)
        self.nop()

    def s_for(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        head, body, inc, end = Label(), Label(), Label(), Label()
        self.place(head)
        self.loop_head(s)
        self.top = 0
        if s.get('cvar'):
            self.stmt(s['cvar'])
        if s.get('c'):
            self.cond_jump(s['c'], body, end)
        self.place(body)
        self.nop()
        self.loopbody(s['body'], end, inc)
        self.place(inc)
        self.nop()
        self.top = 0
        self.node = s
        if s.get('inc'):
            self.ev(s['inc'], discard=True)
        self.jump(head)
        self.place(end)
        self.nop()
        self.kill(self.scopes.pop())

    def s_rfor(self, s):
        self.scopes.append([])
        for k in ('range', 'begin', 'end'):
            self.stmt(s[k])
        head, body, inc, end = Label(), Label(), Label(), Label()
        self.place(head)
        self.loop_head(s)
        self.top = 0
        self.cond_jump(s['c'], body, end)
        self.place(body)
        self.nop()
        self.scopes.append([])
        self.stmt(s['var'])
        self.loopbody(s['body'], end, inc)
        self.place(inc)
        self.nop()
        self.kill(self.scopes.pop())
        self.top = 0
        self.node = s
        self.ev(s['inc'], discard=True)
        self.jump(head)
        self.place(end)
        self.nop()
        self.kill(self.scopes.pop())

    def s_ret(self, s):
        if s.get('e') is None:
            self.emit_ret(None)
            return
        r = self.ev(s['e'])
        self.node = s
        self.emit_ret(r)

    def unscope(self, n):
        ds = [d for sc in self.scopes[n:] for d in sc]
        self.kill(ds)

    def s_break(self, s):
        lab, n = self.brk[-1]
        self.unscope(n)
        self.jump(lab)

    def s_continue(self, s):
        lab, n = self.cont[-1]
        self.unscope(n)
        self.jump(lab)

    def s_switch(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        self.top = 0
        r = self.ev(s['c'])
        table = []
        default = Label()
        end = Label()
        hasdef = []

        def sw(st, fr):
            v = fr.regs[r]
            if isinstance(v, Num):
                c = v.const()
                if c is None:
                    for val, lab in table:
                        if cmpnum(st, '==', v, num(val)):
                            return lab.pc
                    return default.pc if hasdef else end.pc
                v = c
            for val, lab in table:
                if val == v:
                    return lab.pc
            return default.pc if hasdef else end.pc
        self.emit(sw)
        cont = self.cont[-1] if self.cont else None
        self.brk.append((end, len(self.scopes)))
        self.swstack = getattr(self, 'swstack', [])
        self.swstack.append((table, default, hasdef))
        self.stmt(s['body'])
        self.swstack.pop()
        self.brk.pop()
        self.place(end)
        self.nop()
        self.kill(self.scopes.pop())

    def s_case(self, s):
        table, default, hasdef = self.swstack[-1]
        lab = Label()
        self.place(lab)
        self.nop()
        table.append((s['val'], lab))
        self.stmt(s['s'])

    def s_default(self, s):
        table, default, hasdef = self.swstack[-1]
        self.place(default)
        self.nop()
        hasdef.append(1)
        self.stmt(s['s'])

    def s_try(self, s):
        handlers = []
        end = Label()
        marker = object()

        def push(st, fr):
            fr.tries.append((marker, handlers))
        self.emit(push)
        self.stmt(s['body'])

        def pop(st, fr):
            if fr.tries and fr.tries[-1][0] is marker:
                fr.tries.pop()
        self.emit(pop)
        self.jump(end)
        for h in s['handlers']:
            lab = Label()
            self.place(lab)
            self.nop()
            tqn = None
            if 't' in h:
                ty = self.T[self.vm.unref(h['t'])]
                tqn = ty.get('sqn', ty['s'])
            handlers.append((tqn, lab, h['var']['id'] if 'var' in h else None))
            self.stmt(h['body'])
            self.jump(end)
        self.place(end)
        self.nop()

    # ------------------------------------------------------------ expressions
    def const(self, v):
        r = self.new()

        def c(st, fr):
            fr.regs[r] = v
        self.emit(c)
        return r

    def ev(self, e, want=None, discard=False):
        if e is None:
            return self.const(None)
        old = self.node
        if 'L' in e:
            self.node = e
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            self.unsupported('expression %s' % e.get('cls', e['k']))
            r = self.const(None)
        elif e['k'] in ('init', 'zero', 'ctor'):
            r = f(e, want)
        else:
            r = f(e)
        self.node = old
        return r

    def e_unk(self, e):
        self.unsupported('expression %s' % e.get('cls'))
        return self.const(None)

    def e_mat(self, e):
        r = self.ev(e['e'])
        if e['e'].get('v') == 'r' and not self.vm.is_obj(e['e']['t']):
            o = self.new()

            def m(st, fr):
                fr.regs[o] = Cell(fr.regs[r])
            self.emit(m)
            return o
        return r

    def e_int(self, e):
        v = int(e['val'])
        if self.T[e['t']]['k'] == 'float':
            return self.const(num(v))
        key = self.sizes.lits.get(id(e))
        if key is not None:
            r = self.new()

            def near(st, fr):
                fr.regs[r] = 1 if key in sizes.FLAG else v
            self.emit(near)
            return r
        return self.const(v)

    def e_flt(self, e):
        return self.const(lit(e['text'], e['val']))

    def e_bool(self, e):
        return self.const(bool(e['val']))

    def e_chr(self, e):
        return self.const(e['val'])

    def e_str(self, e):
        s = list(e['val'].encode('utf-8')) + [0]
        r = self.new()

        def c(st, fr):
            fr.regs[r] = V.Arr(None, [Cell(x) for x in s])
        self.emit(c)
        return r

    def e_null(self, e):
        return self.const(None)

    def e_this(self, e):
        r = self.new()

        def t(st, fr):
            fr.regs[r] = Ptr(enclosing(fr.this))
        self.emit(t)
        return r

    def e_ref(self, e):
        dk = e.get('dk')
        if dk == 'fn':
            return self.const(FnPtr(e['fn']))
        if dk == 'enum':
            return self.const(e['val'])
        r = self.new()
        if dk != 'var':
            self.unsupported('reference to %s' % e.get('name'))
            return r
        d = e['d']
        if 'cval' in e:
            v = int(e['cval'])

            def cv(st, fr):
                fr.regs[r] = Cell(v)
            self.emit(cv)
            return r
        if e.get('global'):
            hook = lib.GLOBALS.get(e.get('qn'))
            if hook:
                def gh(st, fr):
                    o = st.globals.get(d)
                    if o is None:
                        o = st.globals[d] = hook(self.vm, st)
                    fr.regs[r] = o
                self.emit(gh)
                return r

            def g(st, fr):
                o = st.globals.get(d)
                if o is None:
                    o = self.vm.global_lv(st, d, e)
                fr.regs[r] = o
            self.emit(g)
            return r
        if e.get('cap'):
            k = 'cap%d' % d

            def cap(st, fr):
                o = fr.vars.get(d)
                if o is None and fr.this is not None:
                    o = fr.this.f.get(k)
                if o.__class__ is RefCell:
                    o = o.v
                if o is None:
                    raise Unsupported('captured variable %s' % e.get('name'))
                fr.regs[r] = o
            self.emit(cap)
            return r
        name = e.get('name')

        def loc(st, fr):
            try:
                fr.regs[r] = fr.vars[d]
            except KeyError:
                raise Unsupported('variable %s out of scope' % name)
        self.emit(loc)
        return r

    def obj_of(self, e, arrow):
        """register with the storage object a member access applies to"""
        if arrow:
            if e['k'] == 'this':
                r = self.new()

                def t(st, fr):
                    fr.regs[r] = enclosing(fr.this)
                self.emit(t)
                return r
            p = self.ev(e)
            r = self.new()

            def d(st, fr):
                fr.regs[r] = deref(fr.regs[p])
            self.emit(d)
            return r
        r = self.ev(e)
        if e.get('v') == 'r' and not self.vm.is_obj(e['t']):
            # prvalue of a value-like class type
            o = self.new()

            def m(st, fr):
                v = fr.regs[r]
                fr.regs[o] = v if v.__class__ in (Cell, Struct, Arr, MapObj) else Cell(v)
            self.emit(m)
            return o
        return r

    def e_mem(self, e):
        if 'fn' in e:
            self.unsupported('bound member function')
            return self.const(None)
        o = self.obj_of(e['e'], e.get('arrow'))
        name = e['name']
        r = self.new()

        def m(st, fr):
            ob = fr.regs[o]
            try:
                x = ob.f[name]
            except AttributeError:
                raise Unsupported('member %s of %s' % (name, type(ob).__name__))
            except KeyError:
                raise Unsupported('no member %s' % name)
            if x.__class__ is RefCell:
                x = x.v
            fr.regs[r] = x
        self.emit(m)
        return r

    # -------------------- calls
    def args(self, ref, args, skip=0):
        """evaluate arguments according to the parameter types"""
        out = []
        pts = ref['ptypes']
        for i, a in enumerate(args):
            r = self.ev(a)
            if i < len(pts):
                ty = self.T[pts[i]]
                if ty['k'] != 'ref' and a.get('v') in ('l', 'x') and not self.vm.is_obj(pts[i]):
                    o = self.new()

                    def ld(st, fr, r=r, o=o):
                        fr.regs[o] = load(fr.regs[r])
                    self.emit(ld)
                    r = o
            out.append(r)
        return out

    def call(self, e, fnid, thisr, argr, base, ctor_t=None):
        """call of function fnid; returns the result register"""
        ref = self.p.fnrefs[fnid]
        vm = self.vm
        dst = self.new()
        if fnid in vm.hooks:
            h = vm.hooks[fnid]

            def hk(st, fr):
                a = [fr.regs[r] for r in argr]
                fr.regs[dst] = h(vm, st, fr.regs[thisr] if thisr is not None else None, a)
            self.emit(hk)
            return dst
        h = lib.override(ref)
        if h is None and vm.has_body(fnid) and not ref.get('proj'):
            h = lib.find(vm, ref, e)
        if h is None and vm.has_body(fnid):
            def docall(st, fr):
                vm.calls += 1
                if len(st.frames) > 200:
                    raise Stop('diverges', 'unbounded recursion')
                g = vm.frame_for(fnid, [fr.regs[r] for r in argr])
                if ctor_t is not None:
                    g.this = vm.storage(ctor_t)
                    fr.regs[dst] = g.this
                    g.dst = None
                else:
                    if thisr is not None:
                        g.this = fr.regs[thisr]
                    g.dst = dst
                fr.base = max(base, dst + 1) if ctor_t is not None else base
                fr.pc += 1
                st.frames.append(g)
                return -1
            self.emit(docall)
            return dst
        if h is None:
            h = lib.find(self.vm, ref, e)
        if h is None:
            qn = ref['qn']
            vm.unsupported.add(qn)
            self.unsupported('call of %s, which has no model' % qn)
            return dst

        def bi(st, fr):
            a = [fr.regs[r] for r in argr]
            if thisr is not None:
                a.insert(0, fr.regs[thisr])
            v = h(Ctx(vm, st, fr, e, ref, ctor_t), *a)
            if V.MON is not None:
                V.MON.model(st, ref, a, v)
            if isinstance(v, Invoke):
                g = v.frame(vm)
                g.dst = dst
                fr.base = base
                fr.pc += 1
                st.frames.append(g)
                return -1
            fr.regs[dst] = v
        self.emit(bi)
        return self.fix(e, dst)

    def fix(self, e, dst):
        """make the result of a model an lvalue or a value as the expression demands"""
        if e.get('v') in ('l', 'x'):
            if not self.vm.is_obj(e['t']):
                def tol(st, fr):
                    v = fr.regs[dst]
                    if v.__class__ not in (Cell, Struct, Arr, MapObj) and not hasattr(v, 'vpobj'):
                        fr.regs[dst] = Cell(v)
                self.emit(tol)
        elif not self.vm.is_obj(e['t']):
            def tov(st, fr):
                v = fr.regs[dst]
                if v.__class__ is Cell:
                    fr.regs[dst] = v.v
            self.emit(tov)
        return dst

    def e_call(self, e):
        base = self.top
        if 'fn' in e:
            ref = self.p.fnrefs[e['fn']]
            if ref['sqn'] == '__assert_fail':
                def af(st, fr):
                    raise Stop('assert', 'assertion fails: %s' % e['args'][0].get('e', {}).get('val', ''))
                self.emit(af)
                return self.const(None)
            a = self.args(ref, e['args'])
            cand = self.sizes.keys.get(id(e))
            if cand is not None:
                key, kind, side = cand

                def cut(st, fr):
                    sizes.seen(key, True)
                    if key in sizes.FLAG:
                        fr.regs[a[side]] = Cell(1)
                self.emit(cut)
            return self.call(e, e['fn'], None, a, base)
        c = self.ev(e['callee'])
        args = [self.ev(x) for x in e['args']]
        return self.indirect(e, c, args, base)

    def indirect(self, e, c, args, base):
        dst = self.new()
        vm = self.vm

        def ic(st, fr):
            f = fr.regs[c]
            if f.__class__ is Cell:
                f = f.v
            if f.__class__ is Ptr:
                f = load(f.deref())
            inv = invoke(vm, f, [fr.regs[r] for r in args])
            if inv.__class__ is not Invoke:
                fr.regs[dst] = inv
                return None
            g = inv.frame(vm)
            g.dst = dst
            fr.base = base
            fr.pc += 1
            st.frames.append(g)
            return -1
        self.emit(ic)
        return self.fix(e, dst)

    def e_mcall(self, e):
        base = self.top
        ref = self.p.fnrefs[e['fn']]
        o = self.obj_of(e['obj'], e.get('arrow'))
        a = self.args(ref, e['args'])
        return self.call(e, e['fn'], o, a, base)

    def e_opcall(self, e):
        base = self.top
        if 'fn' not in e:
            self.unsupported('operator call')
            return self.const(None)
        ref = self.p.fnrefs[e['fn']]
        if e.get('method'):
            o = self.obj_of(e['args'][0], False)
            if ref.get('copyassign') and (ref.get('defaulted') or not self.vm.has_body(e['fn'])) \
                    and not lib.find(self.vm, ref, e):
                b = self.ev(e['args'][1])

                rv = self.T[ref['ptypes'][0]].get('rv')

                def asg(st, fr):
                    if rv and V.MON is not None:
                        with V.silent():
                            assign(fr.regs[o], fr.regs[b])
                    else:
                        assign(fr.regs[o], fr.regs[b])
                self.emit(asg)
                return o
            if ref.get('copyassign') and ref.get('defaulted'):
                b = self.ev(e['args'][1])

                rv = self.T[ref['ptypes'][0]].get('rv')

                def asg(st, fr):
                    if rv and V.MON is not None:
                        with V.silent():
                            assign(fr.regs[o], fr.regs[b])
                    else:
                        assign(fr.regs[o], fr.regs[b])
                self.emit(asg)
                return o
            a = self.args(ref, e['args'][1:])
            return self.call(e, e['fn'], o, a, base)
        a = self.args(ref, e['args'])
        return self.call(e, e['fn'], None, a, base)

    def e_ctor(self, e, want=None):
        base = self.top
        ref = self.p.fnrefs[e['fn']]
        t = e['t']
        ty = self.T[t]
        if ty['k'] == 'arr':
            n = ty['n']
            r = self.new()

            def mk(st, fr):
                fr.regs[r] = self.vm.zero(t)
            self.emit(mk)
            return r
        if e.get('elid') and e['args']:
            a = e['args'][0]
            while a['k'] == 'mat' or (a['k'] == 'cast' and a['ck'] == 'NoOp' and a.get('v') != 'r'):
                a = a['e']
            r = self.ev(a)
            if a.get('v') != 'r' and not self.vm.is_obj(t):
                o = self.new()

                def ldv(st, fr):
                    fr.regs[o] = load(fr.regs[r])
                self.emit(ldv)
                return o
            return r
        if ref.get('copyctor') and len(e['args']) >= 1 and (
                ref.get('defaulted') or (self.vm.is_obj(t) and not self.vm.has_body(e['fn']))):
            a = self.ev(e['args'][0])
            r = self.new()
            isobj = self.vm.is_obj(t)
            rv = self.T[ref['ptypes'][0]].get('rv')

            def cp(st, fr):
                v = fr.regs[a]
                if isobj and rv and V.MON is not None:
                    with V.silent():
                        fr.regs[r] = deep(v)
                elif isobj:
                    fr.regs[r] = deep(v)
                else:
                    fr.regs[r] = load(v) if v.__class__ is Cell else v
            self.emit(cp)
            return r
        if self.vm.has_body(e['fn']):
            a = self.args(ref, e['args'])
            if e.get('zero'):
                pass
            return self.call(e, e['fn'], None, a, base, ctor_t=t)
        if ty['k'] == 'rec' and ty['rid'] in self.p.records and ref.get('defctor'):
            r = self.new()
            zero = e.get('zero')

            def dz(st, fr):
                fr.regs[r] = self.vm.zero(t)
            self.emit(dz)
            return r
        a = self.args(ref, e['args'])
        return self.call(e, e['fn'], None, a, base, ctor_t=t)

    def e_lambda(self, e):
        r = self.new()
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', None, True))
                continue
            x = self.ev(c['init']) if c.get('init') else None
            caps.append(('cap%d' % c['d'], x, c['byref']))
        t = e['t']
        fn = e['fn']

        def mk(st, fr):
            f = {'$fn': Cell(FnPtr(fn))}
            for k, x, byref in caps:
                if k == 'this':
                    f['$this'] = RefCell(enclosing(fr.this))
                    continue
                v = fr.regs[x]
                if byref:
                    f[k] = RefCell(v)
                else:
                    f[k] = v if v.__class__ in (Cell, Struct, Arr, MapObj) else Cell(v)
            fr.regs[r] = Struct(t, f)
        self.emit(mk)
        return r

    # -------------------- casts and operators
    def e_cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'LValueToRValue':
            a = self.ev(sub)
            r = self.new()

            def ld(st, fr):
                o = fr.regs[a]
                if o.__class__ is Cell:
                    fr.regs[r] = o.v
                else:
                    fr.regs[r] = load(o)
            self.emit(ld)
            return r
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr', 'LValueBitCast',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dependent'):
            return self.ev(sub)
        if ck == 'FunctionToPointerDecay':
            return self.ev(sub)
        if ck == 'ArrayToPointerDecay':
            a = self.ev(sub)
            r = self.new()

            def dec(st, fr):
                o = fr.regs[a]
                fr.regs[r] = Ptr(o, 0) if o.__class__ is Arr else Ptr(o)
            self.emit(dec)
            return r
        if ck == 'NullToPointer':
            return self.const(None)
        if ck == 'ToVoid':
            self.ev(sub)
            return self.const(None)
        a = self.ev(sub)
        r = self.new()
        tt = self.T[e['t']]
        if ck == 'IntegralToFloating':
            def i2f(st, fr):
                v = fr.regs[a]
                fr.regs[r] = num(int(v)) if v.__class__ in (int, bool) else v
                if v.__class__ is Key:
                    fr.regs[r] = lib.keynum(st, v)
                    if tt.get('name') == 'float' or tt.get('bits') == 32:
                        fr.regs[r] = cas.fnatom('to-float', (fr.regs[r],))
        elif ck == 'FloatingCast':
            def i2f(st, fr):
                fr.regs[r] = fr.regs[a]
        elif ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            def i2f(st, fr):
                v = fr.regs[a]
                if v.__class__ is bool:
                    v = int(v)
                if v.__class__ is int and tt['k'] == 'int':
                    b = tt['bits']
                    if tt['uns']:
                        v &= (1 << b) - 1
                    else:
                        v &= (1 << b) - 1
                        if v >> (b - 1):
                            v -= 1 << b
                elif digits.ON[0] and v.__class__ is Num and tt['k'] == 'int':
                    digits.inrange(st, v, tt, None)
                elif v.__class__ is Key and tt['k'] == 'int' and tt['bits'] < 32:
                    # the low bits: any value, the same for the same id
                    lib.keynum(st, v)
                    v = cas.sym('narrow%d:%s' % (tt['bits'], v.name), None, None, True)
                fr.regs[r] = v
        elif ck == 'FloatingToIntegral':
            def i2f(st, fr):
                v = fr.regs[a]
                if isinstance(v, Special):
                    fr.regs[r] = UNINIT
                    return
                c = v.const() if isinstance(v, Num) else v
                if c is not None:
                    x = int(c) if c >= 0 else -int(-c)
                    if digits.ON[0] and tt['k'] == 'int' and tt['bits'] > 1:
                        digits.inrange(st, num(x), tt, 'conversion of a number outside of the range of the integer type')
                    fr.regs[r] = x
                else:
                    x = lib.trunc_sym(st, v)
                    if digits.ON[0] and isinstance(x, Num) and tt['k'] == 'int' and tt['bits'] > 1:
                        digits.inrange(st, x, tt, 'conversion of a number outside of the range of the integer type')
                    fr.regs[r] = x
        elif ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            def i2f(st, fr):
                v = fr.regs[a]
                fr.regs[r] = truth(st, v)
        else:
            self.unsupported('conversion %s' % ck)
            return r
        self.emit(i2f)
        return r

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            a = self.ev(e['e'])
            r = self.new()
            d = 1 if op == '++' else -1
            post = e.get('post')
            ty = self.T[e['e']['t']]

            def inc(st, fr):
                c = fr.regs[a]
                old = c.v
                if old.__class__ is int:
                    c.v = wrap(ty, old + d)
                elif old.__class__ is Ptr:
                    c.v = ptr_add(old, d)
                elif old.__class__ is Num:
                    c.v = cas.add(old, num(d))
                elif old.__class__ is Key:
                    c.v = lib.key_add(st, old, d)
                else:
                    raise Unsupported('%s on %r' % (op, old))
                fr.regs[r] = old if post else c
            self.emit(inc)
            return r
        if op == '&':
            if e['e']['k'] == 'ref' and e['e'].get('dk') == 'fn':
                return self.ev(e['e'])
            a = self.ev(e['e'])
            r = self.new()

            def adr(st, fr):
                fr.regs[r] = Ptr(fr.regs[a])
            self.emit(adr)
            return r
        if op == '*':
            a = self.ev(e['e'])
            r = self.new()

            def der(st, fr):
                fr.regs[r] = deref(fr.regs[a])
            self.emit(der)
            return r
        if op == '__extension__':
            return self.ev(e['e'])
        a = self.ev(e['e'])
        r = self.new()
        ty = self.T[e['t']]
        if op == '-':
            def f(st, fr):
                v = fr.regs[a]
                if v.__class__ in (int, bool):
                    fr.regs[r] = wrap(ty, -int(v))
                elif v.__class__ is Key:
                    raise Unsupported('negated id')
                else:
                    fr.regs[r] = cas.neg(v)
        elif op == '+':
            return a
        elif op == '!':
            def f(st, fr):
                fr.regs[r] = not truth(st, fr.regs[a])
        elif op == '~':
            def f(st, fr):
                fr.regs[r] = wrap(ty, ~fr.regs[a])
        else:
            self.unsupported('unary %s' % op)
            return r
        self.emit(f)
        return r

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('&&', '||'):
            r = self.new()
            lt, lf, end = Label(), Label(), Label()
            self.cond_jump(e, lt, lf)
            self.place(lt)

            def t(st, fr):
                fr.regs[r] = True
                return end.pc
            self.emit(t)
            self.place(lf)

            def f(st, fr):
                fr.regs[r] = False
            self.emit(f)
            self.place(end)
            self.nop()
            return r
        if op == '=':
            a = self.ev(e['a'])
            b = self.ev(e['b'])

            def asg(st, fr):
                o = fr.regs[a]
                if o.__class__ is Cell:
                    o.v = fr.regs[b]
                else:
                    assign(o, fr.regs[b])
            self.emit(asg)
            return a
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        r = self.new()
        ty = self.T[e['t']]
        ta = self.T[e['a']['t']]
        isint = ty['k'] == 'int'
        cand = self.sizes.keys.get(id(e)) if op in V.OPS else None
        if cand is not None:
            key, kind, side = cand

            def f(st, fr):
                x, y = fr.regs[a], fr.regs[b]
                if key in sizes.FLAG:
                    if kind == 'force':
                        fr.regs[r] = bool(st.choose(2))
                        return
                    if side == 'b' and y.__class__ is int:
                        y = 1
                    elif side == 'a' and x.__class__ is int:
                        x = 1
                v = compare(st, op, x, y)
                sizes.seen(key, v)
                fr.regs[r] = v
        elif op in V.OPS:
            def f(st, fr):
                fr.regs[r] = compare(st, op, fr.regs[a], fr.regs[b])
        else:
            def f(st, fr):
                fr.regs[r] = arith(st, op, fr.regs[a], fr.regs[b], ty)
        self.emit(f)
        return r

    def e_casg(self, e):
        op = e['op'][:-1]
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        ct = self.T[e['ct']]
        lt = self.T[e['a']['t']]

        def f(st, fr):
            c = fr.regs[a]
            old = c.v
            if ct['k'] == 'float' and old.__class__ is int:
                old = num(old)
            if ct['k'] == 'int' and old.__class__ in (int, bool):
                old = toint(ct, old)
            v = arith(st, op, old, fr.regs[b], ct)
            if lt['k'] == 'int' and v.__class__ in (int, bool):
                v = toint(lt, v)
            if ct['k'] == 'float' and lt['k'] == 'int' and isinstance(v, Num):
                k = v.const()
                v = lib.trunc_sym(st, v) if k is None else int(k)
            c.v = v
        self.emit(f)
        return a

    def e_cond(self, e):
        r = self.new()
        lt, lf, end = Label(), Label(), Label()
        self.cond_jump(e['c'], lt, lf)
        self.place(lt)
        save = self.top
        a = self.ev(e['a'])

        def ma(st, fr):
            fr.regs[r] = fr.regs[a]
            return end.pc
        self.emit(ma)
        self.place(lf)
        self.nop()
        b = self.ev(e['b'])

        def mb(st, fr):
            fr.regs[r] = fr.regs[b]
        self.emit(mb)
        self.place(end)
        self.nop()
        return r

    def e_init(self, e, want=None):
        t = e['t']
        ty = self.T[t]
        if ty['k'] not in ('rec', 'arr'):
            if not e['args']:
                return self.zero_of(t)
            return self.ev(e['args'][0], want)
        if ty['k'] == 'arr':
            rs = [self.ev(x) for x in e['args']]
            objs = [self.vm.is_obj(x['t']) or x.get('v') != 'r' for x in e['args']]
            r = self.new()
            n = ty['n']
            fill = self.ev(e['filler']) if e.get('filler') and n > len(rs) and not self.vm.is_obj(ty['sub']) else None

            def mk(st, fr):
                items = []
                for x, o in zip(rs, objs):
                    v = fr.regs[x]
                    items.append(v if o else Cell(v))
                while len(items) < n:
                    items.append(self.vm.zero(ty['sub']) if self.vm.is_obj(ty['sub']) else self.vm.storage(ty['sub'], 0))
                fr.regs[r] = Arr(t, items)
            self.emit(mk)
            return r
        rec = self.p.records.get(ty['rid'])
        if rec is None:
            if ty['sqn'] == 'std::array':
                if e['args'] and self.T[e['args'][0]['t']]['k'] == 'arr':
                    a = self.ev(e['args'][0])
                    r = self.new()

                    def mk(st, fr):
                        x = fr.regs[a]
                        fr.regs[r] = Arr(t, x.items)
                    self.emit(mk)
                    return r
                return self.zero_of(t)
            if not e['args']:
                return self.zero_of(t)
            self.unsupported('initialiser list for %s' % ty['s'])
            return self.new()
        vals = []
        fields = rec['fields']
        for x, fl in zip(e['args'], fields):
            vals.append((fl['name'], self.ev(x), self.vm.is_obj(x['t']), x.get('v') in ('l', 'x')))
        r = self.new()

        def mk(st, fr):
            o = self.vm.storage(t)
            for n, x, isobj, glv in vals:
                v = fr.regs[x]
                o.f[n] = RefCell(v) if glv else v if isobj else Cell(v)
            fr.regs[r] = o
        self.emit(mk)
        return r

    def zero_of(self, t):
        r = self.new()
        if self.vm.is_obj(t):
            def z(st, fr):
                fr.regs[r] = self.vm.zero(t)
        else:
            def z(st, fr):
                fr.regs[r] = self.vm.storage(t, 0).v
        self.emit(z)
        return r

    def e_zero(self, e, want=None):
        return self.zero_of(e['t'])

    def e_stdinit(self, e):
        a = self.ev(e['e'])
        return a

    def e_idx(self, e):
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        r = self.new()

        def ix(st, fr):
            p, i = fr.regs[a], fr.regs[b]
            if p.__class__ is int:
                p, i = i, p
            fr.regs[r] = deref(ptr_add(p, i))
        self.emit(ix)
        return r

    def e_throw(self, e):
        if e.get('e') is None:
            self.unsupported('rethrow')
            return self.const(None)
        ty = self.T[self.vm.unref(e['e']['t'])]
        self.ev(e['e'])
        tqn = ty.get('sqn', ty['s'])

        def th(st, fr):
            raise Throw(tqn, e)
        self.emit(th)
        return self.const(None)

    def e_arrcopy(self, e):
        a = self.ev(e['e'])
        r = self.new()

        def cp(st, fr):
            fr.regs[r] = deep(fr.regs[a])
        self.emit(cp)
        return r

    def e_new(self, e):
        self.unsupported('operator new')
        return self.const(None)


class RefCell:
    """a reference member or by-reference capture"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def vpclone(self, cp, memo):
        r = RefCell(None)
        memo[id(self)] = r
        r.v = cp(self.v)
        return r

    def vpcanon(self, cv):
        return ('r', cv(self.v))

    def vpdeep(self):
        return RefCell(self.v)

    def vprefs(self):
        return [self.v]


class Invoke:
    def __init__(self, fn, args, this=None):
        self.fn = fn
        self.args = args
        self.this = this

    def frame(self, vm):
        return vm.frame_for(self.fn, self.args, self.this)


class RangeInsert(Invoke):
    """insertion of the elements [i, j) of a map into the map m, one by one: a loop of its own, so that it
    reaches a fixpoint over summarised maps"""

    def __init__(self, m, i, j, result, e):
        self.m, self.i, self.j, self.result, self.e = m, i, j, result, e

    def frame(self, vm):
        g = V.Frame(range_code(vm, self.e))
        g.vars = {'m': self.m, 'i': Cell(self.i), 'j': Cell(self.j), 'r': self.result}
        return g


def range_code(vm, e):
    c = vm.codes.get(('range insert', id(e)))
    if c is not None:
        return c
    c = V.Code('std::map range insertion')

    def head(st, fr):
        return -3

    def test(st, fr):
        return 4 if fr.vars['i'].v.key == fr.vars['j'].v.key else None

    def put(st, fr):
        i, m = fr.vars['i'].v, fr.vars['m']
        if i.key is None:
            raise Stop('ub', 'range that is not a range')
        if lib.mfind(vm, st, m, i.key) is None:
            lib.insert_node(vm, m, i.key, deep(i.m.ent[i.key].f['second']))

    def step(st, fr):
        lib.it_inc(Ctx(vm, st, fr, None, None, None), fr.vars['i'])
        return 0

    def ret(st, fr):
        st.frames.pop()
        if fr.dst is not None:
            st.frames[-1].regs[fr.dst] = fr.vars['r']
        return -1
    c.ins = [head, test, put, step, ret]
    c.lines = [e] * 5
    vm.codes['range insert', id(e)] = c
    return c


def enclosing(o):
    """the object `this` names: in the body of a lambda the one the lambda captured"""
    while o.__class__ is Struct and '$fn' in o.f:
        if '$this' not in o.f:
            raise Unsupported('this in a lambda that does not capture it')
        o = o.f['$this'].v
    return o


def invoke(vm, f, args):
    """f: FnPtr, lambda Struct, functor Struct, Closure; args: lvalue objects or values"""
    while f.__class__ in (Closure, Cell, Ptr):
        f = f.target if f.__class__ is Closure else f.v if f.__class__ is Cell else f.deref()
    if f is None:
        raise Stop('ub', 'call of an empty function object')
    if f.__class__ is FnPtr:
        fid, this = f.fn, None
    elif f.__class__ is Struct and '$fn' in f.f:
        fid, this = f.f['$fn'].v.fn, f
    elif f.__class__ is Struct:
        fid = None
        for g in vm.p.fnrefs.values():
            if g.get('op') == '()' and g.get('cls') is not None and vm.types[g['cls']].get('rid') == vm.types[f.t].get('rid'):
                fid = g['id']
        this = f
        if fid is None:
            raise Unsupported('call of an object')
    else:
        raise Unsupported('call of %r' % (f,))
    ref = vm.p.fnrefs[fid]
    conv = []
    for a, pt in zip(args, ref['ptypes']):
        ty = vm.types[pt]
        if ty['k'] == 'ref':
            conv.append(a if a.__class__ in (Cell, Struct, Arr, MapObj) or hasattr(a, 'vpobj') else Cell(a))
        elif vm.is_obj(pt):
            conv.append(deep(a))
        else:
            conv.append(a.v if a.__class__ is Cell else a)
    if vm.has_body(fid):
        return Invoke(fid, conv, this)
    h = lib.find(vm, ref, {})
    if h is None:
        raise Unsupported('call of %s, which has no model' % ref['qn'])
    return h(Ctx(vm, None, None, {}, ref, None), *conv)


class Ctx:
    """context handed to library models"""
    __slots__ = ('vm', 'st', 'fr', 'e', 'ref', 't')

    def __init__(self, vm, st, fr, e, ref, t):
        self.vm = vm
        self.st = st
        self.fr = fr
        self.e = e
        self.ref = ref
        self.t = t


def load(o):
    if o.__class__ is Cell:
        return o.v
    if o.__class__ is RefCell:
        return load(o.v)
    return o


def deref(p):
    if p.__class__ is Ptr:
        return p.deref()
    if p is None:
        raise Stop('ub', 'null pointer dereferenced')
    if p is UNINIT:
        raise Stop('ub', 'uninitialised pointer dereferenced')
    if p.__class__ in (FnPtr,):
        return p
    if p.__class__ in (Cell, Struct, Arr, MapObj):
        return p
    if hasattr(p, 'vpderef'):
        return p.vpderef()
    raise Unsupported('dereference of %r' % (p,))


def ptr_add(p, i):
    if p.__class__ is Ptr:
        if i.__class__ is Num:
            c = i.const()
            if c is None:
                if hasattr(p.obj, 'vpindex') or getattr(p.obj, 'items', None):
                    return Ptr(p.obj, cas.add(num(p.idx) if p.idx.__class__ is int else p.idx, i))
                raise Unsupported('symbolic index')
            i = int(c)
        if p.idx is None:
            if i == 0:
                return p
            return Ptr(Arr(None, [p.obj]), i)
        if p.idx.__class__ is Num:
            return Ptr(p.obj, cas.add(p.idx, num(i)))
        return Ptr(p.obj, p.idx + i)
    if p is None:
        raise Stop('ub', 'arithmetic on a null pointer')
    raise Unsupported('pointer arithmetic on %r' % (p,))


def truth(st, v):
    c = v.__class__
    if c is bool:
        return v
    if c is int:
        return v != 0
    if c is Num or c is Special:
        return cmpnum(st, '!=', v, ZERO)
    if v is None:
        return False
    if c in (Ptr, FnPtr, Key, str):
        return True
    if c is Closure:
        return v.target is not None
    raise Unsupported('truth of %r' % (v,))


def compare(st, op, a, b):
    ca, cb = a.__class__, b.__class__
    if ca is bool:
        a, ca = int(a), int
    if cb is bool:
        b, cb = int(b), int
    if ca is int and cb is int:
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if ca in (Num, Special) or cb in (Num, Special):
        if ca is int:
            a = num(a)
        if cb is int:
            b = num(b)
        if isinstance(a, (Num, Special)) and isinstance(b, (Num, Special)):
            return cmpnum(st, op, a, b)
    if ca is Key or cb is Key:
        return lib.cmpkey(st, op, a, b)
    if ca is tuple and cb is tuple:
        return lib.cmppair(st, op, a, b)
    if ca in (Ptr, type(None), FnPtr) and cb in (Ptr, type(None), FnPtr):
        return lib.cmpptr(st, op, a, b)
    if ca is str and cb is str:
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    raise Unsupported('comparison of %r and %r' % (a, b))


# free term algebra: floating-point operations are kept as written (up to commutativity and exact sign changes), so
# two values are equal only if they are the same floating-point computation
FREE = [False]


def _fsplit(a):
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if c < 0:
            return -1, cas.neg(a)
    return 1, a


def free_arith(op, a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return {'+': cas.add, '-': cas.sub, '*': cas.mul, '/': cas.div}[op](a, b)
    if op == '-':
        op, b = '+', cas.neg(b)
    x, y = a.const(), b.const()
    if x is not None and y is not None and op != '/':
        return cas.add(a, b) if op == '+' else cas.mul(a, b)
    if op == '+':
        if x == 0:
            return b
        if y == 0:
            return a
        sa, _ = _fsplit(a)
        sb, _ = _fsplit(b)
        flip = sa < 0 and sb < 0 or (sa != sb and (a if sa < 0 else b).key() < (a if sa > 0 else b).key())
        if flip:
            a, b = cas.neg(a), cas.neg(b)
        if b.key() < a.key():
            a, b = b, a
        r = cas.fnatom('fl+', (a, b))
        return cas.neg(r) if flip else r
    sa, a = _fsplit(a)
    sb, b = _fsplit(b)
    x, y = a.const(), b.const()
    if op == '*':
        if x == 1:
            r = b
        elif y == 1:
            r = a
        else:
            if b.key() < a.key():
                a, b = b, a
            r = cas.fnatom('fl*', (a, b))
    else:
        r = a if y == 1 else cas.fnatom('fl/', (a, b))
    return cas.neg(r) if sa * sb < 0 else r


def earlier(o, name, seen=None):
    """a static constant keeps what an earlier call, with other arguments, gave it"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if o.__class__ is Cell:
        if isinstance(o.v, Num):
            if o.v.deep_syms() and not o.v.has_rho():
                s = cas.sign(o.v)
                o.v = cas.sym('earlier:%s%d' % (name, len(seen)), 0 if s == 1 else None, 0 if s == -1 else None)
        else:
            earlier(o.v, name, seen)
    elif o.__class__ is Struct:
        for x in o.f.values():
            earlier(x, name, seen)
    elif o.__class__ is Arr:
        for x in o.items:
            earlier(x, name, seen)


def arith(st, op, a, b, ty):
    ca, cb = a.__class__, b.__class__
    if FREE[0] and op in '+-*/' and ty['k'] == 'float':
        x = num(int(a)) if ca in (int, bool) else a
        y = num(int(b)) if cb in (int, bool) else b
        if isinstance(x, (Num, Special)) and isinstance(y, (Num, Special)):
            return free_arith(op, x, y)
    if ty['k'] == 'float' or ca in (Num, Special) or cb in (Num, Special):
        if ca in (int, bool):
            a = num(int(a))
        if cb in (int, bool):
            b = num(int(b))
        if ca is Ptr:
            return ptr_add(a, b if op == '+' else cas.neg(b))
        if cb is Ptr:
            return ptr_add(b, a)
        if not (isinstance(a, (Num, Special)) and isinstance(b, (Num, Special))):
            raise Unsupported('arithmetic on %r, %r' % (a, b))
        if digits.ON[0] and ty['k'] == 'int' and isinstance(a, Num) and isinstance(b, Num):
            return digits.intarith(st, op, a, b, ty)
        if op == '+':
            return cas.add(a, b)
        if op == '-':
            return cas.sub(a, b)
        if op == '*':
            return cas.mul(a, b)
        if op == '/':
            if ty['k'] == 'int':
                return lib.intdiv(st, a, b)
            if isinstance(b, Num) and b.has_rho():
                if isinstance(a, Special):
                    if a in (cas.INF, cas.NINF):
                        raise Unsupported('infinity divided by a value of unknown sign')
                    return a
                if a.d == {}:
                    return ZERO
                return rho_()
            return cas.div(a, b)
        if op == '%':
            return lib.intmod(st, a, b)
        if op in ('&', '|', '^', '<<', '>>') and not digits.ON[0]:
            return cas.fnatom('bits' + op, (a, b))
        raise Unsupported('operator %s on symbolic numbers' % op)
    if ca is bool:
        a, ca = int(a), int
    if cb is bool:
        b, cb = int(b), int
    if ca is int and cb is int:
        if op == '+':
            v = a + b
        elif op == '-':
            v = a - b
        elif op == '*':
            v = a * b
        elif op == '/':
            if b == 0:
                raise Stop('ub', 'integer division by zero')
            v = trunc_int(a, b)
        elif op == '%':
            if b == 0:
                raise Stop('ub', 'integer division by zero')
            v = a - b * trunc_int(a, b)
        elif op == '<<':
            v = a << b
        elif op == '>>':
            v = a >> b
        elif op == '&':
            v = a & b
        elif op == '|':
            v = a | b
        elif op == '^':
            v = a ^ b
        else:
            raise Unsupported('operator %s' % op)
        return wrap(ty, v)
    if ca is Ptr and cb is int:
        return ptr_add(a, b if op == '+' else -b)
    if ca is int and cb is Ptr:
        return ptr_add(b, a)
    if ca is Ptr and cb is Ptr and op == '-':
        if a.obj is b.obj and a.idx is not None and b.idx is not None:
            if a.idx.__class__ is int and b.idx.__class__ is int:
                return a.idx - b.idx
            return cas.sub(num(a.idx), num(b.idx))
        raise Unsupported('pointer difference')
    if ca is Key and cb is int and a.ctr is not None and op in '+-':
        return lib.key_add(st, a, b if op == '+' else -b)
    if ca is Key and cb in (Key, int, Num) or cb is Key and ca in (int, Num):
        if ca is Key and cb is int and b > 0 and op in ('/', '%', '&', '>>'):
            # any value of the range, the same for the same id
            lib.keynum(st, a)
            return cas.sym('id:%s%s%d' % (a.name, op, b), -1, b if op == '%' else b + 1 if op == '&' else None, True)
        if op in '/%':
            return cas.fnatom('id' + op, (lib.keynum(st, a), lib.keynum(st, b)))
        return arith(st, op, lib.keynum(st, a), lib.keynum(st, b), ty)
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


def rho_():
    return cas.rho
