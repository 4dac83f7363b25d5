"""Contracts of the handlers for booleans and nullable wrappers.  The element handler is represented by a contract: it may change
the element and the token and returns an arbitrary error."""
from spec import *
from stdmodel import *
from num import token_parts
I = z3.IntVal

class Ctx:
    """a ParseContext whose current token has a symbolic value"""
    def __init__(self, mod, deadline):
        self.mod = mod; self.ex = ex = install(new_engine(mod, deadline)); self.st = st = State()
        self.T = enum(mod, 'JS::Type'); self.E = enum(mod, 'JS::Error'); self.L = Layout(mod, 'JS::ParseContext'); self.TK = Layout(mod, 'JS::Token'); self.DR = Layout(mod, 'JS::DataRef')
        self.b = add_buf(ex, st, 'w')
        st.newreg('ctx', 'cells', self.L.size, lazy=True); self.to = self.L.off('token')
        self.vt = intvar('vt', 8)
        setcell(st, 'ctx', self.to + self.TK.off('value_type'), 1, self.vt)
        o = self.to + self.TK.off('value'); setcell(st, 'ctx', o + self.DR.off('data'), 8, Ptr('w', 0)); setcell(st, 'ctx', o + self.DR.off('size'), 8, self.b.size)
        st.newreg('ser', 'cells', Layout(mod, 'JS::Serializer').size if 'JS::Serializer' in mod.types else 512, lazy=True); st.newreg('token', 'cells', self.TK.size, lazy=True)
    def word(self, w): return z3.And(self.b.size == len(w), *[self.b.byte(i) == ord(c) for i, c in enumerate(w)])

def unit_bool_to(mod, deadline):
    c = Ctx(mod, deadline); ex, st = c.ex, c.st
    st.newreg('v', 'cells', 1); old = intvar('old', 8); st.assume(old <= 1); setcell(st, 'v', 0, 1, old)
    def post(ex, s, rv):
        t, f = c.word('true'), c.word('false')
        ex.oblige(s, simp((bv(rv) == c.E['NoError']) == z3.Or(t, f)), 'post:accepts-exactly-true-and-false')
        v = bv(getcell(ex, s, 'v', 0, 1))
        ex.oblige(s, simp(v == z3.If(t, I(1), z3.If(f, I(0), old))), 'post:value')
    run_function(ex, mod.find1(r'^JS::TypeHandler<bool(, void)?>::to\('), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
    return ex

def expect_write(c, want):
    """want(st, list of bytes, type) -> condition on the one token handed to the serializer"""
    def h(ex, st, ins, a):
        p, n, ty = token_parts(ex, st, c.mod, a[1])
        ex.oblige(st, a[0].reg == 'ser', 'pre(write):serializer')
        st.ghost['writes'] = st.ghost.get('writes', 0) + 1
        if is_z(n): raise Unsupported('symbolic length')
        by = [ex.load(st, Ptr(p.reg, add(p.off, k)), ['i', 8]) for k in range(n)]
        ex.oblige(st, want(st, by, ty), 'pre(write):token')
        return [(st, freshb('written'))]
    c.ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), h, 'contract'))
def isword(by, w): return len(by) == len(w) and simp(b_and(*[eq(x, ord(ch)) for x, ch in zip(by, w)]))

def unit_bool_from(mod, deadline):
    c = Ctx(mod, deadline); ex, st = c.ex, c.st
    v = intvar('b', 8); st.assume(v <= 1); st.newreg('v', 'cells', 1); setcell(st, 'v', 0, 1, v)
    def want(st, by, ty):
        w = b_or(b_and(eq(v, 1), isword(by, 'true')), b_and(eq(v, 0), isword(by, 'false')))
        return simp(b_and(w, eq(ty, c.T['Bool'])))
    expect_write(c, want)
    def post(ex, s, rv): ex.oblige(s, s.ghost.get('writes', 0) == 1, 'post:written-exactly-once')
    run_function(ex, mod.find1(r'^JS::TypeHandler<bool(, void)?>::from\('), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, post)
    return ex

def elem(c):
    """contract of the element handler"""
    def to(ex, st, ins, a):
        st.ghost['elem'] = st.ghost.get('elem', []) + [a[0]]
        ex.oblige(st, a[1].reg == 'ctx' and not is_z(a[1].off) and a[1].off == 0, 'pre(element):context')
        ex.oblige(st, simp(eq(getcell(ex, st, 'ctx', c.to + c.TK.off('value_type'), 1), c.vt)), 'pre(element):token-untouched')
        ex.store(st, a[0], fresh('elem', 64), ['i', 64])
        r = fresh('elem_err', 8); st.ghost['elem_err'] = r
        return [(st, r)]
    def frm(ex, st, ins, a): st.ghost['elemw'] = st.ghost.get('elemw', []) + [a[0]]; ex.oblige(st, a[1].reg == 'token' and a[2].reg == 'ser', 'pre(element):token-and-serializer'); return [(st, None)]
    c.ex.contracts.append((re.compile(r'^JS::TypeHandler<U(, void)?>::to\('), to, 'contract'))
    c.ex.contracts.append((re.compile(r'^JS::TypeHandler<U(, void)?>::from\('), frm, 'contract'))
    def new(ex, st, ins, a):
        n = ex.conc(st, a[0])
        r = st.newreg('heap!%d' % next(core._fresh), 'cells', n, lazy=True)
        return [(st, Ptr(r.rid, 0))]
    c.ex.contracts.append((re.compile(r'^operator new\(unsigned long\)$'), new, 'model'))
    def delete(ex, st, ins, a): st.ghost['deleted'] = st.ghost.get('deleted', []) + [a[0].reg]; return [(st, None)]
    c.ex.contracts.append((re.compile(r'^operator delete\(void\*(, unsigned long)?\)$'), delete, 'model'))

def unit_null_to(cls, kind):
    """exactly the null token means absent; any other token is given to the element handler once"""
    def unit(mod, deadline):
        c = Ctx(mod, deadline); ex, st = c.ex, c.st; elem(c)
        if kind == 'uptr':
            st.newreg('v', 'cells', 8); st.newreg('old', 'cells', 8); setcell(st, 'old', 0, 8, intvar('oldelem', 64))
            outs = []
            st2 = st.fork(); setcell(st, 'v', 0, 8, NULL); setcell(st2, 'v', 0, 8, Ptr('old', 0)); states = [st, st2]
        else:
            L = Layout(mod, cls); st.newreg('v', 'cells', L.size, lazy=True); states = [st]
            od = L.off('data'); setcell(st, 'v', od, 8, intvar('oldelem', 64))
            if kind in ('null', 'assigned'): fo = L.off(kind); fl = intvar('oldflag', 8); st.assume(fl <= 1); setcell(st, 'v', fo, 1, fl)
        for s0 in states:
            was = s0.mem['v'].cells[0][1] if kind == 'uptr' else None
            def post(ex, s, rv, was=was):
                el = s.ghost.get('elem', []); isnull = c.vt == c.T['Null']; rv = bv(rv)
                called = len(el) == 1
                ex.oblige(s, len(el) <= 1, 'post:element-read-at-most-once')
                if kind in ('plain', 'assigned'): ex.oblige(s, called, 'post:element-read')
                else: ex.oblige(s, simp(isnull == z3.Not(z3.BoolVal(called))), 'post:absent-exactly-for-null')
                if called: ex.oblige(s, simp(rv == s.ghost['elem_err']), 'post:element-error-passed-on')
                else: ex.oblige(s, simp(rv == c.E['NoError']), 'post:no-error')
                if kind == 'uptr':
                    p = s.mem['v'].cells[0][1]
                    if called: ex.oblige(s, isinstance(p, Ptr) and p.reg == el[0].reg and same(p.off, el[0].off) and p.reg != 'null', 'post:holds-the-element'); ex.oblige(s, b_or(was.reg != 'old', p.reg == 'old'), 'post:element-reused')
                    else: ex.oblige(s, isinstance(p, Ptr) and same(p, NULL), 'post:reset'); ex.oblige(s, b_or(was.reg != 'old', s.ghost.get('deleted') == ['old']), 'post:old-element-freed')
                else:
                    if called: ex.oblige(s, el[0].reg == 'v' and same(el[0].off, od), 'post:element-in-place')
                    else: ex.oblige(s, simp(eq(getcell(ex, s, 'v', od, 8), z3.Int('oldelem'))), 'post:element-untouched')
                    if kind == 'null': ex.oblige(s, simp(bv(getcell(ex, s, 'v', fo, 1)) == z3.If(isnull, I(1), I(0))), 'post:null-flag')
                    if kind == 'assigned': ex.oblige(s, simp(eq(getcell(ex, s, 'v', fo, 1), 1)), 'post:assigned-flag')
            run_function(ex, mod.find1(r'^JS::TypeHandler<%s(, void)?>::to\(' % re.escape(cls)), [Ptr('v', 0), Ptr('ctx', 0)], s0, post)
        return ex
    return unit

def unit_null_from(cls, kind):
    def unit(mod, deadline):
        c = Ctx(mod, deadline); ex, st = c.ex, c.st; elem(c)
        fl = intvar('flag', 8); st.assume(fl <= 1); od = 0
        if kind == 'uptr':
            st.newreg('v', 'cells', 8); st.newreg('old', 'cells', 8); setcell(st, 'old', 0, 8, intvar('oldelem', 64))
            st2 = st.fork(); setcell(st, 'v', 0, 8, NULL); setcell(st2, 'v', 0, 8, Ptr('old', 0)); st.assume(fl == 1); st2.assume(fl == 0); states = [st, st2]
        else:
            L = Layout(mod, cls); st.newreg('v', 'cells', L.size, lazy=True); states = [st]; od = L.off('data'); setcell(st, 'v', od, 8, intvar('oldelem', 64))
            if kind in ('null', 'assigned'): setcell(st, 'v', L.off(kind), 1, fl)
        expect_write(c, lambda s, by, ty: b_and(isword(by, 'null'), simp(eq(ty, c.T['Null']))))
        def post(ex, s, rv):
            el = s.ghost.get('elemw', []); w = s.ghost.get('writes', 0)
            absent = {'uptr': fl == 1, 'null': fl == 1, 'assigned': fl == 0, 'plain': z3.BoolVal(False)}[kind]
            wn = kind != 'assigned'
            ex.oblige(s, simp(z3.If(absent, z3.BoolVal(len(el) == 0 and w == (1 if wn else 0)), z3.BoolVal(len(el) == 1 and w == 0))), 'post:null-written-exactly-when-absent')
            for p in el: ex.oblige(s, (p.reg == 'old' and same(p.off, 0)) if kind == 'uptr' else (p.reg == 'v' and same(p.off, od)), 'post:the-element')
        for s0 in states: run_function(ex, mod.find1(r'^JS::TypeHandler<%s(, void)?>::from\(' % re.escape(cls)), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], s0, post)
        return ex
    return unit
UNITS = {'bool-to': unit_bool_to, 'bool-from': unit_bool_from}
for _n, _c, _k in (('nullable', 'JS::Nullable<U>', 'nullable'), ('nullable-checked', 'JS::NullableChecked<U>', 'null'), ('optional', 'JS::Optional<U>', 'plain'), ('optional-checked', 'JS::OptionalChecked<U>', 'assigned'), ('unique-ptr', 'std::unique_ptr<U, std::default_delete<U>>', 'uptr')):
    UNITS['to-' + _n] = unit_null_to(_c, _k)
    UNITS['from-' + _n] = unit_null_from(_c, 'plain' if _k == 'nullable' else _k)
