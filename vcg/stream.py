"""Contract of Tokenizer::nextToken as the callers that consume values see it, and the units for skipping a value.

Ghost cells follow the containers opened since the first token of the value being consumed was read: D how many are open, C how
many of them have the type X of the outermost one, K how many tokens were read.  What nextToken delivers is constrained by what
unit next-token proves about it: a closing bracket only for the innermost open container.  Lemma (checked by z3 below): the
outermost open container is of type X, so when a closing X arrives while C == 1 it closes the outermost one, D == 1."""
from spec import *
from stdmodel import *
from handlers import Ctx
from glue import VecG, getvec, setvec
I = z3.IntVal
GD, GCNT, GK, GERR = 0, 8, 16, 24

def lemma_outermost(ex):
    """the stack s[0..n) has s[0] == X; C = number of X in it; s[n-1] == X and n > 1 imply C >= 2 (count is monotone)"""
    cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort()); s = z3.Function('stk', z3.IntSort(), z3.IntSort()); n, X, i = z3.Ints('n X i')
    q = z3.Solver(); q.add(cnt(0) == 0, cnt(1) == cnt(0) + z3.If(s(0) == X, 1, 0), s(0) == X, n >= 1, cnt(n) == cnt(n - 1) + z3.If(s(n - 1) == X, 1, 0), z3.Implies(n - 1 >= 1, cnt(n - 1) >= cnt(1)), s(n - 1) == X, cnt(n) == 1, n != 1)
    ok = q.check() == z3.unsat; ex.obls.append(Obl('lemma:closing-the-last-X-closes-the-outermost', 'stream', ok, 'unsat' if ok else 'sat'))
    q = z3.Solver(); q.add(cnt(i + 1) == cnt(i) + z3.If(s(i) == X, 1, 0), cnt(i + 1) < cnt(i)); ok = q.check() == z3.unsat
    ex.obls.append(Obl('lemma:count-monotone', 'stream', ok, 'unsat' if ok else 'sat'))

def limits(c): return 1 << 31

class Stream:
    def __init__(self, c, X, D0, C0, on_token=None, where=('ctx', 0)):
        """c: context with .mod .ex .st .T .E; X: type of the outermost container"""
        self.c = c; self.X = X; ex, st = c.ex, c.st; self.on_token = on_token
        st.newreg('gh', 'cells', 32)
        for o, v in ((GD, D0), (GCNT, C0), (GK, 0), (GERR, 0)): setcell(st, 'gh', o, 8, v)
        ex.contracts.append((re.compile(r'^JS::Tokenizer::nextToken\(JS::Token&\)$'), self.next, 'contract'))
        ex.cand_hooks.append(self.cands); ex.unroll_policy = lambda ex, st, fr, h: False
        st.newreg('tx', 'opaque', None)        # the texts of names and values are not looked at here
        self.token(ex, st, Ptr(*where), c.vt0)
        lemma_outermost(ex)
    def g(self, s, o): return s.mem['gh'].cells[o][1]
    def sg(self, s, o, v): setcell(s, 'gh', o, 8, v)
    def inv(self, s): D, C = bv(self.g(s, GD)), bv(self.g(s, GCNT)); return z3.And(C >= 0, C <= D, z3.Implies(D >= 1, C >= 1), z3.Implies(C == 0, D == 0))
    def next(self, ex, s, ins, a):
        c = self.c; T = c.T; X = bv(self.X); Y = z3.If(X == T['ObjectStart'], I(T['ArrayStart']), I(T['ObjectStart']))
        D, C = bv(self.g(s, GD)), bv(self.g(s, GCNT))
        ex.oblige(s, simp(D >= 1), 'pre(nextToken):value-not-finished'); ex.oblige(s, simp(eq(self.g(s, GERR), 0)), 'pre(nextToken):no-error-so-far')
        s.assume(self.inv(s)); s.assume(C < limits(c) - 1); s.assume(D < (1 << 62))
        e = s.fork()
        err = fresh('tokerr', 8); e.assume(z3.And(err > c.E['NoError'], err <= c.E['UserDefinedErrors']))
        vt0 = fresh('vt', 8)
        for q, t in ((e, vt0),): self.token(ex, q, a[1], t)
        self.sg(e, GERR, err)
        vt = fresh('vt', 8); s.assume(vt <= T['Verbatim'] if 'Verbatim' in T else vt <= 20)
        xe, ye = X + 1, Y + 1; endx, endy = vt == xe, vt == ye
        s.assume(z3.Implies(endx, z3.And(C >= 1, z3.Implies(C == 1, D == 1)))); s.assume(z3.Implies(endy, D - C >= 1))
        self.sg(s, GD, simp(D + z3.If(z3.Or(vt == X, vt == Y), 1, z3.If(z3.Or(endx, endy), -1, 0)))); self.sg(s, GCNT, simp(C + z3.If(vt == X, 1, z3.If(endx, -1, 0)))); self.sg(s, GK, simp(bv(self.g(s, GK)) + 1))
        self.token(ex, s, a[1], vt)
        if self.on_token: self.on_token(ex, s, vt, e)
        return [(s, c.E['NoError']), (e, err)]
    def token(self, ex, s, p, vt):
        c = self.c; TK, DR = c.TK, c.DR
        if not (isinstance(p, Ptr) and not is_z(p.off)): raise Unsupported('token address')
        for f, v in (('value_type', vt), ('name_type', fresh('nt', 8))): setcell(s, p.reg, p.off + TK.off(f), 1, v)
        for f in ('name', 'value'):
            setcell(s, p.reg, p.off + TK.off(f) + DR.off('data'), 8, Ptr('tx', 0)); setcell(s, p.reg, p.off + TK.off(f) + DR.off('size'), 8, fresh('txn', 64))
    def cands(self, ex, st, ints, bools, vars_, depth, fixed):
        d0 = self.g(st, GD); k0 = self.g(st, GK)
        out = [self.inv, lambda s: z3.Implies(bv(d0) == 0, z3.And(bv(self.g(s, GD)) == 0, bv(self.g(s, GK)) == bv(k0), bv(self.g(s, GERR)) == 0))]
        for g, reg, w, e, v in ints:
            if reg is None and w in (32, 64) and v.key != ('gh', GD) and v.key != ('gh', GCNT):
                for o in (GD, GCNT): out.append(lambda s, g=g, o=o: eq(g(s), self.g(s, o))); out.append(lambda s, g=g, o=o: z3.Implies(bv(self.g(s, GERR)) == 0, zb(eq(g(s), self.g(s, o)))))
            if reg is None and w == 8: out.append(lambda s, g=g: eq(g(s), self.g(s, GERR)))
        for o in (GD, GCNT):
            out.append(lambda s, o=o: bv(self.g(s, o)) >= 1)
        out.append(lambda s: eq(self.g(s, GERR), 0))
        return out

def unit_skip(mod, deadline):
    c = Ctx(mod, deadline); ex, st = c.ex, c.st; T, E = c.T, c.E
    isc = z3.Or(c.vt == T['ObjectStart'], c.vt == T['ArrayStart'])
    eo = c.L.off('error'); setcell(st, 'ctx', eo, c.L.sz('error'), E['NoError'])
    s0 = z3.If(isc, I(1), I(0))
    X = z3.If(isc, c.vt, I(T['ObjectStart']))
    c.vt0 = c.vt; sm = Stream(c, X, s0, s0, where=('ctx', c.to))
    def post(ex, s, rv):
        D, err, K = bv(sm.g(s, GD)), bv(sm.g(s, GERR)), bv(sm.g(s, GK)); ok = zb(rv) if not isinstance(rv, bool) else z3.BoolVal(rv)
        cerr = bv(getcell(ex, s, 'ctx', eo, c.L.sz('error')))
        ex.oblige(s, simp(z3.Implies(z3.And(isc, cerr == E['NoError']), z3.And(D == 0, err == 0))), 'post:without-error-exactly-the-value-is-consumed')
        ex.oblige(s, simp(z3.Implies(z3.Not(isc), z3.And(K == 0, err == 0, cerr == E['NoError']))), 'post:scalar-consumes-nothing')
        ex.oblige(s, simp(z3.Implies(err != 0, cerr == err)), 'post:error-reported')
        ex.oblige(s, simp(z3.Implies(ok, z3.And(isc, cerr == E['NoError']))), 'post:success-only-without-error')
    run_function(ex, mod.find1(r'^JS::Internal::skipArrayOrObject\('), [Ptr('ctx', 0)], st, post)
    return ex

class Tk:
    """a tokenizer with a scope stack: its innermost scope is the region 'scope'"""
    def __init__(self, mod, deadline):
        self.mod = mod; self.ex = ex = install(new_engine(mod, deadline)); self.st = st = State()
        self.T = enum(mod, 'JS::Type'); self.E = enum(mod, 'JS::Error'); self.TK = Layout(mod, 'JS::Token'); self.DR = Layout(mod, 'JS::DataRef'); self.L = Layout(mod, 'JS::Tokenizer'); self.SC = Layout(mod, 'JS::Internal::ScopeCounter')
        st.newreg('tok', 'cells', self.L.size, lazy=True); st.newreg('token', 'cells', self.TK.size, lazy=True); st.newreg('scope', 'cells', self.SC.size)
        self.n0 = intvar('sc_n', 64, MAXBUF); self.o = self.L.off('scope_counter'); setcell(st, 'tok', self.o, 24, VecG(self.n0, None, 'sc'))
        self.ty = intvar('scope_type', 8); self.dp = intvar('scope_depth', 64, 1 << 62)
        setcell(st, 'scope', self.SC.off('type'), self.SC.sz('type'), self.ty); setcell(st, 'scope', self.SC.off('depth'), 8, self.dp)
        V = r'^std::vector<JS::Internal::ScopeCounter, std::allocator<JS::Internal::ScopeCounter> ?>::'
        C = lambda rx, h: ex.contracts.append((re.compile(V + rx), h, 'model'))
        def ne(ex, s, v): ex.oblige(s, simp(bv(v.n) > 0), 'scope-stack-not-empty')
        def back(ex, s, ins, a): ne(ex, s, getvec(s, a[0])); return [(s, Ptr('scope', 0))]
        def pop(ex, s, ins, a): v = getvec(s, a[0]); ne(ex, s, v); setvec(s, a[0], VecG(sub(v.n, 1), None, 'sc')); return [(s, None)]
        def push(ex, s, ins, a):
            v = getvec(s, a[0]); setvec(s, a[0], VecG(add(v.n, 1), None, 'sc'))
            for f in ('type', 'depth'): setcell(s, 'scope', self.SC.off(f), self.SC.sz(f), ex.load(s, Ptr(a[1].reg, add(a[1].off, self.SC.off(f))), ['i', 8 * self.SC.sz(f)]))
            s.ghost['pushed'] = s.ghost.get('pushed', 0) + 1
            return [(s, None)]
        C(r'back\(\)( const)?$', back); C(r'pop_back\(\)$', pop); C(r'push_back\(', push); C(r'size\(\) const$', lambda ex, s, ins, a: [(s, getvec(s, a[0]).n)]); C(r'empty\(\) const$', lambda ex, s, ins, a: [(s, simp(eq(getvec(s, a[0]).n, 0)))])
    def depth(self, s): return bv(getcell(self.ex, s, 'scope', self.SC.off('depth'), 8))
    def n(self, s): return bv(s.mem['tok'].cells[self.o][1].n)

def unit_go(mod, deadline):
    c = Tk(mod, deadline); ex, st = c.ex, c.st; T, E = c.T, c.E
    c.vt0 = intvar('vt0', 8); isc = z3.Or(c.ty == T['ObjectStart'], c.ty == T['ArrayStart'])
    st.assume(c.n0 > 0); st.assume(z3.Or(isc, c.dp == 0))     # pushScope: a scope of a scalar is finished
    D0 = intvar('open', 64); st.assume(z3.And(c.dp <= D0, z3.Implies(D0 >= 1, c.dp >= 1), z3.Implies(c.dp == 0, D0 == 0)))
    def tok(ex, s, vt, e):
        setcell(s, 'scope', c.SC.off('depth'), 8, sm.g(s, GCNT))       # unit next-token: scope-depth-follows-brackets
    sm = Stream(c, z3.If(isc, c.ty, I(T['ObjectStart'])), D0, c.dp, tok, ('token', 0))
    ex.cand_hooks.append(lambda ex, st, *r: [lambda s: c.depth(s) == bv(sm.g(s, GCNT))])
    def post(ex, s, rv):
        D, err, K, r = bv(sm.g(s, GD)), bv(sm.g(s, GERR)), bv(sm.g(s, GK)), bv(rv)
        ex.oblige(s, simp(z3.Implies(r == E['NoError'], z3.And(D == 0, err == 0))), 'post:without-error-exactly-the-scope-is-consumed')
        ex.oblige(s, simp(z3.Implies(D0 == 0, z3.And(K == 0, r == E['NoError']))), 'post:finished-scope-consumes-nothing')
        ex.oblige(s, simp(z3.Implies(err != 0, r == err)), 'post:error-reported'); ex.oblige(s, simp(c.n(s) == c.n0), 'post:scope-stays')
    run_function(ex, mod.find1(r'^JS::Tokenizer::goToEndOfScope\('), [Ptr('tok', 0), Ptr('token', 0)], st, post)
    return ex

def unit_push(mod, deadline):
    c = Tk(mod, deadline); ex, st = c.ex, c.st; T = c.T; t = intvar('t', 8)
    def post(ex, s, rv):
        ex.oblige(s, simp(z3.And(c.n(s) == c.n0 + 1, z3.BoolVal(s.ghost.get('pushed') == 1))), 'post:one-more-scope')
        ex.oblige(s, simp(z3.And(bv(getcell(ex, s, 'scope', c.SC.off('type'), c.SC.sz('type'))) == t, c.depth(s) == z3.If(z3.Or(t == T['ObjectStart'], t == T['ArrayStart']), I(1), I(0)))), 'post:open-exactly-for-containers')
    run_function(ex, mod.find1(r'^JS::Tokenizer::pushScope\('), [Ptr('tok', 0), t], st, post)
    return ex

def unit_pop(mod, deadline):
    c = Tk(mod, deadline); ex, st = c.ex, c.st; st.assume(z3.And(c.n0 > 0, c.dp == 0))
    def post(ex, s, rv): ex.oblige(s, simp(c.n(s) == c.n0 - 1), 'post:one-scope-less')
    run_function(ex, mod.find1(r'^JS::Tokenizer::popScope\('), [Ptr('tok', 0)], st, post)
    return ex
UNITS = {'skip': unit_skip, 'go-to-end-of-scope': unit_go, 'push-scope': unit_push, 'pop-scope': unit_pop}
TERM_OK = {'skip': 'reads on until the value ends or an error', 'go-to-end-of-scope': 'reads on until the value ends or an error'}
