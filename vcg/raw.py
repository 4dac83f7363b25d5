"""Contracts of raw JSON capture: Tokenizer::copyFromValue / copyIncludingValue, the handlers of JsonObject, JsonArray,
JsonObjectOrArray, their Ref variants and JsonTokens, over any token sequence (nextToken as in stream.py)."""
from spec import *
from stdmodel import *
import stdmodel
from handlers import Ctx
from stream import Stream, GD, GCNT, GK, GERR
from num import token_parts
I = z3.IntVal
OWN = ('JsonObject', 'JsonArray', 'JsonObjectOrArray'); REF = tuple(x + 'Ref' for x in OWN)
def accepts(c, name): return {'JsonObject': c.vt == c.T['ObjectStart'], 'JsonArray': c.vt == c.T['ArrayStart']}.get(name.replace('Ref', ''), z3.Or(c.vt == c.T['ObjectStart'], c.vt == c.T['ArrayStart']))
def refusal(c, name): return c.E['ExpectedArrayStart'] if name in ('JsonArray', 'JsonArrayRef') else c.E['ExpectedObjectStart']

class TextStream(Stream):
    """token texts lie in one buffer, one after the other; LASTO/LASTN: text of the token read last"""
    def token(self, ex, s, p, vt):
        super().token(ex, s, p, vt)
        c = self.c; o, n = fresh('pos', 64), fresh('len', 64); s.assume(z3.And(o >= 0, n >= 1, o + n <= self.txt.size))
        q = s.mem['pos'].cells; s.assume(z3.Implies(bv(q[8][1]) >= 0, o >= bv(q[0][1]) + bv(q[8][1])))
        setcell(s, 'pos', 0, 8, o); setcell(s, 'pos', 8, 8, n)
        setcell(s, p.reg, p.off + c.TK.off('value') + c.DR.off('data'), 8, Ptr('txt', o)); setcell(s, p.reg, p.off + c.TK.off('value') + c.DR.off('size'), 8, n)
    def next(self, ex, s, ins, a):
        if self.before_next: self.before_next(ex, s)
        return super().next(ex, s, ins, a)
    def cands(self, ex, st, *r):
        c = self.c; p = c.to
        def cur(s):
            q = s.mem['ctx'].cells[p + c.TK.off('value') + c.DR.off('data')][1]; n = s.mem['ctx'].cells[p + c.TK.off('value') + c.DR.off('size')][1]
            return z3.And(bv(q.off) == bv(s.mem['pos'].cells[0][1]), bv(n) == bv(s.mem['pos'].cells[8][1]))
        inb = lambda s: z3.And(bv(s.mem['pos'].cells[0][1]) >= bv(self.start[0]), bv(s.mem['pos'].cells[8][1]) >= 1, bv(s.mem['pos'].cells[0][1]) + bv(s.mem['pos'].cells[8][1]) <= self.txt.size)
        vt = lambda s: bv(getcell(ex, s, 'ctx', p + c.TK.off('value_type'), 1))
        return super().cands(ex, st, *r) + [cur, inb, lambda s: bv(self.g(s, GK)) >= 0] + [f for f in self.more_cands(ex, st, *r)]
    def more_cands(self, *r): return []

def make(mod, deadline, name):
    c = Ctx(mod, deadline); ex, st = c.ex, c.st; T, E = c.T, c.E
    acc = accepts(c, name) if name != 'JsonTokens' else z3.Or(c.vt == T['ObjectStart'], c.vt == T['ArrayStart'])
    setcell(st, 'ctx', c.L.off('error'), c.L.sz('error'), E['NoError'])
    st.newreg('pos', 'cells', 16); setcell(st, 'pos', 0, 8, 0); setcell(st, 'pos', 8, 8, 0)
    X = z3.If(acc, c.vt, I(T['ObjectStart'])); d0 = z3.If(acc, I(1), I(0))
    c.vt0 = c.vt
    TextStream.txt = add_buf(ex, st, 'txt'); TextStream.before_next = None
    sm = TextStream.__new__(TextStream); sm.txt = TextStream.txt; sm.before_next = None
    Stream.__init__(sm, c, X, d0, d0, where=('ctx', c.to))
    sm.start = (st.mem['pos'].cells[0][1], st.mem['pos'].cells[8][1])
    return c, ex, st, acc, sm

def unit_ref(name):
    def unit(mod, deadline):
        c, ex, st, acc, sm = make(mod, deadline, name); E = c.E; R = Layout(mod, 'JS::' + name); ro = R.off('ref')
        st.newreg('v', 'cells', R.size, lazy=True)
        def post(ex, s, rv):
            rv = bv(rv); ok = rv == E['NoError']; D, err, K = bv(sm.g(s, GD)), bv(sm.g(s, GERR)), bv(sm.g(s, GK))
            ex.oblige(s, simp(z3.Implies(z3.Not(acc), z3.And(rv == refusal(c, name), K == 0))), 'post:other-kinds-refused')
            ex.oblige(s, simp(z3.Implies(z3.And(acc, ok), z3.And(D == 0, err == 0))), 'post:exactly-the-value-is-consumed'); ex.oblige(s, simp(z3.Implies(err != 0, rv == err)), 'post:error-reported')
            q = s.mem['v'].cells.get(ro + c.DR.off('data')); 
            if q is None: ex.oblige(s, simp(z3.Implies(acc, z3.Not(ok))), 'post:captured'); return
            p = q[1]; n = getcell(ex, s, 'v', ro + c.DR.off('size'), 8); pos = s.mem['pos'].cells
            ex.oblige(s, simp(z3.Implies(z3.And(acc, ok), z3.And(z3.BoolVal(isinstance(p, Ptr) and p.reg == 'txt'), bv(p.off) == bv(sm.start[0]), bv(p.off) + bv(n) == bv(pos[0][1]) + bv(pos[8][1])))), 'post:from-the-opening-to-the-closing-bracket')
        run_function(ex, mod.find1(r'^h_to_%s\(' % name), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit

REG = 0
def unit_own(name):
    def unit(mod, deadline):
        c, ex, st, acc, sm = make(mod, deadline, name); E = c.E; L = Layout(mod, 'JS::' + name); do = L.off('data')
        st.newreg('v', 'cells', L.size, lazy=True); old = StrVal(z3.Const('old', SeqS), intvar('oldlen', 64, MAXBUF)); setcell(st, 'v', do, 32, old)
        st.newreg('cap', 'cells', 8); setcell(st, 'cap', 0, 8, 0)
        reg = lambda s: bv(s.mem['cap'].cells[0][1]); tko = c.L.off('tokenizer')
        def args(s, a): return b_and(a[0].reg == 'ctx' and same(a[0].off, tko), a[2].reg == 'v' and same(a[2].off, do))
        def start(ex, s, ins, a):
            ex.oblige(s, simp(b_and(args(s, a), eq(reg(s), 0), eq(sm.g(s, GK), 0), a[1].reg == 'ctx' and same(a[1].off, c.to))), 'pre(copyFromValue):at-the-opening-bracket')
            ex.oblige(s, simp(eq(getstr(ex, s, a[2]).len, 0)), 'pre(copyFromValue):target-empty'); setcell(s, 'cap', 0, 8, 1); return [(s, None)]
        def stop(ex, s, ins, a):
            ex.oblige(s, simp(b_and(args(s, a), eq(reg(s), 1))), 'pre(copyIncludingValue):capture-in-progress'); setcell(s, 'cap', 0, 8, 2); return [(s, None)]
        def before(ex, s): ex.oblige(s, simp(eq(reg(s), 1)), 'pre(nextToken):capture-in-progress')
        sm.before_next = before; sm.more_cands = lambda *r: [lambda s: eq(reg(s), 1)]
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'contract'))
        C(r'^JS::Tokenizer::copyFromValue\(', start); C(r'^JS::Tokenizer::copyIncludingValue\(', stop)
        def post(ex, s, rv):
            rv = bv(rv); ok = rv == E['NoError']; D, err, K = bv(sm.g(s, GD)), bv(sm.g(s, GERR)), bv(sm.g(s, GK))
            ex.oblige(s, simp(z3.Implies(z3.Not(acc), z3.And(rv == refusal(c, name), K == 0, eq(reg(s), 0)))), 'post:other-kinds-refused')
            ex.oblige(s, simp(z3.Implies(z3.And(acc, ok), z3.And(D == 0, err == 0))), 'post:exactly-the-value-is-consumed'); ex.oblige(s, simp(z3.Implies(err != 0, rv == err)), 'post:error-reported')
            ex.oblige(s, simp(z3.Implies(acc, eq(reg(s), 2))), 'post:capture-finished-also-on-error')
        run_function(ex, mod.find1(r'^h_to_%s\(' % name), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit

def unit_tokens(mod, deadline):
    c, ex, st, acc, sm = make(mod, deadline, 'JsonTokens'); E = c.E
    st.newreg('v', 'cells', 64, lazy=True); st.newreg('cap', 'cells', 8); n0 = intvar('old_size', 64, 1 << 40); setcell(st, 'cap', 0, 8, n0); cnt = lambda s: bv(s.mem['cap'].cells[0][1])
    V = r'^std::vector<JS::Token, std::allocator<JS::Token>>::'
    M = lambda rx, h: ex.contracts.append((re.compile(V + rx), h, 'model'))
    def chk(a):
        if not (a[0].reg == 'v' and same(a[0].off, 0)): raise Unsupported('another vector')
    def clear(ex, s, ins, a): chk(a); setcell(s, 'cap', 0, 8, 0); return [(s, None)]
    def push(ex, s, ins, a): chk(a); ex.oblige(s, a[1].reg == 'ctx' and same(a[1].off, c.to), 'pre(push_back):the-current-token'); setcell(s, 'cap', 0, 8, simp(cnt(s) + 1)); return [(s, None)]
    M(r'clear\(\)$', clear); M(r'push_back\(', push); ex.contracts.append((re.compile(r'std::vector<JS::Token, std::allocator<JS::Token>>::emplace_back<JS::Token'), lambda ex, s, ins, a: [(x, Ptr('ctx', c.to)) for x, _ in push(ex, s, ins, a)], 'model')); M(r'reserve\(', lambda ex, s, ins, a: [(s, None)])
    def before(ex, s): ex.oblige(s, simp(cnt(s) == bv(sm.g(s, GK)) + 1), 'pre(nextToken):every-token-so-far-captured'); s.assume(bv(sm.g(s, GK)) < (1 << 40))
    sm.before_next = before; sm.more_cands = lambda *r: [lambda s: cnt(s) == bv(sm.g(s, GK)) + 1, lambda s: z3.Implies(bv(sm.g(s, GERR)) == 0, cnt(s) == bv(sm.g(s, GK)) + 1)]
    def post(ex, s, rv):
        rv = bv(rv); ok = rv == E['NoError']; D, err, K = bv(sm.g(s, GD)), bv(sm.g(s, GERR)), bv(sm.g(s, GK))
        ex.oblige(s, simp(z3.Implies(z3.Not(acc), z3.And(K == 0, cnt(s) == n0 + 1))), 'post:scalar-is-one-token'); ex.oblige(s, simp(z3.Implies(err != 0, rv == err)), 'post:error-reported')
        ex.oblige(s, simp(z3.Implies(z3.And(acc, ok), z3.And(D == 0, err == 0, cnt(s) == K + 1))), 'post:exactly-the-tokens-of-the-value')
    run_function(ex, mod.find1(r'^h_to_JsonTokens\('), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
    return ex

def unit_from(name):
    """the captured text is handed to the serializer as it is, under the name of the token; an owning type that holds nothing writes an empty value"""
    def unit(mod, deadline):
        out = []
        for empty in ((False, True) if name in OWN else (False,)):
            c = Ctx(mod, deadline); ex, st = c.ex, c.st; TK, DR = c.TK, c.DR; L = Layout(mod, 'JS::' + name); b = add_buf(ex, st, 'cap')
            st.newreg('v', 'cells', L.size, lazy=True); st.assume(b.size == 0 if empty else b.size > 0)
            if name in OWN: setcell(st, 'v', L.off('data'), 32, StrVal(EMPTY, 0) if empty else StrVal(z3.Const('capseq', SeqS), b.size, 'cap'))
            else: setcell(st, 'v', L.off('ref') + DR.off('data'), 8, Ptr('cap', 0)); setcell(st, 'v', L.off('ref') + DR.off('size'), 8, b.size)
            st.newreg('nm', 'bytes', intvar('nmn', 64, MAXBUF), ro=True); nt = intvar('nt', 8)
            setcell(st, 'token', TK.off('name') + DR.off('data'), 8, Ptr('nm', 0)); setcell(st, 'token', TK.off('name') + DR.off('size'), 8, z3.Int('nmn')); setcell(st, 'token', TK.off('name_type'), 1, nt)
            def write(ex, s, ins, a, c=c, b=b, empty=empty, nt=nt):
                p, n, ty = token_parts(ex, s, c.mod, a[1]); s.ghost['writes'] = s.ghost.get('writes', 0) + 1; t = a[1]
                np = s.mem[t.reg].cells[t.off + TK.off('name') + DR.off('data')][1]
                ex.oblige(s, simp(b_and(a[0].reg == 'ser', np.reg == 'nm' and same(np.off, 0), eq(getcell(ex, s, t.reg, t.off + TK.off('name') + DR.off('size'), 8), z3.Int('nmn')), eq(getcell(ex, s, t.reg, t.off + TK.off('name_type'), 1), nt))), 'pre(write):under-the-given-name')
                ex.oblige(s, simp(eq(ty, c.T['Verbatim'])), 'pre(write):verbatim')
                if empty:
                    n = ex.conc(s, n)
                    if is_z(n): raise Unsupported('length')
                    by = [ex.load(s, Ptr(p.reg, add(p.off, k)), ['i', 8]) for k in range(n)] if p.reg in s.mem and s.mem[p.reg].kind != 'content' else None
                    if by is None:
                        from structs import lit
                        t2 = lit(s.mem[p.reg].info['seq'])
                    else: t2 = ''.join(chr(x) for x in by)
                    ex.oblige(s, t2 in (('[]',) if name == 'JsonArray' else ('{}',) if name == 'JsonObject' else ('{}', '[]')), 'pre(write):empty-value')
                else: ex.oblige(s, simp(b_and(p.reg == 'cap' and same(p.off, 0), eq(n, b.size))), 'pre(write):the-captured-text')
                return [(s, freshb('written'))]
            ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), write, 'contract'))
            def post(ex, s, rv): ex.oblige(s, s.ghost.get('writes', 0) == 1, 'post:written-exactly-once')
            run_function(ex, mod.find1(r'^h_from_%s\(' % name), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, post); out.append(ex)
        return out
    return unit

class Cap:
    """a tokenizer with nc captures registered in copy_buffers (capacity 8, as reserved by the constructor) and one current buffer"""
    def __init__(self, mod, deadline, nc, front=True):
        self.mod = mod; self.ex = ex = install(new_engine(mod, deadline)); self.st = st = State(); ex.unroll_policy = lambda ex, st, fr, h: True
        self.L = L = Layout(mod, 'JS::Tokenizer'); self.TK = Layout(mod, 'JS::Token'); self.DR = Layout(mod, 'JS::DataRef'); self.nc = nc
        st.newreg('tok', 'cells', L.size, lazy=True); st.newreg('cb', 'cells', 16 * 8); st.newreg('dl', 'cells', 16 * 4); self.b = b = add_buf(ex, st, 'buf')
        self.first, self.old = [], []
        for k in range(3):
            st.newreg('str%d' % k, 'cells', 32); v = StrVal(z3.Const('old%d' % k, SeqS), intvar('len%d' % k, 64, MAXBUF)); self.old.append(v); setcell(st, 'str%d' % k, 0, 32, v)
        for k in range(nc):
            f = intvar('first%d' % k, 64); st.assume(f <= b.size); self.first.append(f); setcell(st, 'cb', 16 * k, 8, f); setcell(st, 'cb', 16 * k + 8, 8, Ptr('str%d' % k, 0))
        setcell(st, 'dl', 0, 8, Ptr('buf', 0)); setcell(st, 'dl', 8, 8, b.size)
        for f, r, n, cap in (('copy_buffers', 'cb', nc, 8), ('data_list', 'dl', 1 if front else 0, 4)):
            o = L.off(f); setcell(st, 'tok', o, 8, Ptr(r, 0)); setcell(st, 'tok', o + 8, 8, Ptr(r, 16 * n)); setcell(st, 'tok', o + 16, 8, Ptr(r, 16 * cap))
        self.cur = intvar('cur', 64); st.assume(self.cur <= b.size); setcell(st, 'tok', L.off('cursor_index'), 8, self.cur)
        st.newreg('token', 'cells', self.TK.size, lazy=True)
    def n(self, s): p = s.mem['tok'].cells[self.L.off('copy_buffers') + 8][1]; return p.off // 16 if isinstance(p, Ptr) and p.reg == 'cb' and not is_z(p.off) else None
    def entry(self, ex, s, k, first, target):
        p = s.mem['cb'].cells[16 * k + 8][1]
        ex.oblige(s, simp(b_and(eq(getcell(ex, s, 'cb', 16 * k, 8), first), isinstance(p, Ptr) and p.reg == target and same(p.off, 0))), 'post:registered-captures')

def unit_copy_from(mod, deadline):
    out = []
    for nc in (0, 1, 2):
        for inter in (False, True):
            q = Cap(mod, deadline, nc); ex, st, b = q.ex, q.st, q.b; vo = q.TK.off('value')
            vn = intvar('vn', 64); st.assume(vn >= 1)
            if inter: st.newreg('im', 'bytes', intvar('imn', 64, MAXBUF), ro=True); st.mem['im'].f = bytefun('byte_im'); vp = intvar('vp', 64); st.assume(vp + vn <= z3.Int('imn')); p = Ptr('im', vp)
            else: vp = intvar('vp', 64); st.assume(vp + vn <= b.size); p = Ptr('buf', vp)
            setcell(st, 'token', vo + q.DR.off('data'), 8, p); setcell(st, 'token', vo + q.DR.off('size'), 8, vn)
            ex.contracts.append((re.compile(r'^JS::isValueInIntermediateToken\('), lambda ex, s, ins, a, inter=inter: [(s, inter)], 'model'))
            def post(ex, s, rv, q=q, nc=nc, inter=inter, p=p, vn=vn, vp=vp):
                ex.oblige(s, q.n(s) == nc + 1, 'post:one-more-capture')
                for k in range(nc): q.entry(ex, s, k, q.first[k], 'str%d' % k)
                if q.n(s) == nc + 1: q.entry(ex, s, nc, q.cur if inter else vp, 'str%d' % nc)
                v = getstr(ex, s, Ptr('str%d' % nc, 0)); want = q.old[nc].seq
                if inter: want, _ = ex.seq_append(s, want, p, vn)
                ex.oblige(s, simp(v.seq == want), 'post:text-before-the-capture-position')
            run_function(ex, mod.find1(r'^JS::Tokenizer::copyFromValue\('), [Ptr('tok', 0), Ptr('token', 0), Ptr('str%d' % nc, 0)], st, post); out.append(ex)
    return out

def unit_copy_including(mod, deadline):
    out = []
    for nc in (1, 2, 3):
        for j in range(nc):
            for front in (True, False):
                q = Cap(mod, deadline, nc, front); ex, st, b = q.ex, q.st, q.b; st.assume(q.first[j] <= q.cur)
                if not front: st.assume(z3.And(q.cur == 0, *[f == 0 for f in q.first]))       # releaseFirstDataRef left it so
                def post(ex, s, rv, q=q, nc=nc, j=j, b=b):
                    v = getstr(ex, s, Ptr('str%d' % j, 0)); want, _ = ex.seq_append(s, q.old[j].seq, Ptr('buf', q.first[j]), sub(q.cur, q.first[j]))
                    ex.oblige(s, simp(v.seq == want), 'post:text-up-to-the-cursor'); ex.oblige(s, q.n(s) == nc - 1, 'post:one-capture-less')
                    if q.n(s) != nc - 1: return
                    rest = [k for k in range(nc) if k != j]
                    for i, k in enumerate(rest): q.entry(ex, s, i, q.first[k], 'str%d' % k); ex.oblige(s, getstr(ex, s, Ptr('str%d' % k, 0)).same(q.old[k]), 'post:other-captures-untouched')
                run_function(ex, mod.find1(r'^JS::Tokenizer::copyIncludingValue\([^)]*&\)$'), [Ptr('tok', 0), Ptr('token', 0), Ptr('str%d' % j, 0)], st, post); out.append(ex)
    return out
UNITS = {'copy-from-value': unit_copy_from, 'copy-including-value': unit_copy_including, 'read-JsonTokens': unit_tokens}
TERM_OK = {'read-JsonTokens': 'reads on until the value ends or an error'}
for _n in OWN + REF:
    UNITS['read-' + _n] = (unit_own if _n in OWN else unit_ref)(_n); TERM_OK['read-' + _n] = 'reads on until the value ends or an error'; UNITS['write-' + _n] = unit_from(_n)
