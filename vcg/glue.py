"""Contracts of the tokenizer glue: populateNextTokenFromDataRef (with populateFromDataRef and the small helpers inlined)
against the contracts of the scanners proved in scan.py.

The text is seen through global positions: the buffer at hand holds the text positions [base, base+size).  Each scanner is
represented by an uninterpreted function of the text giving the position its specification (scan.py) defines; a scan that
reaches the end of the buffer has the same answer when it is resumed at the start of the next buffer (lemmas below)."""
from spec import *
from stdmodel import *
import stdmodel
from scan import *

class Seg(StrVal):
    """std::string holding the text positions [lo,hi) (strong) or anything of length hi-lo (weak)"""
    def __init__(self, lo, hi, tag, ver=0): self.lo = lo; self.hi = hi; self.tag = tag; self.ver = ver
    @property
    def len(self): return sub(self.hi, self.lo)
    def same(self, o): return isinstance(o, Seg) and same(self.lo, o.lo) and same(self.hi, o.hi) and self.tag == o.tag and self.ver == o.ver
    def terms(self): return []
    def havoc(self, name): raise Unsupported('havoc of segment string')
    def __repr__(self): return 'Seg(%s,%s,%s)' % (self.lo, self.hi, self.tag)
    def reg(self): return 'seg:%s:%d' % (self.tag, self.ver)

STARTT = [(10, 'String'), (11, 'ObjectStart'), (12, 'ObjectEnd'), (13, 'ArrayStart'), (14, 'ArrayEnd'), (15, 'Number'), (16, 'Ascii')]
II = z3.IntSort()
class Text:
    SE = z3.Function('text_string_end', II, II, II)      # position after the first unescaped quote, scanning from q with escape state e
    RUN = z3.Function('text_run_end', II, II, II)        # first position >= q that does not belong to a run of that type
    ST = z3.Function('text_start', II, II); STK = z3.Function('text_start_kind', II, II)
    DE = z3.Function('text_delim', II, II); DEK = z3.Function('text_delim_kind', II, II)
    TE = z3.Function('text_token_end', II, II); TEK = z3.Function('text_token_end_kind', II, II)
    KW = z3.Function('text_word_type', II, II, II)       # type of the bare word at [a,b)

def lemmas(ex):
    """resuming a scan: with comments off every skipping scanner looks for the first byte of a class, so the answer from q is
    the answer from any later position up to that byte; strings likewise with the escape state carried along"""
    c = z3.Int('c')
    for nm, kind in (('start', START_KIND), ('delimiter', DELIM_KIND), ('token-end', TEND_KIND)):
        class K:
            def flag(self, n): return z3.Bool('flag_' + n)
        class B:
            size = z3.Int('n')
            def byte(self, i): return z3.Function('by', II, II)(bv(i))
        b = B(); S = SkipFold(b, z3.BoolVal(False), lambda c: kind(K(), c), ())
        i = z3.Int('i')
        s = z3.Solver(); s.add(S.at(i) == SCAN, z3.Not(z3.And(S.step_at(i) == kind(K(), b.byte(i)), z3.Or(S.step_at(i) == SCAN, S.step_at(i) >= 10))))
        r = s.check(); ex.obls.append(Obl('lemma:%s-scan-is-stateless' % nm, 'glue.lemmas', r == z3.unsat, str(r)))
    F = z3.Function('first', II, II); C = z3.Function('C', II, z3.BoolSort()); p, q = z3.Ints('p q')
    # F(p) = C(p) ? p : F(p+1); induction: F(p) >= q  and  F(p) == F(q) ==> at q+1 the same when not C(q)
    s = z3.Solver(); s.add(F(q) == z3.If(C(q), q, F(q + 1)), F(p) == F(q), F(p) >= q + 1, z3.Not(F(p) == F(q + 1)), z3.Implies(z3.Not(C(q)), F(q) == F(q + 1)))
    r = s.check(); ex.obls.append(Obl('lemma:first-position-resumes', 'glue.lemmas', r == z3.unsat, str(r)))

class Glue:
    def __init__(self, mod, deadline, strong):
        self.mod = mod; self.strong = strong
        self.ex = ex = new_engine(mod, deadline); self.st = st = State()
        self.T = enum(mod, 'JS::Type'); self.E = enum(mod, 'JS::Error'); self.TS = enum(mod, 'JS::Tokenizer::InTokenState'); self.PS = enum(mod, 'JS::Tokenizer::InPropertyState')
        self.L = Layout(mod, 'JS::Tokenizer'); self.IT = Layout(mod, 'JS::Internal::IntermediateToken'); self.TK = Layout(mod, 'JS::Token'); self.DR = Layout(mod, 'JS::DataRef')
        self.b = add_buf(ex, st, 'buf')
        self.base = intvar('base', 64, MAXBUF); self.B = self.base + self.b.size
        st.newreg('tok', 'cells', self.L.size, lazy=True); st.newreg('token', 'cells', self.TK.size, lazy=True)
        st.newreg('dr', 'cells', 16); setcell(st, 'dr', self.DR.off('data'), 8, Ptr('buf', 0)); setcell(st, 'dr', self.DR.off('size'), 8, self.b.size)
        for f in ('name', 'value'):
            o = self.TK.off(f); setcell(st, 'token', o + self.DR.off('data'), 8, Ptr('olddata', 0)); setcell(st, 'token', o + self.DR.off('size'), 8, intvar('old_' + f, 64))
        self.io = self.L.off('intermediate_token')
        self.flags = {}
        self.setup_bits()
        self.cur = intvar('cur', 64); self.set('cursor_index', self.cur); st.assume(self.cur <= self.b.size)
        self.csn = intvar('cs_n', 64, MAXBUF); self.top = intvar('cs_top', 8)
        # the container stack is read only by the scanners
        self.ver = 0
        ex.unroll_policy = lambda ex, st, fr, h: True       # the state machine passes through at most four states per call
        self.contracts()
        stdmodel.install(ex)
    # ---- state access
    def set(self, f, v): setcell(self.st, 'tok', self.L.off(f), self.L.sz(f), v)
    def get(self, st, f): return getcell(self.ex, st, 'tok', self.L.off(f), self.L.sz(f))
    def iset(self, f, v): setcell(self.st, 'tok', self.io + self.IT.off(f), self.IT.sz(f), v)
    def iget(self, st, f): return getcell(self.ex, st, 'tok', self.io + self.IT.off(f), self.IT.sz(f))
    def setup_bits(self):
        bits = {}
        for L, base, names in ((self.L, 0, ['allow_ascii_properties', 'allow_new_lines', 'allow_superfluous_comma', 'allow_comments', 'expecting_prop_or_anonymous_data', 'continue_after_need_more_data']),
                               (self.IT, self.io, ['active', 'name_type_set', 'data_type_set'])):
            for n in names:
                if n not in L.m: raise Unsupported('field ' + n)
                o, sz = L.m[n][0] + base * 8, L.m[n][1]
                self.flags[n] = (o, sz, z3.Bool('flag_' + n))
        self.write_bits({n: f[2] for n, f in self.flags.items()})
    def write_bits(self, vals):
        bits = {}
        for n, (o, sz, _) in self.flags.items():
            v = vals[n]
            if sz == 1: bits.setdefault(o // 8, [False] * 8)[o % 8] = v
            else: setcell(self.st, 'tok', o // 8, 1, bv(v) if is_z(v) else int(v))
        for byte, bs in bits.items(): setcell(self.st, 'tok', byte, 1, simp(Bits(bs)))
        self.bits = dict(vals)
    def flag(self, st, n):
        o, sz, _ = self.flags[n]
        v = getcell(self.ex, st, 'tok', o // 8, 1)
        if sz != 1: return simp(bv(v) != 0) if is_z(v) else bool(v)
        if isinstance(v, int): return bool((v >> (o % 8)) & 1)
        if isinstance(v, Bits): return v.b[o % 8]
        return simp((v / (1 << (o % 8))) % 2 == 1)
    def setstr(self, f, lo, hi):
        self.ver += 1
        v = Seg(lo, hi, f, self.ver)
        setcell(self.st, 'tok', self.io + self.IT.off(f), 32, v); self.mkreg(self.st, v)
        return v
    def getstr(self, st, f): return st.mem['tok'].cells[self.io + self.IT.off(f)][1]
    def mkreg(self, st, v):
        r = st.newreg(v.reg(), 'bytes', simp(v.len) if is_z(v.len) else v.len, ro=True); r.f = bytefun('byte_' + v.reg(), 8); r.info['lo'] = v.lo
    # ---- where a pointer points in the text
    def pos(self, st, p):
        r = st.mem.get(p.reg)
        if p.reg == 'buf': return add(self.base, p.off)
        if r is not None and 'lo' in r.info: return add(r.info['lo'], p.off)
        return None
    def readable(self, st, p, n):
        r = st.mem.get(p.reg)
        if r is None or r.size is None: return simp(eq(n, 0))
        return simp(b_or(eq(n, 0), b_and(ule(0, p.off), ule(add(p.off, n), r.size))))
    # ---- contracts
    def contracts(self):
        ex = self.ex
        C = lambda rx, h, kind='contract': ex.contracts.append((re.compile(rx), h, kind))
        C(r'^JS::Tokenizer::findStringEnd\(', self.c_string); C(r'^JS::Tokenizer::findNumberEnd\(', self.c_run('Number')); C(r'^JS::Tokenizer::findAsciiEnd\(', self.c_run('Ascii'))
        C(r'^JS::Tokenizer::findStartOfNextValue\(', self.c_start); C(r'^JS::Tokenizer::findDelimiter\(', self.c_delim); C(r'^JS::Tokenizer::findTokenEnd\(', self.c_tend)
        C(r'^JS::Internal::getType\(', self.c_type); C(r'^JS::Internal::strnlen\(', self.c_strnlen)
        S = stdmodel.S
        C('^' + S + r'append\(char const\*, unsigned long\)$', self.m_append, 'model'); C('^' + S + r'clear\(\)$', self.m_clear, 'model')
        C('^' + S + r'(data|c_str)\(\)( const)?$', self.m_data, 'model'); C('^' + S + r'operator\[\]\(unsigned long\)( const)?$', self.m_at, 'model')
    def m_append(self, ex, st, ins, a):
        v = getstr(ex, st, a[0]); p, n = a[1], a[2]
        ex.oblige(st, self.readable(st, p, n), 'append:source-in-bounds')
        g = self.pos(st, p)
        self.ver += 1
        if self.strong:
            e = eq(v.lo, v.hi)
            if g is None:
                ex.oblige(st, simp(eq(n, 0)), 'append:from-the-text'); w = Seg(v.lo, v.hi, v.tag, self.ver)
            else:
                ex.oblige(st, simp(b_or(e, eq(n, 0), eq(g, v.hi))), 'append:continues-the-stored-part')
                lo = simp(z3.If(zb(e), bv(g), bv(v.lo))); hi = simp(z3.If(zb(e), bv(add(g, n)), bv(add(v.hi, n))))
                w = Seg(lo, hi, v.tag, self.ver)
        else: w = Seg(v.lo, add(v.hi, n), v.tag, self.ver)
        if v.reg() in st.mem: del st.mem[v.reg()]
        st.wreg(a[0].reg).cells[a[0].off] = (32, w); self.mkreg(st, w)
        return one(st, a[0])
    def m_clear(self, ex, st, ins, a):
        v = getstr(ex, st, a[0]); self.ver += 1; w = Seg(0, 0, v.tag, self.ver)
        if v.reg() in st.mem: del st.mem[v.reg()]
        st.wreg(a[0].reg).cells[a[0].off] = (32, w); self.mkreg(st, w)
        return one(st)
    def m_data(self, ex, st, ins, a): return one(st, Ptr(getstr(ex, st, a[0]).reg(), 0))
    def m_at(self, ex, st, ins, a):
        v = getstr(ex, st, a[0]); ex.oblige(st, simp(ule(a[1], v.len)), 'string-index-in-range'); return one(st, Ptr(v.reg(), a[1]))
    def data(self, ex, st, a):
        p = ex.load(st, Ptr(a.reg, add(a.off, self.DR.off('data'))), ['p']); n = ex.load(st, Ptr(a.reg, add(a.off, self.DR.off('size'))), ['i', 64])
        ex.oblige(st, b_and(p.reg == 'buf', simp(eq(p.off, 0)), simp(eq(n, self.b.size))), 'pre(scanner):the-current-buffer')
        cur = self.get(st, 'cursor_index')
        ex.oblige(st, simp(ule(cur, self.b.size)), 'pre(scanner):cursor-inside-buffer')
        return cur
    def branch(self, st, alts):
        out = []
        for k, (cond, f) in enumerate(alts):
            s = st.fork()
            s.assume(simp(cond) if is_z(cond) else cond)
            if self.ex.feasible(s): out.append((s, f(s)))
        return out
    def cset(self, st, f, v): setcell(st, 'tok', self.L.off(f), self.L.sz(f), v)
    def out(self, st, p, v, w=64): self.ex.store(st, p, v, ['i', w])
    def c_string(self, ex, st, ins, a):
        cur = self.data(ex, st, a[1]); e = self.get(st, 'is_escaped'); q = add(self.base, cur); E = self.E
        end = Text.SE(bv(q), bv(e)) if self.strong else fresh('strend', 64)
        st.assume(end >= bv(q) + 1)
        def good(s): self.cset(s, 'is_escaped', 0); self.out(s, a[2], simp(end - bv(q))); return E['NoError']
        def more(s):
            e2 = fresh('esc', 8); s.assume(e2 <= 1); self.cset(s, 'is_escaped', e2); self.out(s, a[2], fresh('ca', 64))
            if self.strong: s.assume(Text.SE(bv(self.B), e2) == end)
            return E['NeedMoreData']
        return self.branch(st, [(end <= self.B, good), (end > self.B, more)])
    def c_run(self, which):
        def h(ex, st, ins, a):
            cur = self.data(ex, st, a[1]); q = add(self.base, cur); E = self.E; t = self.T[which]
            ex.oblige(st, simp(eq(self.get(st, 'property_type'), t)), 'pre(find%sEnd):property-type' % which)
            end = Text.RUN(bv(q), I(t)) if self.strong else fresh('runend', 64)
            st.assume(end >= bv(q))
            def good(s): self.out(s, a[2], simp(end - bv(q))); return E['NoError']
            def more(s):
                self.out(s, a[2], fresh('ca', 64))
                if self.strong: s.assume(Text.RUN(bv(self.B), I(t)) == end)
                return E['NeedMoreData']
            return self.branch(st, [(end < self.B, good), (end >= self.B if self.strong else z3.BoolVal(True), more)])
        return h
    def skip(self, st, a, F):
        """common part of the skipping scanners; returns (q, position function value, new cursor)"""
        cur = self.data(self.ex, st, a)
        q = add(self.base, cur)
        e = F(bv(q)) if self.strong else fresh('sig', 64)
        st.assume(e >= bv(q))
        c2 = fresh('cur2', 64); st.assume(z3.And(c2 >= bv(cur), c2 <= self.b.size))
        self.cset(st, 'cursor_index', c2)
        return q, e, c2
    def c_start(self, ex, st, ins, a):
        E, T = self.E, self.T
        ex.oblige(st, simp(eq(self.get(st, 'property_state'), self.PS['NoStartFound'])), 'pre(findStartOfNextValue):nothing-found-yet')
        q, e, c2 = self.skip(st, a[2], Text.ST)
        k = Text.STK(e) if self.strong else fresh('stk', 8)
        def hit(t):
            def f(s):
                s.assume(self.base + c2 <= e); self.out(s, a[3], simp(e - self.base - c2)); self.out(s, a[1], T[t], 8); return E['NoError']
            return f
        def ill(s): self.out(s, a[3], fresh('ca', 64)); self.out(s, a[1], fresh('ty', 8), 8); return E['EncounteredIllegalChar']
        def more(s):
            self.out(s, a[3], fresh('ca', 64)); self.out(s, a[1], fresh('ty', 8), 8)
            if self.strong: s.assume(Text.ST(self.B) == e)
            return E['NeedMoreData']
        inb = e < self.B
        return self.branch(st, [(z3.And(inb, k == kk), hit(t)) for kk, t in STARTT] + [(z3.And(inb, k == 17), ill), (e >= self.B if self.strong else z3.BoolVal(True), more)])
    def c_delim(self, ex, st, ins, a):
        E, T, TS = self.E, self.T, self.TS
        q, e, c2 = self.skip(st, a[1], Text.DE)
        k = Text.DEK(e) if self.strong else fresh('dek', 8)
        empty = self.csn == 0; obj = self.top == T['ObjectStart']; arr = self.top == T['ArrayStart']; inb = z3.And(z3.Not(empty), e < self.B)
        def hit(plus, ts):
            def f(s):
                s.assume(self.base + c2 <= e + plus); self.out(s, a[2], simp(e + plus - self.base - c2)); self.cset(s, 'token_state', TS[ts]); return E['NoError']
            return f
        def err(n):
            def f(s): self.out(s, a[2], fresh('ca', 64)); return E[n]
            return f
        def more(s):
            self.out(s, a[2], fresh('ca', 64))
            if self.strong: s.assume(Text.DE(self.B) == e)
            return E['NeedMoreData']
        return self.branch(st, [(empty, err('IllegalPropertyType')), (z3.And(inb, k == 10, obj), hit(1, 'FindingData')), (z3.And(inb, z3.Or(k == 11, k == 12), arr), hit(1, 'FindingName')),
            (z3.And(inb, k == 13, arr), hit(0, 'FindingName')), (z3.And(inb, z3.Or(k == 14, z3.And(k == 10, z3.Not(obj)), z3.And(z3.Or(k == 11, k == 12, k == 13), z3.Not(arr)))), err('ExpectedDelimiter')),
            (z3.And(z3.Not(empty), e >= self.B) if self.strong else z3.Not(empty), more)])
    def c_tend(self, ex, st, ins, a):
        E = self.E
        cur0 = self.get(st, 'cursor_index')
        s0 = st.fork(); s0.assume(self.csn == 0)
        out = []
        if ex.feasible(s0):
            self.data(ex, s0, a[1]); out.append((s0, E['NoError']))       # writes nothing or zero; the caller's initial value must be zero
            z = ex.load(s0, a[2], ['i', 64]); ex.oblige(s0, simp(eq(z, 0)), 'pre(findTokenEnd):result-initialised')
        st.assume(self.csn != 0)
        if not ex.feasible(st): return out
        q, e, c2 = self.skip(st, a[1], Text.TE)
        k = Text.TEK(e) if self.strong else fresh('tek', 8)
        inb = e < self.B
        def hit(plus, comma=False):
            def f(s):
                s.assume(self.base + c2 <= e + plus); self.out(s, a[2], simp(e + plus - self.base - c2))
                if comma: self.setflag(s, 'expecting_prop_or_anonymous_data', True)
                return E['NoError']
            return f
        def err(s): self.out(s, a[2], fresh('ca', 64)); return E['InvalidToken']
        def more(s):
            self.out(s, a[2], fresh('ca', 64))
            if self.strong: s.assume(Text.TE(self.B) == e)
            return E['NeedMoreData']
        return out + self.branch(st, [(z3.And(inb, k == 10), hit(1, True)), (z3.And(inb, k == 11), hit(0)), (z3.And(inb, k == 12), hit(1)), (z3.And(inb, k == 13), err), (e >= self.B if self.strong else z3.BoolVal(True), more)])
    def setflag(self, st, n, v):
        o, sz, _ = self.flags[n]
        if sz != 1: setcell(st, 'tok', o // 8, 1, bv(v) if is_z(v) else int(v)); return
        cur = [self.bitval(st, o // 8, k) for k in range(8)]
        cur[o % 8] = v
        setcell(st, 'tok', o // 8, 1, simp(Bits(cur)))
    def bitval(self, st, byte, k):
        v = getcell(self.ex, st, 'tok', byte, 1)
        if isinstance(v, int): return bool((v >> k) & 1)
        if isinstance(v, Bits): return v.b[k] if k < len(v.b) else False
        return simp((v / (1 << k)) % 2 == 1)
    def c_type(self, ex, st, ins, a):
        """proved by unit word-type: the type itself unless it is Ascii; otherwise decided by the bytes of the word"""
        t, p, n = a
        ex.oblige(st, self.readable(st, p, n), 'pre(getType):word-in-bounds')
        return one(st, self.gt(st, t, self.pos(st, p), n))
    def gt(self, st, t, g, n):
        if not is_z(t) and t != self.T['Ascii']: return t
        if self.strong and g is not None: k = Text.KW(bv(g), bv(add(g, n)))
        else: k = fresh('kw', 8)
        st.assume(z3.Or(*[k == self.T[x] for x in ('Ascii', 'Null', 'Bool')]))
        return simp(z3.If(bv(t) == self.T['Ascii'], k, bv(t)))
    def c_strnlen(self, ex, st, ins, a):
        p, n = a
        ex.oblige(st, self.readable(st, p, n), 'pre(strnlen):range-in-bounds')
        if self.strong: return one(st, n)           # the text holds no NUL byte
        k = fresh('nul', 64); st.assume(z3.And(k >= 0, k <= bv(n))); return one(st, k)
    def run(self, post):
        fn = self.mod.find1(r'^JS::Tokenizer::populateNextTokenFromDataRef\(')
        run_function(self.ex, fn, [Ptr('tok', 0), Ptr('token', 0), Ptr('dr', 0)], self.st, post)
        return self.ex

# ---------------- abstract tokenizer: one step of the specification over the text ----------------
class Abs:
    def __init__(self, phase, pos, expect, **k): self.phase = phase; self.pos = pos; self.expect = expect; self.__dict__.update(k)

def spec(g, st, A, done):
    """follow the specification from A; done(st, kind, data): kind 'need' (Abs), 'err' (name), 'tok' (token dict, Abs)"""
    ex, T, E = g.ex, g.T, g.E; B = g.B
    def on(st, c, yes, no):
        c = simp(c) if is_z(c) else c
        if c is True: return yes(st)
        if c is False: return no(st)
        if ex.must(st, c): return yes(st)
        if ex.must(st, z3.Not(zb(c))): return no(st)
        s = st.fork(); s.assume(c); yes(s)
        s = st.fork(); s.assume(z3.Not(zb(c))); no(s)
    def need(st, A): done(st, 'need', A)
    def err(st, e): done(st, 'err', e)
    ph = A.phase
    if ph == 'TE':
        def tend(st):
            def nonempty(st):
                e = Text.TE(bv(A.pos)); k = Text.TEK(e)
                def inb(st):
                    on(st, k == 10, lambda st: spec(g, st, Abs('NAME', e + 1, True), done),
                        lambda st: on(st, k == 11, lambda st: spec(g, st, Abs('NAME', e, A.expect), done),
                            lambda st: on(st, k == 12, lambda st: spec(g, st, Abs('NAME', e + 1, A.expect), done), lambda st: err(st, 'InvalidToken'))))
                on(st, e < B, inb, lambda st: need(st, A))
            on(st, g.csn == 0, lambda st: spec(g, st, Abs('NAME', A.pos, A.expect), done), nonempty)
        return on(st, bv(A.pos) < B, tend, lambda st: need(st, A))
    if ph in ('NAME', 'DATA'):
        def start(st):
            s = Text.ST(bv(A.pos)); k = Text.STK(s)
            def inb(st):
                def chain(kinds):
                    if not kinds: return lambda st: err(st, 'EncounteredIllegalChar')
                    (kk, t), rest = kinds[0], kinds[1:]
                    return lambda st: on(st, k == kk, lambda st: found(st, t), chain(rest))
                def found(st, t):
                    if t in ('String', 'Number', 'Ascii'):
                        lo = s + 1 if t == 'String' else s
                        n = Abs('NAMEEND', s + 1, A.expect, ns=lo, t=t) if ph == 'NAME' else Abs('DATAEND', s + 1, A.expect, ns=A.ns, ne=A.ne, nt=A.nt, vs=lo, t=t)
                        n.end = Text.SE(s + 1, I(0)) if t == 'String' else Text.RUN(s + 1, I(T[t]))
                        return spec(g, st, n, done)
                    if ph == 'NAME':
                        tok = dict(name=None, value=(s, s + 1), vt=T[t])
                        if t in ('ObjectStart', 'ArrayStart'): return done(st, 'tok', (tok, Abs('NAME', s + 1, False)))
                        return on(st, b_and(A.expect, b_not(g.bits['allow_superfluous_comma'])), lambda st: err(st, 'ExpectedDataToken'), lambda st: done(st, 'tok', (tok, Abs('TE', s + 1, A.expect))))
                    tok = dict(name=(A.ns, A.ne), nt=A.nt, value=(s, s + 1), vt=T[t])
                    return done(st, 'tok', (tok, Abs('NAME' if t in ('ObjectStart', 'ArrayStart') else 'TE', s + 1, A.expect)))
                chain(STARTT)(st)
            on(st, s < B, inb, lambda st: need(st, A))
        return on(st, bv(A.pos) < B, start, lambda st: need(st, A))
    if ph in ('NAMEEND', 'DATAEND'):
        e = A.end
        def ended(st):
            stop = e - 1 if A.t == 'String' else e
            if ph == 'NAMEEND':
                nt = g.gt(st, T[A.t], A.ns, sub(stop, A.ns))
                return spec(g, st, Abs('DELIM', e, A.expect, ns=A.ns, ne=stop, nt=nt), done)
            vt = g.gt(st, T[A.t], A.vs, sub(stop, A.vs))
            tok = dict(name=(A.ns, A.ne), nt=A.nt, value=(A.vs, stop), vt=vt)
            return on(st, b_and(eq(vt, T['Ascii']), b_not(g.bits['allow_ascii_properties'])), lambda st: err(st, 'IllegalDataValue'), lambda st: done(st, 'tok', (tok, Abs('TE', e, A.expect))))
        return on(st, e <= B if A.t == 'String' else e < B, ended, lambda st: need(st, A))
    if ph == 'DELIM':
        def delim(st):
            d = Text.DE(bv(A.pos)); k = Text.DEK(d); obj = g.top == T['ObjectStart']; arr = g.top == T['ArrayStart']
            anon = dict(name=None, value=(A.ns, A.ne), vt=A.nt)
            def colon(st):
                bad = b_and(b_not(eq(A.nt, T['String'])), b_or(b_not(g.bits['allow_ascii_properties']), b_not(eq(A.nt, T['Ascii']))))
                on(st, bad, lambda st: err(st, 'IllegalPropertyName'), lambda st: spec(g, st, Abs('DATA', d + 1, False, ns=A.ns, ne=A.ne, nt=A.nt), done))
            def inb(st):
                on(st, z3.And(k == 10, obj), colon,
                   lambda st: on(st, z3.And(z3.Or(k == 11, k == 12), arr), lambda st: done(st, 'tok', (anon, Abs('NAME', d + 1, False))),
                   lambda st: on(st, z3.And(k == 13, arr), lambda st: done(st, 'tok', (anon, Abs('NAME', d, False))), lambda st: err(st, 'ExpectedDelimiter'))))
            on(st, g.csn == 0, lambda st: err(st, 'IllegalPropertyType'), lambda st: on(st, d < B, inb, lambda st: need(st, A)))
        return on(st, bv(A.pos) < B, delim, lambda st: need(st, A))
    raise Unsupported(ph)

def represents(g, st, A, after_need):
    """conditions under which the concrete tokenizer state represents the abstract state A.
    after_need: the buffer is exhausted, the next one starts at g.B with the cursor at zero"""
    T, TS, PS = g.T, g.TS, g.PS; ph = A.phase; ex = g.ex
    c = []
    def F(n, v): c.append(('flag ' + n, zb(g.flag(st, n)) == zb(v)))
    ts = {'TE': 'FindingTokenEnd', 'NAME': 'FindingName', 'NAMEEND': 'FindingName', 'DELIM': 'FindingDelimiter', 'DATA': 'FindingData', 'DATAEND': 'FindingData'}[ph]
    c.append(('token_state', eq(g.get(st, 'token_state'), TS[ts])))
    F('expecting_prop_or_anonymous_data', A.expect)
    for n in ('allow_ascii_properties', 'allow_new_lines', 'allow_superfluous_comma', 'allow_comments'): F(n, g.bits[n])
    if not after_need:
        c.append(('cursor', z3.And(g.base + bv(g.get(st, 'cursor_index')) == bv(A.pos), bv(g.get(st, 'cursor_index')) <= g.b.size)))
        c.append(('not-escaped', eq(g.get(st, 'is_escaped'), 0)))
        name, data = g.getstr(st, 'name'), g.getstr(st, 'data')
        c.append(('inactive-means-empty', z3.Implies(z3.Not(zb(g.flag(st, 'active'))), zb(b_and(eq(name.lo, name.hi), eq(data.lo, data.hi), b_not(g.flag(st, 'name_type_set')), b_not(g.flag(st, 'data_type_set')))))))
        return c
    B = g.B; name, data = g.getstr(st, 'name'), g.getstr(st, 'data')
    F('active', ph not in ('TE', 'NAME'))
    c.append(('property_state', eq(g.get(st, 'property_state'), PS['FindingEnd' if ph in ('NAMEEND', 'DATAEND') else 'NoStartFound'])))
    if ph not in ('NAMEEND', 'DATAEND'):
        c.append(('not-escaped', eq(g.get(st, 'is_escaped'), 0)))
        f = {'TE': Text.TE, 'NAME': Text.ST, 'DATA': Text.ST, 'DELIM': Text.DE}[ph]
        c.append(('resumes-here', z3.Or(f(B) == f(bv(A.pos)), B == bv(A.pos))))
    else:
        p0 = A.vs if ph == 'DATAEND' else A.ns
        c.append(('property_type', eq(g.get(st, 'property_type'), T[A.t])))
        if A.t == 'String': c.append(('resumes-here', Text.SE(B, bv(g.get(st, 'is_escaped'))) == A.end))
        else: c.append(('resumes-here', Text.RUN(B, I(T[A.t])) == A.end)); c.append(('not-escaped', eq(g.get(st, 'is_escaped'), 0)))
    def seg(s, lo, hi): return z3.Or(z3.And(bv(s.lo) == bv(lo), bv(s.hi) == bv(hi)), z3.And(bv(s.lo) == bv(s.hi), bv(lo) == bv(hi)))
    if ph in ('TE', 'NAME'): c.append(('nothing-kept', z3.And(bv(name.lo) == bv(name.hi), bv(data.lo) == bv(data.hi)))); F('name_type_set', False); F('data_type_set', False)
    elif ph == 'NAMEEND':
        c.append(('name-part-kept', seg(name, A.ns, B))); c.append(('nothing-kept', bv(data.lo) == bv(data.hi)))
        c.append(('name_type', eq(g.iget(st, 'name_type'), T[A.t]))); F('name_type_set', True); F('data_type_set', False)
    else:
        c.append(('name-kept', seg(name, A.ns, A.ne)))
        it = g.iget(st, 'name_type')
        if ph == 'DELIM': c.append(('name_type', eq(g.gt(st, it, A.ns, sub(A.ne, A.ns)), A.nt)))
        else: c.append(('name_type', eq(it, A.nt)))
        if ph == 'DATAEND':
            c.append(('value-part-kept', seg(data, A.vs, B))); c.append(('data_type', eq(g.iget(st, 'data_type'), T[A.t]))); F('data_type_set', True)
        else: c.append(('nothing-kept', bv(data.lo) == bv(data.hi))); F('data_type_set', False)
    return c

def unit_step(phase, t=None):
    """one call of populateNextTokenFromDataRef from every concrete state that represents an abstract state of this phase"""
    def unit(mod, deadline):
        g = Glue(mod, deadline, True); ex, st, T, TS, PS = g.ex, g.st, g.T, g.TS, g.PS
        lemmas(ex)
        bits = {n: z3.Bool('flag_' + n) for n in g.flags}
        bits['allow_comments'] = False
        if phase in ('TE', 'NAME'):
            bits.update(active=False, name_type_set=False, data_type_set=False)
            A = Abs(phase, simp(g.base + g.cur), bits['expecting_prop_or_anonymous_data'])
            g.setstr('name', 0, 0); g.setstr('data', 0, 0); g.set('is_escaped', 0); g.set('property_state', PS['NoStartFound'])
        else:
            g.set('cursor_index', 0); st.assume(g.cur == 0); g.set('current_data_start', 0)
            bits['active'] = True
            expect = bits['expecting_prop_or_anonymous_data']
            ns, ne, vs, end = (intvar(x, 64, 4 * MAXBUF) for x in ('ns', 'ne', 'vs', 'end'))
            nt = intvar('nt', 8); it = intvar('it', 8)
            A = Abs(phase, g.base, expect, ns=ns, ne=ne, nt=nt, vs=vs, t=t, end=end)
            g.set('is_escaped', 0); g.set('property_state', PS['NoStartFound'])
            if phase == 'NAMEEND':
                bits.update(name_type_set=True, data_type_set=False)
                g.setstr('name', ns, g.base); st.assume(ns <= g.base); g.setstr('data', 0, 0); g.iset('name_type', T[t])
            else:
                g.setstr('name', ns, ne); st.assume(z3.And(ns <= ne, ne <= g.base)); g.iset('name_type', it)
                if phase == 'DELIM': st.assume(bv(g.gt(st, it, ns, sub(ne, ns))) == nt)
                else: st.assume(it == nt); st.assume(z3.Or(nt == T['String'], nt == T['Ascii']))
                bits['data_type_set'] = phase == 'DATAEND'
                if phase == 'DATAEND': g.setstr('data', vs, g.base); st.assume(vs <= g.base); g.iset('data_type', T[t])
                else: g.setstr('data', 0, 0)
            if phase in ('NAMEEND', 'DATAEND'):
                g.set('property_state', PS['FindingEnd']); g.set('property_type', T[t])
                if t == 'String':
                    es = intvar('es', 8); st.assume(es <= 1); g.set('is_escaped', es); st.assume(Text.SE(g.base, es) == end)
                    st.assume(end >= g.base + 1)
                else: st.assume(Text.RUN(g.base, I(T[t])) == end); st.assume(end >= g.base)
        g.write_bits(bits)
        g.set('token_state', TS[{'TE': 'FindingTokenEnd', 'NAME': 'FindingName', 'NAMEEND': 'FindingName', 'DELIM': 'FindingDelimiter', 'DATA': 'FindingData', 'DATAEND': 'FindingData'}[phase]])
        def post(ex, st, rv):
            rv = simp(bv(rv))
            def done(s, kind, d):
                if not ex.feasible(s): return
                if kind == 'err': ex.oblige(s, simp(eq(rv, g.E[d])), 'post:error-' + d); return
                if kind == 'need':
                    ex.oblige(s, simp(eq(rv, g.E['NeedMoreData'])), 'post:needs-more-data')
                    if not ex.feasible(s, [zb(simp(eq(rv, g.E['NeedMoreData'])))]): return
                    for n, cnd in represents(g, s, d, True): ex.oblige(s, simp(zb(cnd)), 'post:kept-state:%s' % n)
                    return
                tok, A2 = d
                ex.oblige(s, simp(eq(rv, g.E['NoError'])), 'post:token-delivered')
                if not ex.feasible(s, [zb(simp(eq(rv, g.E['NoError'])))]): return
                def field(f): return getcell(ex, s, 'token', g.TK.off(f), g.TK.sz(f))
                def check(f, rng, nm):
                    o = g.TK.off(f); c0 = s.mem['token'].cells.get(o + g.DR.off('data')); n = getcell(ex, s, 'token', o + g.DR.off('size'), 8)
                    p = c0[1] if c0 else None
                    if rng is None: ex.oblige(s, simp(eq(n, 0)), 'post:%s-empty' % nm); return
                    gp = g.pos(s, p) if isinstance(p, Ptr) else None
                    if gp is None: ex.oblige(s, simp(b_and(eq(n, 0), eq(bv(rng[0]), bv(rng[1])))), 'post:%s-range' % nm); return
                    ex.oblige(s, g.readable(s, p, n), 'post:%s-inside-live-data' % nm)
                    ex.oblige(s, simp(z3.And(bv(n) == bv(rng[1]) - bv(rng[0]), z3.Or(bv(n) == 0, bv(gp) == bv(rng[0])))), 'post:%s-range' % nm)
                check('name', tok['name'], 'name'); check('value', tok['value'], 'value')
                ex.oblige(s, simp(eq(field('value_type'), tok['vt'])), 'post:value-type')
                ex.oblige(s, simp(eq(field('name_type'), tok['nt'] if tok['name'] is not None else T['Ascii'])), 'post:name-type')
                for n, cnd in represents(g, s, A2, False): ex.oblige(s, simp(zb(cnd)), 'post:next-state:%s' % n)
            spec(g, st, A, done)
        return g.run(post)
    return unit

UNITS = {}
for _p in ('TE', 'NAME', 'DELIM', 'DATA'): UNITS['step-' + _p] = unit_step(_p)
for _p in ('NAMEEND', 'DATAEND'):
    for _t in ('String', 'Number', 'Ascii'): UNITS['step-%s-%s' % (_p, _t)] = unit_step(_p, _t)

# ---------------- memory safety of the same function for every input and option (comments, NUL bytes, errors) ----------------
def unit_safe(ts, ps):
    def unit(mod, deadline):
        g = Glue(mod, deadline, False); ex, st, T, TS, PS = g.ex, g.st, g.T, g.TS, g.PS
        bits = {n: z3.Bool('flag_' + n) for n in g.flags}
        nl, dl = intvar('nl', 64, MAXBUF), intvar('dl', 64, MAXBUF)
        g.setstr('name', 0, nl); g.setstr('data', 0, dl)
        es = intvar('es', 8); st.assume(es <= 1); g.set('is_escaped', es)
        g.set('token_state', TS[ts]); g.set('property_state', PS[ps])
        nt, dt = intvar('nt', 8), intvar('dt', 8); g.iset('name_type', nt); g.iset('data_type', dt)
        pt = intvar('pt', 8); g.set('property_type', pt)
        if ps == 'FindingEnd':
            st.assume(g.cur == 0); g.set('cursor_index', 0); g.set('current_data_start', 0)
            if ts == 'FindingName': bits['data_type_set'] = False
            st.assume(z3.Or(*[pt == T[x] for x in ('String', 'Number', 'Ascii')])); st.assume(pt == (nt if ts == 'FindingName' else dt))
        if ps == 'NoStartFound':
            bits['data_type_set'] = False
            if ts in ('FindingName', 'FindingTokenEnd'): bits['name_type_set'] = False; bits['active'] = False
        g.write_bits(bits)
        if not isinstance(bits['active'], bool): st.assume(z3.Implies(z3.Not(bits['active']), z3.Not(z3.Or(zb(bits['name_type_set']), zb(bits['data_type_set'])))))
        def post(ex, s, rv):
            cur = g.get(s, 'cursor_index')
            ex.oblige(s, simp(z3.And(bv(cur) >= g.cur, bv(cur) <= g.b.size)), 'post:cursor-inside-buffer')
            a = g.get(s, 'token_state'); p = g.get(s, 'property_state'); rv = bv(rv)
            ok = rv == g.E['NoError']; need = rv == g.E['NeedMoreData']
            ex.oblige(s, simp(z3.And(bv(a) >= 0, bv(a) <= 3)), 'post:token-state-valid')
            nt2, dt2, pt2 = g.iget(s, 'name_type'), g.iget(s, 'data_type'), g.get(s, 'property_type')
            fl = lambda n: zb(g.flag(s, n))
            inv = z3.Or(z3.And(bv(p) == PS['NoStartFound'], z3.Not(fl('data_type_set')), z3.Implies(z3.Or(bv(a) == TS['FindingName'], bv(a) == TS['FindingTokenEnd']), z3.And(z3.Not(fl('name_type_set')), z3.Not(fl('active'))))), z3.And(bv(p) == PS['FindingEnd'], z3.Or(*[bv(pt2) == T[x] for x in ('String', 'Number', 'Ascii')]),
                    z3.Or(z3.And(bv(a) == TS['FindingName'], bv(nt2) == bv(pt2), z3.Not(fl('data_type_set'))), z3.And(bv(a) == TS['FindingData'], bv(dt2) == bv(pt2)))))
            ex.oblige(s, simp(z3.Implies(need, inv)), 'post:resumable-state')
            ex.oblige(s, simp(z3.Implies(z3.Not(fl('active')), z3.And(z3.Not(fl('name_type_set')), z3.Not(fl('data_type_set'))))), 'post:inactive-means-clear')
            if not ex.feasible(s, [ok]): return
            s.assume(ok)
            for f in ('name', 'value'):
                o = g.TK.off(f); c0 = s.mem['token'].cells.get(o + g.DR.off('data')); n = getcell(ex, s, 'token', o + g.DR.off('size'), 8)
                ex.oblige(s, b_and(isinstance(c0[1], Ptr), g.readable(s, c0[1], n)), 'post:%s-inside-live-data' % f)
            # every delivered token has consumed a byte, in this buffer or when its scan began in an earlier one
            if ps == 'NoStartFound': ex.oblige(s, simp(z3.Or(bv(cur) > g.cur, zb(bits['active']), z3.BoolVal(ts in ('FindingDelimiter',)))), 'post:progress')
        return g.run(post)
    return unit
for _t in ('FindingName', 'FindingDelimiter', 'FindingData', 'FindingTokenEnd'): UNITS['safe-' + _t] = unit_safe(_t, 'NoStartFound')
for _t in ('FindingName', 'FindingData'): UNITS['safe-%s-cont' % _t] = unit_safe(_t, 'FindingEnd')

# ---------------- nextToken: container stack, scopes, buffer hand-over ----------------
class VecG:
    """std::vector as (length, contents); contents: z3 array for one-byte elements, None when irrelevant"""
    is_ghost = True
    def __init__(self, n, arr, tag): self.n = n; self.arr = arr; self.tag = tag
    def same(self, o): return isinstance(o, VecG) and same(self.n, o.n) and self.tag == o.tag and (self.arr is o.arr or (self.arr is not None and o.arr is not None and self.arr.eq(o.arr)))
    def havoc(self, name):
        k = next(core._fresh)
        return VecG(intvar('%s_n!%d' % (name, k), 64, MAXBUF), z3.Array('%s_arr!%d' % (name, k), II, II) if self.arr is not None else None, self.tag)
    def terms(self): return [('n', 64, lambda v: v.n)]
    def copy_from_raw(self): raise Unsupported('raw copy of a vector')
def getvec(st, p, cls=VecG):
    c = st.mem[p.reg].cells.get(p.off) if not is_z(p.off) else None
    if c is None or not isinstance(c[1], cls): raise Unsupported('not a modelled vector')
    return c[1]
def setvec(st, p, v): st.wreg(p.reg).cells[p.off] = (24, v)

def unit_next(mod, deadline):
    g = Glue.__new__(Glue)
    ex = new_engine(mod, deadline); st = State(); ex.check_assert = True; ex.unroll_policy = lambda ex, st, fr, h: True
    T = enum(mod, 'JS::Type'); E = enum(mod, 'JS::Error'); PS = enum(mod, 'JS::Tokenizer::InPropertyState')
    L = Layout(mod, 'JS::Tokenizer'); TK = Layout(mod, 'JS::Token'); SCL = Layout(mod, 'JS::Internal::ScopeCounter'); IT = Layout(mod, 'JS::Internal::IntermediateToken')
    g.mod = mod; g.ex = ex; g.st = st; g.L = L; g.IT = IT; g.io = L.off('intermediate_token'); g.flags = {}; g.ver = 0; g.strong = True; g.base = z3.IntVal(0)
    st.newreg('tok', 'cells', L.size, lazy=True); st.newreg('token', 'cells', TK.size, lazy=True)
    g.setup_bits()
    cont = z3.Bool('flag_continue_after_need_more_data')
    n0 = intvar('cs_n', 64, MAXBUF); arr0 = z3.Array('cs', II, II)
    o_cs, o_dl, o_sc = L.off('container_stack'), L.off('data_list'), L.off('scope_counter')
    setcell(st, 'tok', o_cs, 24, VecG(n0, arr0, 'cs')); setcell(st, 'tok', o_dl, 24, VecG(intvar('dl_n', 64, MAXBUF), None, 'dl')); nsc = intvar('sc_n', 64, MAXBUF); setcell(st, 'tok', o_sc, 24, VecG(nsc, None, 'sc'))
    st.newreg('scope', 'cells', SCL.size)
    stype = intvar('scope_type', 8); sdepth = intvar('scope_depth', 64)
    st.assume(z3.And(stype != T['ArrayEnd'], stype != T['ObjectEnd']))       # pushScope is given value types only
    setcell(st, 'scope', SCL.off('type'), SCL.sz('type'), stype); setcell(st, 'scope', SCL.off('depth'), 8, sdepth)
    setcell(st, 'tok', L.off('parsed_data_vector'), 8, NULL)
    st.newreg('front', 'cells', 16); setcell(st, 'front', 0, 8, Ptr('buf', 0)); setcell(st, 'front', 8, 8, intvar('fsize', 64, MAXBUF))
    nm = g.setstr('name', intvar('kn', 64), intvar('kn2', 64)); dt = g.setstr('data', intvar('kd', 64), intvar('kd2', 64))
    ps0 = intvar('ps0', 8); g.set('property_state', ps0); g.set('cursor_index', intvar('cur', 64)); g.set('current_data_start', intvar('cds', 64)); g.set('token_state', intvar('ts0', 8)); g.set('is_escaped', intvar('esc0', 8)); g.set('property_type', intvar('pt0', 8))
    for f in ('name_type', 'data_type'): g.iset(f, intvar(f + '0', 8))
    st.assume(z3.Implies(z3.Not(z3.Bool('flag_active')), z3.And(nm.lo == nm.hi, dt.lo == dt.hi, z3.Not(z3.Bool('flag_name_type_set')), z3.Not(z3.Bool('flag_data_type_set')))))    # proved by step-*, safe-*: inactive-means-empty/clear
    KEEP = ['property_state', 'cursor_index', 'current_data_start', 'token_state', 'is_escaped', 'property_type']
    def snap(s): return {f: g.get(s, f) for f in KEEP}, g.getstr(s, 'name'), g.getstr(s, 'data'), {n: g.flag(s, n) for n in g.flags}, g.iget(s, 'name_type'), g.iget(s, 'data_type')
    st.ghost['prev'] = snap(st); st.ghost['first'] = True; st.ghost['calls'] = 0
    dlp = Ptr('tok', o_dl)
    def havoc_tok(s):
        for f in KEEP: setcell(s, 'tok', L.off(f), L.sz(f), fresh(f, 8 * L.sz(f)))
        for f in ('name_type', 'data_type'): setcell(s, 'tok', g.io + IT.off(f), 1, fresh(f, 8))
        for f in ('name', 'data'):
            g.ver += 1; v = Seg(fresh('k', 64), fresh('k', 64), f, g.ver); setcell(s, 'tok', g.io + IT.off(f), 32, v)
        for n in g.flags:
            if n in ('active', 'name_type_set', 'data_type_set', 'expecting_prop_or_anonymous_data'): g.setflag(s, n, freshb(n))
    def same_snap(s, a):
        b = snap(s); r = []
        for f in KEEP: r.append(eq(a[0][f], b[0][f]))
        for x, y in ((a[1], b[1]), (a[2], b[2])): r.append(b_or(b_and(eq(x.lo, y.lo), eq(x.hi, y.hi)), b_and(eq(x.lo, x.hi), eq(y.lo, y.hi))))
        for n in g.flags: 
            if n != 'continue_after_need_more_data': r.append(zb(a[3][n]) == zb(b[3][n]))
        return r + [eq(a[4], b[4]), eq(a[5], b[5])]
    ALLOW = ('allow_ascii_properties', 'allow_new_lines', 'allow_superfluous_comma', 'allow_comments')
    def on_pop(ex, s, ins, a):
        ex.oblige(s, b_and(a[0].reg == 'tok', a[1].reg == 'token', a[2].reg == 'front'), 'pre(populateNextTokenFromDataRef):first-buffer')
        ex.oblige(s, simp(bv(getvec(s, dlp).n) > 0), 'pre(populateNextTokenFromDataRef):has-buffer')
        if s.ghost['first'] is not True:
            # a further buffer: the state is an instance of the state at the first call of a continuing request (kept fields arbitrary), so
            # the rest of the run is covered by the runs explored from there: induction over the number of buffers
            ex.oblige(s, b_and(*same_snap(s, s.ghost['after']), s.ghost['released'] is True), 'pre(populateNextTokenFromDataRef):kept-state-untouched-in-next-buffer')
            v = s.mem['tok'].cells[o_cs][1]
            ex.oblige(s, simp(b_and(eq(v.n, n0), v.arr.eq(arr0), eq(getcell(ex, s, 'scope', SCL.off('depth'), 8), sdepth))), 'loop:stack-and-scope-unchanged')
            if not ex.must(s, b_and(*[zb(g.flag(s, n)) == zb(s.ghost['prev'][3][n]) for n in ALLOW])): raise Unsupported('options changed in loop')
            if [f.fn.name for f in s.frames] != s.ghost['frames'][0]: raise Unsupported('second populate call elsewhere')
            for f, loc in zip(s.frames, s.ghost['frames'][1]):
                for k, x in loc.items():
                    y = f.loc.get(k)
                    if same(x, y): continue
                    hdr = any(k == i['id'] and i['op'] == 'phi' for h in f.fn.loop_of_header for i in f.fn.blocks[h])
                    if hdr and not (isinstance(x, (int, z3.ExprRef)) and isinstance(y, (int, z3.ExprRef)) and ex.must(s, eq(x, y))): raise Unsupported('loop-carried local')
            for rid, c in s.ghost['frames'][2].items():
                r2 = s.mem.get(rid)
                for o, (n, x) in c.items():
                    y = r2.cells.get(o) if r2 is not None else None
                    if y is None or not (same(x, y[1]) or isinstance(x, Undef)): raise Unsupported('loop-carried memory %s' % rid)
            raise PathEnd()
        s.ghost['frames'] = ([f.fn.name for f in s.frames], [dict(f.loc) for f in s.frames], {r: dict(s.mem[r].cells) for f in s.frames for r in f.allocas if r in s.mem})
        if s.ghost['first'] is True:
            name, data = g.getstr(s, 'name'), g.getstr(s, 'data')
            reset = b_and(eq(g.get(s, 'property_state'), PS['NoStartFound']), eq(name.lo, name.hi), eq(data.lo, data.hi), *[b_not(g.flag(s, n)) for n in ('active', 'name_type_set', 'data_type_set')])
            ex.oblige(s, simp(z3.Implies(cont, b_and(*same_snap(s, s.ghost['prev'])))), 'pre(populateNextTokenFromDataRef):kept-state-untouched-when-continuing')
            ex.oblige(s, simp(z3.Implies(z3.Not(cont), zb(reset))), 'pre(populateNextTokenFromDataRef):fresh-state-otherwise')
            ex.oblige(s, simp(b_and(*[eq(g.get(s, f), s.ghost['prev'][0][f]) for f in ('cursor_index', 'token_state', 'is_escaped')], *[zb(g.flag(s, n)) == zb(s.ghost['prev'][3][n]) for n in ALLOW + ('expecting_prop_or_anonymous_data',)])), 'pre(populateNextTokenFromDataRef):position-untouched')
        rv = fresh('err', 8); s.assume(rv <= E['UserDefinedErrors'])
        havoc_tok(s); vt = fresh('vt', 8)
        for f, n in (('name_type', 1), ('value_type', 1)): setcell(s, 'token', TK.off(f), n, vt if f == 'value_type' else fresh('nt', 8))
        s.ghost['first'] = False; s.ghost['after'] = snap(s); s.ghost['vt'] = vt; s.ghost['calls'] = 1; s.ghost['rv'] = rv; s.ghost['released'] = False
        s.ghost['cs'] = s.mem['tok'].cells[o_cs][1]
        return [(s, rv)]
    def on_release(ex, s, ins, a):
        """proved by unit release: the buffer's copies are taken, cursor and value start go to zero, the first buffer is removed"""
        dl = getvec(s, dlp); ex.oblige(s, simp(bv(dl.n) > 0), 'pre(releaseFirstDataRef):has-buffer')
        ex.oblige(s, b_and(*same_snap(s, s.ghost['after'])), 'pre(releaseFirstDataRef):kept-state-untouched')
        setvec(s, dlp, VecG(sub(dl.n, 1), None, 'dl')); g2 = lambda f, v: setcell(s, 'tok', L.off(f), L.sz(f), v)
        g2('cursor_index', 0); g2('current_data_start', 0); s.ghost['after'] = snap(s); s.ghost['released'] = True
        return [(s, None)]
    def on_request(ex, s, ins, a):
        """the application's callback may add buffers (addData) and nothing else"""
        dl = getvec(s, dlp); n = fresh('dl_n', 64); s.assume(n >= bv(dl.n)); s.assume(n < MAXBUF); setvec(s, dlp, VecG(n, None, 'dl'))
        return [(s, None)]
    def on_errctx(ex, s, ins, a): return [(s, a[1])]
    V = lambda t: r'^std::vector<%s, std::allocator<%s> ?>::' % (t, t)
    C = lambda rx, h, kind='contract': ex.contracts.append((re.compile(rx), h, kind))
    C(r'^JS::Tokenizer::populateNextTokenFromDataRef\(', on_pop); C(r'^JS::Tokenizer::releaseFirstDataRef\(', on_release); C(r'^JS::Tokenizer::requestMoreData\(', on_request); C(r'^JS::Tokenizer::updateErrorContext\(', on_errctx); C(r'^JS::Internal::ErrorContext::clear\(', lambda ex, s, ins, a: [(s, None)])
    for t in ('JS::Type', 'JS::DataRef', 'JS::Internal::ScopeCounter'):
        C(V(t) + r'size\(\) const$', lambda ex, s, ins, a: [(s, getvec(s, a[0]).n)], 'model'); C(V(t) + r'empty\(\) const$', lambda ex, s, ins, a: [(s, simp(eq(getvec(s, a[0]).n, 0)))], 'model')
    def front(ex, s, ins, a): ex.oblige(s, simp(bv(getvec(s, a[0]).n) > 0), 'front-of-nonempty'); return [(s, Ptr('front', 0))]
    C(V('JS::DataRef') + r'front\(\)( const)?$', front, 'model')
    def scback(ex, s, ins, a): ex.oblige(s, simp(bv(getvec(s, a[0]).n) > 0), 'back-of-nonempty'); return [(s, Ptr('scope', 0))]
    C(V('JS::Internal::ScopeCounter') + r'back\(\)( const)?$', scback, 'model')
    def csback(ex, s, ins, a):
        v = getvec(s, a[0]); ex.oblige(s, simp(bv(v.n) > 0), 'back-of-nonempty')
        r = s.newreg('csv', 'cells', v.n, ro=True); r.arr = v.arr
        x = z3.Select(v.arr, bv(sub(v.n, 1))); s.assume(z3.And(x >= 0, x <= 255))
        return [(s, Ptr(r.rid, sub(v.n, 1)))]
    C(V('JS::Type') + r'back\(\)( const)?$', csback, 'model')
    def cspush(ex, s, ins, a):
        v = getvec(s, a[0]); x = ex.load(s, a[1], ['i', 8]) if isinstance(a[1], Ptr) else a[1]
        setvec(s, a[0], VecG(add(v.n, 1), z3.Store(v.arr, bv(v.n), bv(x)), 'cs')); return [(s, None)]
    C(V('JS::Type') + r'push_back\(JS::Type', cspush, 'model')
    C(r'std::vector<JS::Type, std::allocator<JS::Type> ?>::emplace_back<', cspush, 'model')
    def cspop(ex, s, ins, a):
        v = getvec(s, a[0]); ex.oblige(s, simp(bv(v.n) > 0), 'pop-of-nonempty'); setvec(s, a[0], VecG(sub(v.n, 1), v.arr, 'cs')); return [(s, None)]
    C(V('JS::Type') + r'pop_back\(\)$', cspop, 'model')
    S = stdmodel.S
    C('^' + S + r'clear\(\)$', lambda ex, s, ins, a: g.m_clear(ex, s, ins, a), 'model')
    C('^' + S + r'~?basic_string\(\)$', lambda ex, s, ins, a: [(s, None)], 'model')
    stdmodel.install(ex)
    def post(ex, s, rv):
        rv = bv(rv); ok = rv == E['NoError']; v = s.mem['tok'].cells[o_cs][1]
        ended = z3.And(nsc > 0, sdepth == 0)
        if s.ghost['calls'] == 0:
            ex.oblige(s, simp(z3.Or(z3.And(ended, rv == E['ScopeHasEnded']), z3.And(z3.Not(ended), rv == E['NeedMoreData']))), 'post:no-token-without-data-or-scope')
            ex.oblige(s, simp(b_and(eq(v.n, n0), v.arr.eq(arr0))), 'post:stack-unchanged'); return
        ex.oblige(s, simp(z3.Not(ended)), 'post:ended-scope-delivers-nothing')
        vt = s.ghost['vt']; t = vt
        top = z3.Select(arr0, n0 - 1)
        def unchanged(): return b_and(eq(v.n, n0), True if v.arr.eq(arr0) else v.arr == arr0)
        start = z3.Or(t == T['ArrayStart'], t == T['ObjectStart']); aend = t == T['ArrayEnd']; oend = t == T['ObjectEnd']
        ex.oblige(s, simp(z3.Implies(z3.Not(ok), zb(unchanged()))), 'post:error-leaves-stack')
        ex.oblige(s, simp(z3.Implies(z3.And(ok, aend), z3.And(n0 > 0, top == T['ArrayStart']))), 'post:array-end-closes-innermost-array')
        ex.oblige(s, simp(z3.Implies(z3.And(ok, oend), z3.And(n0 > 0, top == T['ObjectStart']))), 'post:object-end-closes-innermost-object')
        arrsame = z3.BoolVal(True) if v.arr.eq(arr0) else v.arr == arr0
        ex.oblige(s, simp(z3.Implies(z3.And(ok, z3.Or(aend, oend)), z3.And(bv(v.n) == n0 - 1, arrsame))), 'post:closing-pops-one')
        ex.oblige(s, simp(z3.Implies(z3.And(ok, start), z3.And(bv(v.n) == n0 + 1, v.arr == z3.Store(arr0, n0, t)))), 'post:opening-pushes-it')
        ex.oblige(s, simp(z3.Implies(z3.And(ok, z3.Not(z3.Or(start, aend, oend))), zb(unchanged()))), 'post:scalars-leave-stack')
        r = s.ghost['rv']
        ex.oblige(s, simp(z3.Implies(r != E['NoError'], rv == r)), 'post:errors-passed-on')
        ex.oblige(s, simp(z3.Implies(z3.And(r == E['NoError'], z3.Not(z3.Or(aend, oend))), ok)), 'post:token-delivered')
        ex.oblige(s, simp(z3.Implies(z3.And(r == E['NoError'], z3.Or(z3.And(aend, n0 > 0, top == T['ArrayStart']), z3.And(oend, n0 > 0, top == T['ObjectStart']))), ok)), 'post:matching-closer-delivered')
        ex.oblige(s, simp(zb(g.flag(s, 'continue_after_need_more_data')) == (r == E['NeedMoreData'])), 'post:continuation-recorded')
        ex.oblige(s, simp(z3.Implies(r == E['NeedMoreData'], z3.BoolVal(s.ghost['released'] is True))), 'post:used-up-buffer-released')
        ex.oblige(s, b_and(*same_snap(s, s.ghost['after'])), 'post:kept-state-untouched')
        # the value itself is passed through
        ex.oblige(s, simp(eq(getcell(ex, s, 'token', TK.off('value_type'), 1), vt)), 'post:token-untouched')
        d2 = getcell(ex, s, 'scope', SCL.off('depth'), 8)
        closes = z3.Or(z3.And(stype == T['ArrayStart'], aend), z3.And(stype == T['ObjectStart'], oend)); cont_t = z3.Or(stype == T['ArrayStart'], stype == T['ObjectStart'])
        want = z3.If(cont_t, z3.If(t == stype, sdepth + 1, z3.If(closes, sdepth - 1, sdepth)), sdepth - 1)
        ex.oblige(s, simp(z3.Implies(z3.And(ok, nsc > 0, sdepth < (1 << 63)), bv(d2) == want)), 'post:scope-depth-follows-brackets')
        ex.oblige(s, simp(z3.Implies(z3.Or(z3.Not(ok), nsc == 0), bv(d2) == sdepth)), 'post:scope-depth-otherwise-unchanged')
    run_function(ex, mod.find1(r'^JS::Tokenizer::nextToken\('), [Ptr('tok', 0), Ptr('token', 0)], st, post)
    return ex
UNITS['next-token'] = unit_next
TERM_OK = {'next-token': 'runs as long as the application supplies buffers'}

def unit_word(mod, deadline):
    """getType"""
    ex = install(new_engine(mod, deadline)); st = State(); b = add_buf(ex, st, 'w')
    T = enum(mod, 'JS::Type'); t = intvar('t', 8)
    def post(ex, s, rv):
        n = b.size
        def isw(w): return z3.And(n == len(w), *[b.byte(i) == ord(c) for i, c in enumerate(w)])
        want = z3.If(t != T['Ascii'], t, z3.If(isw('null'), I(T['Null']), z3.If(z3.Or(isw('true'), isw('false')), I(T['Bool']), I(T['Ascii']))))
        ex.oblige(s, simp(bv(rv) == want), 'post:keywords-exactly')
    run_function(ex, mod.find1(r'^JS::Internal::getType\('), [t, Ptr('w', 0), b.size], st, post)
    return ex
UNITS['word-type'] = unit_word

def unit_strnlen(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State(); b = add_buf(ex, st, 'w')
    N = count_fold('NZ', lambda c: c == 0); b.folds = [N]; N.base = z3.IntVal(0)
    inst(ex, st, b, 0)
    def post(ex, s, rv):
        r = bv(rv)
        ex.oblige(s, simp(z3.And(r >= 0, r <= b.size, N.at(r) == N.at(I(0)), z3.Or(r == b.size, b.byte(r) == 0))), 'post:first-nul-or-size')
    run_function(ex, mod.find1(r'^JS::Internal::strnlen\('), [Ptr('w', 0), b.size], st, post)
    return ex
UNITS['strnlen'] = unit_strnlen

def unit_release(mod, deadline):
    """releaseFirstDataRef: every capture in progress receives the rest of the buffer from its start position and continues at the
    start of the next one; the cursor goes to the start; exactly the first buffer is removed and handed to the release callback.
    Unrolled for 0..2 captures and 1..3 registered buffers (the element accesses are independent of those numbers)."""
    exs = []
    L = Layout(mod, 'JS::Tokenizer')
    for nc in (0, 1, 2):
        for m in (1, 2, 3):
            ex = new_engine(mod, deadline); st = State(); ex.unroll_policy = lambda ex, st, fr, h: True
            st.newreg('tok', 'cells', L.size, lazy=True)
            o_cb, o_dl = L.off('copy_buffers'), L.off('data_list')
            st.newreg('cb', 'cells', 16 * max(nc, 1)); st.newreg('dl', 'cells', 16 * 4)
            b = add_buf(ex, st, 'buf'); sizes = [b.size]; firsts = []; olds = []
            for k in range(nc):
                f = intvar('first%d' % k, 64); st.assume(f <= b.size); firsts.append(f)
                st.newreg('str%d' % k, 'cells', 32); v = StrVal(z3.Const('old%d' % k, SeqS), intvar('len%d' % k, 64, MAXBUF)); olds.append(v); setcell(st, 'str%d' % k, 0, 32, v)
                setcell(st, 'cb', 16 * k, 8, f); setcell(st, 'cb', 16 * k + 8, 8, Ptr('str%d' % k, 0))
            bufs = [Ptr('buf', 0)]
            for k in range(1, m): st.newreg('buf%d' % k, 'bytes', intvar('size%d' % k, 64, MAXBUF), ro=True); sizes.append(z3.Int('size%d' % k)); bufs.append(Ptr('buf%d' % k, 0))
            for k in range(m): setcell(st, 'dl', 16 * k, 8, bufs[k]); setcell(st, 'dl', 16 * k + 8, 8, sizes[k])
            for o, r, n, cap in ((o_cb, 'cb', nc, nc), (o_dl, 'dl', m, 4)):
                setcell(st, 'tok', o, 8, Ptr(r, 0)); setcell(st, 'tok', o + 8, 8, Ptr(r, 16 * n)); setcell(st, 'tok', o + 16, 8, Ptr(r, 16 * cap))
            setcell(st, 'tok', L.off('cursor_index'), 8, intvar('cur', 64)); setcell(st, 'tok', L.off('current_data_start'), 8, intvar('cds', 64))
            has = z3.Bool('has_callback')
            def on_bool(ex, s, ins, a, has=has, L=L): return [(s, has)]
            def on_call(ex, s, ins, a):
                p = a[1]
                if isinstance(p, Ptr) and p.reg not in ('buf',) and not p.reg.startswith('buf'): p = ex.load(s, p, ['p'])
                ex.oblige(s, p.reg == 'buf' and same(p.off, 0), 'pre(release-callback):the-released-buffer'); s.ghost['cb'] = s.ghost.get('cb', 0) + 1; return [(s, None)]
            C = lambda rx, h, kind='model', ex=ex: ex.contracts.append((re.compile(rx), h, kind))
            C(r'^std::function<void \(char const\*\)>::operator bool\(\) const$', on_bool); C(r'^std::function<void \(char const\*\)>::operator\(\)\(char const\*\) const$', on_call)
            stdmodel.install(ex)
            def post(ex, s, rv, nc=nc, m=m, firsts=firsts, olds=olds, b=b, sizes=sizes, bufs=bufs, has=has):
                ex.oblige(s, simp(eq(getcell(ex, s, 'tok', L.off('cursor_index'), 8), 0)), 'post:cursor-at-start'); ex.oblige(s, simp(eq(getcell(ex, s, 'tok', L.off('current_data_start'), 8), 0)), 'post:value-start-reset')
                for k in range(nc):
                    v = getstr(ex, s, Ptr('str%d' % k, 0)); want, _ = ex.seq_append(s, olds[k].seq, Ptr('buf', firsts[k]), sub(b.size, firsts[k]))
                    ex.oblige(s, simp(v.seq == want), 'post:capture-receives-rest-of-buffer'); ex.oblige(s, simp(eq(getcell(ex, s, 'cb', 16 * k, 8), 0)), 'post:capture-continues-at-start')
                fin = s.mem['tok'].cells[o_dl + 8][1]; ex.oblige(s, isinstance(fin, Ptr) and fin.reg == 'dl' and same(fin.off, 16 * (m - 1)), 'post:one-buffer-less')
                for k in range(m - 1):
                    p = s.mem['dl'].cells.get(16 * k); ex.oblige(s, p is not None and isinstance(p[1], Ptr) and p[1].reg == bufs[k + 1].reg, 'post:remaining-buffers-in-order'); ex.oblige(s, simp(eq(getcell(ex, s, 'dl', 16 * k + 8, 8), sizes[k + 1])), 'post:remaining-sizes')
                ex.oblige(s, simp(has == z3.BoolVal(s.ghost.get('cb', 0) == 1)), 'post:release-callback-called-once')
            run_function(ex, mod.find1(r'^JS::Tokenizer::releaseFirstDataRef\('), [Ptr('tok', 0)], st, post)
            exs.append(ex)
    return exs
UNITS['release'] = unit_release
