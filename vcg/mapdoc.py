"""Contracts of JS::Map (a document kept as its list of tokens, with an index of its containers) over any well-formed token list.

Ghost functions over the token list of N tokens: TY(i) type, DEP(i) number of containers open before token i, MI(i) number of
opening tokens before i, NXT(i) position after the value that starts at i (i + 1 for a scalar, after the matching closing token for
an opening one).  Index entry k belongs to the k-th opening token: POS(k), SIZE(k), SKIP(k) (tokens and opening tokens of that value).
Iteration invariant: next_meta == MI(index), next_complex == position of entry next_meta (N when there is none)."""
from spec import *
from stdmodel import *
import stdmodel
from handlers import Ctx
from num import token_parts
I = z3.IntVal
Z = z3.IntSort()
TY, NT = bytefun('TY', 8), bytefun('tok_ntype', 8)
DEP, MI, NXT, POS, SIZE, SKIP = (bytefun(n, 31) for n in ('DEP', 'MI', 'NXT', 'POS', 'SIZE', 'SKIP'))
VO, VS_, NO_, NS_ = (bytefun(n, 40) for n in ('tok_value', 'tok_vsize', 'tok_name', 'tok_nsize'))
NM, MATCH = (z3.Function(n, Z, z3.BoolSort()) for n in ('no_match_before', 'matches'))
MAXN = 1 << 30

class Doc:
    def __init__(self, mod, deadline, need_map=True, minn=0):
        c = self.c = Ctx(mod, deadline); ex, st = self.ex, self.st = c.ex, c.st; self.mod = mod
        self.T, self.E, self.TK, self.DR = c.T, c.E, c.TK, c.DR
        self.N = N = intvar('tokens', 64, MAXN); self.txt = add_buf(ex, st, 'txt')
        es = self.TK.size; r = st.newreg('tk', 'array', simp(es * N), ro=True); r.info['elem'] = es
        t = self.TK; fields = [(t.off('name') + self.DR.off('data'), 8, lambda i: Ptr('txt', NO_(i))), (t.off('name') + self.DR.off('size'), 8, NS_), (t.off('value') + self.DR.off('data'), 8, lambda i: Ptr('txt', VO(i))), (t.off('value') + self.DR.off('size'), 8, VS_), (t.off('name_type'), 1, NT), (t.off('value_type'), 1, TY)]
        r.info['fields'] = [x[:2] for x in fields]
        def field(ex, s, idx, fo, n, ty):
            for o, sz, f in fields:
                if o == fo and sz == n:
                    v = f(bv(idx))
                    self.at(s, idx); return v
            raise Unsupported('part of a token field')
        r.info['field'] = field
        if not need_map: return
        self.ML = Layout(mod, 'JS::Map'); self.ME = Layout(mod, 'JS::JsonMeta'); M = self.M = intvar('entries', 64, MAXN); ms = self.ME.size
        st.newreg('map', 'cells', self.ML.size, ro=True)
        for f, reg, e, n in (('tokens', 'tk', es, N), ('meta', 'me', ms, M)):
            o = self.ML.off(f); setcell(st, 'map', o, 8, Ptr(reg, 0)); setcell(st, 'map', o + 8, 8, Ptr(reg, simp(e * n))); setcell(st, 'map', o + 16, 8, Ptr(reg, simp(e * n)))
        m = st.newreg('me', 'array', simp(ms * M), ro=True); m.info['elem'] = ms; me = self.ME
        mf = [(me.off('position'), 8, POS), (me.off('size'), 4, SIZE), (me.off('skip'), 4, SKIP)]; m.info['fields'] = [x[:2] for x in mf]
        def mfield(ex, s, idx, fo, n, ty):
            for o, sz, f in mf:
                if o == fo and sz == n: self.entry(s, idx); return f(bv(idx))
            raise Unsupported('field of an index entry')
        m.info['field'] = mfield
        # well-formed: nothing, one scalar, or one container
        self.end = z3.If(N > 1, N - 1, I(1))
        st.assume(z3.And(MI(I(0)) == 0, MI(N) == M)); self.at(st, I(0)); st.assume(z3.Implies(N == 0, M == 0))
        st.assume(z3.Implies(N == 1, z3.Not(self.open(I(0))))); st.assume(z3.Implies(N >= 2, z3.And(self.open(I(0)), NXT(I(0)) == N)))
        st.assume(z3.Implies(N >= 1, M == MI(NXT(I(0)))))
    def open(self, i): return z3.Or(TY(bv(i)) == self.T['ObjectStart'], TY(bv(i)) == self.T['ArrayStart'])
    def close(self, i): return z3.Or(TY(bv(i)) == self.T['ObjectEnd'], TY(bv(i)) == self.T['ArrayEnd'])
    def at(self, s, i):
        """definitions at token i"""
        i = bv(i); key = ('doc', i.get_id())
        if key in s.inst: return
        s.inst.add(key); s.ghost['keep'] = s.ghost.get('keep', []) + [i]; N = self.N
        rng = z3.And(i >= 0, i < N); o = self.open(i)
        s.assume(z3.Implies(rng, z3.And(MI(i + 1) == MI(i) + z3.If(o, I(1), I(0)), MI(i) >= 0, NXT(i) > i, NXT(i) <= N, z3.Implies(z3.Not(o), NXT(i) == i + 1))))
        if hasattr(self, 'M'):
            k = MI(i); s.assume(z3.Implies(rng, z3.And(MI(i) <= self.M, MI(i + 1) <= self.M, MI(NXT(i)) <= self.M, MI(NXT(i)) >= MI(i + 1))))
            # contract of the index (unit index)
            s.assume(z3.Implies(z3.And(rng, o), z3.And(POS(k) == i, SIZE(k) == NXT(i) - i, SKIP(k) == MI(NXT(i)) - k)))
            self.entry(s, k); self.entry(s, MI(NXT(i)))
            # a member of the outermost container ends before its closing token
            s.assume(z3.Implies(z3.And(self.top(i), i < self.N - 1), self.top(NXT(i))))
            s.assume(z3.Implies(z3.And(self.top(i), i < self.N - 1), NM(NXT(i)) == z3.And(NM(i), z3.Not(MATCH(i)))))
    def top(self, i): return z3.And(bv(i) >= 1, bv(i) <= self.N - 1, z3.Function('at_top_level', Z, z3.BoolSort())(bv(i)))
    def entry(self, s, k):
        k = bv(k); key = ('ent', k.get_id())
        if key in s.inst: return
        s.inst.add(key); s.ghost['keep'] = s.ghost.get('keep', []) + [k]
        s.assume(z3.Implies(z3.And(k >= 0, k < self.M), z3.And(POS(k) >= 0, POS(k) < self.N, self.open(POS(k)), MI(POS(k)) == k, SIZE(k) >= 1, SIZE(k) <= self.N, SKIP(k) >= 1, SKIP(k) <= self.M)))
    def nc(self, i): return z3.If(MI(bv(i)) < self.M, POS(MI(bv(i))), self.N)
    def inv(self, i, m, x): return z3.And(bv(m) == MI(bv(i)), bv(x) == self.nc(i))
    # iterators
    def it(self, s, reg, i, m, x):
        L = Layout(self.mod, 'JS::Map::It'); s.newreg(reg, 'cells', L.size); setcell(s, reg, L.off('map'), 8, Ptr('map', 0))
        for f, v in (('index', i), ('next_meta', m), ('next_complex', x)): setcell(s, reg, L.off(f), 4, v)
    def get(self, ex, s, reg, off=0):
        L = Layout(self.mod, 'JS::Map::It'); p = s.mem[reg].cells[off + L.off('map')][1]
        return p, [bv(getcell(ex, s, reg, off + L.off(f), 4)) for f in ('index', 'next_meta', 'next_complex')]

def unit_inc(mod, deadline):
    d = Doc(mod, deadline); ex, st = d.ex, d.st
    i, m, x = (intvar(n, 32) for n in ('index', 'next_meta', 'next_complex')); d.it(st, 'it', i, m, x)
    st.assume(z3.And(i >= 1, i < d.N, d.inv(i, m, x))); d.at(st, i)
    def post(ex, s, rv):
        d.at(s, NXT(i)); p, (i2, m2, x2) = d.get(ex, s, 'it')
        ex.oblige(s, isinstance(p, Ptr) and p.reg == 'map', 'post:same-map'); ex.oblige(s, simp(i2 == NXT(i)), 'post:after-the-value'); ex.oblige(s, simp(m2 == MI(NXT(i))), 'post:next-entry'); ex.oblige(s, simp(x2 == d.nc(NXT(i))), 'post:next-container')
        ex.oblige(s, isinstance(rv, Ptr) and rv.reg == 'it' and same(rv.off, 0), 'post:returns-the-iterator')
    run_function(ex, mod.find1(r'^JS::Map::It::operator\+\+\(\)$'), [Ptr('it', 0)], st, post); return ex
def unit_ends(which):
    def unit(mod, deadline):
        d = Doc(mod, deadline); ex, st = d.ex, d.st; st.newreg('ret', 'cells', Layout(mod, 'JS::Map::It').size)
        st.assume(z3.Implies(d.N >= 2, d.top(I(1)))); d.at(st, I(1))
        def post(ex, s, rv):
            p, (i, m, x) = d.get(ex, s, 'ret'); ex.oblige(s, isinstance(p, Ptr) and p.reg == 'map', 'post:this-map')
            if which == 'begin': ex.oblige(s, simp(i == 1), 'post:first-member'); ex.oblige(s, simp(z3.Implies(d.N >= 2, d.inv(i, m, x))), 'post:invariant')
            else: ex.oblige(s, simp(i == d.end), 'post:closing-token')
        run_function(ex, mod.find1(r'^JS::Map::%s\(\) const$' % which), [Ptr('ret', 0), Ptr('map', 0)], st, post); return ex
    return unit
def unit_compare(mod, deadline):
    out = []
    for op in ('==', '!='):
        d = Doc(mod, deadline); ex, st = d.ex, d.st; v = [intvar(n, 32) for n in ('i1', 'm1', 'x1', 'i2', 'm2', 'x2')]; d.it(st, 'a', *v[:3]); d.it(st, 'b', *v[3:])
        def post(ex, s, rv, op=op, v=v): ex.oblige(s, simp(zb(rv) == ((v[0] == v[3]) if op == '==' else (v[0] != v[3]))), 'post:compares-positions')
        run_function(ex, mod.find1(r'^JS::Map::It::operator%s\(' % op), [Ptr('a', 0), Ptr('b', 0)], st, post); out.append(ex)
    for op in (r'\*', '->'):
        d = Doc(mod, deadline); ex, st = d.ex, d.st; i, m, x = (intvar(n, 32) for n in ('index', 'next_meta', 'next_complex')); d.it(st, 'it', i, m, x); st.assume(i < d.N)
        def post(ex, s, rv, d=d, i=i): ex.oblige(s, isinstance(rv, Ptr) and rv.reg == 'tk' and simp(eq(rv.off, d.TK.size * i)), 'post:the-token')
        run_function(ex, mod.find1(r'^JS::Map::It::operator%s\(\)$' % op), [Ptr('it', 0)], st, post); out.append(ex)
    return out

def find_loop(d):
    """loop candidates: an iterator anywhere in the frame satisfies the invariant at a top-level position with no match before it"""
    L = Layout(d.mod, 'JS::Map::It')
    def cands(ex, st, ints, bools, vars_, depth, fixed):
        out = []
        for g, reg, w, e, v in ints:
            if w != 32 or reg is not None: continue
            out.append(lambda s, g=g: d.top(g(s))); out.append(lambda s, g=g: NM(bv(g(s)))); out.append(lambda s, g=g: z3.And(bv(g(s)) >= 1, bv(g(s)) <= d.end))
            out.append(lambda s, g=g: z3.Implies(d.N < 2, bv(g(s)) == d.end)); out.append(lambda s, g=g: z3.Implies(d.N >= 2, d.top(g(s)))); out.append(lambda s, g=g: z3.Implies(d.N >= 2, NM(bv(g(s))))); out.append(lambda s, g=g: bv(g(s)) <= d.end)
            out.append(lambda s, g=g: z3.Implies(d.N >= 2, MI(bv(g(s))) == d.M)); out.append(lambda s, g=g: z3.Implies(d.N >= 2, MI(bv(g(s))) == 1))
            for g2, r2, w2, e2, v2 in ints:
                if w2 == 32 and r2 is None and g2 is not g:
                    out.append(lambda s, g=g, g2=g2: bv(g2(s)) == MI(bv(g(s)))); out.append(lambda s, g=g, g2=g2: bv(g2(s)) == d.nc(g(s)))
                    out.append(lambda s, g=g, g2=g2: z3.Implies(d.N >= 2, bv(g2(s)) == MI(bv(g(s))))); out.append(lambda s, g=g, g2=g2: z3.Implies(d.N >= 2, bv(g2(s)) == d.nc(g(s))))
        return out
    d.ex.cand_hooks.append(cands); d.ex.unroll_policy = lambda ex, st, fr, h: False
    def hdr(ex, st, vars_, depth):
        for v in vars_:
            x = ex.getv(st, v, depth)
            if is_z(x) and z3.is_int(x): d.at(st, x); d.at(st, NXT(x))
    d.ex.header_hooks.append(hdr)
def unit_find(mod, deadline):
    d = Doc(mod, deadline); ex, st = d.ex, d.st; find_loop(d); st.newreg('ret', 'cells', Layout(mod, 'JS::Map::It').size); st.newreg('nm', 'cells', 32)
    setcell(st, 'nm', 0, 32, StrVal(z3.Const('wanted', SeqS), intvar('wanted_len', 64, MAXBUF)))
    st.assume(z3.Implies(d.N >= 2, z3.And(d.top(I(1)), NM(I(1))))); d.at(st, I(1))
    def cmp(ex, s, ins, a):
        """unit compare-name"""
        idx, fo = core.split_index(a[0].off, d.TK.size) if a[0].reg == 'tk' else (None, None)
        if idx is None or fo != d.TK.off('name'): raise Unsupported('not the name of a token')
        ex.oblige(s, a[1].reg == 'nm' and same(a[1].off, 0), 'pre(compare):the-wanted-name'); ex.oblige(s, simp(z3.And(bv(idx) >= 0, bv(idx) < d.N)), 'pre(compare):a-token')
        d.at(s, idx); d.at(s, NXT(bv(idx))); return [(s, MATCH(bv(idx)))]
    ex.contracts.append((re.compile(r'^JS::Internal::compareEscapedDataRefWithString\('), cmp, 'contract'))
    def post(ex, s, rv):
        p, (i, m, x) = d.get(ex, s, 'ret'); ex.oblige(s, isinstance(p, Ptr) and p.reg == 'map', 'post:this-map')
        ex.oblige(s, simp(z3.Implies(d.N >= 2, z3.Or(i == d.end, z3.And(d.top(i), MATCH(i))))), 'post:a-member-of-that-name-or-the-end')
        ex.oblige(s, simp(z3.Implies(d.N >= 2, NM(i))), 'post:no-earlier-member-of-that-name'); ex.oblige(s, simp(z3.Implies(d.N < 2, i == d.end)), 'post:nothing-in-an-empty-map')
        ex.oblige(s, simp(z3.Implies(i != d.end, d.inv(i, m, x))), 'post:iterator-invariant')
    run_function(ex, mod.find1(r"^JS::Map::find\([^']*\) const$"), [Ptr('ret', 0), Ptr('map', 0), Ptr('nm', 0)], st, post); return ex


# ---------------- names ----------------
from strings import Decode
def unit_name(mod, deadline):
    """compareEscapedDataRefWithString: the decoded name (Decode: the specification unit decode proves of the decoder) equals the string"""
    ex = install(new_engine(mod, deadline)); st = State(); R = Layout(mod, 'JS::DataRef'); b = add_buf(ex, st, 'txt'); d = Decode(b); d.lemma(ex)
    st.newreg('ref', 'cells', R.size, ro=True); setcell(st, 'ref', R.off('data'), 8, Ptr('txt', 0)); setcell(st, 'ref', R.off('size'), 8, b.size)
    want = z3.Const('wanted', SeqS); wl = intvar('wanted_len', 64, MAXBUF); st.newreg('nm', 'cells', 32); setcell(st, 'nm', 0, 32, StrVal(want, wl))
    st.assume(z3.And(d.E.at(0) == 0, d.D.at(0) == EMPTY)); st.assume((want == EMPTY) == (wl == 0)); inst(ex, st, b, 0); ap = appr('txt')
    ex.search_hooks = [d.on_search]; raw = ap(EMPTY, I(0), b.size); st.assume(z3.Implies(b.size == 0, raw == EMPTY)); n = b.size
    st.assume(z3.Implies(d.NB.at(0) == d.NB.at(n), z3.And(d.E.at(n) == 0, d.D.at(n) == raw)))       # lemma plain-stretch
    lenf = z3.Function('seqlen', SeqS, Z); st.assume(z3.And(lenf(want) == wl, lenf(raw) == n))
    C = lambda rx, h, k='model': ex.contracts.append((re.compile(rx), h, k))
    def cmp(ex, s, ins, a):
        p, q, k = a
        if isinstance(q, Ptr) and q.reg == 'txt': p, q = q, p
        if not (isinstance(p, Ptr) and p.reg == 'txt' and isinstance(q, Ptr) and q.reg.startswith('sc:') and s.mem[q.reg].info['seq'].eq(want)): raise Unsupported('memcmp of something else')
        ex.oblige(s, same(p.off, 0) and same(q.off, 0), 'memcmp:from-the-start'); ex.bounds(s, p, k, 'memcmp'); ex.oblige(s, simp(ule(k, wl)), 'memcmp:in-bounds')
        r = fresh('cmp', 32); s.assume(z3.Implies(z3.And(bv(k) == n, wl == n), (r == 0) == (raw == want))); s.assume(z3.Implies(bv(k) == 0, r == 0)); return [(s, r)]
    C(r'^(memcmp|bcmp)$', cmp)
    def dec(ex, s, ins, a):
        """unit decode (P07)"""
        ex.oblige(s, a[0].reg == 'ref' and same(a[0].off, 0), 'pre(decode):the-name'); v = getstr(ex, s, a[1]); ex.oblige(s, simp(v.seq == EMPTY), 'pre(decode):into-an-empty-string')
        setstr(ex, s, a[1], StrVal(d.D.at(n), lenf(d.D.at(n)))); s.assume(lenf(d.D.at(n)) >= 0); return [(s, None)]
    C(r'^JS::Internal::handle_json_escapes_in\(', dec, 'contract')
    C(r'bool std::operator==<char.*\(std::__cxx11::basic_string<.* const&, std::__cxx11::basic_string<.* const&\)$', lambda ex, s, ins, a: [(s, getstr(ex, s, a[0]).seq == getstr(ex, s, a[1]).seq)])
    def post(ex, s, rv): ex.oblige(s, simp(zb(rv) == (d.D.at(n) == want)), 'post:equal-exactly-when-the-decoded-name-equals')
    run_function(ex, mod.find1(r'^JS::Internal::compareEscapedDataRefWithString\('), [Ptr('ref', 0), Ptr('nm', 0)], st, post); return ex

# ---------------- casts ----------------
def unit_cast(kind):
    def unit(mod, deadline):
        d = Doc(mod, deadline); ex, st, c, E, T = d.ex, d.st, d.c, d.E, d.T; eo, es = c.L.off('error'), c.L.sz('error'); setcell(st, 'ctx', eo, es, intvar('old_error', 8))
        st.newreg('u', 'cells', 8, lazy=True); st.newreg('nm', 'cells', 32); setcell(st, 'nm', 0, 32, StrVal(z3.Const('wanted', SeqS), intvar('wanted_len', 64, MAXBUF)))
        i, m, x = (intvar(n, 32) for n in ('index', 'next_meta', 'next_complex')); st.ghost['ph'] = 0; st.ghost['err'] = I(0); to = d.ML.off('tokens')
        if kind == 'iterator': d.it(st, 'it', i, m, x); st.assume(z3.And(i >= 0, i < d.N))
        C = lambda rx, h, k='contract': ex.contracts.append((re.compile(rx), h, k))
        def reset(ex, s, ins, a):
            ex.oblige(s, s.ghost['ph'] in (0,), 'pre(resetData):once'); ex.oblige(s, isinstance(a[1], Ptr) and a[1].reg == 'map' and same(a[1].off, to), 'pre(resetData):the-tokens-of-this-map')
            w = I(0) if kind == 'whole' else s.ghost['at'] if kind == 'name' and 'at' in s.ghost else i
            ex.oblige(s, simp(eq(a[2], w)), 'pre(resetData):at-the-member'); ex.oblige(s, a[0].reg == 'ctx' and same(a[0].off, c.L.off('tokenizer')), 'pre(resetData):tokenizer'); s.ghost['ph'] = 1; return [(s, None)]
        def nxt(ex, s, ins, a):
            ex.oblige(s, s.ghost['ph'] == 1 and a[1].reg == 'ctx' and same(a[1].off, c.to), 'pre(nextToken):after-the-reset-into-the-context'); e = s.fork(); err = fresh('tokerr', 8); e.assume(z3.And(err > 0, err <= E['UserDefinedErrors'])); e.ghost['err'] = err; e.ghost['ph'] = 4; s.ghost['ph'] = 2; return [(s, E['NoError']), (e, err)]
        def elem(ex, s, ins, a):
            ex.oblige(s, s.ghost['ph'] == 2 and a[0].reg == 'u' and same(a[0].off, 0) and a[1].reg == 'ctx' and same(a[1].off, 0), 'pre(handler):with-the-token-of-the-member'); err = fresh('err', 8); s.ghost['err'] = err; s.ghost['ph'] = 3; setcell(s, 'ctx', eo, es, fresh('ctxerr', 8)); return [(s, err)]
        C(r'^JS::Tokenizer::resetData\(std::vector', reset); C(r'^JS::Tokenizer::nextToken\(', nxt); C(r'^JS::TypeHandler<U(, void)?>::to\(', elem)
        def find(ex, s, ins, a):
            """unit find"""
            ex.oblige(s, a[1].reg == 'map' and a[2].reg == 'nm' and same(a[2].off, 0), 'pre(find):the-name'); f, m2, x2 = fresh('found', 32), fresh('m', 32), fresh('x', 32); s.assume(z3.Or(f == d.end, z3.And(d.top(f), MATCH(f)))); s.assume(z3.Implies(d.N < 2, f == d.end)); L = Layout(mod, 'JS::Map::It')
            for fl, v in (('index', f), ('next_meta', m2), ('next_complex', x2)): ex.store(s, Ptr(a[0].reg, add(a[0].off, L.off(fl))), v, ['i', 32])
            ex.store(s, Ptr(a[0].reg, add(a[0].off, L.off('map'))), Ptr('map', 0), ['p']); s.ghost['at'] = f; return [(s, None)]
        if kind == 'name': C(r"^JS::Map::find\([^']*\) const$", find)
        def post(ex, s, rv):
            rv = bv(rv); ph = s.ghost['ph']; err = bv(getcell(ex, s, 'ctx', eo, es)); ex.oblige(s, simp(err == rv), 'post:error-also-in-the-context')
            obj = z3.And(d.N > 0, TY(I(0)) == T['ObjectStart'])
            if ph == 0:
                ex.oblige(s, kind == 'name' and simp(z3.Or(z3.And(z3.Not(obj), rv == E['ExpectedObjectStart']), z3.And(obj, 'at' in s.ghost and s.ghost['at'] == d.end, rv == E['KeyNotFound']))), 'post:refused-only-without-such-a-member')
            else:
                ex.oblige(s, ph in (3, 4) and simp(rv == s.ghost['err']), 'post:the-handler-s-result')
                if kind == 'name': ex.oblige(s, simp(z3.And(obj, s.ghost['at'] != d.end)), 'post:only-a-member-of-an-object')
        rx = {'whole': r'^JS::Error JS::Map::castToType<U>\(JS::ParseContext&', 'iterator': r'^JS::Error JS::Map::castToType<U>\(JS::Map::It const&', 'name': r'^JS::Error JS::Map::castToType<U>\(std::'}[kind]
        run_function(ex, mod.find1(rx), [Ptr('map', 0)] + {'whole': [], 'iterator': [Ptr('it', 0)], 'name': [Ptr('nm', 0)]}[kind] + [Ptr('ctx', 0), Ptr('u', 0)], st, post); return ex
    return unit

def unit_list(mod, deadline):
    """nextToken with a token list: delivers its tokens one by one, then leaves the list"""
    out = []
    for nsc in (0, 1, 2):
        d = Doc(mod, deadline, False); ex, st, T, E = d.ex, d.st, d.T, d.E; L = Layout(mod, 'JS::Tokenizer'); S = Layout(mod, 'JS::Internal::ScopeCounter'); TK = d.TK; N = d.N
        st.newreg('tok', 'cells', L.size, lazy=True); st.newreg('pv', 'cells', 24, ro=True); st.newreg('nx', 'cells', TK.size)
        for o, v in ((0, 0), (8, simp(TK.size * N)), (16, simp(TK.size * N))): setcell(st, 'pv', o, 8, Ptr('tk', v))
        setcell(st, 'tok', L.off('parsed_data_vector'), 8, Ptr('pv', 0)); cur = intvar('cursor', 64, MAXN); setcell(st, 'tok', L.off('cursor_index'), 8, cur)
        st.newreg('sc', 'cells', S.size * 3); o = L.off('scope_counter'); setcell(st, 'tok', o, 8, Ptr('sc', 0)); setcell(st, 'tok', o + 8, 8, Ptr('sc', S.size * nsc)); setcell(st, 'tok', o + 16, 8, Ptr('sc', S.size * 3))
        ty, dp = intvar('scope_type', 8), intvar('scope_depth', 64)
        for k in range(nsc): setcell(st, 'sc', k * S.size + S.off('type'), S.sz('type'), ty if k == nsc - 1 else intvar('other_type', 8)); setcell(st, 'sc', k * S.size + S.off('depth'), 8, dp if k == nsc - 1 else intvar('other_depth', 64))
        st.newreg('dl', 'cells', 64); o2 = L.off('data_list')
        for k in (0, 8, 16): setcell(st, 'tok', o2 + k, 8, Ptr('dl', 0))
        st.assume(dp < 1 << 60); st.assume(z3.And(ty != T['ArrayEnd'], ty != T['ObjectEnd']))
        def req(ex, s, ins, a, d=d, cur=cur, L=L):
            pv = s.mem['tok'].cells[L.off('parsed_data_vector')][1]
            ex.oblige(s, simp(cur >= d.N), 'list:left-only-behind-its-end'); ex.oblige(s, not (isinstance(pv, Ptr) and pv.reg in s.mem), 'list:left'); ex.oblige(s, simp(eq(getcell(ex, s, 'tok', L.off('cursor_index'), 8), 0)), 'list:cursor-at-the-start'); raise PathEnd()
        ex.contracts.append((re.compile(r'^JS::Tokenizer::requestMoreData\('), req, 'contract'))
        def post(ex, s, rv, d=d, nsc=nsc, cur=cur, L=L, S=S, ty=ty, dp=dp):
            c2 = bv(getcell(ex, s, 'tok', L.off('cursor_index'), 8)); pv = s.mem['tok'].cells[L.off('parsed_data_vector')][1]; on = isinstance(pv, Ptr) and pv.reg == 'pv'; rv = bv(rv)
            if nsc and ex.must(s, rv == E['ScopeHasEnded']):
                ex.oblige(s, simp(z3.And(dp == 0, c2 == cur)) if on else False, 'post:scope-ended-nothing-read'); return
            ex.oblige(s, simp(z3.And(cur < d.N, rv == E['NoError'])), 'post:delivers-while-there-are-tokens')
            if nsc: ex.oblige(s, simp(dp > 0), 'post:scope-open')
            TK, DR = d.TK, d.DR; i = cur
            for f, n, w in (('value_type', 1, TY(i)), ('name_type', 1, NT(i))): ex.oblige(s, simp(eq(getcell(ex, s, 'nx', TK.off(f), n), w)), 'post:the-token')
            for f, po, sz in (('name', NO_(i), NS_(i)), ('value', VO(i), VS_(i))):
                p = s.mem['nx'].cells.get(TK.off(f) + DR.off('data'), (0, None))[1]; ex.oblige(s, isinstance(p, Ptr) and p.reg == 'txt' and simp(eq(p.off, po)), 'post:the-token'); ex.oblige(s, simp(eq(getcell(ex, s, 'nx', TK.off(f) + DR.off('size'), 8), sz)), 'post:the-token')
            ex.oblige(s, simp(c2 == cur + 1) if on else simp(z3.And(c2 == 0, cur + 1 == d.N)), 'post:moves-to-the-next-token')
            if nsc:
                z = bv(getcell(ex, s, 'sc', (nsc - 1) * S.size + S.off('depth'), 8)); cont = z3.Or(ty == T['ArrayStart'], ty == T['ObjectStart'])
                ex.oblige(s, simp(z == z3.If(cont, z3.If(TY(i) == ty, dp + 1, z3.If(TY(i) == ty + 1, dp - 1, dp)), dp - 1)), 'post:scope-counted')
        run_function(ex, mod.find1(r'^JS::Tokenizer::nextToken\(JS::Token&\)$'), [Ptr('tok', 0), Ptr('nx', 0)], st, post); out.append(ex)
    return out

# ---------------- handlers ----------------
class VecM:
    is_ghost = True
    def __init__(self, tag): self.tag = tag
    def same(self, o): return isinstance(o, VecM) and self.tag == o.tag
    def havoc(self, name): raise Unsupported('index changed in a loop')
    def terms(self): return []
    def copy_from_raw(self): raise Unsupported('raw copy of a vector')
VJ = r'^std::vector<JS::JsonMeta, std::allocator<JS::JsonMeta>>::'
def unit_to(mod, deadline):
    d = Doc(mod, deadline); ex, st, c, E = d.ex, d.st, d.c, d.E; mo, to = d.ML.off('meta'), d.ML.off('tokens')
    st.newreg('m2', 'cells', d.ML.size, lazy=True); setcell(st, 'm2', mo, 24, VecM('old')); st.ghost['ph'] = 0
    C = lambda rx, h, k='contract': ex.contracts.append((re.compile(rx), h, k))
    def tk(ex, s, ins, a):
        ex.oblige(s, s.ghost['ph'] == 0 and a[0].reg == 'm2' and same(a[0].off, to) and a[1].reg == 'ctx', 'pre(tokens):into-this-map'); e = fresh('err', 8); s.ghost['ph'] = 1; s.ghost['err'] = e; return [(s, e)]
    def meta(ex, s, ins, a):
        ex.oblige(s, s.ghost['ph'] == 1 and a[1].reg == 'm2' and same(a[1].off, to), 'pre(index):of-the-tokens-read'); ex.oblige(s, simp(s.ghost['err'] == E['NoError']), 'pre(index):of-a-whole-value'); r = s.wreg(a[0].reg)
        if not (a[0].off in r.cells and isinstance(r.cells[a[0].off][1], VecM)): ex.clear_range(s, r, a[0].off, 24)
        r.cells[a[0].off] = (24, VecM('new')); return [(s, None)]
    C(r'^JS::TypeHandler<(JS::JsonTokens|std::vector<JS::Token.*)(, void)?>::to\(', tk); C(r'^JS::metaForTokens\(', meta)
    def gv(s, p):
        v = s.mem[p.reg].cells.get(p.off, (0, None))[1]
        if not isinstance(v, VecM): raise Unsupported('not a modelled vector')
        return v
    def asg(ex, s, ins, a): v = gv(s, a[1]); gv(s, a[0]); s.wreg(a[0].reg).cells[a[0].off] = (24, v); return [(s, a[0])]
    C(VJ + r'operator=\(', asg, 'model'); C(VJ + r'~vector\(\)$', lambda ex, s, ins, a: [(s, None)], 'model')
    def post(ex, s, rv):
        ex.oblige(s, s.ghost['ph'] == 1 and simp(bv(rv) == s.ghost['err']), 'post:the-error-of-reading-the-tokens')
        ex.oblige(s, simp(z3.Implies(bv(rv) == E['NoError'], z3.BoolVal(gv(s, Ptr('m2', mo)).tag == 'new'))), 'post:index-of-the-tokens-read')
    run_function(ex, mod.find1(r'^JS::TypeHandler<JS::Map(, void)?>::to\('), [Ptr('m2', 0), Ptr('ctx', 0)], st, post); return ex

def unit_from(which):
    """Map: every token once and in order, the first one under the given name; JsonTokens: every token once and in order"""
    def unit(mod, deadline):
        d = Doc(mod, deadline); ex, st, c, T, TK, DR = d.ex, d.st, d.c, d.T, d.TK, d.DR; st.newreg('gh', 'cells', 8); setcell(st, 'gh', 0, 8, 0); CNT = lambda s: bv(s.mem['gh'].cells[0][1])
        st.newreg('nm0', 'bytes', intvar('nm0n', 64, MAXBUF), ro=True); st.mem['nm0'].f = bytefun('byte_nm0'); nt0 = intvar('nt0', 8)
        setcell(st, 'token', TK.off('name') + DR.off('data'), 8, Ptr('nm0', 0)); setcell(st, 'token', TK.off('name') + DR.off('size'), 8, z3.Int('nm0n')); setcell(st, 'token', TK.off('name_type'), 1, nt0)
        setcell(st, 'token', TK.off('value') + DR.off('data'), 8, Ptr('nm0', 0)); setcell(st, 'token', TK.off('value') + DR.off('size'), 8, z3.Int('nm0n')); setcell(st, 'token', TK.off('value_type'), 1, intvar('vt0', 8))
        def write(ex, s, ins, a):
            ex.oblige(s, a[0].reg == 'ser', 'pre(write):serializer'); k = CNT(s); setcell(s, 'gh', 0, 8, simp(k + 1)); s.assume(k < MAXN * 2)
            g = lambda f, n, ty: ex.load(s, Ptr(a[1].reg, add(a[1].off, f)), ty)
            q = {f: (g(TK.off(f) + DR.off('data'), 8, ['p']), bv(g(TK.off(f) + DR.off('size'), 8, ['i', 64]))) for f in ('name', 'value')}; vt, nt = bv(g(TK.off('value_type'), 1, ['i', 8])), bv(g(TK.off('name_type'), 1, ['i', 8]))
            is_ = lambda f, po, sz: b_and(isinstance(q[f][0], Ptr) and q[f][0].reg == 'txt', eq(q[f][0].off, po), eq(q[f][1], sz))
            given = b_and(isinstance(q['name'][0], Ptr) and q['name'][0].reg == 'nm0' and same(q['name'][0].off, 0), eq(q['name'][1], z3.Int('nm0n')))
            first = given if which == 'Map' else is_('name', NO_(k), NS_(k))
            if which == 'Map' and ex.must(s, d.N == 0):
                n = ex.conc(s, simp(q['value'][1])); n = n.as_long() if z3.is_int_value(n) else n; ch = ex.load(s, q['value'][0], ['i', 8]) if not is_z(n) and n == 1 else None
                ex.oblige(s, simp(z3.Or(z3.And(k == 0, vt == T['ObjectStart'], zb(given), nt == nt0, zb(eq(ch, ord('{')))), z3.And(k == 1, vt == T['ObjectEnd'], q['name'][1] == 0, zb(eq(ch, ord('}')))))) if ch is not None else False, 'pre(write):brackets-of-an-empty-object'); return [(s, freshb('written'))]
            ex.oblige(s, simp(k < d.N), 'pre(write):no-more-than-the-tokens'); d.at(s, k)
            ex.oblige(s, simp(z3.And(vt == TY(k), zb(is_('value', VO(k), VS_(k))))), 'pre(write):the-next-token')
            ex.oblige(s, simp(z3.Or(z3.And(k == 0, zb(first)), z3.And(k > 0, zb(is_('name', NO_(k), NS_(k))), nt == NT(k)))), 'pre(write):its-name')
            return [(s, freshb('written'))]
        ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), write, 'contract'))
        def cands(ex, st, ints, bools, vars_, depth, fixed):
            out = [lambda s: z3.And(CNT(s) >= 0, CNT(s) <= d.N), lambda s: CNT(s) >= 1]
            for g, reg, w, e, v in ints:
                if reg is None and not (v.kind == 'cell' and v.key[0] == 'gh'): out.append(lambda s, g=g: bv(g(s)) == CNT(s)); out.append(lambda s, g=g: bv(g(s)) <= d.N)
                if reg == 'tk': out.append(lambda s, g=g: bv(g(s)) == TK.size * CNT(s))
            return out
        ex.cand_hooks.append(cands); ex.unroll_policy = lambda ex, st, fr, h: False
        def post(ex, s, rv): ex.oblige(s, simp(CNT(s) == (z3.If(d.N == 0, I(2), d.N) if which == 'Map' else d.N)), 'post:every-token-written-once')
        obj = Ptr('map', 0) if which == 'Map' else Ptr('map', d.ML.off('tokens'))
        run_function(ex, mod.find1(r'^JS::TypeHandler<JS::%s(, void)?>::from\(' % which), [obj, Ptr('token', 0), Ptr('ser', 0)], st, post); return ex
    return unit


# ---------------- the index ----------------
CH, CC, HD = (bytefun(n, 31) for n in ('CH', 'CC', 'HD'))
def unit_index(mod, deadline):
    """metaForTokens, seen from one arbitrary container: its opening token is p, its entry is number K == MI(p), e is the position after
    its closing token.  Entry K is kept (region wm), the other entries are not (region om).  The stack of open containers is kept as its
    size PN and whether entry K is on it (IN; then at depth DEP(p)).  CH, CC, HD(i): members, container members, whether there is a
    scalar, counted over the tokens of the container before i."""
    d = Doc(mod, deadline, False); ex, st, T, N = d.ex, d.st, d.T, d.N; ME = Layout(mod, 'JS::JsonMeta'); p, e = intvar('p', 64, MAXN), intvar('e', 64, MAXN); K, J = MI(p), DEP(p)
    PN, IN, MSZ = 0, 8, 16; st.newreg('gh', 'cells', 24); g = lambda s, o: bv(s.mem['gh'].cells[o][1])
    def sg(s, o, v): setcell(s, 'gh', o, 8, v)
    for o in (PN, IN, MSZ): sg(st, o, 0)
    one = lambda c: z3.If(c, I(1), I(0)); inside = lambda i: z3.And(i > p, i < e); mn = lambda i: z3.If(i < e, i, e)
    def defs(i):
        op, cl = d.open(i), d.close(i); top = z3.And(inside(i), DEP(i) == J + 1)
        return [MI(i + 1) == MI(i) + one(op), DEP(i + 1) == DEP(i) + one(op) - one(cl), z3.Implies(cl, DEP(i) >= 1), CH(i + 1) == CH(i) + one(z3.And(top, z3.Not(cl))), CC(i + 1) == CC(i) + one(z3.And(top, op)), HD(i + 1) == z3.If(z3.And(inside(i), z3.Not(op), z3.Not(cl)), I(1), HD(i)), z3.Implies(inside(i), DEP(i) != J)]
    # lemmas over those definitions
    b = z3.Int('lem_b'); step = lambda x: defs(x) + [z3.Implies(inside(x + 1), DEP(x + 1) != J), z3.Or(d.open(p)), p < e, DEP(e) == J]
    induct(ex, 'entries-behind-are-later', lambda x: z3.Implies(x >= p + 1, MI(x) >= K + 1), b, lambda x: step(x) + defs(p) + [z3.Implies(x == p, MI(x) == K)], p)
    a = z3.Int('lem_a'); induct(ex, 'entries-in-order', lambda x: MI(x) >= MI(a), b, step, a)
    induct(ex, 'inside-is-deeper', lambda x: z3.Implies(inside(x), DEP(x) >= J + 1), b, lambda x: step(x) + defs(p) + [z3.Implies(x == p, z3.And(DEP(x) == J, d.open(x)))], p)
    def at(s, i):
        i = bv(i); key = ('ix', i.get_id())
        if key in s.inst: return
        s.inst.add(key); s.ghost['keep'] = s.ghost.get('keep', []) + [i]; rng = z3.And(i >= 0, i < N)
        s.assume(z3.Implies(rng, z3.And(*defs(i)))); le = z3.And(i >= 0, i <= N)
        s.assume(z3.Implies(z3.And(le, i > p), MI(i) >= K + 1)); s.assume(z3.Implies(z3.And(le, i <= p), MI(i) <= K)); s.assume(z3.Implies(z3.And(le, inside(i)), DEP(i) >= J + 1))
    d.at = lambda s, i: (at(s, i), at(s, simp(bv(i) + 1)))
    st.assume(z3.And(p >= 0, p < N, d.open(p), e > p, e <= N, DEP(e) == J, DEP(I(0)) == 0, MI(I(0)) == 0, DEP(N) == 0, CH(p + 1) == 0, CC(p + 1) == 0, HD(p + 1) == 0)); at(st, p); at(st, e); at(st, simp(p + 1))
    st.newreg('jt', 'cells', 24, ro=True)
    for o, v in ((0, 0), (8, simp(d.TK.size * N)), (16, simp(d.TK.size * N))): setcell(st, 'jt', o, 8, Ptr('tk', v))
    st.newreg('wm', 'cells', ME.size, lazy=True); st.newreg('om', 'junk', ME.size); par = st.newreg('par', 'array', None); par.info['elem'] = 8; par.info['fields'] = [(0, 8)]
    def pf(ex, s, idx, fo, n, ty):
        ex.oblige(s, simp(z3.And(bv(idx) >= 0, bv(idx) < g(s, PN))), 'stack-element-in-range'); w = fresh('entry', 64); s.assume(z3.And(w != K, w < g(s, MSZ))); return z3.If(z3.And(g(s, IN) == 1, bv(idx) == J), K, w)
    par.info['field'] = pf; st.newreg('ret', 'cells', 24)
    C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'model')); VU = r'^std::vector<unsigned long, std::allocator<unsigned long>>::'
    def obj(kind):
        def h(s, p):
            k = (p.reg, p.off)
            if s.ghost.setdefault('obj' + kind, k) != k: raise Unsupported('another vector')
        return h
    mo, po = obj('m'), obj('p')
    def entry(ex, s, i):
        ex.oblige(s, simp(z3.And(bv(i) >= 0, bv(i) < g(s, MSZ))), 'entry-in-range'); o = s.fork(); out = []
        if ex.feasible(s, [bv(i) == K]): s.assume(bv(i) == K); out.append((s, Ptr('wm', 0)))
        if ex.feasible(o, [bv(i) != K]): o.assume(bv(i) != K); out.append((o, Ptr('om', 0)))
        return out
    nop = lambda chk: (lambda ex, s, ins, a: (chk(s, a[0]), [(s, None)])[1])
    def ctor(ex, s, ins, a): mo(s, a[0]); sg(s, MSZ, 0); return [(s, None)]
    def pctor(ex, s, ins, a): po(s, a[0]); sg(s, PN, 0); sg(s, IN, 0); return [(s, None)]
    def push(ex, s, ins, a):
        mo(s, a[0]); o = s.fork(); out = []; m = g(s, MSZ)
        if ex.feasible(s, [m == K]): s.assume(m == K); ex.memcpy(s, Ptr('wm', 0), a[1], ME.size); out.append((s, None))
        if ex.feasible(o, [m != K]): o.assume(m != K); out.append((o, None))
        for x, _ in out: sg(x, MSZ, simp(m + 1))
        return out
    def ppush(ex, s, ins, a):
        po(s, a[0]); v = bv(ex.load(s, a[1], ['i', 64])); n = g(s, PN); ex.oblige(s, simp(v < g(s, MSZ)), 'push:an-entry'); ex.oblige(s, simp(z3.Implies(v == K, z3.And(g(s, IN) == 0, n == J))), 'push:at-its-depth')
        sg(s, IN, simp(z3.If(v == K, I(1), g(s, IN)))); sg(s, PN, simp(n + 1)); return [(s, None)]
    def ppop(ex, s, ins, a):
        po(s, a[0]); n = g(s, PN); ex.oblige(s, simp(n > 0), 'pop:not-empty'); sg(s, IN, simp(z3.If(n - 1 == J, I(0), g(s, IN)))); sg(s, PN, simp(n - 1)); return [(s, None)]
    def pback(ex, s, ins, a): po(s, a[0]); ex.oblige(s, simp(g(s, PN) > 0), 'back:not-empty'); return [(s, Ptr('par', simp(8 * (g(s, PN) - 1))))]
    C(VJ + r'vector\(\)$', ctor); C(VJ + r'reserve\(', nop(mo)); C(VJ + r'~vector\(\)$', lambda ex, s, ins, a: [(s, None)]); C(VJ + r'push_back\(', push); C(VJ + r'size\(\) const$', lambda ex, s, ins, a: (mo(s, a[0]), [(s, g(s, MSZ))])[1])
    C(VJ + r'(operator\[\]|at)\(unsigned long\)', lambda ex, s, ins, a: (mo(s, a[0]), entry(ex, s, a[1]))[1])
    C(VU + r'vector\(\)$', pctor); C(VU + r'reserve\(', nop(po)); C(VU + r'~vector\(\)$', nop(po)); C(VU + r'push_back\(', ppush); C(r'std::vector<unsigned long, std::allocator<unsigned long>>::emplace_back<unsigned long', lambda ex, s, ins, a: [(x, Ptr('par', simp(8 * (g(x, PN) - 1)))) for x, _ in ppush(ex, s, ins, a)])
    C(VU + r'pop_back\(\)$', ppop); C(VU + r'back\(\)', pback); C(VU + r'size\(\) const$', lambda ex, s, ins, a: (po(s, a[0]), [(s, g(s, PN))])[1]); C(VU + r'empty\(\) const$', lambda ex, s, ins, a: (po(s, a[0]), [(s, simp(g(s, PN) == 0))])[1])
    C(VU + r'begin\(\)', lambda ex, s, ins, a: (po(s, a[0]), [(s, Ptr('par', 0))])[1]); C(VU + r'end\(\)', lambda ex, s, ins, a: (po(s, a[0]), [(s, Ptr('par', simp(8 * g(s, PN))))])[1])
    C(VU + r'operator\[\]\(unsigned long\)', lambda ex, s, ins, a: (po(s, a[0]), [(s, Ptr('par', simp(8 * bv(a[1]))))])[1])
    F = {f: (ME.off(f), ME.sz(f)) for f in ('position', 'size', 'skip', 'children', 'complex_children')}; bo = ME.bit('is_array') // 8; ba, bh = 1 << (ME.bit('is_array') % 8), 1 << (ME.bit('has_data') % 8)
    fld = lambda s, f: bv(getcell(ex, s, 'wm', *F[f])); byte = lambda s: bv(getcell(ex, s, 'wm', bo, 1)); bit = lambda s, m: (byte(s) / m) % 2
    want = {'position': lambda i: p, 'size': lambda i: mn(i) - p, 'skip': lambda i: MI(mn(i)) - K, 'children': CH, 'complex_children': CC}
    def ok(s, f, i): return z3.Implies(i > p, fld(s, f) == want[f](mn(i) if f in ('children', 'complex_children') else i))
    flags = lambda s, i: z3.Implies(i > p, z3.And(bit(s, ba) == one(TY(p) == T['ArrayStart']), bit(s, bh) == HD(mn(i))))
    def cands(ex, st, ints, bools, vars_, depth, fixed):
        out = []; pos = []
        for gx, reg, w, en, v in ints:
            if v.kind == 'cell' and v.key[0] == 'gh': continue
            if reg == 'par': pos.append(lambda s, gx=gx: bv(gx(s)) / 8); out.append(lambda s, gx=gx: z3.And(bv(gx(s)) >= 0, bv(gx(s)) <= 8 * g(s, PN)))
            elif reg is None and w == 64 and not (v.kind == 'cell' and v.key[0] == 'wm'):
                i = lambda s, gx=gx: bv(gx(s)); pos.append(i); out.append(lambda s, i=i: i(s) <= g(s, PN)); out.append(lambda s, i=i: z3.And(i(s) >= 0, i(s) <= N))
                out.append(lambda s, i=i: g(s, PN) == DEP(i(s))); out.append(lambda s, i=i: g(s, IN) == one(inside(i(s)))); out.append(lambda s, i=i: g(s, MSZ) == MI(i(s)))
                for f in F: out.append(lambda s, i=i, f=f: ok(s, f, i(s)))
                out.append(lambda s, i=i: flags(s, i(s)))
        for gx, reg, w, en, v in ints:
            if v.kind == 'cell' and v.key[0] == 'wm':
                for q in pos:
                    done = lambda s, q=q: z3.And(g(s, IN) == 1, J < q(s))
                    out.append(lambda s, gx=gx, en=en, done=done: bv(gx(s)) == bv(en) + one(done(s)))
                    if v.key[1] == bo: out.append(lambda s, gx=gx, en=en, done=done: bv(gx(s)) == z3.If(done(s), bv(en) + bh * (1 - (bv(en) / bh) % 2), bv(en)))
        return out
    ex.cand_hooks.append(cands); ex.unroll_policy = lambda ex, st, fr, h: False
    def hdr(ex, st, vars_, depth):
        for v in vars_:
            x = ex.getv(st, v, depth)
            if is_z(x) and z3.is_int(x) and not (v.kind == 'cell' and v.key[0] in ('wm', 'gh')): d.at(st, x)
    ex.header_hooks.append(hdr)
    def post(ex, s, rv):
        ex.oblige(s, s.ghost.get('objm') == ('ret', 0), 'post:the-vector-returned'); at(s, N); ex.oblige(s, simp(g(s, MSZ) == MI(N)), 'post:one-entry-per-container')
        s.assume(z3.Implies(N > e, z3.BoolVal(True)))
        for f in F: ex.oblige(s, simp(ok(s, f, N)), 'post:%s' % f)
        ex.oblige(s, simp(flags(s, N)), 'post:kind-and-has-data')
    run_function(ex, mod.find1(r'^JS::metaForTokens\('), [Ptr('ret', 0), Ptr('jt', 0)], st, post); return ex

UNITS = {'next-member': unit_inc, 'begin': unit_ends('begin'), 'end': unit_ends('end'), 'positions': unit_compare, 'find': unit_find, 'compare-name': unit_name, 'cast-whole': unit_cast('whole'), 'cast-iterator': unit_cast('iterator'), 'cast-name': unit_cast('name'), 'list': unit_list, 'read-Map': unit_to, 'write-Map': unit_from('Map'), 'write-JsonTokens': unit_from('JsonTokens'), 'index': unit_index}
TERM_OK = {}
