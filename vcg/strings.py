"""Contracts of string decoding (TypeHandler<std::string>::to) and encoding (handle_json_escapes_out, TypeHandler<std::string>::from)."""
from spec import *
from stdmodel import *
from scan import anyof, I
import stdmodel

# ---------------- decoding specification ----------------
SHORT = {ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9, 0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f}
def ishex(c): return anyof(c, (0x30, 0x39), (0x41, 0x46), (0x61, 0x66))
def hexv(c): return z3.If(c <= 0x39, c - 0x30, z3.If(c <= 0x46, c - 55, c - 87))

class Decode:
    """E(i): 0 at the start of a unit, k>0 inside an escape with k bytes to go; D(i): text decoded from the units before i.
    A unit is a plain byte, a short escape, a \\uXXXX escape or a surrogate pair."""
    def __init__(self, b):
        self.b = b
        self.E = Fold('E', 8, None, consts=(0,), relate=False); self.E.step_at = self.estep
        self.D = SeqFold('D', None); self.D.step_at = self.dstep
        self.NB = Fold('cnt_b5c_' + b.rid, None, lambda s, c: z3.If(c == 0x5c, s + 1, s)); self.NB.w = 64
        self.NB.f = z3.Function(self.NB.name, z3.IntSort(), z3.IntSort()); self.NB.relate = False
        b.folds = [self.E, self.D, self.NB]
    def by(self, i, k): return self.b.byte(add(i, k))
    def u4(self, i, k):
        """hex digits at i+k .. i+k+3: (all hex, value)"""
        hs = [self.by(i, k + j) for j in range(4)]
        return z3.And(*[ishex(h) for h in hs]), hexv(hs[0]) * 4096 + hexv(hs[1]) * 256 + hexv(hs[2]) * 16 + hexv(hs[3])
    def parts(self, i):
        n = self.b.size; i = bv(i)
        bs = self.by(i, 0) == 0x5c
        have = lambda k: i + k < n          # byte i+k exists
        c1 = self.by(i, 1)
        h1, v1 = self.u4(i, 2)
        uni = z3.And(have(5), c1 == 0x75, h1)
        h2, v2 = self.u4(i, 8)
        pair = z3.And(uni, v1 >= 0xd800, v1 <= 0xdbff, have(11), self.by(i, 6) == 0x5c, self.by(i, 7) == 0x75, h2, v2 >= 0xdc00, v2 <= 0xdfff)
        return bs, have(1), c1, uni, v1, pair, v2
    def estep(self, i):
        e = self.E.at(i)
        bs, have1, c1, uni, v1, pair, v2 = self.parts(i)
        return z3.If(e > 0, e - 1, z3.If(z3.Not(bs), I(0), z3.If(z3.Not(have1), I(0), z3.If(pair, I(11), z3.If(uni, I(5), I(1))))))
    def utf8(self, s, cp):
        one = snoc(s, cp)
        two = snoc(snoc(s, 0xc0 + cp / 64), 0x80 + cp % 64)
        three = snoc(snoc(snoc(s, 0xe0 + cp / 4096), 0x80 + (cp / 64) % 64), 0x80 + cp % 64)
        return z3.If(cp >= 0x800, three, z3.If(cp >= 0x80, two, one))
    def dstep(self, i):
        e = self.E.at(i); d = self.D.at(i)
        bs, have1, c1, uni, v1, pair, v2 = self.parts(i)
        x = snoc(snoc(d, 0x5c), c1)
        for k, v in SHORT.items(): x = z3.If(c1 == k, snoc(d, v), x)
        cp = 0x10000 + (v1 - 0xd800) * 1024 + (v2 - 0xdc00)
        four = snoc(snoc(snoc(snoc(d, 0xf0 + cp / 262144), 0x80 + (cp / 4096) % 64), 0x80 + (cp / 64) % 64), 0x80 + cp % 64)
        return z3.If(e > 0, d, z3.If(z3.Not(bs), snoc(d, self.by(i, 0)), z3.If(z3.Not(have1), d, z3.If(pair, four, z3.If(uni, self.utf8(d, v1), x)))))
    def lemma(self, ex):
        """a stretch without backslash that starts at a unit boundary decodes to itself"""
        a, b = z3.Ints('lem_a lem_b'); ap = appr(self.b.rid)
        NB, E, D = self.NB, self.E, self.D
        P = lambda x: z3.And(NB.at(x) >= NB.at(a), z3.Implies(z3.And(NB.at(x) == NB.at(a), E.at(a) == 0), z3.And(E.at(x) == 0, D.at(x) == ap(D.at(a), a, x))))
        def facts(x):
            return [ap(D.at(a), a, a) == D.at(a), ap(D.at(a), a, x + 1) == snoc(ap(D.at(a), a, x), self.b.byte(x)),
                    NB.at(x + 1) == NB.step(NB.at(x), self.b.byte(x)), E.at(x + 1) == self.estep(x), D.at(x + 1) == self.dstep(x)]
        induct(ex, 'plain-stretch-decodes-to-itself', P, b, facts, a)
    def on_append(self, ex, st, r, seq, i, j, out):
        if r.info.get('buf') is not self.b: return
        st.assume(z3.Implies(z3.And(bv(i) <= bv(j), self.NB.at(i) == self.NB.at(j), self.E.at(i) == 0), z3.And(self.E.at(j) == 0, self.D.at(j) == appr(self.b.rid)(self.D.at(i), bv(i), bv(j)))))
    def on_search(self, ex, st, b, fo, i, j):
        if fo is self.NB: st.assume(z3.Implies(z3.And(bv(i) <= bv(j), self.E.at(i) == 0, fo.at(i) == fo.at(j)), self.E.at(j) == 0))   # same lemma

def small_unroll(ex, st, fr, h):
    """loops over the four hex digits (bounded by a constant in the source): exact unrolling"""
    blocks = fr.fn.loop_of_header[h][0]
    for b in blocks:
        for i in fr.fn.blocks[b]:
            if i['op'] == 'icmp' and i['o'][1]['k'] == 'int' and int(i['o'][1]['v']) == 4 and i['o'][0]['k'] == 'v':
                for p in fr.fn.blocks[h]:
                    if p['op'] == 'phi' and p['id'] == i['o'][0]['i'] and not is_sym(fr.loc.get(p['id'])): return True
    return None

def unit_decode(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State()
    ex.unroll_policy = small_unroll; ex.merge = 'unroll'; ex.or_abstract = True
    b = add_buf(ex, st, 'txt')
    C = Layout(mod, 'JS::ParseContext'); T = Layout(mod, 'JS::Token'); R = Layout(mod, 'JS::DataRef')
    st.newreg('ctx', 'cells', C.size, lazy=True)
    o = C.off('token') + T.off('value')
    setcell(st, 'ctx', o + R.off('data'), 8, Ptr('txt', 0)); setcell(st, 'ctx', o + R.off('size'), 8, b.size)
    st.newreg('to', 'cells', 32)
    old = z3.Const('old_target', SeqS)
    setcell(st, 'to', 0, 32, StrVal(old, intvar('old_len', 64, 1 << 40)))
    d = Decode(b); d.lemma(ex)
    ex.append_hooks.append(d.on_append); ex.search_hooks = [d.on_search]
    st.assume(d.E.at(0) == 0); st.assume(d.D.at(0) == EMPTY); inst(ex, st, b, 0)
    E = enum(mod, 'JS::Error')
    ctx0 = st.mem['ctx'].clone(-1)
    def post(ex, st, rv):
        v = getstr(ex, st, Ptr('to', 0))
        ex.oblige(st, v.seq == d.D.at(b.size), 'post:decoded-text')
        ex.oblige(st, simp(eq(rv, E['NoError'])), 'post:no-error')
    fn = mod.find1(r'^JS::TypeHandler<std::__cxx11::basic_string<.*>, void>::to\(')
    run_function(ex, fn, [Ptr('to', 0), Ptr('ctx', 0)], st, post)
    return ex

# ---------------- encoding specification ----------------
ESC = {8: 'b', 9: 't', 10: 'n', 12: 'f', 13: 'r', 0x22: '"', 0x5c: '\\'}
def enc_bytes(c):
    """reference encoding of one byte"""
    if c in ESC: return b'\\' + ESC[c].encode()
    if c < 0x20: return b'\\u00%02x' % c
    return bytes([c])
def special(c): return z3.Or(c <= 0x1f, c == 0x22, c == 0x5c)
class Encode:
    def __init__(self, b):
        self.b = b
        self.X = SeqFold('X', None); self.X.step_at = self.xstep
        self.NS = Fold('cnt_special', None, lambda s, c: z3.If(special(c), s + 1, s)); self.NS.w = 64
        self.NS.f = z3.Function('cnt_special', z3.IntSort(), z3.IntSort()); self.NS.relate = True; self.NS.based = True
        b.folds = [self.X, self.NS]
    def xstep(self, i):
        x = self.X.at(i); c = self.b.byte(i)
        r = snoc(x, c)
        bs = snoc(x, 0x5c)
        u = snoc(snoc(snoc(snoc(bs, ord('u')), 0x30), 0x30), z3.If(c >= 16, I(0x31), I(0x30)))
        lo = z3.If(c >= 16, c - 16, c)
        r = z3.If(c < 32, snoc(u, z3.If(lo < 10, lo + 0x30, lo + 87)), r)
        for k, v in ESC.items(): r = z3.If(c == k, snoc(bs, ord(v)), r)
        return r
    def lemma(self, ex):
        a, b = z3.Ints('lem_a lem_b'); ap = appr(self.b.rid); NS, X = self.NS, self.X
        P = lambda x: z3.And(NS.at(x) >= NS.at(a), z3.Implies(NS.at(x) == NS.at(a), X.at(x) == ap(X.at(a), a, x)))
        facts = lambda x: [ap(X.at(a), a, a) == X.at(a), ap(X.at(a), a, x + 1) == snoc(ap(X.at(a), a, x), self.b.byte(x)), NS.at(x + 1) == NS.step(NS.at(x), self.b.byte(x)), X.at(x + 1) == self.xstep(x)]
        induct(ex, 'clean-stretch-encodes-to-itself', P, b, facts, a)
        # the per-byte encodings of the fold are the reference encodings, decode back to the byte and keep the string open
        for c in range(256):
            e = enc_bytes(c)
            q = 0; out = []
            k = 0; ok = all(x >= 0x20 for x in e)
            while k < len(e):
                if e[k] == 0x5c:
                    if e[k + 1] == 0x75: out.append(int(e[k + 2:k + 6], 16)); k += 6
                    else: out.append(SHORT[e[k + 1]]); k += 2
                else: ok = ok and e[k] != 0x22; out.append(e[k]); k += 1
            s = z3.Solver(); i = z3.Int('e_i'); want = self.X.at(i)
            for x in e: want = snoc(want, x)
            s.add(self.b.byte(i) == c, self.xstep(i) != want)
            ok = ok and out == [c] and s.check() == z3.unsat
            if not ok or c == 255: ex.obls.append(Obl('lemma:decoding-inverts-encoding', 'byte %d' % c, ok, 'unsat' if ok else 'sat')); 
            if not ok: break
    def on_append(self, ex, st, r, seq, i, j, out):
        if r.info.get('buf') is not self.b: return
        st.assume(z3.Implies(z3.And(bv(i) <= bv(j), self.NS.at(i) == self.NS.at(j)), self.X.at(j) == appr(self.b.rid)(self.X.at(i), bv(i), bv(j))))

def unit_encode(mod, deadline):
    """TypeHandler<std::string>::from: the token handed to the serializer carries the encoded text"""
    ex = install(new_engine(mod, deadline)); st = State()
    b = add_buf(ex, st, 'src')
    x = Encode(b); x.lemma(ex); ex.append_hooks.append(x.on_append)
    st.newreg('s', 'cells', 32); setcell(st, 's', 0, 32, StrVal(z3.Const('src_seq', SeqS), b.size, 'src'))
    T = Layout(mod, 'JS::Token'); R = Layout(mod, 'JS::DataRef'); TY = enum(mod, 'JS::Type')
    st.newreg('token', 'cells', T.size, lazy=True)
    st.newreg('ser', 'cells', Layout(mod, 'JS::Serializer').size, lazy=True)
    st.assume(x.X.at(0) == EMPTY); inst(ex, st, b, 0)
    t0 = st.mem['token'].clone(-1)
    def on_write(ex, st, ins, a):
        tk = a[1]
        o = tk.off + T.off('value')
        p = ex.load(st, Ptr(tk.reg, o + R.off('data')), ['p']); n = ex.load(st, Ptr(tk.reg, o + R.off('size')), ['i', 64])
        ty = ex.load(st, Ptr(tk.reg, tk.off + T.off('value_type')), ['i', 8])
        seq, _ = ex.seq_append(st, EMPTY, p, n)
        ex.oblige(st, seq == x.X.at(b.size), 'pre(write):value-is-the-encoded-text')
        ex.oblige(st, simp(eq(ty, TY['String'])), 'pre(write):string-token')
        ex.oblige(st, a[0].reg == 'ser', 'pre(write):serializer')
        st.ghost['writes'] = st.ghost.get('writes', 0) + 1
        return [(st, freshb('written'))]
    ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), on_write, 'contract'))
    def post(ex, st, rv): ex.oblige(st, st.ghost.get('writes', 0) == 1, 'post:written-exactly-once')
    fn = mod.find1(r'^JS::TypeHandler<std::__cxx11::basic_string<.*>, void>::from\(')
    run_function(ex, fn, [Ptr('s', 0), Ptr('token', 0), Ptr('ser', 0)], st, post)
    return ex
UNITS = {'string-decode': unit_decode, 'string-encode': unit_encode}
