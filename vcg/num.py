"""Contracts of integer writing (TypeHandlerIntType<T>::from), number parsing and conversion to integers."""
from spec import *
from stdmodel import *
from scan import anyof, I, DIG
INTS = {'i8': ('signed char', 8, True), 'u8': ('unsigned char', 8, False), 'i16': ('short', 16, True), 'u16': ('unsigned short', 16, False), 'i32': ('int', 32, True), 'u32': ('unsigned int', 32, False),
        'i64': ('long', 64, True), 'u64': ('unsigned long', 64, False), 'll': ('long long', 64, True), 'ull': ('unsigned long long', 64, False), 'ch': ('char', 8, True)}
def sval(v, w, signed): return simp(z3.If(v >= (1 << (w - 1)), v - (1 << w), v)) if signed else v

def token_parts(ex, st, mod, tk):
    T = Layout(mod, 'JS::Token'); R = Layout(mod, 'JS::DataRef')
    o = add(tk.off, T.off('value'))
    p = ex.load(st, Ptr(tk.reg, add(o, R.off('data'))), ['p']); n = ex.load(st, Ptr(tk.reg, add(o, R.off('size'))), ['i', 64])
    ty = ex.load(st, Ptr(tk.reg, add(tk.off, T.off('value_type'))), ['i', 8])
    return p, n, ty

def unit_write(key):
    name, w, signed = INTS[key]
    def unit(mod, deadline):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = True
        ex.unroll_policy = lambda ex, st, fr, h: True      # the digit loops have at most 20 iterations on every path
        T = Layout(mod, 'JS::Token'); TY = enum(mod, 'JS::Type')
        ex.sview = {}
        if signed:
            s = intvar('value', w); reg_range('value', -(1 << (w - 1)), (1 << (w - 1)) - 1)
            v = ex.sname(st, s, w, 'bits')
        else: v = s = intvar('value', w)
        st.newreg('v', 'cells', w // 8); setcell(st, 'v', 0, w // 8, v)
        st.newreg('token', 'cells', T.size, lazy=True)
        st.newreg('ser', 'cells', Layout(mod, 'JS::Serializer').size, lazy=True)
        def on_write(ex, st, ins, a):
            p, n, ty = token_parts(ex, st, mod, a[1])
            ex.oblige(st, simp(eq(ty, TY['Number'])), 'pre(write):number-token')
            ex.oblige(st, a[0].reg == 'ser', 'pre(write):serializer')
            st.ghost['writes'] = st.ghost.get('writes', 0) + 1
            if is_z(n): raise Unsupported('symbolic length')
            by = [ex.load(st, Ptr(p.reg, add(p.off, k)), ['i', 8]) for k in range(n)]
            neg = False
            if by and by[0] == ord('-'): neg = True; by = by[1:]
            ex.oblige(st, simp(z3.BoolVal(bool(by)) if not by else b_and(*[z3.And(bv(x) >= 0x30, bv(x) <= 0x39) for x in by])), 'pre(write):digits-only')
            if not by: return [(st, freshb('written'))]
            if len(by) > 1 or neg: ex.oblige(st, simp(bv(by[0]) != 0x30), 'pre(write):no-leading-zero')
            m = z3.Sum([(bv(x) - 0x30) * 10 ** (len(by) - 1 - k) for k, x in enumerate(by)]) if len(by) > 1 else bv(by[0]) - 0x30
            ex.oblige(st, simp((-m if neg else m) == s), 'pre(write):decimal-value')
            return [(st, freshb('written'))]
        ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), on_write, 'contract'))
        def post(ex, st, rv): ex.oblige(st, st.ghost.get('writes', 0) == 1, 'post:written-exactly-once')
        run_function(ex, mod.find1(r'^JS::TypeHandlerIntType<%s>::from\(' % name), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, post)
        return ex
    return unit

# ---------------- number texts ----------------
MAX64 = (1 << 64) - 1
MAXTXT = 10 ** 7
ERR = 9
class NumText:
    """ghost reading of a number text.  Z: grammar state; S: longest digit prefix that fits 64 bits; K: digits after that prefix;
    A: K minus the number of digits behind the point; X: exponent digits; EN: exponent sign; G: significant digits of S."""
    def __init__(self, b):
        self.b = b
        self.Z = z = Fold('Z', 8, None, relate=False); z.step_at = self.zstep; z.absorb = (ERR,); z.consts = (); z.extra = [self.zc]
        def mk(name, step, w=64):
            f = Fold(name, None, None); f.w = w; f.f = z3.Function(name, z3.IntSort(), z3.IntSort()); f.relate = True; f.step_at = step; f.b = b; f.base = z3.IntVal(0); f.base_state = 0; f.inductive = True; f.incl = True
            return f
        self.S = mk('S', lambda i: z3.If(self.takes(i), self.S.at(i) * 10 + self.d(i), self.S.at(i)))
        self.S.facts = lambda i: z3.And(self.S.at(i) >= 0, self.S.at(i) <= MAX64)
        self.K = mk('K', lambda i: z3.If(z3.And(self.isd(i), z3.Not(self.takes(i))), self.K.at(i) + 1, self.K.at(i)), 8)
        self.K.facts = lambda i: z3.And(self.K.at(i) >= 0, self.K.at(i) <= i, z3.Implies(self.K.at(i) > 0, self.S.at(i) * 10 + 9 > MAX64))
        self.K.facts_step = lambda i: self.S.at(i + 1) == z3.If(self.takes(i), self.S.at(i) * 10 + self.d(i), self.S.at(i))
        self.K.extra = [lambda ex, st, g, e, fo, ints, bools: [(lambda s, g=g, g2=g2: bv(g2(s)) == z3.If(fo.at(g(s)) > 0, I(1), I(0))) for g2, r2, w2, e2, v2 in ints if w2 == 8]]
        self.A = mk('A', lambda i: self.A.at(i) + z3.If(z3.And(self.isd(i), z3.Not(self.takes(i)), self.Z.at(i) < 3), I(1), I(0)) - z3.If(z3.And(self.takes(i), self.Z.at(i) >= 3), I(1), I(0)))
        self.A.facts = lambda i: z3.And(self.A.at(i) >= -i, self.A.at(i) <= i)
        self.A.extra = [lambda ex, st, g, e, fo, ints, bools: [(lambda s, g=g, g2=g2: z3.If(bv(g2(s)) >= 1 << 63, bv(g2(s)) - (1 << 64), bv(g2(s))) == fo.at(g(s))) for g2, r2, w2, e2, v2 in ints if w2 == 64 and r2 is None]]
        self.X = mk('X', lambda i: z3.If(z3.And(z3.Or(self.Z.at(i) == 5, self.Z.at(i) == 6, self.Z.at(i) == 7), self.dig(i)), self.X.at(i) * 10 + self.d(i), self.X.at(i)))
        self.X.facts = lambda i: self.X.at(i) >= 0
        self.X.extra = [lambda ex, st, g, e, fo, ints, bools: [(lambda s, g=g, g2=g2: self.expo(bv(g2(s)), fo.at(g(s)))) for g2, r2, w2, e2, v2 in ints if w2 == 32]]
        self.EN = mk('EN', lambda i: z3.If(z3.And(self.Z.at(i) == 5, self.b.byte(i) == 0x2d), I(1), self.EN.at(i)), 8)
        self.G = mk('G', lambda i: z3.If(z3.And(self.takes(i), self.S.at(i) * 10 + self.d(i) != 0), self.G.at(i) + 1, self.G.at(i)), 32)
        self.G.facts = lambda i: z3.And(self.G.at(i) >= 0, self.G.at(i) <= 20, self.S.at(i) >= 0, self.S.at(i) <= MAX64, (self.G.at(i) == 0) == (self.S.at(i) == 0),
            *[z3.Implies(self.G.at(i) == g, z3.And(self.S.at(i) >= 10 ** (g - 1), self.S.at(i) < 10 ** g)) for g in range(1, 22)])
        self.G.facts_step = lambda i: self.S.at(i + 1) == z3.If(self.takes(i), self.S.at(i) * 10 + self.d(i), self.S.at(i))
        self.G.facts_base = lambda i: self.S.at(i) == 0
        self.G.extra = [lambda ex, st, g, e, fo, ints, bools: [(lambda s, g=g, g2=g2: bv(g2(s)) == fo.at(g(s))) for g2, r2, w2, e2, v2 in ints if w2 == 8]]
        b.folds = [z, self.S, self.K, self.A, self.X, self.EN, self.G]
    @staticmethod
    def expo(x, X): return z3.And(x >= 0, x < 10 ** 9, z3.Or(x == X, z3.And(X >= x, x >= 10 ** 8)))
    def zc(self, ex, st, g, e, fo, ints, bools):
        out = [(lambda s, g=g, k=k: z3.Or(*[fo.at(g(s)) == j for j in k])) for k in ((0, 2, 3, 4), (1, 2, 3, 4), (0, 1, 2, 3, 4), (5, 6, 7), (6, 7), (5, 7), (7,))]
        out.append(lambda s, g=g, e=e: z3.Or(fo.at(g(s)) == 7, bv(g(s)) == bv(e)))
        out.append(lambda s, g=g, e=e: z3.Or(z3.And(fo.at(g(s)) >= 2, fo.at(g(s)) <= 4), bv(g(s)) == bv(e)))
        for g2, e2, v2 in bools: out.append(lambda s, g=g, g2=g2: zb(g2(s)) == (fo.at(g(s)) >= 3))
        for g2, r2, w2, e2, v2 in ints:
            if w2 == 8 and r2 is None:
                out.append(lambda s, g=g, g2=g2: bv(g2(s)) == z3.If(fo.at(g(s)) >= 3, I(1), I(0)))
                out.append(lambda s, g=g, g2=g2: (bv(g2(s)) % 2 == 1) == (fo.at(g(s)) == 7))
        for g2, e2, v2 in bools: out.append(lambda s, g=g, g2=g2: zb(g2(s)) == (fo.at(g(s)) == 7))
        return out
    def dig(self, i): return anyof(self.b.byte(i), DIG)
    def d(self, i): return self.b.byte(i) - 0x30
    def isd(self, i): return z3.And(self.Z.at(i) <= 4, self.dig(i))
    def takes(self, i): return z3.And(self.isd(i), self.K.at(i) == 0, self.S.at(i) * 10 + self.d(i) <= MAX64)
    def zstep(self, i):
        s = self.Z.at(i); c = self.b.byte(i); dg = self.dig(i); isE = anyof(c, 'eE')
        return z3.If(s == 0, z3.If(c == 0x2d, I(1), z3.If(dg, I(2), I(ERR))),
               z3.If(s == 1, z3.If(dg, I(2), I(ERR)),
               z3.If(s == 2, z3.If(dg, I(2), z3.If(c == 0x2e, I(3), z3.If(isE, I(5), I(ERR)))),
               z3.If(s == 3, z3.If(dg, I(4), I(ERR)),
               z3.If(s == 4, z3.If(dg, I(4), z3.If(isE, I(5), I(ERR))),
               z3.If(s == 5, z3.If(dg, I(7), z3.If(anyof(c, '+-'), I(6), I(ERR))),
               z3.If(s == 6, z3.If(dg, I(7), I(ERR)),
               z3.If(s == 7, z3.If(dg, I(7), I(ERR)), I(ERR)))))))))
    def start(self, ex, st):
        for f in self.b.folds: st.assume(f.at(z3.IntVal(0)) == 0)
        inst(ex, st, self.b, 0)
    def valid(self):
        z = self.Z.at(self.b.size)
        return z3.Or(z == 2, z == 4, z == 7)
    def negative(self): return self.b.byte(z3.IntVal(0)) == 0x2d
    def post(self, sig, exp, neg, trunc, cnt=None):
        n = self.b.size; x = z3.Int('x_read')
        return z3.And(sig == self.S.at(n), (trunc != 0) == (self.K.at(n) > 0), (neg != 0) == self.negative(), *([cnt == self.G.at(n)] if cnt is not None else []))
    def exponent(self, e):
        """e (signed) is the decimal exponent of S, exact unless the written exponent has 9 or more digits"""
        n = self.b.size; A, X = self.A.at(n), self.X.at(n)
        return z3.If(self.EN.at(n) == 1, z3.And(e <= A, self.expo(A - e, X)), z3.And(e >= A, self.expo(e - A, X)))

PSN = 'JS::Internal::ft::parsed_string<unsigned long>'
def parse_layout(mod):
    P = Layout(mod, PSN); return P
def s32(v): return z3.If(bv(v) >= 1 << 31, bv(v) - (1 << 32), bv(v))

def unit_parse(tmpl, valid=True):
    def unit(mod, deadline):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True
        b = add_buf(ex, st, 'txt', maxsize=MAXTXT)
        P = NumLayout(mod)
        st.newreg('ps', 'cells', P.size, lazy=True)
        t = None
        if valid:
            t = NumText(b); t.start(ex, st); st.assume(t.valid()); st.assume(b.size >= 1)
        else: ex.cand_hooks.append(bound_cands)
        OK = enum(mod, 'JS::Internal::ft::parse_string_error')['ok']
        def post(ex, st, rv):
            c = lambda f: getcell(ex, st, 'ps', P.off(f), P.sz(f))
            ep = st.mem['ps'].cells[P.off('endptr')][1]
            ex.oblige(st, z3.And(bv(ep.off) >= 0, bv(ep.off) <= b.size), 'post:end-inside-text')
            if not valid: return
            ex.oblige(st, simp(eq(rv, OK)), 'post:accepted')
            ex.oblige(st, simp(bv(ep.off) == b.size), 'post:whole-text-consumed')
            ex.oblige(st, simp(t.post(bv(c('significand')), None, bv(c('negative')), bv(c('truncated')))), 'post:significand-sign-truncation')
            if 'false' in tmpl: ex.oblige(st, simp(bv(c('significand_digit_count')) == t.G.at(b.size)), 'post:digit-count')
            ex.oblige(st, simp(t.exponent(s32(c('exp')))), 'post:exponent')
            ex.oblige(st, simp(z3.And(bv(c('inf')) == 0, bv(c('nan')) == 0)), 'post:finite')
        run_function(ex, mod.find1(r'parseNumber<%s>\(char const\*, unsigned long, JS::Internal::ft::parsed_string<unsigned long>&\)$' % tmpl), [Ptr('txt', 0), b.size, Ptr('ps', 0)], st, post)
        return ex
    return unit
def bound_cands(ex, st, ints, bools, vars_, depth, fixed):
    s64 = lambda x: z3.If(bv(x) >= 1 << 63, bv(x) - (1 << 64), bv(x))
    out = []
    for g, reg, w, e, v in ints:
        if w == 32 and reg is None: out.append(lambda s, g=g: bv(g(s)) < 10 ** 9)
        if w == 64 and reg is None:
            for g2, r2, w2, e2, v2 in ints:
                if r2 == 'txt': out.append(lambda s, g=g, g2=g2: z3.And(s64(g(s)) <= bv(g2(s)), s64(g(s)) >= -bv(g2(s))))
    return out
class NumLayout:
    """parsed_string<uint64_t> including its base float_base10<uint64_t>"""
    def __init__(self, mod):
        a = Layout(mod, PSN); self.size = a.size
        b = Layout(mod, 'JS::Internal::ft::float_base10<unsigned long>')
        self.m = dict(b.m); self.m.update({k: v for k, v in a.m.items() if k})
    def off(self, f):
        if f not in self.m: raise Unsupported('field ' + f)
        return self.m[f][0] // 8
    def sz(self, f): return self.m[f][1] // 8

def value_lemmas(ex):
    """the text's mathematical value M*10^(E-K) (M: all its digits, K: digits after the kept prefix S, E: exponent of S) against (S, E, K)"""
    M, S, SP, P, R, d, Q, q, b = z3.Ints('M S SP P R d Q q b')
    def lem(name, hyp, goal):
        s = z3.Solver(); s.set('timeout', 60000); s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
        ex.obls.append(Obl('lemma:' + name, 'num.value_lemmas', r == z3.unsat, str(r)))
    dd = z3.And(d >= 0, d <= 9)
    # induction over the digits: M = S*P + R with 0 <= R < P = 10^K (SP stands for the product S*P)
    lem('kept-prefix-base', [], z3.And(z3.IntVal(0) == 0 * 1 + 0, z3.IntVal(0) < 1))
    lem('kept-prefix-keep', [dd, M == S], 10 * M + d == 10 * S + d)
    lem('kept-prefix-drop', [dd, M == SP + R, R >= 0, R < P], z3.And(10 * M + d == 10 * SP + (10 * R + d), 10 * R + d >= 0, 10 * R + d < 10 * P))
    lem('dropped-means-large-first', [dd, 10 * M + d > MAX64], 10 * (10 * M + d) >= (MAX64 + 1) * 10)
    lem('dropped-means-large-next', [dd, 10 * M >= (MAX64 + 1) * P, P >= 1], 10 * (10 * M + d) >= (MAX64 + 1) * (10 * P))
    # floor(M / (P*Q)) == floor(S / Q): S == Q*q + b, 0 <= b < Q  ==>  P*Q*q <= M < P*Q*(q+1); PQ, PQq, Pb name the products
    PQ, PQq, Pb = z3.Ints('PQ PQq Pb')
    lem('truncation-commutes', [P >= 1, Q >= 1, b >= 0, b <= Q - 1, SP == PQq + Pb, Pb >= 0, Pb <= PQ - P, M == SP + R, R >= 0, R < P], z3.And(PQq <= M, M < PQq + PQ))
    lem('truncation-commutes-product', [P >= 1, b >= 0, Q >= 1, b <= Q - 1, Pb == P * b, PQ == P * Q], z3.And(Pb >= 0, Pb <= PQ - P))
    # E >= 1 and K >= 1: M*10^(E-K) = (10*M/P) * 10^(E-1) > MAX64
    T = z3.Int('T')
    lem('truncated-and-scaled-up-saturates', [10 * M >= (MAX64 + 1) * P, P >= 1, T * P >= 10 * M], T >= MAX64 + 1)

def spec_int(S, e, trunc, w, signed, neg):
    """the exact truncated and saturated value for significand S with exponent e; the truncated magnitude is capped above MAX64"""
    hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1; lo = 1 << (w - 1) if signed else 0
    BIG = z3.IntVal(MAX64 + 1)
    mag = I(0)
    def at(k):
        if k <= -20: return I(0)
        if k < 0: return S / (10 ** -k)
        if k == 0: return S
        return z3.If(S == 0, I(0), BIG if k >= 20 else z3.If(trunc, BIG, S * 10 ** k))
    if isinstance(e, int): mag = at(e)
    else:
        mag = z3.If(e <= -20, I(0), at(20))
        for k in range(-19, 20): mag = z3.If(e == k, at(k), mag)
    return z3.If(neg, z3.If(mag > lo, I(-lo), -mag), z3.If(mag > hi, I(hi), mag))

def unit_read(key):
    name, w, signed = INTS[key]
    def unit(mod, deadline):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = True; ex.sview = {}
        ex.unroll_policy = lambda ex, st, fr, h: True      # at most 20 divisions or multiplications by ten on every path
        b = add_buf(ex, st, 'txt', maxsize=MAXTXT)
        C = Layout(mod, 'JS::ParseContext'); T = Layout(mod, 'JS::Token'); R = Layout(mod, 'JS::DataRef'); P = NumLayout(mod)
        st.newreg('ctx', 'cells', C.size, lazy=True)
        o = C.off('token') + T.off('value')
        setcell(st, 'ctx', o + R.off('data'), 8, Ptr('txt', 0)); setcell(st, 'ctx', o + R.off('size'), 8, b.size)
        st.newreg('to', 'cells', w // 8); setcell(st, 'to', 0, w // 8, intvar('old', w))
        value_lemmas(ex)
        S = intvar('S', 64); e = z3.Int('e'); reg_range('e', -(10 ** 9 + MAXTXT), 10 ** 9 + MAXTXT); Ex = z3.Int('Ex'); tr = z3.Bool('trunc'); ng = z3.Bool('neg')
        ER = enum(mod, 'JS::Error'); OK = enum(mod, 'JS::Internal::ft::parse_string_error')['ok']
        def on_parse(ex, st, ins, a):
            """contract proved by unit parse-integer-text (valid number text)"""
            ex.oblige(st, z3.And(z3.BoolVal(a[0].reg == 'txt'), bv(a[0].off) == 0, bv(a[1]) == b.size), 'pre(parseNumber):the-whole-value')
            p = a[2]
            for f, v, n in (('significand', S, 8), ('exp', ex.sname(st, e, 32, 'exp'), 4), ('truncated', z3.If(tr, I(1), I(0)), 1), ('negative', z3.If(ng, I(1), I(0)), 1), ('inf', 0, 1), ('nan', 0, 1)): ex.store(st, Ptr(p.reg, add(p.off, P.off(f))), v, ['i', n * 8])
            ex.store(st, Ptr(p.reg, add(p.off, P.off('endptr'))), Ptr('txt', b.size), ['p'])
            # exact exponent, or far out of range in the same direction
            st.assume(z3.Or(Ex == e, z3.And(Ex <= e, e <= -9 * 10 ** 7), z3.And(Ex >= e, e >= 9 * 10 ** 7)))
            st.assume(z3.Implies(tr, S * 10 + 9 > MAX64))
            return [(st, OK)]
        ex.contracts.append((re.compile(r'parseNumber<unsigned long, true>\(char const\*, unsigned long, '), on_parse, 'contract'))
        def post(ex, st, rv):
            v = bv(getcell(ex, st, 'to', 0, w // 8))
            r = ex.signed(v, w) if signed else v
            ex.oblige(st, simp(eq(rv, ER['NoError'])), 'post:no-error')
            ee = e
            if ex.sol.check(st.pc) == 'sat':
                k = ex.sol.model.eval(e, model_completion=True).as_long()
                if ex.must(st, e == k): ee = k
            if isinstance(ee, int) and abs(ee) < 10 ** 7: ex.oblige(st, simp(r == spec_int(S, ee, tr, w, signed, ng)), 'post:exact-truncated-saturated-value')
            else: ex.oblige(st, simp(r == spec_int(S, Ex, tr, w, signed, ng)), 'post:exact-truncated-saturated-value')
        run_function(ex, mod.find1(r'^JS::TypeHandlerIntType<%s>::to\(' % name), [Ptr('to', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit
UNITS = {}
for _k in INTS: UNITS['write-' + _k] = unit_write(_k)

UNITS['parse-integer-text'] = unit_parse('unsigned long, true')
UNITS['parse-float-text'] = unit_parse('unsigned long, false')
UNITS['parse-any-text'] = unit_parse('unsigned long, true', False)
UNITS['parse-any-float-text'] = unit_parse('unsigned long, false', False)

for _k in INTS: UNITS['read-' + _k] = unit_read(_k)
