"""Contracts of floating point formatting (ryu::decode and the notation), of the exactly decided part of reading, and of the handlers for float and double."""
from num import *
FB = 'JS::Internal::ft::float_base10<unsigned long>'
FT = {'double': dict(w=64, mant=52, digits=17, emin=-324, emax=308, buf=32, min=25),
      'float': dict(w=32, mant=23, digits=9, emin=-45, emax=38, buf=16, min=16)}

def finite_bits(v, f): return ((v / (1 << f['mant'])) % (1 << (f['w'] - 1 - f['mant']))) != (1 << (f['w'] - 1 - f['mant'])) - 1

def denotes(ex, st, by, neg, S, exp, cnt):
    """obligations: the bytes are a JSON number that denotes (-1)^neg * S * 10^exp"""
    o = lambda c, n: ex.oblige(st, c if isinstance(c, bool) else simp(c), 'post:' + n)
    by = [x.to_int() if isinstance(x, Bits) else x for x in by]
    if any(isinstance(x, Undef) for x in by): o(False, 'text-initialised'); return
    isneg = bool(by) and not is_z(by[0]) and by[0] == ord('-')
    o(neg if isneg else z3.Not(neg), 'sign')
    if isneg: by = by[1:]
    ch = lambda x: x if not is_z(x) else None
    k = 0; ip = []; fp = []; ep = []; eneg = False; dot = False; e_ = False
    while k < len(by) and ch(by[k]) not in (46, 101, 69): ip.append(by[k]); k += 1
    if k < len(by) and ch(by[k]) == 46:
        dot = True; k += 1
        while k < len(by) and ch(by[k]) not in (101, 69): fp.append(by[k]); k += 1
    if k < len(by):
        e_ = True; k += 1
        if k < len(by) and ch(by[k]) in (43, 45): eneg = by[k] == 45; k += 1
        ep = by[k:]
    digs = ip + fp + ep
    if not (bool(ip) and (bool(fp) or not dot) and (bool(ep) or not e_)): o(False, 'number-grammar'); return
    o(b_and(*[z3.And(bv(x) >= 0x30, bv(x) <= 0x39) for x in digs]), 'digits-only')
    if len(ip) > 1: o(bv(ip[0]) != 0x30, 'no-leading-zero')
    val = lambda l: z3.Sum([(bv(x) - 0x30) * 10 ** (len(l) - 1 - i) for i, x in enumerate(l)]) if len(l) > 1 else bv(l[0]) - 0x30
    M = val(ip + fp)
    if e_:
        E = -val(ep) if eneg else val(ep)
        o(z3.And(M == S, E - len(fp) == exp), 'value')
    else:
        # exp is determined on every path of the expanded notation
        r = ex.sol.check(st.pc)
        if r != 'sat': return
        kx = ex.sol.model.eval(exp, model_completion=True).as_long()
        if not ex.must(st, exp == kx): o(False, 'exponent-determined'); return
        sh = kx + len(fp)
        o(M == S * 10 ** sh if sh >= 0 else M * 10 ** -sh == S, 'value')

def decades(f, c):
    """the exponents beyond -20..20, cut where the number of digits of the written exponent changes"""
    out = []
    for lo, hi in ((-999, -100), (-99, -10), (-9, -1), (0, 9), (10, 99), (100, 999)):
        a, b = max(lo, f['emin']) - c + 1, min(hi, f['emax']) - c + 1
        for x, y in ((a, min(b, -21)), (max(a, 21), b)):
            if x <= y: out.append((x, y))
    return out

def unit_format(ty, cnts):
    f = FT[ty]
    def unit(mod, deadline):
        exs = []
        fn = mod.find1(r'convert_parsed_to_buffer<unsigned long>\(')
        for c in cnts:
            for ng, ec in [(a, b) for a in (False, True) for b in decades(f, c) + list(range(max(-20, f['emin'] - c + 1), 21))]:
                ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = True; ex.sview = {}; ex.unique_offsets = True
                ex.unroll_policy = lambda ex, st, fr, h: True
                L = Layout(mod, FB)
                S = intvar('S', 64); e = z3.Int('e'); reg_range('e', f['emin'] - 16, f['emax'])
                st.assume(z3.And(S >= (10 ** (c - 1) if c > 1 else 0), S < 10 ** c, e + c - 1 >= f['emin'], e + c - 1 <= f['emax'], z3.Implies(S == 0, e == 0)))
                sym = isinstance(ec, tuple)
                st.assume(z3.And(e >= ec[0], e <= ec[1]) if sym else e == ec)
                ev = ex.sname(st, e, 32, 'exp') if sym else ec & mask(32)
                st.newreg('res', 'cells', L.size, lazy=True)
                for fl, v, n in (('negative', int(ng), 1), ('inf', 0, 1), ('nan', 0, 1), ('significand_digit_count', c, 1), ('exp', ev, 4), ('significand', S, 8)): setcell(st, 'res', L.off(fl), n, v)
                st.newreg('out', 'cells', f['min'], lazy=True)
                bs = z3.Int('bs'); reg_range('bs', f['min'], 4096); st.assume(z3.And(bs >= f['min'], bs <= 4096))
                def post(ex, st, rv):
                    if is_z(rv): raise Unsupported('symbolic length')
                    ok = 0 < rv <= f['min']
                    ex.oblige(st, ok, 'post:length')
                    if not ok: return
                    denotes(ex, st, [ex.load(st, Ptr('out', k), ['i', 8]) for k in range(rv)], z3.BoolVal(ng), S, e if sym else z3.IntVal(ec), c)
                n = expanded(mod, ty)
                run_function(ex, fn, [Ptr('res', 0), Ptr('out', 0), bs, n, NULL], st, post)
                exs.append(ex)
        return exs
    return unit

def const_ret(fn):
    for b in fn.blocks:
        for i in b:
            if i['op'] == 'ret' and i['o'] and i['o'][0].get('k') == 'int': return int(i['o'][0]['v'])
    raise Unsupported('constant function')
def expanded(mod, ty): return const_ret(mod.find1(r'float_info<%s>::str_to_float_expanded_length\(\)$' % ty))

# ---------------- IEEE operations as uninterpreted functions of the bits ----------------
import struct
def fbits(x, w): return int.from_bytes(struct.pack('<d' if w == 64 else '<f', x), 'little')
def flip(v, w): return v ^ (1 << (w - 1)) if not is_z(v) else simp(z3.If(v >= 1 << (w - 1), v - (1 << (w - 1)), v + (1 << (w - 1))))
class Ieee:
    """floating point operations: named results, sign rules and multiplication or division by one are exact; everything else is left to IEEE 754"""
    def __init__(self, ex): self.ex = ex; self.neg = {}; self.memo = {}; ex.fpop = self.op; ex.fpcast = self.cast
    def named(self, st, name, args, w):
        k = (name,) + tuple(a if not is_z(a) else a.get_id() for a in args)
        if k not in self.memo:
            self.memo[k] = (fresh('fp', w), args)
            reg_range(str(self.memo[k][0]), 0, mask(w))
        return self.memo[k][0]
    def cast(self, st, op, v, ft, tt):
        if isinstance(v, Bits): v = v.to_int()
        if op in ('uitofp', 'sitofp'):
            if not is_z(v):
                x = sx(v, ft[1]) if op == 'sitofp' else v
                if abs(x) < 1 << 53 and tt[1] == 64: return fbits(float(x), 64)
            if op == 'sitofp' and self.ex.must(st, v < 1 << (ft[1] - 1)): op = 'uitofp'
            return self.named(st, '%s%d' % (op, tt[1]), [v], tt[1])
        return self.named(st, '%s%d-%d' % (op, ft[1], tt[1]), [v], tt[1])
    def op(self, st, ins, a, b, w):
        op = ins['op']
        if op == 'fcmp': return self.cmp(st, ins, a, b)
        w = ins['t'][1]
        if op == 'fneg':
            r = flip(a, w)
            if is_z(r): self.neg[r.get_id()] = (r, a)
            return r
        if op in ('fmul', 'fdiv'):
            sg = 0
            if is_z(a) and a.get_id() in self.neg: a = self.neg[a.get_id()][1]; sg ^= 1
            if is_z(b) and b.get_id() in self.neg: b = self.neg[b.get_id()][1]; sg ^= 1
            if not is_z(b) and b == fbits(1.0, w): r = a
            elif op == 'fmul' and not is_z(a) and a == fbits(1.0, w): r = b
            else: r = self.named(st, op + str(w), sorted([a, b], key=lambda x: (is_z(x), x if not is_z(x) else x.get_id())) if op == 'fmul' else [a, b], w)
            if sg:
                n = flip(r, w); self.neg[n.get_id()] = (n, r); return n
            return r
        raise Unsupported('fp op ' + op)
    def cmp(self, st, ins, a, b):
        w = ins['ot'][1] if 'ot' in ins else None
        p = ins['pred']
        if p in ('uno', 'ord', 'une', 'oeq') and (a is b or is_z(a) and is_z(b) and a.eq(b) or p in ('uno', 'ord') and not is_z(b)):
            r = isnan(a, w)
            return r if p in ('uno', 'une') else simp(z3.Not(r)) if is_z(r) else not r
        raise Unsupported('fcmp ' + p)
MANT = {64: 52, 32: 23}
def expo(v, w): return (bv(v) / (1 << MANT[w])) % (1 << (w - 1 - MANT[w]))
def special(w): return (1 << (w - 1 - MANT[w])) - 1
def isnan(v, w): return simp(z3.And(expo(v, w) == special(w), bv(v) % (1 << MANT[w]) != 0))
def isinf(v, w): return simp(z3.And(expo(v, w) == special(w), bv(v) % (1 << MANT[w]) == 0))
def classify(ex, st):
    for nm, f in (('isnan', isnan), ('isinf', isinf), ('isfinite', lambda v, w: simp(expo(v, w) != special(w))), ('signbit', lambda v, w: simp(bv(v) >= 1 << (w - 1)))):
        for t, w in (('double', 64), ('float', 32)): ex.contracts.append((re.compile(r'^(bool )?(std::)?%s\(%s\)$' % (nm, t)), lambda ex, st, ins, a, f=f, w=w: [(st, f(a[0], w))], 'model'))

# ---------------- convertToNumber: the exactly decided cases ----------------
def sres(mod, st, ex, S, ev, cnt, ng):
    P = NumLayout(mod); st.newreg('ps', 'cells', P.size, lazy=True)
    for fl, v in (('negative', ng), ('inf', 0), ('nan', 0), ('significand_digit_count', cnt), ('exp', ev), ('significand', S)): setcell(st, 'ps', P.off(fl), P.sz(fl), v)
SLOW = r'assign_significand_to_float_conversion_type'
CTN = r'convertToNumber<double, unsigned long>\(JS::Internal::ft::parsed_string<unsigned long> const&\)$'
def cnt_ok(S, c):
    """c is the number of decimal digits of S"""
    return b_and(c >= 1, c <= 20, *[z3.If(S >= 10 ** k, c >= k + 1, c <= k) for k in range(1, 20)])
def to_slow(ex, st, ins, a):
    st.ghost['slow'] = True
    raise PathEnd()
def unit_fast(mod, deadline):
    """significand below 2^53 and |exponent| <= 15: one correctly rounded operation on two exact operands"""
    exs = []
    for k in range(-15, 16):
        for ng in (0, 1):
            ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ieee = Ieee(ex); ex.sview = {}
            S = intvar('S', 64); c = intvar('cnt', 8)
            st.assume(z3.And(S >= 1, S < 1 << 53, cnt_ok(S, c)))
            sres(mod, st, ex, S, k & mask(32), c, ng)
            ex.contracts.append((re.compile(SLOW), to_slow, 'contract'))
            def post(ex, st, rv):
                x = ieee.cast(st, 'uitofp', S, ['i', 64], ['f', 64])
                r = ieee.op(st, dict(op='fdiv' if k < 0 else 'fmul', t=['f', 64]), x, fbits(float(10 ** abs(k)), 64), 64)
                ex.oblige(st, simp(bv(rv) == bv(flip(r, 64) if ng else r)), 'post:one-rounding-of-the-exact-value')
            run_function(ex, mod.find1(CTN), [Ptr('ps', 0)], st, post)
            exs.append(ex)
    return exs
def unit_range(mod, deadline):
    """zero exactly for zero or below 10^-324, infinity only from 10^309: what is returned without the scaling loops"""
    exs = []
    for ng in (0, 1):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; Ieee(ex); ex.sview = {}
        S = intvar('S', 64); c = intvar('cnt', 8); e = z3.Int('e'); reg_range('e', -2000000000, 2000000000)
        st.assume(z3.And(z3.Or(z3.And(S == 0, c >= 0, c <= 20), cnt_ok(S, c)), e >= -2000000000, e <= 2000000000))
        sres(mod, st, ex, S, ex.sname(st, e, 32, 'exp'), c, ng)
        fast = z3.And(S < 1 << 53, e >= -15, e <= 15)
        def slow(ex, st, ins, a):
            ex.oblige(st, simp(S != 0), 'pre(scaling):nonzero')
            raise PathEnd()
        ex.contracts.append((re.compile(SLOW), slow, 'contract'))
        sg = ng << 63
        def post(ex, st, rv):
            z, inf = simp(bv(rv) == sg), simp(bv(rv) == sg + fbits(float('inf'), 64))
            ex.oblige(st, simp(z3.Implies(S == 0, z)), 'post:zero-reads-as-zero')
            ex.oblige(st, simp(z3.Implies(z3.And(S > 0, e + c - 1 >= 309), inf)), 'post:huge-is-infinite')
            ex.oblige(st, simp(z3.Implies(z3.And(S > 0, e + c - 1 <= -325), z)), 'post:tiny-is-zero')
            ex.oblige(st, simp(z3.Or(S == 0, e + c - 1 >= 309, e + c - 1 <= -325, fast)), 'post:everything-else-is-computed')
        run_function(ex, mod.find1(CTN), [Ptr('ps', 0)], st, post)
        exs.append(ex)
    return exs

# ---------------- the handlers ----------------
def unit_from(ty):
    f = FT[ty]; w = f['w']
    def unit(mod, deadline):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; Ieee(ex); ex.sview = {}
        classify(ex, st)
        T = Layout(mod, 'JS::Token'); TY = enum(mod, 'JS::Type'); L = Layout(mod, FB)
        v = intvar('value', w)
        st.newreg('v', 'cells', w // 8); setcell(st, 'v', 0, w // 8, v)
        st.newreg('token', 'cells', T.size, lazy=True)
        st.newreg('ser', 'cells', Layout(mod, 'JS::Serializer').size, lazy=True)
        fin = expo(v, w) != special(w)
        S = intvar('S', 64); e = intvar('e', 32); c = intvar('cnt', 8); n = z3.Int('len'); reg_range('len', 1, f['buf'])
        D = dict(negative=z3.If(v >= 1 << (w - 1), I(1), I(0)), inf=0, nan=0, significand_digit_count=c, exp=e, significand=S)
        def on_decode(ex, st, ins, a):
            """contract proved by the decode units: a decimal inside the rounding interval of the finite value"""
            ex.oblige(st, simp(bv(a[0]) == v), 'pre(decode):the-value')
            ex.oblige(st, simp(fin), 'pre(decode):finite')
            if ins['t'][0] != 's': raise Unsupported('decode result')
            r = st.newreg('dec:%d' % next(core._fresh), 'cells', L.size)
            for k, x in D.items(): setcell(st, r.rid, L.off(k), L.sz(k), x)
            words = [join([ex.cell_byte(st, st.mem[r.rid], o + i) for i in range(8)]) if not (o == L.off('significand')) else S for o in ins['t'][2]]
            st.ghost['words'] = list(zip(ins['t'][2], words))
            return [(st, words)]
        def on_convert(ex, st, ins, a):
            """contract proved by the format units"""
            ws = st.ghost.get('words')      # handed on as it came, or field by field
            ok = ws is not None and L.size == 8 * len(ws) and all(same(ex.load(st, Ptr(a[0].reg, add(a[0].off, o)), ['i', 64]), x) for o, x in ws)
            ex.oblige(st, ok or b_and(*[simp(bv(ex.load(st, Ptr(a[0].reg, add(a[0].off, L.off(k))), ['i', 8 * L.sz(k)])) == bv(x)) for k, x in D.items()]), 'pre(convert):the-decoded-value')
            ex.oblige(st, simp(z3.And(bv(a[2]) >= f['min'], bv(a[2]) <= 4096)), 'pre(convert):buffer-size')
            ex.oblige(st, simp(bv(a[3]) == expanded(mod, ty)), 'pre(convert):expanded-length')
            ex.bounds(st, a[1], f['min'], 'convert-buffer')
            st.assume(z3.And(n >= 1, n <= f['min']))
            st.ghost['text'] = (a[1].reg, a[1].off)
            return [(st, n)]
        ex.contracts.append((re.compile(r'ryu::decode<%s, unsigned long>\(%s\)$' % (ty, ty)), on_decode, 'contract'))
        ex.contracts.append((re.compile(r'convert_parsed_to_buffer<unsigned long>\('), on_convert, 'contract'))
        def on_write(ex, st, ins, a):
            p, m, t = token_parts(ex, st, mod, a[1])
            ex.oblige(st, a[0].reg == 'ser', 'pre(write):serializer')
            st.ghost['writes'] = st.ghost.get('writes', 0) + 1
            tx = st.ghost.get('text')
            if tx is not None:
                ex.oblige(st, simp(eq(t, TY['Number'])), 'pre(write):number-token')
                ex.oblige(st, z3.And(z3.BoolVal(p.reg == tx[0]), bv(p.off) == bv(tx[1]), bv(m) == n) if p.reg == tx[0] else False, 'pre(write):the-formatted-text')
            else:
                ex.oblige(st, simp(z3.Not(fin)), 'pre(write):only-non-finite-values-are-null')
                ex.oblige(st, simp(eq(t, TY['Null'])), 'pre(write):null-token')
                if is_z(m): m = ex.unique(st, m)
                by = [ex.load(st, Ptr(p.reg, add(p.off, k)), ['i', 8]) for k in range(m)] if not is_z(m) else None
                ex.oblige(st, by is not None and len(by) == 4 and all(not is_z(x) for x in by) and bytes(by) == b'null', 'pre(write):null-text')
            return [(st, freshb('written'))]
        ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Token const&\)$'), on_write, 'contract'))
        def post(ex, st, rv):
            ex.oblige(st, st.ghost.get('writes', 0) == 1, 'post:written-exactly-once')
            ex.oblige(st, simp(fin) if 'text' in st.ghost else simp(z3.Not(fin)), 'post:finite-values-as-numbers')
        run_function(ex, mod.find1(r'^JS::TypeHandler<%s, void>::from\(' % ty), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, post)
        return ex
    return unit

def unit_to(ty):
    f = FT[ty]; w = f['w']
    def unit(mod, deadline):
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ieee = Ieee(ex); ex.sview = {}
        b = add_buf(ex, st, 'txt', maxsize=MAXTXT); st.assume(b.size >= 1)
        C = Layout(mod, 'JS::ParseContext'); T = Layout(mod, 'JS::Token'); R = Layout(mod, 'JS::DataRef'); P = NumLayout(mod)
        st.newreg('ctx', 'cells', C.size, lazy=True)
        o = C.off('token') + T.off('value')
        setcell(st, 'ctx', o + R.off('data'), 8, Ptr('txt', 0)); setcell(st, 'ctx', o + R.off('size'), 8, b.size)
        st.newreg('to', 'cells', w // 8); setcell(st, 'to', 0, w // 8, intvar('old', w))
        F = dict(significand=(intvar('S', 64), 8), exp=(intvar('e', 32), 4), significand_digit_count=(intvar('cnt', 8), 1), negative=(z3.If(z3.Bool('neg'), I(1), I(0)), 1), inf=(0, 1), nan=(0, 1), truncated=(z3.If(z3.Bool('trunc'), I(1), I(0)), 1))
        ER = enum(mod, 'JS::Error'); OK = enum(mod, 'JS::Internal::ft::parse_string_error')['ok']
        bad = z3.Int('perr'); reg_range('perr', 0, 100); end = z3.Int('end'); reg_range('end', 0, MAXTXT)
        whole = z3.Bool('whole')
        d = intvar('d', 64); res = intvar('rounded', 32)
        def on_parse(ex, st, ins, a):
            """contract proved by parse-float-text; for a text that is not a number it may fail or stop early"""
            ex.oblige(st, z3.And(z3.BoolVal(a[0].reg == 'txt'), bv(a[0].off) == 0, bv(a[1]) == b.size), 'pre(parseNumber):the-whole-value')
            p = a[2]
            for k, (x, s) in F.items(): ex.store(st, Ptr(p.reg, add(p.off, P.off(k))), x, ['i', s * 8])
            ex.store(st, Ptr(p.reg, add(p.off, P.off('endptr'))), Ptr('txt', end), ['p'])
            st.assume(z3.And(end >= 0, end <= b.size, whole == z3.And(bad == OK, end == b.size)))
            return [(st, bad)]
        def on_convert(ex, st, ins, a):
            """the nearest double (decided by convert-fast and convert-range, otherwise bounded)"""
            p = a[0]
            for k in ('significand', 'exp', 'significand_digit_count', 'negative'): ex.oblige(st, simp(bv(ex.load(st, Ptr(p.reg, add(p.off, P.off(k))), ['i', 8 * F[k][1]])) == bv(F[k][0])), 'pre(convertToNumber):' + k)
            return [(st, d)]
        def on_round(ex, st, ins, a):
            """the nearest float of the text (bounded)"""
            ex.oblige(st, z3.And(z3.BoolVal(a[0].reg == 'txt'), bv(a[0].off) == 0, bv(a[1]) == b.size), 'pre(correctly_round_float):the-whole-value')
            ex.oblige(st, simp(bv(a[2]) == d), 'pre(correctly_round_float):nearest-double')
            ex.oblige(st, simp(bv(a[3]) == bv(ieee.cast(st, 'fptrunc', d, ['f', 64], ['f', 32]))), 'pre(correctly_round_float):rounded-double')
            return [(st, res)]
        ex.contracts.append((re.compile(r'parseNumber<unsigned long, false>\(char const\*, unsigned long, '), on_parse, 'contract'))
        ex.contracts.append((re.compile(CTN), on_convert, 'contract'))
        ex.contracts.append((re.compile(r'correctly_round_float\(char const\*, unsigned long, double, float\)$'), on_round, 'contract'))
        def post(ex, st, rv):
            x = bv(getcell(ex, st, 'to', 0, w // 8))
            ex.oblige(st, simp(z3.If(whole, bv(rv) == ER['NoError'], bv(rv) == ER['FailedToParseDouble' if ty == 'double' else 'FailedToParseFloat'])), 'post:error-exactly-when-not-a-whole-number')
            ex.oblige(st, simp(z3.Implies(whole, x == (d if ty == 'double' else res))), 'post:value')
        run_function(ex, mod.find1(r'^JS::TypeHandler<%s, void>::to\(' % ty), [Ptr('to', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit

UNITS = {}
GROUPS = {'double': [(1, 5), (6, 9), (10, 13), (14, 17)], 'float': [(1, 9)]}
for _t in FT:
    for _a, _b in GROUPS[_t]: UNITS['format-%s-%d-%d' % (_t, _a, _b)] = unit_format(_t, range(_a, _b + 1))
    UNITS['write-' + _t] = unit_from(_t)
    UNITS['read-' + _t] = unit_to(_t)
UNITS['convert-fast'] = unit_fast
UNITS['convert-range'] = unit_range

# ---------------- the powers of five of the formatter ----------------
from fractions import Fraction
def clog2_5(i): return (5 ** i - 1).bit_length() if i else 0
def unit_powers(mod, deadline):
    """every entry the formatter can ask for is its power of five, to the last bit (rounded down or up)"""
    exs = []
    for ty, b0, b1, words, nl, ng in (('double', 124, 124, 2, 326, 291), ('float', 59, 61, 1, 48, 30)):
        for which, n, exact in (('less_than', nl, lambda i: Fraction(5 ** i, 1) * Fraction(2) ** (b1 - clog2_5(i))), ('greater_than_equals', ng, lambda i: Fraction(2) ** (b0 + ((5 ** i).bit_length() - 1)) / 5 ** i)):
            ex = install(new_engine(mod, deadline)); ex.check_ovf = True
            fn = mod.find1(r'cache_values<%s>::%s\(int\)$' % (ty, which))
            for i in range(n):
                st = State()
                def post(ex, st, rv):
                    v = sum(ex.load(st, Ptr(rv.reg, add(rv.off, 8 * k)), ['i', 64]) << (64 * k) for k in range(words))
                    lo = exact(i).__floor__()
                    ex.oblige(st, v in (lo, exact(i).__ceil__()), 'post:%s-%s-entry-%d' % (ty, which, i))
                run_function(ex, fn, [i], st, post)
            exs.append(ex)
    return exs
UNITS['powers-of-five'] = unit_powers

# ---------------- ryu::decode: the decimal lies in the rounding interval ----------------
import math, os
from midpoint import first_from
CS = r'ryu::compute_shortest\('
MS = r'ryu::multiply_and_shift<%s>\('
class Concrete(Ieee):
    """floating point operations on known operands are carried out"""
    def val(self, v, w): return struct.unpack('<d' if w == 64 else '<f', v.to_bytes(w // 8, 'little'))[0]
    def cast(self, st, op, v, ft, tt):
        if not is_sym(v):
            if op in ('fptosi', 'fptoui'): return int(self.val(v, ft[1])) & mask(tt[1])
            if op == 'fpext': return fbits(self.val(v, 32), 64)
        return Ieee.cast(self, st, op, v, ft, tt)
    def op(self, st, ins, a, b, w):
        f = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y}.get(ins['op'])
        if f and not is_sym(a) and not is_sym(b) and ins['t'][1] == 64: return fbits(f(self.val(a, 64), self.val(b, 64)), 64)
        return Ieee.op(self, st, ins, a, b, w)
def boolint(v): return z3.If(v, I(1), I(0)) if is_z(v) and z3.is_bool(v) else I(int(v)) if isinstance(v, bool) else bv(v)
def zbool(v): return v if is_z(v) and z3.is_bool(v) else z3.BoolVal(bool(v)) if not is_z(v) else v != 0

def unit_decode(ty, Es):
    f = FT[ty]; w = f['w']; mw = f['mant']; bias = (1 << (w - 2 - mw)) - 1; words = 2 if ty == 'double' else 1
    def one(mod, deadline, E, zero):
        """all values with exponent field E; mantissa zero or not"""
        ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ieee = Concrete(ex); ex.sview = {}; ex.name_div = True
        ex.unroll_policy = lambda ex, st, fr, h: True
        L = Layout(mod, FB)
        mant = intvar('mant', mw) if not zero else 0
        if not zero: st.assume(z3.And(mant >= 1, mant < 1 << mw))
        M = mant + (1 << mw) if E else mant          # the value is M * 2^e2
        e2 = (E if E else 1) - bias - mw - 2         # with two more bits: 4M * 2^e2
        ulo = 4 * M - (1 if zero and E > 1 else 2); whi = 4 * M + 2
        even = (mant % 2 == 0) if not zero else True
        umax = 4 * ((2 << mw) - 1) + 2 if not zero else 4 * M + 2
        F = {}
        xmin = 4 * ((1 << mw) if E else 1) - 2
        neg = intvar('neg', 1)
        bits = simp(z3.IntVal(E << mw) + mant + neg * (1 << (w - 1)))
        ex.contracts.append((re.compile(r'ft::get_parts<%s>\(' % ty), on_parts(ex, mant, E, neg), 'contract'))
        for nm in ('is_nan', 'is_inf'): ex.contracts.append((re.compile(r'ft::%s<%s>\(' % (nm, ty)), lambda ex, st, ins, a: [(st, False)], 'contract'))
        ex.contracts.append((re.compile(r'^(double )?(std::)?ceil(\(double\))?$'), lambda ex, st, ins, a: [(st, fbits(math.ceil(ieee.val(a[0], 64)), 64))], 'model'))
        def rec(kind):
            def h(ex, st, ins, a):
                k = a[0]
                if is_sym(k): raise Unsupported('symbolic table index')
                k = sx(k, 32)
                if kind == 'ge': F['q'] = k; n, d = Fraction(2) ** e2 / 10 ** k, None
                else: F['q'] = -e2 - k; n = Fraction(5) ** k / Fraction(2) ** (-e2 - k)
                F['N'], F['D'] = n.numerator, n.denominator
                ex.oblige(st, F['q'] >= 0, 'decode:table-index')
                return NotImplemented
            return h
        ex.contracts.append((re.compile(r'cache_values<%s>::greater_than_equals\(int\)$' % ty), rec('ge'), 'contract'))
        ex.contracts.append((re.compile(r'cache_values<%s>::less_than\(int\)$' % ty), rec('lt'), 'contract'))
        def on_ms(ex, st, ins, a):
            """contract proved by the unit multiply-shift, with the lemma that the truncated table entry gives the exact quotient"""
            x, p, s, rnd = bv(a[0]), a[1], a[2], a[3]
            if is_sym(s) or 'N' not in F: raise Unsupported('scaling')
            N, D = F['N'], F['D']
            T = sum(ex.load(st, Ptr(p.reg, add(p.off, 8 * k)), ['i', 64]) << (64 * k) for k in range(words))
            ex.oblige(st, SHIFTS[ty][0] <= s <= SHIFTS[ty][1], 'pre(multiply_and_shift):shift')
            ex.oblige(st, simp(z3.And(x >= xmin, x <= umax, *([] if zero else [x % 2 == 0]))), 'pre(multiply_and_shift):operand')
            d = Fraction(N * (1 << s), D) - T                # exact minus stored
            err = d * umax / (1 << s)
            bound = -((-err * D).__floor__()) - 1           # remainders below err*D would be lost
            lost = []; tried = 0; y = xmin
            while bound >= 1 and tried < 2000:
                y = first_from(N % D, D, 1, min(bound, D - 1), y)
                if y is None or y > umax: break
                tried += 1
                if (y % 2 == 0 or zero) and Fraction(y * N % D, D) < d * y / (1 << s): lost.append(y)      # here the truncated quotient is one too small
                y += 1
            ok = 0 <= err < Fraction(1, 2) and tried < 2000 and len(lost) <= 8 and math.gcd(N, D) == 1 and T * umax >> s < 1 << 64
            if not ok and os.environ.get('VCG_DEBUG'): print('LEMMA', E, zero, 'e2', e2, 'q', F['q'], 'N/D', N, D, 's', s, 'err', float(err), 'bound', bound, 'lost', lost, tried, 'umax', umax)
            ex.obls.append(Obl('lemma:quotients-survive-truncation', 'flt.unit_decode', ok, 'exact search'))
            fq = fresh('fq', 64); fr = z3.Int('fr!%d' % next(core._fresh)); reg_range(str(fr), 0, D - 1)
            exact = x % D == 0 if 1 < D <= umax else z3.BoolVal(D == 1)
            st.assume(z3.And(x * N == fq * D + fr, fr >= 0, fr < D, (fr == 0) == exact))      # gcd(N, D) = 1
            r = fresh('ms', 64)
            down = fq if d == 0 else z3.If(exact, fq - 1, fq)
            if lost: down = z3.If(z3.Or([x == y for y in lost]), fq - 1, down)
            rz = zbool(rnd)
            st.assume(z3.And(z3.Implies(z3.Not(rz), r == down), z3.Implies(z3.And(rz, exact), r == fq), r >= fq - 1, r <= fq + 1))
            return [(st, r)]
        ex.contracts.append((re.compile(MS % ty), on_ms, 'contract'))
        def on_cs(ex, st, ins, a):
            """contract proved by the unit shortest"""
            A, B, C = bv(a[0]), bv(a[1]), bv(a[2]); asm, al = zbool(a[3]), zbool(a[4])
            C1 = z3.If(al, C, C - 1)
            ex.oblige(st, simp(cs_pre(A, B, C, C1)), 'pre(compute_shortest)')
            i = fresh('i', 8); V = fresh('V', 64); S = fresh('S', 64); F['V'], F['i'], F['S'] = V, i, S
            st.assume(cs_post(A, B, C1, asm, i, V, S))
            ex.store(st, a[6], i, ['i', 32]); ex.store(st, a[7], S, ['i', 64])
            return [(st, None)]
        ex.contracts.append((re.compile(CS), on_cs, 'contract'))
        def on_count(ex, st, ins, a):
            """contract proved by the unit count-chars"""
            c = fresh('cc', 8); reg_range(str(c), 1, 20)
            st.assume(cnt_ok(bv(a[0]), c)); return [(st, c)]
        ex.contracts.append((re.compile(r'count_chars<unsigned long>\(unsigned long\)$'), on_count, 'contract'))
        def post(ex, st, rv):
            if not isinstance(rv, list) or 'V' not in F: raise Unsupported('decode result')
            N, D, V, i, q = F['N'], F['D'], F['V'], F['i'], F['q']
            S = bv(rv[1]) if L.off('significand') == 8 else None
            e10 = e2 if e2 < 0 else 0
            ex.oblige(st, simp(z3.If(zbool(even), V * D >= ulo * N, V * D > ulo * N)), 'post:not-below-the-rounding-interval')
            ex.oblige(st, simp(z3.If(zbool(even), V * D <= whi * N, V * D < whi * N)), 'post:not-above-the-rounding-interval')
            ex.oblige(st, simp(z3.And(S == F['S'], S >= 1, S < 10 ** f['digits'])), 'post:significand')
            ten = lambda k: -((-(Fraction(10) ** (k - q - e10))) // 1)
            ex.oblige(st, simp(z3.And(V >= ten(f['emin']), V < ten(f['emax'] + 1))), 'post:magnitude')
            pk = bv(rv[0]); x = i + q + e10
            rest = neg * (1 << 8 * L.off('negative')) + z3.If(x >= 0, x, x + (1 << 32)) * (1 << 8 * L.off('exp'))
            ex.oblige(st, simp(b_and(*[z3.Implies(z3.And(S >= 10 ** (k - 1), S < 10 ** k), pk == rest + (k << 8 * L.off('significand_digit_count'))) for k in range(1, f['digits'] + 1)])), 'post:exponent-digit-count-sign-and-class')
        run_function(ex, mod.find1(r'ryu::decode<%s, unsigned long>\(%s\)$' % (ty, ty)), [bits], st, post)
        return ex
    def unit(mod, deadline):
        return [one(mod, deadline, E, z) for E in Es for z in (False, True) if E or not z]
    return unit
def on_parts(ex, mant, E, neg):
    def h(ex, st, ins, a):
        """contract proved by the unit get-parts"""
        ex.store(st, a[1], neg, ['i', 8]); ex.store(st, a[2], E, ['i', 32]); ex.store(st, a[3], mant, ['i', 64])
        return [(st, None)]
    return h
def cs_pre(A, B, C, C1): return z3.And(A >= 1, A <= B, B <= C1, A < C1, C < 10 ** 19)
def cs_post(A, B, C1, asm, i, V, S):
    return z3.And(i >= 0, i <= 18, z3.Or(V > A, z3.And(asm, V == A)), V <= C1, S >= 1,
                  *[z3.Implies(i == k, z3.And(V == S * 10 ** k, C1 - A < 10 ** (k + 1), *([z3.Or(V <= B, V - B <= 5 * 10 ** (k - 1), A >= (S - 1) * 10 ** k)] if k else []))) for k in range(19)])
SHIFTS = {'double': (65, 127), 'float': (1, 63)}

# ---------------- the contracts decode relies on ----------------
def unit_parts(mod, deadline):
    """get_parts, is_nan, is_inf: the fields of the bit pattern"""
    exs = []
    for ty in FT:
        f = FT[ty]; w = f['w']; mw = f['mant']; ew = w - 1 - mw
        for fn in ('get_parts', 'is_nan', 'is_inf'):
            ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; Ieee(ex); ex.sview = {}; ex.name_div = True
            v = intvar('v', w)
            neg, E, m = intvar('neg', 1), intvar('E', ew), intvar('m', mw)
            st.assume(z3.And(v == neg * (1 << (w - 1)) + E * (1 << mw) + m, neg >= 0, neg <= 1, E >= 0, E < 1 << ew, m >= 0, m < 1 << mw))      # every pattern is exactly one such sum
            if fn == 'get_parts':
                for r, n in (('n', 1), ('e', 4), ('m', 8)): st.newreg(r, 'cells', n)
                def post(ex, st, rv):
                    ex.oblige(st, simp(z3.And(bv(getcell(ex, st, 'n', 0, 1)) == neg, bv(getcell(ex, st, 'e', 0, 4)) == E, bv(getcell(ex, st, 'm', 0, 8)) == m)), 'post:fields')
                args = [v, Ptr('n', 0), Ptr('e', 0), Ptr('m', 0)]
            else:
                ex.contracts.append((re.compile(r'ft::get_parts<%s>\(' % ty), on_parts(ex, m, E, neg), 'contract'))
                def post(ex, st, rv):
                    ex.oblige(st, simp(zbool(rv) == z3.And(E == (1 << ew) - 1, m != 0 if fn == 'is_nan' else m == 0)), 'post:class')
                args = [v]
            run_function(ex, mod.find1(r'ft::%s<%s>\(' % (fn, ty)), args, st, post); exs.append(ex)
    return exs
UNITS['get-parts'] = unit_parts

def unit_special(mod, deadline):
    """zero, infinity and not-a-number come out of decode as such, with their sign"""
    exs = []
    L = Layout(mod, FB)
    for ty in FT:
        f = FT[ty]; w = f['w']; mw = f['mant']; top = (1 << (w - 1 - mw)) - 1
        for k in ('zero', 'inf', 'nan'):
            ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; Concrete(ex); ex.sview = {}
            neg = intvar('neg', 1); m = intvar('m', mw) if k == 'nan' else 0; E = 0 if k == 'zero' else top
            if k == 'nan': st.assume(z3.And(m >= 1, m < 1 << mw))
            ex.contracts.append((re.compile(r'ft::get_parts<%s>\(' % ty), on_parts(ex, m, E, neg), 'contract'))
            for nm in ('is_nan', 'is_inf'): ex.contracts.append((re.compile(r'ft::%s<%s>\(' % (nm, ty)), lambda ex, st, ins, a, r=(nm == 'is_' + k): [(st, r)], 'contract'))
            def post(ex, st, rv):
                one = lambda fl: 1 << 8 * L.off(fl)
                word = bv(rv[0]) % (1 << 32)        # for a non-number the rest is not looked at
                if k == 'zero': ex.oblige(st, simp(z3.And(bv(rv[0]) == neg * one('negative') + one('significand_digit_count'), bv(rv[1]) == 0)), 'post:zero')
                else: ex.oblige(st, simp(b_and(*[(word / one(fl)) % 256 == v for fl, v in (('negative', neg), ('inf', int(k == 'inf')), ('nan', int(k == 'nan')))])), 'post:' + k)
            run_function(ex, mod.find1(r'ryu::decode<%s, unsigned long>\(%s\)$' % (ty, ty)), [simp(bv(m) + (E << mw) + neg * (1 << (w - 1)))], st, post); exs.append(ex)
    return exs
UNITS['decode-special'] = unit_special

def unit_count(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.sview = {}
    S = intvar('S', 64)
    ex.unroll_policy = lambda ex, st, fr, h: True
    run_function(ex, mod.find1(r'count_chars<unsigned long>\(unsigned long\)$'), [S], st, lambda ex, st, rv: ex.oblige(st, simp(cnt_ok(S, bv(rv))), 'post:number-of-digits'))
    return ex
UNITS['count-chars'] = unit_count

def unit_shortest(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = True; ex.sview = {}
    ex.unroll_policy = lambda ex, st, fr, h: True
    A, B, C = intvar('A', 64), intvar('B', 64), intvar('C', 64); asm, al, tie = z3.Bool('accept_smaller'), z3.Bool('accept_larger'), z3.Bool('tie_down')
    C1 = z3.If(al, C, C - 1)
    st.assume(cs_pre(A, B, C, C1))
    st.newreg('i', 'cells', 4); st.newreg('s', 'cells', 8)
    def post(ex, st, rv):
        i, S = getcell(ex, st, 'i', 0, 4), bv(getcell(ex, st, 's', 0, 8))
        if is_z(i): raise Unsupported('symbolic exponent')
        ex.oblige(st, 0 <= i <= 18, 'post:exponent-range')
        ex.oblige(st, simp(cs_post(A, B, C1, asm, z3.IntVal(i), S * 10 ** i, S)), 'post:shortest')
    run_function(ex, mod.find1(CS), [A, B, C, asm, al, tie, Ptr('i', 0), Ptr('s', 0)], st, post)
    return ex
UNITS['shortest'] = unit_shortest

def unit_ms(mod, deadline):
    exs = []
    for ty in FT:
        fn = mod.find1(MS % ty); words = 2 if ty == 'double' else 1
        for s in range(SHIFTS[ty][0], SHIFTS[ty][1] + 1):
            ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = ex.name_shift = True; ex.sview = {}
            x = intvar('x', 64); b = [intvar('b%d' % k, 64) for k in range(words)]; rup = z3.Bool('round_up')
            st.newreg('b', 'cells', 8 * words)
            for k in range(words): setcell(st, 'b', 8 * k, 8, b[k])
            pr = []
            # the partial products x * b[k]; their sum is below 2^(64+s) - 2^s
            pk = [z3.Int('p%d' % k) for k in range(words)]; P = pk[0] + (pk[1] * (1 << 64) if words == 2 else 0)
            for k in range(words): reg_range('p%d' % k, 0, (1 << 128) - 1)
            st.assume(z3.And(P >= 0, P < ((1 << 64) - 1) << s, *[z3.And(p >= 0, p <= ((1 << 64) - 1) ** 2) for p in pk]))
            def umul(ex, st, ins, a):
                """contract proved by the unit umul128"""
                a0, a1 = (a[0], a[1]) if same(a[0], x) else (a[1], a[0])
                k = [j for j in range(words) if same(a1, b[j])]
                if not same(a0, x) or len(k) != 1: raise Unsupported('product')
                hi, lo = fresh('hi', 64), fresh('lo', 64)
                st.assume(z3.And(hi * (1 << 64) + lo == pk[k[0]], hi >= 0, lo >= 0, lo < 1 << 64, hi < 1 << 64))
                ex.store(st, a[2], hi, ['i', 64]); return [(st, lo)]
            ex.contracts.append((re.compile(r'ryu::umul128\('), umul, 'contract'))
            fq, h, rest = z3.Int('fq'), z3.Int('half'), z3.Int('rest')
            st.assume(z3.And(P == fq * (1 << s) + h * (1 << (s - 1)) + rest, fq >= 0, h >= 0, h <= 1, rest >= 0, rest < 1 << (s - 1)))
            run_function(ex, fn, [x, Ptr('b', 0), s, rup], st, lambda ex, st, rv: ex.oblige(st, simp(bv(rv) == fq + z3.If(rup, h, I(0))), 'post:rounded-quotient-%d' % s))
            exs.append(ex)
    return exs
UNITS['multiply-shift'] = unit_ms

def unit_umul(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.sview = {}
    a, b = intvar('a', 64), intvar('b', 64)
    st.newreg('hi', 'cells', 8)
    run_function(ex, mod.find1(r'ryu::umul128\('), [a, b, Ptr('hi', 0)], st, lambda ex, st, rv: ex.oblige(st, simp(z3.And(bv(rv) >= 0, bv(rv) < 1 << 64, bv(getcell(ex, st, 'hi', 0, 8)) * (1 << 64) + bv(rv) == a * b)), 'post:product'))
    return ex
UNITS['umul128'] = unit_umul
DECODE = {'double': [(k, min(k + 128, 2047)) for k in range(0, 2047, 128)], 'float': [(0, 128), (128, 255)]}
for _t in FT:
    for _a, _b in DECODE[_t]: UNITS['decode-%s-%d' % (_t, _a)] = unit_decode(_t, range(_a, _b))
