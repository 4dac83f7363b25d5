"""convertToNumber: the scaling loops, the midpoint decision and the final rounding, for every significand and exponent.
Ghost state: the exact value X = S * 10^p is Z * 2^(be - 124) with a real Z, and the words of a hold A with A <= Z <= A * (1 + m * 2^-124)."""
from flt import *
NS = r'^(void |int |bool )?JS::Internal::ft::'
def fnre(x): return re.compile(r'ft::' + x)
W2 = r'\(unsigned long (\(&\)|\(&\) ?)\[2\]\)$'
def words(ex, st, p): return [bv(ex.load(st, Ptr(p.reg, add(p.off, 8 * k)), ['i', 64])) for k in (0, 1)]
def total(w): return w[0] + w[1] * (1 << 64)
def setwords(ex, st, p, tag='a'):
    w = [fresh(tag + '0', 64), fresh(tag + '1', 64)]
    for k in (0, 1): ex.store(st, Ptr(p.reg, add(p.off, 8 * k)), w[k], ['i', 64])
    return total(w)
PRIM = {'left1': r'ft::left_shift<1>\(unsigned long \(&\) ?\[2\]\)$', 'left2': r'ft::left_shift<2>\(unsigned long \(&\) ?\[2\]\)$', 'right': r'ft::right_shift\(unsigned long \(&\) ?\[2\]\)$',
        'add': r'ft::add\(unsigned long const \(&\) ?\[2\], unsigned long \(&\) ?\[2\]\)$', 'div10': r'ft::divide_by_10\(unsigned long \(&\) ?\[2\]\)$', 'mask': r'float_info<double>::conversion_type_has_mask\(',
        'norm': r'float_info<double>::shift_left_msb_to_index\(', 'shift': r'ft::left_shift\(unsigned long \(&\) ?\[2\], int\)$', 'settle': r'ft::settle_midpoint\(unsigned long \(&\) ?\[2\], ', 'cmp': r'ft::compare_to_midpoint\(',
        'normal': r'float_info<double>::copy_normal_to_type\(', 'denormal': r'float_info<double>::copy_denormal_to_type\('}
T124 = 1 << 124
def rne(q, zf, frac, U):
    """q is Z / U rounded to nearest, ties to even; Z = zf, plus something below one when frac"""
    H = U // 2; even = q % 2 == 0
    lo, hi = q * U - H, q * U + H
    return z3.And(z3.Or(zf > lo, z3.And(zf == lo, z3.Or(frac, even))), z3.Or(zf < hi, z3.And(zf == hi, z3.Not(frac), even)))
def halfup(q, A, U): return z3.And(A >= q * U - U // 2, A < q * U + U // 2)

def start(mod, deadline):
    ex = install(new_engine(mod, deadline)); st = State(); ex.check_ovf = True; ex.name_div = ex.name_shift = True; ex.sview = {}
    Ieee(ex); return ex, st
def unit_prims(mod, deadline):
    """each operation on the two-word number, for every operand"""
    exs = []
    def run(k, args, post, pre=None, two=False):
        ex, st = start(mod, deadline)
        R = {}
        for r in ('a', 'b') if two else ('a',):
            st.newreg(r, 'cells', 16); w = [intvar(r + '0', 64), intvar(r + '1', 64)]
            for i in (0, 1): setcell(st, r, 8 * i, 8, w[i])
            R[r] = total(w); R[r + 'w'] = w
        if pre is not None: st.assume(pre(R))
        run_function(ex, mod.find1(PRIM[k]), args, st, lambda ex, st, rv: ex.oblige(st, simp(post(R, total(words(ex, st, Ptr('a', 0))), rv)), 'post:' + k))
        exs.append(ex)
    a = Ptr('a', 0); b = Ptr('b', 0)
    run('left1', [a], lambda R, x, rv: x == 2 * R['a'], lambda R: R['a'] < 1 << 127)
    run('left2', [a], lambda R, x, rv: x == 4 * R['a'], lambda R: R['a'] < 1 << 126)
    run('right', [a], lambda R, x, rv: z3.And(R['a'] - 2 * x >= 0, R['a'] - 2 * x <= 1))
    run('add', [b, a], lambda R, x, rv: x == R['a'] + R['b'], lambda R: R['a'] + R['b'] < 1 << 128, True)
    run('div10', [a], lambda R, x, rv: z3.And(R['a'] - 10 * x >= 0, R['a'] - 10 * x <= 9))
    run('mask', [a], lambda R, x, rv: z3.And(x == R['a'], zbool(rv) == (R['a'] >= T124)))
    for s in range(125): run('shift', [a, s], lambda R, x, rv: x == R['a'] * (1 << s), lambda R: R['a'] < 1 << (128 - s))
    return exs
def unit_norm(mod, deadline):
    """shift_left_msb_to_index: one operand range per position of the top bit"""
    exs = []
    for t in range(125):
        ex, st = start(mod, deadline)
        st.newreg('a', 'cells', 16); w = [intvar('a0', 64), intvar('a1', 64)]
        if t < 64: w[1] = 0
        for i in (0, 1): setcell(st, 'a', 8 * i, 8, w[i])
        A = w[0] + w[1] * (1 << 64)
        st.assume(z3.And(A >= 1 << t, A < 2 << t))
        def clz(ex, st, ins, a):
            """63 minus the position of the top bit (the builtin behind bit_scan_reverse is the trusted ctlz instruction)"""
            x = bv(a[0]); r = t % 64
            ex.oblige(st, simp(z3.And(x >= 1 << r, x < 2 << r)), 'pre(bit_scan_reverse):operand')
            return [(st, r)]
        ex.contracts.append((re.compile(r'bit_scan_reverse\('), clz, 'contract'))
        def shift(ex, st, ins, a):
            """contract proved by the unit two-word-operations"""
            if is_sym(a[1]): raise Unsupported('shift count')
            s = sx(a[1], 32); x = total(words(ex, st, a[0]))
            ex.oblige(st, 0 <= s <= 124, 'pre(left_shift):count'); ex.oblige(st, simp(x < 1 << (128 - s)) if s < 128 else False, 'pre(left_shift):operand')
            st.assume(setwords(ex, st, a[0]) == x * (1 << s)); return [(st, None)]
        ex.contracts.append((re.compile(PRIM['shift']), shift, 'contract'))
        def post(ex, st, rv):
            ex.oblige(st, rv == 124 - t, 'post:shift-count')
            ex.oblige(st, simp(total(words(ex, st, Ptr('a', 0))) == A * (1 << (124 - t))), 'post:shifted')
        run_function(ex, mod.find1(PRIM['norm']), [Ptr('a', 0), 124], st, post); exs.append(ex)
    ex, st = start(mod, deadline); v = intvar('v', 64); st.assume(v >= 1)
    run_function(ex, mod.find1(r'bit_scan_reverse\('), [v], st, lambda ex, st, rv: ex.oblige(st, simp(b_and(*[z3.Implies(z3.And(v >= 1 << k, v < 2 << k), bv(rv) == k) for k in range(64)])), 'post:top-bit'))
    exs.append(ex)
    return exs

ERR = 8192
def unit_settle(mod, deadline):
    """settle_midpoint: what is left in a rounds like the exact value"""
    exs = []
    for be in [None] + list(range(-54, 1)):
        ex, st = start(mod, deadline)
        U = 1 << (64 + (8 if be is None else 9 - be))
        bexp = z3.Int('bexp') if be is None else be
        if be is None: reg_range('bexp', 1, 2100); st.assume(z3.And(bexp >= 1, bexp <= 2100))
        st.newreg('a', 'cells', 16); w = [intvar('a0', 64), intvar('a1', 64)]
        for i in (0, 1): setcell(st, 'a', 8 * i, 8, w[i])
        A = total(w); zf = z3.Int('zf'); fr = z3.Bool('frac'); reg_range('zf', 0, 1 << 126); q = z3.Int('q'); reg_range('q', 0, 1 << 54)
        S = intvar('S', 64); e = z3.Int('e'); reg_range('e', -400, 400); ev = ex.sname(st, e, 32, 'exp')
        st.assume(z3.And(A >= T124, A < 2 * T124, zf >= A, zf + z3.If(fr, I(1), I(0)) <= A + ERR, q >= 0))
        st.assume(rne(q, zf, fr, U))
        if be is not None: st.assume(z3.Or(fr, z3.And(zf != q * U - U // 2, zf != q * U + U // 2)))      # lemma: 5^28 > 2^64, so no subnormal midpoint is S * 10^exp
        def cmp(ex, st, ins, a):
            """the sign of S * 10^exp - mid * 2^pow (compare_to_midpoint; bounded)"""
            x = ex.signed(bv(a[1]), 32) if is_z(a[1]) else sx(a[1], 32); pw = ex.signed(bv(a[3]), 32) if is_z(a[3]) else sx(a[3], 32)
            ex.oblige(st, simp(z3.And(bv(a[0]) == S, bv(x) == e, bv(pw) == bexp - 1023 - 60)), 'pre(compare_to_midpoint):the-text-and-the-scale')
            m = bv(a[2]) * (1 << 64)
            o = z3.If(zf < m, I(-1), z3.If(z3.And(zf == m, z3.Not(fr)), I(0), I(1)))
            v = z3.Int('ord!%d' % next(core._fresh)); reg_range(str(v), -1, 1); st.assume(v == o)
            return [(st, ex.sname(st, v, 32, 'order'))]
        ex.contracts.append((re.compile(PRIM['cmp']), cmp, 'contract'))
        def post(ex, st, rv):
            B = total(words(ex, st, Ptr('a', 0)))
            ex.oblige(st, simp(z3.And(B >= T124, B < 2 * T124) if be is None else z3.And(B >= 0, B < 4 * T124)), 'post:range')
            ex.oblige(st, simp(rne(q, B, z3.BoolVal(False), U) if be is None else halfup(q, B, U)), 'post:rounds-like-the-exact-value')
        run_function(ex, mod.find1(PRIM['settle']), [Ptr('a', 0), S, ev, bexp if be is None else be & mask(32), 1023], st, post); exs.append(ex)
    return exs
def unit_copy(mod, deadline):
    """copy_normal_to_type and copy_denormal_to_type: the rounded bit pattern"""
    exs = []
    for be in [None] + list(range(-54, 1)):
        ex, st = start(mod, deadline)
        U = 1 << (64 + (8 if be is None else 9 - be)); bexp = z3.Int('bexp')
        if be is None: reg_range('bexp', 1, 2046); st.assume(z3.And(bexp >= 1, bexp <= 2046))
        st.newreg('a', 'cells', 16); w = [intvar('a0', 64), intvar('a1', 64)]
        for i in (0, 1): setcell(st, 'a', 8 * i, 8, w[i])
        A = total(w); st.assume(z3.And(A >= T124, A < 2 * T124) if be is None else z3.And(A >= 0, A < 4 * T124)); neg = z3.Bool('neg')
        st.newreg('d', 'cells', 8)
        def post(ex, st, rv):
            v = bv(getcell(ex, st, 'd', 0, 8)) - z3.If(neg, I(1 << 63), I(0)); q = z3.Int('q')
            st.assume(q == (v - bexp * (1 << 52) + (1 << 52) if be is None else v))
            ex.oblige(st, simp(rne(q, A, z3.BoolVal(False), U) if be is None else halfup(q, A, U)), 'post:rounded')
        run_function(ex, mod.find1(PRIM['normal' if be is None else 'denormal']), [Ptr('a', 0), bexp if be is None else be & mask(32), neg, Ptr('d', 0)], st, post); exs.append(ex)
    return exs

def lemmas(ex):
    """the ghost steps: how the relative error grows (real arithmetic, z3)"""
    A, Z, m, q = z3.Reals('A Z m q'); u = z3.Q(1, T124)
    base = [Z >= A, Z <= A * (1 + m * u), m >= 0, m <= 1 << 20]
    for n, hyp, goal in (('division', [A >= T124, A >= 10 * q, A <= 10 * q + 9], z3.And(q <= Z / 10, Z / 10 <= q * (1 + (m + 10) * u))),
                         ('halving', [A >= T124, A >= 2 * q, A <= 2 * q + 1], z3.And(q <= Z / 2, Z / 2 <= q * (1 + (m + 2) * u))),
                         ('total', [A < 2 * T124, m <= 3500], Z <= A + ERR)):
        s = z3.Solver(); s.set('timeout', 60000); s.add(*base); s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
        ex.obls.append(Obl('lemma:error-after-' + n, 'scale.lemmas', r == z3.unsat, str(r)))
    ex.obls.append(Obl('lemma:no-subnormal-midpoint-is-a-text', 'scale.lemmas', 5 ** 28 > 1 << 64 and Fraction(10) ** -28 > Fraction(2) ** -1022, 'exact'))

def unit_scale(mod, deadline):
    ex, st = start(mod, deadline)
    lemmas(ex)
    S = intvar('S', 64); c = intvar('cnt', 8); e = z3.Int('e'); reg_range('e', -2000000000, 2000000000); neg = intvar('neg', 1)
    st.assume(z3.And(S >= 1, cnt_ok(S, c), e >= -2000000000, e <= 2000000000))
    ev = ex.sname(st, e, 32, 'exp')
    sres(mod, st, ex, S, ev, c, neg)
    sg = lambda ex, v: ex.signed(bv(v), 32) if is_z(v) else z3.IntVal(sx(v, 32))
    G = lambda st: st.ghost['g']
    def put(st, **k): st.ghost['g'] = dict(G(st), **k)
    ob = lambda st, cond, n: ex.oblige(st, simp(cond) if not isinstance(cond, bool) else cond, n)
    def inloop(st):
        if 'g' not in st.ghost: raise Unsupported('scaling started elsewhere')
        return G(st)
    def mine(st, p):
        g = inloop(st)
        if g['reg'] != p.reg: raise Unsupported('another number')
        if g.get('head') is None: ob(st, total(words(ex, st, g['ptr'])) == g['cur'], 'scaling:changed-only-by-the-scaling-steps')
    def sync(st):
        """what happened since the head of the loop is a multiplication by ten"""
        g = inloop(st)
        if g.get('head') is not None:
            A = total(words(ex, st, g['ptr']))
            ob(st, A == 10 * g['head'], 'scaling:ten-times'); put(st, head=None, p=g['p'] + 1, cur=A)
    def assign(ex, st, ins, a):
        """inlined; from here on the ghost value is S"""
        if 'g' in st.ghost: raise Unsupported('assigned twice')
        g = dict(reg=a[1].reg, ptr=a[1], be=z3.IntVal(124), m=z3.IntVal(0), p=z3.IntVal(0), d=None, head=None, cut=(), settled=False, cur=S)
        for k, v in ((0, S), (8, 0)): ex.store(st, Ptr(a[1].reg, add(a[1].off, k)), v, ['i', 64])
        st.ghost['g'] = g; return [(st, None)]
    ex.contracts.append((re.compile(SLOW + r'<unsigned long>\(.*\[2\]\)$'), assign, 'contract'))
    def mul(n):
        def h(ex, st, ins, a):
            """contract proved by the unit two-word-operations"""
            A = total(words(ex, st, a[0])); ob(st, A < 1 << (128 - n), 'pre(left_shift):operand')
            st.assume(setwords(ex, st, a[0]) == A * (1 << n)); return [(st, None)]
        return h
    def addw(ex, st, ins, a):
        """contract proved by the unit two-word-operations"""
        A, B = total(words(ex, st, a[0])), total(words(ex, st, a[1])); ob(st, A + B < 1 << 128, 'pre(add):operands')
        st.assume(setwords(ex, st, a[1]) == A + B); return [(st, None)]
    def has(ex, st, ins, a):
        """contract proved by the unit two-word-operations"""
        return [(st, simp(total(words(ex, st, a[0])) >= T124))]
    def right(ex, st, ins, a):
        """contract proved by the unit two-word-operations; ghost: the value is halved"""
        mine(st, a[0]); sync(st); g = G(st); A = total(words(ex, st, a[0]))
        ob(st, A >= T124, 'scaling:halved-only-when-large')
        B = setwords(ex, st, a[0]); st.assume(z3.And(A - 2 * B >= 0, A - 2 * B <= 1)); put(st, be=g['be'] + 1, m=g['m'] + 2, cur=B); return [(st, None)]
    def div(ex, st, ins, a):
        """contract proved by the unit two-word-operations; ghost: the value is divided by ten"""
        mine(st, a[0]); g = G(st); A = total(words(ex, st, a[0]))
        if g.get('head') is not None: raise Unsupported('order of the scaling steps')
        ob(st, A >= T124, 'scaling:divided-only-when-normalised')
        B = setwords(ex, st, a[0]); st.assume(z3.And(A - 10 * B >= 0, A - 10 * B <= 9)); put(st, p=g['p'] - 1, m=g['m'] + 10, cur=B); return [(st, None)]
    def norm(ex, st, ins, a):
        """contract proved by the unit normalise; ghost: the value is shifted"""
        mine(st, a[0]); g = G(st)
        if g.get('head') is not None: raise Unsupported('order of the scaling steps')
        A = total(words(ex, st, a[0])); ob(st, z3.And(A >= 1, A < 2 * T124), 'pre(shift_left_msb_to_index):operand'); ob(st, bv(a[1]) == 124, 'pre(shift_left_msb_to_index):index')
        k = fresh('k', 8); reg_range(str(k), 0, 124); B = setwords(ex, st, a[0]); st.assume(z3.And(k >= 0, k <= 124, B >= T124, B < 2 * T124))
        put(st, be=g['be'] - k, cur=B); return [(st, k)]
    for n, h in (('left1', mul(1)), ('left2', mul(2)), ('add', addw), ('mask', has), ('right', right), ('div10', div), ('norm', norm)): ex.contracts.append((re.compile(PRIM[n]), h, 'contract'))
    def be_range(st, lo, hi): st.assume(z3.And(G(st)['be'] >= lo, G(st)['be'] <= hi))
    def inv(st, which, d, be, A, p, m):
        ab = z3.If(p >= 0, p, -p)
        return z3.And(p == e - d, m >= 0, m <= 10 * ab, A >= 1, A < (T124 if which == 0 else 2 * T124),
                      z3.If(e > 0, z3.And(d >= 0, d <= e) if which == 0 else d == 0, d == e if which == 0 else z3.And(d >= e, d <= 0)), e >= -343, e <= 308)
    def phis(fr, h): return [i['id'] for i in fr.fn.blocks[h] if i['op'] == 'phi']
    def pick(st, fr, h):
        g = inloop(st); ids = phis(fr, h); d = g['d'] if g['d'] is not None else ev
        D = [i for i in ids if same(fr.loc[i], d)]; 
        return ids, D
    def policy(ex, st, fr, h):
        if 'g' not in st.ghost: return None
        ids, D = pick(st, fr, h); g = G(st)
        if len(ids) == 1 and not D: return True            # the halving loop inside
        if len(ids) != 2 or len(D) != 1 or len(g['cut']) > 1: raise Unsupported('shape of the scaling loops')
        di = D[0]; bi = [i for i in ids if i != di][0]; which = len(g['cut'])
        A = total(words(ex, st, g['ptr'])); ob(st, A == g['cur'], 'scaling:changed-only-by-the-scaling-steps')
        ob(st, inv(st, which, sg(ex, fr.loc[di]), None, A, g['p'], g['m']), 'scaling:invariant-%d-initially' % which)
        if not ex.must(st, sg(ex, fr.loc[bi]) == g['be']): raise Unsupported('binary exponent of the scaling loops')
        dv = z3.Int('d!%d' % next(core._fresh)); reg_range(str(dv), -343, 308); bev = z3.Int('be!%d' % next(core._fresh)); reg_range(str(bev), -1300, 1300); mv = z3.Int('m!%d' % next(core._fresh)); reg_range(str(mv), 0, 3500)
        fr.loc[di] = ex.sname(st, dv, 32, 'd'); fr.loc[bi] = ex.sname(st, bev, 32, 'be')
        B = setwords(ex, st, g['ptr'])
        put(st, d=fr.loc[di], be=bev, m=mv, p=e - dv, cut=g['cut'] + ((h, di, bi),), head=B if which == 0 else None, cur=B)
        # be: X = S * 10^p lies between 10^-343 and 2^64 * 10^308, and Z between 1 and 2^126
        st.assume(z3.And(inv(st, which, dv, bev, B, e - dv, mv), bev >= -1300, bev <= 1300))
        return True
    def back(st, fr, h):
        if 'g' not in st.ghost: return
        g = G(st)
        hit = [(k, x) for k, x in enumerate(g['cut']) if x[0] == h]
        if not hit: return
        which, (h, di, bi) = hit[0]
        if which == 0: sync(st)
        g = G(st); A = total(words(ex, st, g['ptr'])); ob(st, A == g['cur'], 'scaling:changed-only-by-the-scaling-steps'); d2 = sg(ex, fr.loc[di])
        ob(st, inv(st, which, d2, None, A, g['p'], g['m']), 'scaling:invariant-%d-preserved' % which)
        ob(st, sg(ex, fr.loc[bi]) == g['be'], 'scaling:binary-exponent-%d' % which)
        d0 = sg(ex, g['d']); ob(st, d2 == d0 - 1 if which == 0 else d2 == d0 + 1, 'scaling:terminates')
        raise PathEnd()
    ex.unroll_policy = policy; ex.header_hook = back
    def settle(ex, st, ins, a):
        """contract proved by the unit settle-midpoint"""
        mine(st, a[0]); g = G(st); A = total(words(ex, st, a[0]))
        ob(st, z3.And(A >= T124, A < 2 * T124), 'pre(settle_midpoint):normalised'); ob(st, z3.And(g['p'] == e, g['m'] <= 3500), 'pre(settle_midpoint):scaled')
        ob(st, z3.And(c + e - 1 >= -324, c + e - 1 <= 308), 'pre(settle_midpoint):magnitude')
        be_range(st, -1077, 1026)          # 10^-324 <= X < 10^309 and 2^be <= X < 2^(be+1) * (1 + 2^-100)
        ob(st, z3.And(bv(a[1]) == S, sg(ex, a[2]) == e, sg(ex, a[3]) == g['be'] + 1023, sg(ex, a[4]) == 1023), 'pre(settle_midpoint):arguments')
        B = setwords(ex, st, a[0]); st.assume(z3.And(B >= 0, B < 4 * T124, z3.Implies(g['be'] + 1023 > 0, z3.And(B >= T124, B < 2 * T124)))); put(st, settled=True, cur=B); return [(st, None)]
    ex.contracts.append((re.compile(PRIM['settle']), settle, 'contract'))
    def copy(kind):
        def h(ex, st, ins, a):
            """contract proved by the unit round-to-bits"""
            mine(st, a[0]); g = G(st); x = sg(ex, a[1]); ob(st, g['settled'], 'pre(copy):midpoint-settled')
            ob(st, z3.And(x == g['be'] + 1023, x >= 1, x <= 2046) if kind == 'normal' else z3.And(x == g['be'] + 1023, x >= -54, x <= 0), 'pre(copy):binary-exponent')
            ob(st, zbool(a[2]) == (neg == 1), 'pre(copy):sign')
            r = fresh('bits', 64); ex.store(st, a[3], r, ['i', 64]); put(st, out=r, kind=kind); return [(st, None)]
        return h
    ex.contracts.append((re.compile(PRIM['normal']), copy('normal'), 'contract')); ex.contracts.append((re.compile(PRIM['denormal']), copy('denormal'), 'contract'))
    def post(ex, st, rv):
        if 'g' not in st.ghost: return              # convert-fast and convert-range
        g = G(st)
        if 'out' in g: ob(st, same(rv, g['out']) or bv(rv) == g['out'], 'post:the-rounded-value')
        else: ob(st, z3.And(g['be'] >= 1024, bv(rv) == neg * (1 << 63) + fbits(float('inf'), 64), g['p'] == e), 'post:infinite-only-from-2^1024')
    run_function(ex, mod.find1(CTN), [Ptr('ps', 0)], st, post)
    return ex
UNITS = {'scaling': unit_scale, 'two-word-operations': unit_prims, 'normalise': unit_norm, 'settle-midpoint': unit_settle, 'round-to-bits': unit_copy}
