"""Contracts of the byte scanners of JS::Tokenizer (findStringEnd, findNumberEnd, findAsciiEnd, skipComment,
findStartOfNextValue, findDelimiter, findTokenEnd), stated as folds over the bytes of the buffer.
One unit = one scanner in one build configuration; helpers are inlined from the IR of /repo's header."""
import time
from spec import *

I = z3.IntVal
def anyof(c, *xs):
    l = []
    for x in xs:
        if isinstance(x, tuple): l.append(z3.And(c >= x[0], c <= x[1]))
        elif isinstance(x, str): l.extend(c == ord(k) for k in x)
        else: l.append(c == x)
    return z3.Or(*l)
DIG = (0x30, 0x39); UP = (0x41, 0x5a); LO = (0x61, 0x7a)
def is_num(c): return anyof(c, DIG, '+-.eE')
def is_asc(c): return anyof(c, DIG, UP, LO, '_^`/.-')
def is_ws(c): return anyof(c, 0, 9, 10, 13, 32)
def is_quirk(c): return anyof(c, '\\/^_`.')      # silently skipped in front of a value

def str_fold():
    return Fold('S', 8, lambda s, c: z3.If(s == 2, I(2), z3.If(s == 1, I(0), z3.If(c == 0x5c, I(1), z3.If(c == 0x22, I(2), I(0))))), consts=(0, 1))
def count_fold(name, stop):
    """number of bytes satisfying stop before index i: equal at i and j iff none in [i,j)"""
    f = Fold(name, None, lambda s, c: z3.If(stop(c), s + 1, s))
    f.w = 64; f.f = z3.Function(name, z3.IntSort(), z3.IntSort()); f.relate = True
    f.mono = True; f.base = z3.Int('cur')
    return f

class Tok:
    """a symbolic JS::Tokenizer looking at one symbolic buffer"""
    def __init__(self, mod, deadline, budget=600):
        self.ex = ex = new_engine(mod, deadline)
        self.st = st = State()
        self.mod = mod
        self.b = add_buf(ex, st, 'buf')
        self.L = L = Layout(mod, 'JS::Tokenizer')
        st.newreg('tok', 'cells', L.size, lazy=True)
        dr = st.newreg('dr', 'cells', 16); dr.cells = {0: (8, Ptr('buf', 0)), 8: (8, self.b.size)}
        st.newreg('ca', 'cells', 8)
        self.cur = intvar('cur', 64)
        self.set('cursor_index', self.cur)
        st.assume(self.cur <= self.b.size)
        self.E = enum(mod, 'JS::Error'); self.T = enum(mod, 'JS::Type')
        self.esc = intvar('esc', 8); self.set('is_escaped', self.esc); st.assume(self.esc <= 1)
        self.flags = {}
    def set(self, f, v): setcell(self.st, 'tok', self.L.off(f), self.L.sz(f), v)
    def get(self, st, f): return getcell(self.ex, st, 'tok', self.L.off(f), self.L.sz(f))
    def setup_flags(self):
        """bit-field booleans of the tokenizer as separate symbolic bits"""
        L = self.L
        bits = {}
        names = ['allow_ascii_properties', 'allow_new_lines', 'allow_superfluous_comma', 'allow_comments', 'expecting_prop_or_anonymous_data', 'continue_after_need_more_data']
        for n in names:
            if n not in L.m: raise Unsupported('field ' + n)
            o, sz = L.m[n][0], L.m[n][1]
            b = z3.Bool('flag_' + n)
            self.flags[n] = (o, b)
            if sz == 1: bits.setdefault(o // 8, [False] * 8)[o % 8] = b
            else: setcell(self.st, 'tok', o // 8, 1, bv(b))
        for byte, bs in bits.items(): setcell(self.st, 'tok', byte, 1, Bits(bs))
    def flag(self, n): return self.flags[n][1]
    def flag_now(self, st, n):
        o, sz = self.L.m[n][0], self.L.m[n][1]
        v = getcell(self.ex, st, 'tok', o // 8, 1)
        if sz != 1: return simp(bv(v) != 0)
        if isinstance(v, int): return bool((v >> (o % 8)) & 1)
        if isinstance(v, Bits): return v.b[o % 8]
        return simp((v / (1 << (o % 8))) % 2 == 1)
    def container(self):
        """container_stack: a vector<Type> of symbolic length"""
        st = self.st
        self.csn = intvar('cs_n', 64, 1 << 40)
        r = st.newreg('cs', 'bytes', self.csn, ro=True); r.f = bytefun('cs_at', 8)
        self.cstop = r.f(bv(sub(self.csn, 1)))
        o = self.L.off('container_stack')
        setcell(st, 'tok', o, 8, Ptr('cs', 0)); setcell(st, 'tok', o + 8, 8, Ptr('cs', self.csn)); setcell(st, 'tok', o + 16, 8, Ptr('cs', self.csn))
    def frame(self, st, allowed):
        """every cell of the tokenizer not in allowed is unchanged"""
        ok = []
        al = set()
        for f in allowed:
            o = self.L.m[f][0] // 8
            al.update(range(o, o + max(1, self.L.sz(f))))
        r0 = self.r0
        r1 = st.mem['tok']
        for off, (n, v) in r1.cells.items():
            if off in al: continue
            a = r0.cells.get(off)
            if a is None:
                if r0.lazy: a = (n, lazy_init('tok', off, n))
                else: ok.append(False); continue
            if a[0] != n: ok.append(False); continue
            if same(a[1], v): continue
            if isinstance(v, (Ptr, FnPtr)) or isinstance(a[1], (Ptr, FnPtr)): ok.append(False); continue
            ok.append(bv(a[1]) == bv(v))
        return b_and(*ok)
    def run(self, name, args, post):
        fn = self.mod.find1(r'^JS::Tokenizer::%s\([^)]*\)$' % name)
        self.r0 = self.st.mem['tok'].clone(-1)
        run_function(self.ex, fn, args, self.st, post)
        return self.ex
    def ahead(self, st):
        c = st.mem['ca'].cells.get(0)
        return c[1] if c is not None else None

def unit_string(mod, deadline):
    k = Tok(mod, deadline); ex, st, b, cur = k.ex, k.st, k.b, k.cur
    S = str_fold(); b.folds = [S]
    st.assume(S.at(cur) == k.esc); inst(ex, st, b, cur)
    def post(ex, st, rv):
        e2 = k.get(st, 'is_escaped'); rv = simp(bv(rv)); c = k.ahead(st)
        more = z3.And(bv(rv) == k.E['NeedMoreData'], S.at(b.size) != 2, S.at(b.size) == bv(e2))
        good = False
        if c is not None and not isinstance(c, Undef):
            end = add(cur, c)
            good = z3.And(bv(rv) == k.E['NoError'], bv(c) >= 1, bv(end) <= b.size, S.at(sub(end, 1)) == 0, b.byte(sub(end, 1)) == 0x22, bv(e2) == 0)
        ex.oblige(st, simp(b_or(good, more)), 'post:string-ends-at-first-unescaped-quote')
        ex.oblige(st, k.frame(st, ['is_escaped']), 'frame')
    return k.run('findStringEnd', [Ptr('tok', 0), Ptr('dr', 0), Ptr('ca', 0)], post)

def unit_run(which):
    """maximal runs: findNumberEnd / findAsciiEnd"""
    def unit(mod, deadline):
        k = Tok(mod, deadline); ex, st, b, cur = k.ex, k.st, k.b, k.cur
        member = is_num if which == 'Number' else is_asc
        N = count_fold('NP', lambda c: z3.Not(member(c))); b.folds = [N]
        k.set('property_type', k.T[which])
        inst(ex, st, b, cur)
        def post(ex, st, rv):
            rv = simp(bv(rv)); c = k.ahead(st)
            more = z3.And(bv(rv) == k.E['NeedMoreData'], N.at(b.size) == N.at(cur))
            good = False
            if c is not None and not isinstance(c, Undef):
                end = add(cur, c)
                at = z3.And(bv(end) >= cur, bv(end) < b.size, N.at(end) == N.at(cur), z3.Not(member(b.byte(end))))
                good = z3.And(bv(rv) == k.E['NoError'], at)
                if which == 'Ascii':
                    good = z3.Or(z3.And(good, b.byte(end) != 0), z3.And(bv(rv) == k.E['NeedMoreData'], at, b.byte(end) == 0))
            ex.oblige(st, simp(b_or(good, more)), 'post:%s-is-the-maximal-run' % which.lower())
            ex.oblige(st, k.frame(st, []), 'frame')
        return k.run('find%sEnd' % which, [Ptr('tok', 0), Ptr('dr', 0), Ptr('ca', 0)], post)
    return unit

def unit_comment(mod, deadline):
    k = Tok(mod, deadline); ex, st, b, cur = k.ex, k.st, k.b, k.cur
    k.setup_flags()
    N = count_fold('NP', lambda c: c == 10); b.folds = [N]
    inst(ex, st, b, cur)
    anl = k.flag('allow_new_lines')
    def post(ex, st, rv):
        rv = simp(bv(rv)); c = k.ahead(st)
        more = z3.And(bv(rv) == k.E['NeedMoreData'], N.at(b.size) == N.at(cur))
        good = False
        if c is not None and not isinstance(c, Undef):
            nl = simp(bv(add(cur, c)) - z3.If(anl, I(0), I(1)))
            good = z3.And(bv(rv) == k.E['NoError'], bv(nl) >= cur, bv(nl) < b.size, N.at(nl) == N.at(cur), b.byte(nl) == 10)
        ex.oblige(st, simp(b_or(good, more)), 'post:comment-ends-at-first-newline')
        ex.oblige(st, k.frame(st, []), 'frame')
    return k.run('skipComment', [Ptr('tok', 0), Ptr('dr', 0), Ptr('ca', 0)], post)

# ---- scanners that skip white space and comments up to a significant byte ----
SCAN, COM, SL2 = 0, 1, 2
class SkipFold(Fold):
    """0 scanning, 1 inside a comment, 2 second slash of a comment opener, >=10 significant byte of that kind seen (absorbing)"""
    def __init__(self, b, comments, kind, kinds):
        self.name = 'S'; self.w = 8; self.consts = (SCAN, COM); self.relate = False
        self.f = bytefun('S', 8); self.b = b; self.comments = comments; self.kind = kind
        self.extra = [self.cand]; self.absorb = kinds
        self.base = z3.Int('cur'); self.base_state = SCAN
    def facts(self, i):
        """only the second slash of an opener is in state SL2"""
        return z3.Implies(self.at(i) == SL2, self.b.byte(i) == 0x2f)
    def open_at(self, i):
        b = self.b
        return z3.And(self.comments, b.byte(i) == 0x2f, bv(i) + 1 < b.size, b.byte(add(i, 1)) == 0x2f)
    def idle(self, i):
        """position i is being scanned (or is the newline that ends a comment)"""
        return z3.Or(self.at(i) == SCAN, z3.And(self.at(i) == COM, self.b.byte(i) == 10))
    def step_at(self, i):
        s = self.at(i); c = self.b.byte(i)
        scan = z3.If(self.open_at(i), I(SL2), self.kind(c))
        return z3.If(s >= 10, s, z3.If(s == SL2, I(COM), z3.If(z3.And(s == COM, c != 10), I(COM), scan)))
    def cand(self, ex, st, g, e, fo, ints, bools):
        return [lambda s, g=g: self.idle(g(s))]

def kinds(c, *rules):
    e = I(0)
    for cond, k in reversed(rules): e = z3.If(cond(c) if callable(cond) else anyof(c, cond), I(k), e)
    return e

def skip_unit(fname, setup, kind, nk, post, args, allowed):
    def unit(mod, deadline):
        k = Tok(mod, deadline); ex, st, b, cur = k.ex, k.st, k.b, k.cur
        k.setup_flags(); k.container()
        S = SkipFold(b, k.flag('allow_comments'), lambda c: kind(k, c), tuple(range(10, 10 + nk)))
        b.folds = [S]
        st.assume(S.at(cur) == SCAN)
        setup(k)
        inst(ex, st, b, cur)
        def on_ret(ex, st, rv):
            rv = simp(bv(rv)); c = k.ahead(st)
            cur2 = k.get(st, 'cursor_index')
            K = S.at(b.size)
            more = z3.And(bv(rv) == k.E['NeedMoreData'], K < 10)
            e = add(cur2, c) if c is not None and not isinstance(c, Undef) else None
            post(k, ex, st, rv, S, K, e, more)
            ex.oblige(st, k.frame(st, ['cursor_index'] + allowed), 'frame')
            ex.oblige(st, z3.And(bv(cur2) >= cur, bv(cur2) <= b.size), 'post:cursor-monotone')
        return k.run(fname, args, on_ret)
    return unit

def at_byte(k, S, e):
    """e is the position of the significant byte"""
    return z3.And(bv(e) >= k.cur, bv(e) < k.b.size, S.idle(e), z3.Not(S.open_at(e)))

START_KIND = lambda k, c: kinds(c, ('"', 10), ('{', 11), ('}', 12), ('[', 13), (']', 14),
    (lambda c: anyof(c, DIG, '+-'), 15), (lambda c: anyof(c, UP, LO), 16), (lambda c: z3.Not(z3.Or(is_ws(c), is_quirk(c))), 17))
START_TYPES = {10: 'String', 11: 'ObjectStart', 12: 'ObjectEnd', 13: 'ArrayStart', 14: 'ArrayEnd', 15: 'Number', 16: 'Ascii'}
def start_setup(k):
    k.st.newreg('ty', 'cells', 1)
    k.set('property_state', 0)
def start_post(k, ex, st, rv, S, K, e, more):
    alts = [more]
    t = st.mem['ty'].cells.get(0)
    if e is not None:
        byte = k.b.byte(e)
        for kk, nm in START_TYPES.items():
            if t is None or isinstance(t[1], Undef): continue
            alts.append(z3.And(bv(rv) == k.E['NoError'], K == kk, at_byte(k, S, e), START_KIND(k, byte) == kk, bv(t[1]) == k.T[nm]))
        alts.append(z3.And(bv(rv) == k.E['EncounteredIllegalChar'], K == 17, at_byte(k, S, e), START_KIND(k, byte) == 17))
    ex.oblige(st, simp(b_or(*alts)), 'post:value-starts-at-first-significant-byte')
unit_start = skip_unit('findStartOfNextValue', start_setup, START_KIND, 8, start_post, [Ptr('tok', 0), Ptr('ty', 0), Ptr('dr', 0), Ptr('ca', 0)], [])

DELIM_KIND = lambda k, c: kinds(c, (':', 10), (',', 11), (lambda c: z3.And(k.flag('allow_new_lines'), c == 10), 12), (']', 13), (lambda c: z3.Not(is_ws(c)), 14))
def delim_post(k, ex, st, rv, S, K, e, more):
    T, E = k.T, k.E
    ts = k.get(st, 'token_state'); TS = enum(k.mod, 'JS::Tokenizer::InTokenState')
    empty = bv(k.csn) == 0
    top = k.cstop
    same_ts = eq(ts, k.r0.cells[k.L.off('token_state')][1])
    obj, arr = top == T['ObjectStart'], top == T['ArrayStart']
    alts = [z3.And(empty, bv(rv) == E['IllegalPropertyType'], same_ts), z3.And(z3.Not(empty), more, same_ts),
            z3.And(z3.Not(empty), bv(rv) == E['ExpectedDelimiter'], same_ts, z3.Or(K == 14, z3.And(K == 10, z3.Not(obj)), z3.And(z3.Or(K == 11, K == 12, K == 13), z3.Not(arr))))]
    if e is not None:
        p = sub(e, 1); ne = z3.Not(empty); ok = bv(rv) == E['NoError']
        alts.append(z3.And(ne, ok, K == 10, obj, at_byte(k, S, p), k.b.byte(p) == 0x3a, eq(ts, TS['FindingData'])))
        alts.append(z3.And(ne, ok, z3.Or(K == 11, K == 12), arr, at_byte(k, S, p), DELIM_KIND(k, k.b.byte(p)) == K, eq(ts, TS['FindingName'])))
        alts.append(z3.And(ne, ok, K == 13, arr, at_byte(k, S, e), k.b.byte(e) == 0x5d, eq(ts, TS['FindingName'])))
    ex.oblige(st, simp(b_or(*alts)), 'post:delimiter-outcome')
def delim_setup(k): k.set('token_state', intvar('token_state0', 8))
unit_delim = skip_unit('findDelimiter', delim_setup, DELIM_KIND, 5, delim_post, [Ptr('tok', 0), Ptr('dr', 0), Ptr('ca', 0)], ['token_state'])

TEND_KIND = lambda k, c: kinds(c, (',', 10), (']}', 11), (lambda c: z3.And(k.flag('allow_new_lines'), c == 10), 12), (lambda c: z3.Not(is_ws(c)), 13))
def tend_post(k, ex, st, rv, S, K, e, more):
    E = k.E
    empty = bv(k.csn) == 0; ne = z3.Not(empty)
    x = k.flag('expecting_prop_or_anonymous_data'); x2 = zb(k.flag_now(st, 'expecting_prop_or_anonymous_data'))
    keep = x2 == x
    zero = True if k.ahead(st) is None else bv(k.ahead(st)) == 0
    alts = [z3.And(empty, bv(rv) == E['NoError'], keep, zb(zero)), z3.And(ne, more, keep)]
    if e is not None:
        p = sub(e, 1)
        alts.append(z3.And(ne, bv(rv) == E['NoError'], K == 10, x2, at_byte(k, S, p), k.b.byte(p) == 0x2c))
        alts.append(z3.And(ne, bv(rv) == E['NoError'], K == 11, keep, at_byte(k, S, e), TEND_KIND(k, k.b.byte(e)) == 11))
        alts.append(z3.And(ne, bv(rv) == E['NoError'], K == 12, keep, at_byte(k, S, p), TEND_KIND(k, k.b.byte(p)) == 12))
        alts.append(z3.And(ne, bv(rv) == E['InvalidToken'], K == 13, keep, at_byte(k, S, p), TEND_KIND(k, k.b.byte(p)) == 13))
    ex.oblige(st, simp(b_or(*alts)), 'post:token-end-outcome')
    # the other flags are untouched
    ex.oblige(st, simp(b_and(*[zb(k.flag_now(st, n)) == k.flag(n) for n in k.flags if n != 'expecting_prop_or_anonymous_data'])), 'frame-flags')
def tend_setup(k): pass
unit_tend = skip_unit('findTokenEnd', tend_setup, TEND_KIND, 4, tend_post, [Ptr('tok', 0), Ptr('dr', 0), Ptr('ca', 0)], ['expecting_prop_or_anonymous_data'])

UNITS = {'findStringEnd': unit_string, 'findNumberEnd': unit_run('Number'), 'findAsciiEnd': unit_run('Ascii'), 'skipComment': unit_comment,
         'findStartOfNextValue': unit_start, 'findDelimiter': unit_delim, 'findTokenEnd': unit_tend}
