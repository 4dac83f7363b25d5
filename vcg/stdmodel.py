"""Models (assumed contracts) of libstdc++/libc functions: std::string as (ghost sequence, length), memchr, memcmp, std::find.
Everything here is listed in the evidence as part of the trusted base when a unit uses it."""
from spec import *
S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'

class StrVal:
    """value of a std::string object; buf: region that holds its bytes (input strings only)"""
    is_ghost = True
    def __init__(self, seq, len_, buf=None): self.seq = seq; self.len = len_; self.buf = buf
    def same(self, o): return isinstance(o, StrVal) and self.seq.eq(o.seq) and same(self.len, o.len) and self.buf == o.buf
    def havoc(self, name):
        n = next(core._fresh)
        l = intvar('%s_len!%d' % (name, n), 64, 1 << 41)
        return StrVal(z3.Const('%s_seq!%d' % (name, n), SeqS), l, None)
    def terms(self): return [('len', 64, lambda v: v.len)]
    def copy_from_raw(self): raise Unsupported('raw copy of a std::string')
    def __repr__(self): return 'Str(%s,%s)' % (self.seq, self.len)

def getstr(ex, st, p):
    if not isinstance(p, Ptr) or is_z(p.off): raise Unsupported('string object at %r' % (p,))
    r = st.mem.get(p.reg)
    if r is None: raise Unsupported('string object in dead region')
    c = r.cells.get(p.off)
    if c is None or not isinstance(c[1], StrVal): raise Unsupported('not a modelled string: %s+%s' % (p.reg, p.off))
    return c[1]
def setstr(ex, st, p, v):
    if is_z(p.off): raise Unsupported('string object at symbolic offset')
    r = st.wreg(p.reg)
    c = r.cells.get(p.off)
    if c is None or not isinstance(c[1], StrVal):
        ex.clear_range(st, r, p.off, 32)
    r.cells[p.off] = (32, v)
def content(ex, st, v):
    """region that holds the bytes of v"""
    if v.buf is not None: return Ptr(v.buf, 0)
    if not is_z(v.len) and v.len == 0 and v.seq.eq(EMPTY): pass
    key = 'sc:%d' % v.seq.get_id()
    if key not in st.mem:
        r = st.newreg(key, 'content', v.len, ro=True)
        r.info['seq'] = v.seq; r.info['len'] = v.len
    return Ptr(key, 0)
def appended(ex, st, v, p, n):
    seq, _ = ex.seq_append(st, v.seq, p, n)
    return StrVal(seq, add(v.len, n))

def M(name):
    def d(f): HANDLERS.append((re.compile(name), f)); return f
    return d
HANDLERS = []
def one(st, v=None): return [(st, v)]

@M('^' + S + r'push_back\(char\)$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); setstr(ex, st, a[0], StrVal(snoc(v.seq, a[1]), add(v.len, 1))); return one(st)
@M('^' + S + r'operator\+=\(char\)$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); setstr(ex, st, a[0], StrVal(snoc(v.seq, a[1]), add(v.len, 1))); return one(st, a[0])
@M('^' + S + r'reserve\(unsigned long\)$')
def _(ex, st, ins, a): getstr(ex, st, a[0]); return one(st)
@M('^' + S + r'clear\(\)$')
def _(ex, st, ins, a): setstr(ex, st, a[0], StrVal(EMPTY, 0)); return one(st)
@M('^' + S + r'(size|length)\(\) const$')
def _(ex, st, ins, a): return one(st, getstr(ex, st, a[0]).len)
@M('^' + S + r'empty\(\) const$')
def _(ex, st, ins, a): return one(st, simp(eq(getstr(ex, st, a[0]).len, 0)))
@M('^' + S + r'(data|c_str)\(\)( const)?$')
def _(ex, st, ins, a): return one(st, content(ex, st, getstr(ex, st, a[0])))
@M('^' + S + r'begin\(\)( const)?$')
def _(ex, st, ins, a): return one(st, content(ex, st, getstr(ex, st, a[0])))
@M('^' + S + r'end\(\)( const)?$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); p = content(ex, st, v); return one(st, Ptr(p.reg, v.len))
@M('^' + S + r'operator\[\]\(unsigned long\)( const)?$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); p = content(ex, st, v)
    ex.oblige(st, simp(ule(a[1], v.len)), 'string-index-in-range'); return one(st, Ptr(p.reg, a[1]))
@M('^' + S + r'append\(char const\*, unsigned long\)$')
def _(ex, st, ins, a): v = getstr(ex, st, a[0]); setstr(ex, st, a[0], appended(ex, st, v, a[1], a[2])); return one(st, a[0])
@M('^' + S + r'append\(std::__cxx11::basic_string<.*const&\)$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); w = getstr(ex, st, a[1]); p = content(ex, st, w)
    setstr(ex, st, a[0], appended(ex, st, v, p, w.len)); return one(st, a[0])
@M(S + r'insert<char const\*, void>\(')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[0]); pos, f, l = a[1], a[2], a[3]
    p = content(ex, st, v)
    if pos.reg != p.reg: raise Unsupported('insert position')
    ex.oblige(st, simp(eq(pos.off, v.len)), 'insert-at-end')
    if f.reg != l.reg: raise Unsupported('insert range')
    n = sub(l.off, f.off)
    ex.oblige(st, simp(ule(0, n)), 'insert-range-valid')
    setstr(ex, st, a[0], appended(ex, st, v, f, n)); return one(st, pos)
@M('^' + S + r'basic_string\(\)$')
def _(ex, st, ins, a): setstr(ex, st, a[0], StrVal(EMPTY, 0)); return one(st)
@M('^' + S + r'basic_string\(std::__cxx11::basic_string<.*(const&|&&)\)$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[1]); setstr(ex, st, a[0], StrVal(v.seq, v.len, v.buf)); return one(st)
@M('^' + S + r'basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _(ex, st, ins, a): setstr(ex, st, a[0], appended(ex, st, StrVal(EMPTY, 0), a[1], a[2])); return one(st)
@M('^' + S + r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$')
def _(ex, st, ins, a):
    s = ex.cstr(st, a[1]); v = StrVal(EMPTY, 0)
    for c in s: v = StrVal(snoc(v.seq, ord(c)), add(v.len, 1))
    setstr(ex, st, a[0], v); return one(st)
reps_f = z3.Function('repseq', z3.IntSort(), z3.IntSort(), SeqS)     # n copies of a byte
@M('^' + S + r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$')
def _(ex, st, ins, a):
    n = a[1]
    if not is_z(n) and n == 0: setstr(ex, st, a[0], StrVal(EMPTY, 0)); return one(st)
    ex.oblige(st, simp(ule(n, 1 << 40)), 'string-length-sane')
    seq = reps_f(bv(n), bv(a[2])); st.assume(z3.Implies(bv(n) == 0, seq == EMPTY))
    setstr(ex, st, a[0], StrVal(seq, n)); return one(st)
@M('^' + S + r'~basic_string\(\)$')
def _(ex, st, ins, a):
    r = st.mem.get(a[0].reg)
    if r is not None and a[0].off in r.cells:
        w = st.wreg(a[0].reg); del w.cells[a[0].off]
    return one(st)
@M('^' + S + r'operator=\(std::__cxx11::basic_string<.*(const&|&&)\)$')
def _(ex, st, ins, a):
    v = getstr(ex, st, a[1]); setstr(ex, st, a[0], StrVal(v.seq, v.len, v.buf)); return one(st, a[0])
@M('^' + S + r'operator=\(char const\*\)$')
def _(ex, st, ins, a):
    s = ex.cstr(st, a[1]); v = StrVal(EMPTY, 0)
    for c in s: v = StrVal(snoc(v.seq, ord(c)), add(v.len, 1))
    setstr(ex, st, a[0], v); return one(st, a[0])
@M(r'^std::(__new_allocator|allocator)<char>::~?(allocator|__new_allocator)\(')
def _(ex, st, ins, a): return one(st)

# ---- libc / algorithms over a modelled buffer ----
def first_index(ex, st, r, p, n, pred_key, pred):
    """fresh index k in [0,n] such that no byte in [p,p+k) satisfies pred and (k == n or byte(p+k) does).  Uses the count
    fold of pred over the buffer (created on demand)."""
    b = r.info.get('buf')
    if b is None: raise Unsupported('search in region without buffer description')
    name = 'cnt_%s_%s' % (pred_key, b.rid)
    fo = next((f for f in b.folds if f.name == name), None)
    if fo is None:
        fo = Fold(name, None, lambda s, c: z3.If(pred(c), s + 1, s)); fo.w = 64
        fo.f = z3.Function(name, z3.IntSort(), z3.IntSort()); fo.relate = False
        b.folds = b.folds + [fo]
    k = fresh('first', 64)
    e = add(p.off, k)
    st.assume(z3.And(k >= 0, k <= bv(n)))
    st.assume(fo.at(e) == fo.at(p.off))
    inst(ex, st, b, e)
    st.assume(z3.Implies(k < bv(n), pred(b.byte(e))))
    for h in getattr(ex, 'search_hooks', []): h(ex, st, b, fo, p.off, e)
    return k
@M(r'^memchr$')
def _(ex, st, ins, a):
    p, c, n = a
    r = ex.bounds(st, p, n, 'memchr-range')
    if is_sym(c) or r.kind != 'bytes':
        if r.kind == 'cells' and not is_z(p.off) and not is_z(n) and n <= 64:
            # short table with known contents: first match
            out = []; none = []
            cc = c if not is_sym(c) else bv(c)
            if is_sym(c):
                cb = byte_of(c, 0)
            else: cb = c & 255
            prev = True
            alts = []
            for i in range(n):
                x = ex.load1(st, st.mem[p.reg], p.off + i, 1, ['i', 8])
                h = simp(eq(cb, x)) if is_sym(cb) or is_sym(x) else cb == x
                alts.append((b_and(prev, h), Ptr(p.reg, p.off + i))); prev = b_and(prev, b_not(h))
            alts.append((prev, NULL))
            res = []
            for cond, v in alts:
                if cond is False: continue
                if cond is not True and not ex.feasible(st, [cond]): continue
                s = st.fork(); s.assume(cond); res.append((s, v))
            return res
        raise Unsupported('memchr with symbolic byte')
    c &= 255
    k = first_index(ex, st, r, p, n, 'b%02x' % c, lambda x: x == c)
    s2 = st.fork()
    out = []
    if ex.feasible(st, [k < bv(n)]): st.assume(k < bv(n)); out.append((st, Ptr(p.reg, add(p.off, k))))
    if ex.feasible(s2, [k == bv(n)]): s2.assume(k == bv(n)); out.append((s2, NULL))
    return out
@M(r'^(std::)?(strlen|__builtin_strlen)$')
def _(ex, st, ins, a): return one(st, len(ex.cstr(st, a[0])))
@M(r'^(memcmp|bcmp)$')
def _(ex, st, ins, a):
    p, q, n = a; n = ex.conc(st, n)
    if is_z(n): raise ForkVal(n)
    if n == 0: return one(st, 0)
    ex.bounds(st, p, n, 'memcmp'); ex.bounds(st, q, n, 'memcmp')
    x = [ex.load1(st, st.mem[p.reg], add(p.off, i), 1, ['i', 8]) for i in range(n)]
    y = [ex.load1(st, st.mem[q.reg], add(q.off, i), 1, ['i', 8]) for i in range(n)]
    e = z3.IntVal(0)
    for u, v in reversed(list(zip(x, y))):
        e = z3.If(bv(u) == bv(v), e, z3.If(bv(u) < bv(v), z3.IntVal((1 << 32) - 1), z3.IntVal(1)))
    return one(st, simp(e))

def install(ex):
    ex.intercepts.extend(HANDLERS)
    return ex

def induct(ex, name, P, b, assume_inst, base):
    """lemma by induction over b >= base: P(base), and P(b) with the fold instances at b implies P(b+1); checked here."""
    s = z3.Solver(); s.set('timeout', 20000)
    for c in assume_inst(base): s.add(c)
    s.add(z3.Not(P(base)))
    ok = s.check() == z3.unsat
    s = z3.Solver(); s.set('timeout', 20000)
    s.add(b >= base, P(b))
    for c in assume_inst(b): s.add(c)
    s.add(z3.Not(P(b + 1)))
    r = s.check()
    ok = ok and r == z3.unsat
    ex.obls.append(Obl('lemma:' + name, 'specification', ok, 'unsat' if ok else str(r)))
    return ok
