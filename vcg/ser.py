"""Contracts of the serializer.

Output buffers: the current buffer is the region 'ob' (a new one replaces it when the application supplies it).  Ghost cells:
W bytes of the data stored so far, fill bytes stored in the current buffer, cap its size.  A copy into the buffer must continue
where the previous one ended, inside the buffer, with the next bytes of the data."""
from spec import *
from stdmodel import *
import stdmodel
I = z3.IntVal
GW, GF, GC, GP = 0, 8, 16, 24

class Ser:
    def __init__(self, mod, deadline):
        self.mod = mod; self.ex = ex = install(new_engine(mod, deadline)); self.st = st = State()
        self.T = enum(mod, 'JS::Type'); self.STY = enum(mod, 'JS::SerializerOptions::Style')
        self.L = Layout(mod, 'JS::Serializer'); self.B = Layout(mod, 'JS::SerializerBuffer'); self.O = Layout(mod, 'JS::SerializerOptions'); self.TK = Layout(mod, 'JS::Token'); self.DR = Layout(mod, 'JS::DataRef')
        st.newreg('ser', 'cells', self.L.size, lazy=True); self.bo = self.L.off('m_current_buffer'); self.oo = self.L.off('m_option')
        self.cap0 = intvar('cap', 64, MAXBUF); self.used0 = intvar('used', 64); st.assume(self.used0 <= self.cap0)
        setcell(st, 'ser', self.bo + self.B.off('buffer'), 8, Ptr('ob', 0)); setcell(st, 'ser', self.bo + self.B.off('size'), 8, self.cap0); setcell(st, 'ser', self.bo + self.B.off('used'), 8, self.used0)
        r = st.newreg('ob', 'sink', None); r.info['copy'] = self.copy; r.info['store'] = self.store
        st.newreg('gh', 'cells', 32)
        for o, v in ((GW, 0), (GF, self.used0), (GC, self.cap0), (GP, 0)): setcell(st, 'gh', o, 8, v)
        self.has = z3.Bool('has_callback')
        F = r'^std::function<void \(JS::Serializer&\)>::operator'
        ex.contracts.append((re.compile(F + r' bool\(\) const$'), lambda ex, s, ins, a: [(s, self.has)], 'model'))
        ex.contracts.append((re.compile(F + r'\(\)\(JS::Serializer&\) const$'), self.callback, 'contract'))
        self.prog(st)
    def g(self, s, o): return s.mem['gh'].cells[o][1]
    def sg(self, s, o, v): setcell(s, 'gh', o, 8, v)
    def cell(self, s, f): return getcell(self.ex, s, 'ser', self.bo + self.B.off(f), 8)
    def prog(self, s): self.sg(s, GP, simp(2 * bv(self.g(s, GW)) + z3.If(bv(self.g(s, GF)) < bv(self.g(s, GC)), I(1), I(0))))
    def callback(self, ex, s, ins, a):
        ex.oblige(s, isinstance(a[1], Ptr) and a[1].reg == 'ser' and same(a[1].off, 0), 'pre(request-buffer-callback):this-serializer')
        ex.oblige(s, simp(eq(self.g(s, GF), self.g(s, GC))), 'pre(request-buffer-callback):previous-buffer-is-full')
        t = s.fork()
        n = fresh('newcap', 64); t.assume(n <= MAXBUF)
        o = self.bo
        setcell(t, 'ser', o + self.B.off('buffer'), 8, Ptr('ob', 0)); setcell(t, 'ser', o + self.B.off('size'), 8, n); setcell(t, 'ser', o + self.B.off('used'), 8, 0)
        self.sg(t, GF, 0); self.sg(t, GC, n); self.prog(t)
        return [(s, None), (t, None)]
    def put(self, ex, s, off, n):
        """n bytes are stored at offset off of the current buffer"""
        f = self.g(s, GF)
        ex.oblige(s, simp(b_or(eq(n, 0), eq(off, f))), 'store:continues-the-output'); ex.oblige(s, simp(b_or(eq(n, 0), ule(add(f, n), self.g(s, GC)))), 'store:inside-the-output-buffer')
        self.sg(s, GF, add(f, n))
    def copy(self, ex, s, d, src, n):
        self.put(ex, s, d.off, n)
        w = self.g(s, GW)
        ex.oblige(s, simp(b_or(eq(n, 0), b_and(src.reg == 'buf', eq(src.off, w)))), 'store:next-bytes-of-the-data')
        ex.bounds(s, src, n, 'memcpy-src')
        self.sg(s, GW, add(w, n)); self.prog(s)
    def store(self, ex, s, off, n, v):
        self.put(ex, s, off, n)
        w = self.g(s, GW); b = s.mem['buf'].info['buf']
        for i in range(n): ex.oblige(s, simp(b_and(ult(add(w, i), b.size), eq(byte_of(v, i) if n > 1 else v, b.byte(add(w, i))))), 'store:next-bytes-of-the-data')
        self.sg(s, GW, add(w, n)); self.prog(s)

def unit_raw(mod, deadline, lit=None):
    c = Ser(mod, deadline); ex, st = c.ex, c.st
    b = add_buf(ex, st, 'buf', lit and lit[0])
    def cands(ex, st, ints, bools, vars_, depth, fixed):
        return [lambda s: bv(c.g(s, GP)) == 2 * bv(c.g(s, GW)) + z3.If(bv(c.g(s, GF)) < bv(c.g(s, GC)), I(1), I(0)), lambda s: bv(c.g(s, GF)) <= bv(c.g(s, GC)),
                lambda s: bv(c.g(s, GW)) <= b.size, lambda s: bv(c.cell(s, 'used')) == bv(c.g(s, GF)), lambda s: bv(c.cell(s, 'size')) == bv(c.g(s, GC))]
    ex.cand_hooks.append(cands)
    def post(ex, s, rv):
        rv = zb(rv); W = bv(c.g(s, GW)); used, size = bv(c.cell(s, 'used')), bv(c.cell(s, 'size'))
        size_ = bv(b.size)
        ex.oblige(s, simp(rv == (W == size_)), 'post:true-exactly-when-all-bytes-are-stored')
        ex.oblige(s, simp(W <= b.size), 'post:stored-a-prefix')
        ex.oblige(s, simp(used <= size), 'post:buffer-state-valid')
        ex.oblige(s, simp(z3.Implies(rv, z3.And(used == bv(c.g(s, GF)), size == bv(c.g(s, GC))))), 'post:used-is-what-was-stored')
        ex.oblige(s, simp(z3.Implies(z3.Not(rv), used == size)), 'post:fails-only-without-room')
        p = s.mem['ser'].cells.get(c.bo + c.B.off('buffer')); ex.oblige(s, simp(z3.Implies(size > 0, z3.BoolVal(p is not None and isinstance(p[1], Ptr) and p[1].reg == 'ob' and same(p[1].off, 0)))), 'post:current-buffer')
    if lit:
        st.newreg('lit', 'cells', 8); setcell(st, 'lit', 0, 8, Ptr('buf', 0))
        run_function(ex, lit[1], [Ptr('ser', 0), Ptr('lit', 0)], st, post)
    else: run_function(ex, mod.find1(r'^JS::Serializer::write\(char const\*, unsigned long\)$'), [Ptr('ser', 0), Ptr('buf', 0), b.size], st, post)
    return ex
LIT = r'^bool JS::Serializer::write<(\d+)ul>\(JS::Internal::StringLiteral<\d+ul> const&\)$'
def unit_literals(mod, deadline):
    """write(StringLiteral<N>) for every N the library uses"""
    exs = [unit_raw(mod, deadline, (int(re.match(LIT, f.dem).group(1)), f)) for f in mod.find(LIT) if f.blocks is not None]
    if not exs: raise Unsupported('no literal writer')
    return exs
UNITS = {'raw-write': unit_raw, 'literal-write': unit_literals}

# ---------------- tokens ----------------
def seq_atoms(q):
    """bytes and runs of spaces a ghost sequence term denotes"""
    if q.eq(EMPTY): return []
    n = q.decl().name()
    if n == 'snoc': return seq_atoms(q.arg(0)) + [('b', simp(q.arg(1)))]
    if n == 'cat': return seq_atoms(q.arg(0)) + seq_atoms(q.arg(1))
    if n == 'repseq' and z3.is_int_value(q.arg(1)): return [('rep', q.arg(1).as_long(), q.arg(0))]
    return [('seq', q)]

class TokenSer(Ser):
    """the serializer against the contract of the raw write proved above"""
    def __init__(self, mod, deadline, use_typed=True):
        super().__init__(mod, deadline)
        if use_typed: self.ex.contracts.append((re.compile(r'^JS::Serializer::write\(JS::Type, JS::DataRef const&\)$'), self.typed, 'contract'))
        self.ex.contracts.append((re.compile(r'^JS::Serializer::write\(char const\*, unsigned long\)$'), self.raw, 'contract'))
        self.ex.contracts.append((re.compile(LIT), self.literal, 'contract'))
        self.st.ghost['out'] = (); self.st.ghost['failed'] = False
    def atoms(self, ex, s, p, n):
        if not is_z(n) and n == 0: return []
        r = ex.reg(s, p)
        if r is None: ex.oblige(s, simp(eq(n, 0)), 'pre(write):source-readable', detail=repr(p)); return []
        if r.kind == 'bytes': ex.bounds(s, p, n, 'pre(write):source'); return [('data', p.reg, p.off, n)]
        if r.kind == 'content':
            ex.oblige(s, simp(b_and(eq(p.off, 0), eq(n, r.info['len']))), 'pre(write):whole-string'); return seq_atoms(r.info['seq'])
        if is_z(n): raise ForkVal(n)
        ex.bounds(s, p, n, 'pre(write):source')
        return [('b', ex.load(s, Ptr(p.reg, add(p.off, k)), ['i', 8])) for k in range(n)]
    def ready(self, ex, s, a):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].reg == 'ser' and same(a[0].off, 0), 'pre(write):this-serializer')
        ex.oblige(s, simp(ule(self.cell(s, 'used'), self.cell(s, 'size'))), 'pre(write):buffer-state-valid')
        if not s.ghost['failed']: ex.oblige(s, simp(z3.And(bv(self.cell(s, 'used')) == bv(self.g(s, GF)), bv(self.cell(s, 'size')) == bv(self.g(s, GC)))), 'pre(write):used-is-what-was-stored')
    def emit(self, ex, s, at, empty):
        """all of the atoms are stored and the answer is true, or a proper prefix and the answer is false; after a failure nothing more is stored"""
        out = []; e = simp(empty) if is_z(empty) else empty
        def bufstate(t, full):
            size, used = fresh('size', 64), fresh('used', 64); t.assume(z3.And(used <= size, size <= MAXBUF, used == size if full else z3.BoolVal(True)))
            for o, v in (('buffer', Ptr('ob', 0)), ('size', size), ('used', used)): setcell(t, 'ser', self.bo + self.B.off(o), 8, v)
            self.sg(t, GF, used); self.sg(t, GC, size)
        if s.ghost['failed']:
            if e is not False:
                t = s.fork(); t.assume(e)
                if ex.feasible(t): t.ghost['out'] = t.ghost['out'] + tuple(at); out.append((t, True))
            if e is not True:
                s.assume(b_not(e))
                if ex.feasible(s): out.append((s, False))
            return out
        t = s.fork()
        s.ghost['out'] = s.ghost['out'] + tuple(at)
        if e is not True: bufstate(s, False)
        out.append((s, True))
        if e is not True:
            t.assume(b_not(e))
            if ex.feasible(t): t.ghost['out'] = t.ghost['out'] + tuple(at); t.ghost['failed'] = True; bufstate(t, True); out.append((t, False))
        return out
    def raw(self, ex, s, ins, a):
        self.ready(ex, s, a)
        p, n = a[1], ex.conc(s, a[2])
        return self.emit(ex, s, self.atoms(ex, s, p, n), eq(n, 0))
    def typed(self, ex, s, ins, a):
        """proved by the units typed-*: strings (and words, if converted) quoted, null as null, anything else as it is"""
        self.ready(ex, s, a)
        t = bv(a[1]); T = self.T; conv = bv(getcell(ex, s, 'ser', self.oo + self.O.off('m_convert_ascii_to_string'), 1)) != 0
        p = ex.load(s, Ptr(a[2].reg, add(a[2].off, self.DR.off('data'))), ['p']); n = ex.load(s, Ptr(a[2].reg, add(a[2].off, self.DR.off('size'))), ['i', 64])
        q = z3.Or(t == T['String'], z3.And(t == T['Ascii'], conv)); nul = t == T['Null']; out = []
        for cond, k in ((q, 0), (z3.And(z3.Not(q), nul), 1), (z3.And(z3.Not(q), z3.Not(nul)), 2)):
            x = s.fork(); x.assume(cond)
            if not ex.feasible(x): continue
            at = [('b', 34)] + self.atoms(ex, x, p, n) + [('b', 34)] if k == 0 else [('b', ord(ch)) for ch in 'null'] if k == 1 else self.atoms(ex, x, p, n)
            out += self.emit(ex, x, at, eq(n, 0) if k == 2 else False)
        return out
    def literal(self, ex, s, ins, a):
        n = int(re.search(r'write<(\d+)ul>', self.mod.funcs[ins['callee']['n']].dem).group(1))
        return self.raw(ex, s, ins, [a[0], ex.load(s, a[1], ['p']), n])
    def copy(self, ex, s, d, src, n):
        self.put(ex, s, d.off, n)
        s.ghost['out'] = s.ghost['out'] + tuple(self.atoms(ex, s, src, n))
    def store(self, ex, s, off, n, v):
        self.put(ex, s, off, n)
        s.ghost['out'] = s.ghost['out'] + tuple(('b', byte_of(v, i) if n > 1 else v) for i in range(n))

def strlit(t):
    v = StrVal(EMPTY, 0)
    for ch in t: v = StrVal(snoc(v.seq, ord(ch)), add(v.len, 1))
    return v
def spaces(s, n):
    q = stdmodel.reps_f(bv(n), I(32)); s.assume(z3.Implies(bv(n) == 0, q == EMPTY)); return StrVal(q, n)

def decide(ex, st, c, yes, no):
    c = simp(c) if is_z(c) else c
    if c is True: return yes(st)
    if c is False: return no(st)
    if ex.must(st, c): return yes(st)
    if ex.must(st, z3.Not(zb(c))): return no(st)
    s = st.fork(); s.assume(c); yes(s)
    s = st.fork(); s.assume(z3.Not(zb(c))); no(s)

def match(ex, s, out, want, complete):
    """the atoms written are those of the specification (a prefix of them unless complete)"""
    out, want = list(out), list(want)
    def fail(why): ex.oblige(s, False, 'post:output', detail=why)
    while want:
        w = want.pop(0)
        if w[0] == 'rep':
            if out and out[0][0] == 'rep' and out[0][1] == w[1]:
                ex.oblige(s, simp(eq(out[0][2], w[2])), 'post:output:indentation'); out.pop(0); continue
            k = 0
            while out and out[0][0] == 'b' and not is_z(out[0][1]) and out[0][1] == w[1]: out.pop(0); k += 1
            if not out and not complete: ex.oblige(s, simp(ule(k, w[2])), 'post:output:indentation'); return
            ex.oblige(s, simp(eq(w[2], k)), 'post:output:indentation'); continue
        if not out:
            if complete: fail('missing %s' % (w,))
            return
        o = out.pop(0)
        if o[0] == 'rep' and w[0] == 'b' or o[0] != w[0]:
            if o[0] == 'rep':
                ex.oblige(s, simp(eq(o[2], 0)), 'post:output:indentation'); want.insert(0, w); continue
            return fail('wrote %s where %s belongs' % (o, w))
        if o[0] == 'b': ex.oblige(s, simp(eq(o[1], w[1])), 'post:output:byte')
        elif o[0] == 'data': ex.oblige(s, b_and(o[1] == w[1], simp(b_and(eq(o[3], w[3]), b_or(eq(o[3], 0), eq(o[2], w[2]))))), 'post:output:%s-text' % w[1])
        else: return fail('unknown piece')
    for o in out:
        if o[0] == 'rep': ex.oblige(s, simp(eq(o[2], 0)), 'post:output:nothing-else')
        elif o[0] == 'data': ex.oblige(s, simp(eq(o[3], 0)), 'post:output:nothing-else')
        else: return fail('wrote %s at the end' % (o,))

def unit_token(style, delim):
    def unit(mod, deadline):
        c = TokenSer(mod, deadline); ex, st, T = c.ex, c.st, c.T
        pretty = style == 'Pretty'
        def opt(f, v): setcell(st, 'ser', c.oo + c.O.off(f), c.O.sz(f), v)
        depth = intvar('depth', 32, (1 << 30)); shift = intvar('shift', c.O.sz('m_shift_size') * 8, 255)
        opt('m_style', c.STY[style]); opt('m_depth', depth); opt('m_shift_size', shift)
        conv = intvar('conv', 8); st.assume(conv <= 1); opt('m_convert_ascii_to_string', conv)
        def S(f, v): setcell(st, 'ser', c.oo + c.O.off(f), 32, v)
        S('m_prefix', spaces(st, simp(depth * shift)) if pretty else strlit('')); S('m_postfix', strlit('\n' if pretty else '')); S('m_token_delimiter', strlit(delim)); S('m_value_delimiter', StrVal(z3.Const('vd', SeqS), intvar('vdl', 64, 100)))
        first, ts = intvar('first', 8), intvar('token_start', 8); st.assume(z3.And(first <= 1, ts <= 1))
        # a serializer that has written nothing yet is at the start of a value; a container has been opened wherever the depth is not zero
        st.assume(z3.Implies(first == 1, ts == 1))
        setcell(st, 'ser', c.L.off('m_first'), 1, first); setcell(st, 'ser', c.L.off('m_token_start'), 1, ts)
        st.newreg('token', 'cells', c.TK.size)
        vt, nt = intvar('vt', 8), intvar('nt', 8)
        vals = sorted(T.values()); st.assume(z3.Or(*[vt == k for k in vals])); st.assume(z3.Or(nt == T['String'], nt == T['Ascii']))
        nb, vb = add_buf(ex, st, 'name'), add_buf(ex, st, 'value')
        for f, b in (('name', nb), ('value', vb)): setcell(st, 'token', c.TK.off(f) + c.DR.off('data'), 8, Ptr(f, 0)); setcell(st, 'token', c.TK.off(f) + c.DR.off('size'), 8, b.size)
        setcell(st, 'token', c.TK.off('name_type'), 1, nt); setcell(st, 'token', c.TK.off('value_type'), 1, vt)
        isend = z3.Or(vt == T['ObjectEnd'], vt == T['ArrayEnd']); isstart = z3.Or(vt == T['ObjectStart'], vt == T['ArrayStart'])
        B = lambda t: [('b', ord(x)) for x in t]
        def quoted(t): return z3.Or(t == T['String'], z3.And(t == T['Ascii'], conv == 1))
        def post(ex, s, rv):
            rv = zb(rv); failed = s.ghost['failed']; out = s.ghost['out']
            def refuse(s): ex.oblige(s, simp(z3.Not(rv)), 'post:unbalanced-end-refused'); ex.oblige(s, len(out) == 0, 'post:unbalanced-end-writes-nothing')
            def ok(s):
                d = z3.If(isend, depth - 1, depth)
                ex.oblige(s, simp(rv == z3.BoolVal(not failed)), 'post:failure-reported')
                def sep(s): decide(ex, s, b_and(ts == 0, z3.Not(isend), delim != ''), lambda s: nl(s, B(delim)), lambda s: nl(s, []))
                def nl(s, w): decide(ex, s, b_and(pretty, first == 0), lambda s: ind(s, w + B('\n')), lambda s: ind(s, w))
                def ind(s, w): decide(ex, s, isend, lambda s: name(s, w + ([('rep', 32, simp((depth - 1) * shift))] if pretty else [])), lambda s: name(s, w + ([('rep', 32, simp(depth * shift))] if pretty else [])))
                def name(s, w): decide(ex, s, nb.size > 0, lambda s: decide(ex, s, quoted(nt), lambda s: value(s, w + B('"') + [('data', 'name', 0, nb.size)] + B('"') + B(': ' if pretty else ':')), lambda s: value(s, w + [('data', 'name', 0, nb.size)] + B(': ' if pretty else ':'))), lambda s: value(s, w))
                def value(s, w): decide(ex, s, quoted(vt), lambda s: fin(s, w + B('"') + [('data', 'value', 0, vb.size)] + B('"')), lambda s: decide(ex, s, vt == T['Null'], lambda s: fin(s, w + B('null')), lambda s: fin(s, w + [('data', 'value', 0, vb.size)])))
                def fin(s, w): match(ex, s, out, w, not failed)
                sep(s)
                if failed: return
                O = lambda f: getcell(ex, s, 'ser', c.oo + c.O.off(f), c.O.sz(f))
                ex.oblige(s, simp(z3.Implies(rv, bv(O('m_depth')) == z3.If(isend, depth - 1, z3.If(isstart, depth + 1, depth)))), 'post:depth-follows-brackets')
                ex.oblige(s, simp(z3.And(bv(O('m_style')) == c.STY[style], bv(O('m_shift_size')) == shift, bv(O('m_convert_ascii_to_string')) == conv)), 'post:options-unchanged')
                ex.oblige(s, simp(bv(getcell(ex, s, 'ser', c.L.off('m_first'), 1)) == 0), 'post:not-first-any-more')
                ex.oblige(s, simp((bv(getcell(ex, s, 'ser', c.L.off('m_token_start'), 1)) != 0) == isstart), 'post:start-flag')
                d2 = z3.If(isend, depth - 1, z3.If(isstart, depth + 1, depth))
                px = getstr(ex, s, Ptr('ser', c.oo + c.O.off('m_prefix')))
                if pretty:
                    pa = seq_atoms(px.seq)
                    def pre(k):
                        def f(s):
                            if not pa: ex.oblige(s, simp(eq(k * shift, 0)), 'post:prefix-is-the-indentation')
                            else: ex.oblige(s, len(pa) == 1 and pa[0][0] == 'rep' and pa[0][1] == 32 and simp(eq(pa[0][2], k * shift)), 'post:prefix-is-the-indentation')
                        return f
                    decide(ex, s, isend, pre(depth - 1), lambda s: decide(ex, s, isstart, pre(depth + 1), pre(depth)))
                else: ex.oblige(s, simp(eq(px.len, 0)), 'post:no-indentation')
                for f, t in (('m_postfix', '\n' if pretty else ''), ('m_token_delimiter', delim)):
                    ex.oblige(s, [a[1] for a in seq_atoms(getstr(ex, s, Ptr('ser', c.oo + c.O.off(f))).seq)] == [ord(x) for x in t], 'post:options-unchanged')
                ex.oblige(s, simp(z3.And(bv(c.cell(s, 'used')) == bv(c.g(s, GF)), bv(c.cell(s, 'size')) == bv(c.g(s, GC)), bv(c.cell(s, 'used')) <= bv(c.cell(s, 'size')))), 'post:used-is-what-was-stored')
            decide(ex, s, b_and(isend, depth <= 0), refuse, ok)
        run_function(ex, mod.find1(r'^JS::Serializer::write\(JS::Token const&\)$'), [Ptr('ser', 0), Ptr('token', 0)], st, post)
        return ex
    return unit
for _s in ('Compact', 'Pretty'):
    for _d, _n in ((',', 'delimiter'), ('', 'no-delimiter')): UNITS['token-%s-%s' % (_s.lower(), _n)] = unit_token(_s, _d)

def unit_typed(mod, deadline):
    """Serializer::write(Type, DataRef)"""
    c = TokenSer(mod, deadline, False); ex, st, T = c.ex, c.st, c.T
    conv = intvar('conv', 8); st.assume(conv <= 1); setcell(st, 'ser', c.oo + c.O.off('m_convert_ascii_to_string'), 1, conv)
    vb = add_buf(ex, st, 'value'); st.newreg('dr', 'cells', 16); setcell(st, 'dr', c.DR.off('data'), 8, Ptr('value', 0)); setcell(st, 'dr', c.DR.off('size'), 8, vb.size)
    vt = intvar('vt', 8); st.assume(z3.Or(*[vt == k for k in sorted(T.values())]))
    def post(ex, s, rv):
        failed = s.ghost['failed']; out = s.ghost['out']
        ex.oblige(s, simp(zb(rv) == z3.BoolVal(not failed)), 'post:failure-reported')
        q = z3.Or(vt == T['String'], z3.And(vt == T['Ascii'], conv == 1)); B = lambda t: [('b', ord(x)) for x in t]
        fin = lambda w: lambda s: match(ex, s, out, w, not failed)
        decide(ex, s, q, fin(B('"') + [('data', 'value', 0, vb.size)] + B('"')), lambda s: decide(ex, s, vt == T['Null'], fin(B('null')), fin([('data', 'value', 0, vb.size)])))
        u, z = bv(c.cell(s, 'used')), bv(c.cell(s, 'size'))
        ex.oblige(s, simp(z3.And(u <= z, u == z) if failed else z3.And(u == bv(c.g(s, GF)), z == bv(c.g(s, GC)), u <= z)), 'post:buffer-state')
    run_function(ex, mod.find1(r'^JS::Serializer::write\(JS::Type, JS::DataRef const&\)$'), [Ptr('ser', 0), vt, Ptr('dr', 0)], st, post)
    return ex
UNITS['typed-write'] = unit_typed

# ---------------- options, construction, the growing output string of serializeStruct ----------------
def text(ex, s, p):
    """bytes of a modelled string with known contents, else None"""
    a = seq_atoms(getstr(ex, s, p).seq)
    return ''.join(chr(x[1]) for x in a) if all(x[0] == 'b' and not is_z(x[1]) for x in a) else None

def unit_options(mod, deadline):
    exs = []
    O = Layout(mod, 'JS::SerializerOptions'); STY = enum(mod, 'JS::SerializerOptions::Style')
    F = ('m_prefix', 'm_token_delimiter', 'm_value_delimiter', 'm_postfix')
    def start(style=None):
        ex = install(new_engine(mod, deadline)); st = State(); st.newreg('o', 'cells', O.size, lazy=True); exs.append(ex)
        depth, shift = intvar('depth', 32, 1 << 30), intvar('shift', 8 * O.sz('m_shift_size'), 255)
        if style is not None:
            setcell(st, 'o', O.off('m_depth'), 4, depth); setcell(st, 'o', O.off('m_shift_size'), O.sz('m_shift_size'), shift); setcell(st, 'o', O.off('m_style'), 1, STY[style])
            setcell(st, 'o', O.off('m_prefix'), 32, spaces(st, simp(depth * shift)) if style == 'Pretty' else strlit('')); setcell(st, 'o', O.off('m_postfix'), 32, strlit('\n' if style == 'Pretty' else ''))
            setcell(st, 'o', O.off('m_token_delimiter'), 32, strlit(',')); setcell(st, 'o', O.off('m_value_delimiter'), 32, strlit(':'))
        return ex, st, depth, shift
    def inv(ex, s, style, depth, shift, delim=','):
        g = lambda f: bv(getcell(ex, s, 'o', O.off(f), O.sz(f)))
        ex.oblige(s, simp(z3.And(g('m_style') == STY[style], g('m_depth') == depth, g('m_shift_size') == shift)), 'post:settings')
        a = seq_atoms(getstr(ex, s, Ptr('o', O.off('m_prefix'))).seq)
        if style == 'Pretty': ex.oblige(s, simp(eq(a[0][2], depth * shift)) if len(a) == 1 and a[0][:2] == ('rep', 32) else simp(eq(depth * shift, 0)) if not a else False, 'post:prefix-is-the-indentation')
        else: ex.oblige(s, simp(eq(getstr(ex, s, Ptr('o', O.off('m_prefix'))).len, 0)), 'post:no-indentation')
        ex.oblige(s, text(ex, s, Ptr('o', O.off('m_postfix'))) == ('\n' if style == 'Pretty' else ''), 'post:line-end')
        ex.oblige(s, text(ex, s, Ptr('o', O.off('m_token_delimiter'))) == delim, 'post:separator')
    C = 'JS::SerializerOptions::'
    for style in ('Pretty', 'Compact'):
        ex, st, _, _ = start()
        run_function(ex, mod.find1('^' + C + r'SerializerOptions\(JS::SerializerOptions::Style\)$'), [Ptr('o', 0), STY[style]], st, lambda ex, s, rv: inv(ex, s, style, I(0), I(2 if style == 'Pretty' else 0)))
        ex, st, depth, shift = start(style); d = intvar('d', 32, 1 << 30)
        run_function(ex, mod.find1('^' + C + r'setDepth\('), [Ptr('o', 0), d], st, lambda ex, s, rv: inv(ex, s, style, d, shift))
        for to in ('Pretty', 'Compact'):
            ex, st, depth, shift = start(style)
            run_function(ex, mod.find1('^' + C + r'setStyle\('), [Ptr('o', 0), STY[to]], st, lambda ex, s, rv: inv(ex, s, to, depth, shift))
        for skip in (True, False):
            ex, st, depth, shift = start(style)
            run_function(ex, mod.find1('^' + C + r'skipDelimiter\('), [Ptr('o', 0), skip], st, lambda ex, s, rv: inv(ex, s, style, depth, shift, '' if skip else ','))
    return exs
UNITS['options'] = unit_options

def unit_construct(mod, deadline):
    exs = []
    L = Layout(mod, 'JS::Serializer'); B = Layout(mod, 'JS::SerializerBuffer'); O = Layout(mod, 'JS::SerializerOptions')
    for which in ('default', 'buffer', 'setBuffer'):
        ex = install(new_engine(mod, deadline)); st = State(); st.newreg('ser', 'cells', L.size, lazy=which == 'setBuffer'); exs.append(ex)
        n = intvar('n', 64, MAXBUF); st.newreg('ob', 'sink', None)
        ex.contracts.append((re.compile(r'^std::function<void \(JS::Serializer&\)>::function\('), lambda ex, s, ins, a: [(s, None)], 'model'))
        def post(ex, s, rv):
            c = lambda f: s.mem['ser'].cells.get(L.off('m_current_buffer') + B.off(f), (8, 0))[1]
            size = bv(c('size') if c('size') is not None else 0)
            if which != 'default': ex.oblige(s, b_and(simp(eq(size, n)), simp(eq(c('used'), 0)), isinstance(c('buffer'), Ptr) and c('buffer').reg == 'ob' and same(c('buffer').off, 0)), 'post:buffer-in-use')
            else: ex.oblige(s, b_and(simp(eq(size, 0)), simp(eq(c('used'), 0))), 'post:no-buffer')
            if which != 'setBuffer':
                for f in ('m_first', 'm_token_start'): ex.oblige(s, simp(eq(getcell(ex, s, 'ser', L.off(f), 1), 1)), 'post:at-the-start')
                ex.oblige(s, simp(eq(getcell(ex, s, 'ser', L.off('m_option') + O.off('m_depth'), 4), 0)), 'post:at-depth-zero')
        rx = {'default': r'^JS::Serializer::Serializer\(\)$', 'buffer': r'^JS::Serializer::Serializer\(char\*, unsigned long\)$', 'setBuffer': r'^JS::Serializer::setBuffer\('}[which]
        run_function(ex, mod.find1(rx), [Ptr('ser', 0)] + ([] if which == 'default' else [Ptr('ob', 0), n]), st, post)
    return exs
UNITS['construct'] = unit_construct

def unit_context(mod, deadline):
    """SerializerContext: the callback doubles the string and hands out its new half; flush leaves exactly the bytes stored"""
    exs = []
    L = Layout(mod, 'JS::SerializerContext'); SL = Layout(mod, 'JS::Serializer'); B = Layout(mod, 'JS::SerializerBuffer')
    so = L.off('serializer') + SL.off('m_current_buffer')
    for which in ('grow', 'flush'):
        ex = new_engine(mod, deadline); st = State(); exs.append(ex)
        n = intvar('n', 64, MAXBUF); last = intvar('last', 64); cap = intvar('cap', 64); used = intvar('used', 64)
        # the current buffer is the last part of the string
        st.assume(z3.And(n > 0, last + cap == n, used <= cap))
        st.newreg('ctx', 'cells', L.size, lazy=True); st.newreg('js', 'cells', 32); setcell(st, 'js', 0, 32, StrVal(z3.Const('text', SeqS), n)); st.newreg('chars', 'sink', None)
        setcell(st, 'ctx', L.off('json_out'), 8, Ptr('js', 0)); setcell(st, 'ctx', L.off('last_pos'), 8, last)
        setcell(st, 'ctx', so + B.off('buffer'), 8, Ptr('chars', last)); setcell(st, 'ctx', so + B.off('size'), 8, cap); setcell(st, 'ctx', so + B.off('used'), 8, used)
        def resize(ex, s, ins, a): v = getstr(ex, s, a[0]); setstr(ex, s, a[0], StrVal(z3.Const('text!%d' % next(core._fresh), SeqS), a[1])); s.ghost['resizes'] = s.ghost.get('resizes', ()) + (a[1],); return [(s, None)]
        ex.contracts.append((re.compile('^' + stdmodel.S + r'resize\(unsigned long\)$'), resize, 'model'))
        def at(ex, s, ins, a): v = getstr(ex, s, a[0]); ex.oblige(s, simp(ule(a[1], v.len)), 'string-index-in-range'); return [(s, Ptr('chars', a[1]))]
        ex.contracts.append((re.compile('^' + stdmodel.S + r'(operator\[\]\(unsigned long\)( const)?)$'), at, 'model'))
        ex.contracts.append((re.compile('^' + stdmodel.S + r'(data|c_str|begin)\(\)( const)?$'), lambda ex, s, ins, a: [(s, Ptr('chars', 0))], 'model'))
        install(ex)
        def post(ex, s, rv):
            v = getstr(ex, s, Ptr('js', 0)); c = lambda f: s.mem['ctx'].cells[so + B.off(f)][1]; lp = bv(getcell(ex, s, 'ctx', L.off('last_pos'), 8))
            if which == 'grow':
                p = c('buffer')
                ex.oblige(s, isinstance(p, Ptr) and p.reg == 'chars' and simp(eq(p.off, n)), 'post:new-buffer-continues-the-text')
                ex.oblige(s, simp(z3.And(bv(c('size')) > 0, n + bv(c('size')) <= bv(v.len), bv(c('used')) == 0)), 'post:new-buffer-inside-the-string')
                ex.oblige(s, simp(z3.And(lp == n, lp + bv(c('size')) == bv(v.len))), 'post:position-of-the-new-buffer')
                ex.oblige(s, all(simp(ule(n, x)) is True or ex.must(s, ule(n, x)) for x in s.ghost.get('resizes', ())), 'post:text-kept')
            else:
                ex.oblige(s, simp(eq(v.len, last + used)), 'post:exactly-the-bytes-stored')
                ex.oblige(s, all(ex.must(s, ule(last + used, x)) for x in s.ghost.get('resizes', ())), 'post:text-kept')
        if which == 'grow':
            fn = mod.find1(r"^JS::SerializerContext::SerializerContext\(.*\)::'lambda'\(JS::Serializer&\)::operator\(\)\(JS::Serializer&\) const$")
            st.newreg('lam', 'cells', 8); setcell(st, 'lam', 0, 8, Ptr('ctx', 0))
            run_function(ex, fn, [Ptr('lam', 0), Ptr('ctx', L.off('serializer'))], st, post)
        else: run_function(ex, mod.find1(r'^JS::SerializerContext::flush\('), [Ptr('ctx', 0)], st, post)
    return exs
UNITS['context'] = unit_context
