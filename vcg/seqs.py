"""Contracts of the handlers for arrays of fixed size, tuples and containers (TypeHandler<...>::to / ::from), over any token sequence.

Ghost cells: PH phase of the array (object) being read: 0 nothing read, 1 first token of an element read and not consumed, 2 element
consumed, 3 end read, 5 error; CNT number of elements consumed; GE the error that occurred; NO/NS position and size of the current
name; VN number of elements stored in the container; DUP an element was refused by a set; PEND an element was read into a local
variable and is not stored yet.  The element handler stores elemval(k) for the k-th element, so that what ends up in a container is
known to be that element."""
from spec import *
from stdmodel import *
import stdmodel
from handlers import Ctx
I = z3.IntVal
PH, CNT, GE, NO, NS, VN, DUP, PEND = range(0, 64, 8)
elemval = z3.Function('elemval', z3.IntSort(), z3.IntSort())
MAXN = 1 << 40

class Seq:
    def __init__(self, mod, deadline, target, start='ArrayStart', end='ArrayEnd'):
        self.c = c = Ctx(mod, deadline); self.ex, self.st, self.T, self.E = c.ex, c.st, c.T, c.E; ex, st = c.ex, c.st; self.mod = mod
        self.tg = target
        self.txt = add_buf(ex, st, 'txt'); self.start, self.end = start, end
        st.newreg('v', 'cells', target['size'], lazy=True); st.newreg('vel', 'opaque', None)
        st.newreg('gh', 'cells', 64)
        for o in range(0, 64, 8): setcell(st, 'gh', o, 8, 0)
        n0 = intvar('old_size', 64, MAXN); setcell(st, 'gh', VN, 8, n0)
        self.eo = c.L.off('error'); self.es = c.L.sz('error'); setcell(st, 'ctx', self.eo, self.es, self.E['NoError'])
        self.is0 = c.vt == self.T[start]
        self.token(st, c.vt)
        self.contracts()
        ex.cand_hooks.append(self.cands); ex.unroll_policy = lambda ex, st, fr, h: False
    def g(self, s, o): return bv(s.mem['gh'].cells[o][1])
    def sg(self, s, o, v): setcell(s, 'gh', o, 8, v)
    def token(self, s, vt):
        c = self.c
        setcell(s, 'ctx', c.to + c.TK.off('value_type'), 1, vt); setcell(s, 'ctx', c.to + c.TK.off('name_type'), 1, fresh('nt', 8))
        o, n = fresh('vo', 64), fresh('vs', 64); s.assume(z3.And(o >= 0, n >= 0, o + n <= self.txt.size))
        setcell(s, 'ctx', c.to + c.TK.off('value') + c.DR.off('data'), 8, Ptr('txt', o)); setcell(s, 'ctx', c.to + c.TK.off('value') + c.DR.off('size'), 8, n)
        o, n = fresh('no', 64), fresh('ns', 64); s.assume(z3.And(o >= 0, n >= 0, o + n <= self.txt.size)); no = c.to + c.TK.off('name')
        setcell(s, 'ctx', no + c.DR.off('data'), 8, Ptr('txt', o)); setcell(s, 'ctx', no + c.DR.off('size'), 8, n)
        return o, n
    def settled(self, ex, s, where):
        ex.oblige(s, simp(eq(self.g(s, PEND), 0)), '%s:element-stored' % where)
        if 'container' in self.tg: ex.oblige(s, simp(self.g(s, VN) == self.g(s, CNT)), '%s:container-holds-the-elements-read' % where)
    def next(self, ex, s, ins, a):
        c, T, E = self.c, self.T, self.E
        ex.oblige(s, a[1].reg == 'ctx' and same(a[1].off, c.to), 'pre(nextToken):current-token')
        ex.oblige(s, simp(z3.Or(self.g(s, PH) == 0, self.g(s, PH) == 2)), 'pre(nextToken):previous-element-consumed-and-array-not-ended'); ex.oblige(s, self.is0, 'pre(nextToken):is-an-array')
        s.assume(z3.Or(self.g(s, PH) == 0, self.g(s, PH) == 2)); s.assume(self.g(s, CNT) < MAXN)
        if ex.feasible(s, [self.g(s, PH) == 2]):
            q = s.fork(); q.assume(self.g(q, PH) == 2); self.settled(ex, q, 'pre(nextToken)')
        e = s.fork(); d = s.fork()
        err = fresh('tokerr', 8); e.assume(z3.And(err > E['NoError'], err <= E['UserDefinedErrors'])); self.token(e, fresh('vt', 8)); self.sg(e, PH, 5); self.sg(e, GE, err)
        self.token(d, T[self.end]); self.sg(d, PH, 3)
        vt = fresh('vt', 8); s.assume(z3.And(vt != T['ObjectEnd'], vt != T['ArrayEnd'])); o, n = self.token(s, vt); self.sg(s, PH, 1); self.sg(s, NO, o); self.sg(s, NS, n)
        return [(s, E['NoError']), (d, E['NoError']), (e, err)]
    def elem(self, ty):
        def h(ex, s, ins, a):
            E = self.E; p = a[0]; k = self.g(s, CNT)
            ex.oblige(s, a[1].reg == 'ctx' and same(a[1].off, 0), 'pre(element):context')
            ex.oblige(s, simp(self.g(s, PH) == 1), 'pre(element):at-the-start-of-an-unconsumed-element')
            ex.oblige(s, simp(bv(getcell(ex, s, 'ctx', self.eo, self.es)) == E['NoError']), 'pre(element):no-error'); ex.oblige(s, simp(eq(self.g(s, PEND), 0)), 'pre(element):previous-element-stored')
            s.assume(k < MAXN)
            if not isinstance(p, Ptr): raise Unsupported('element address')
            if p.reg == 'v' and 'offsets' in self.tg:
                off = self.tg['offsets'](k, ty); n = self.tg['n']
                ex.oblige(s, simp(k < n), 'pre(element):target-has-room'); ex.oblige(s, simp(bv(p.off) == off), 'pre(element):in-its-place')
            elif p.reg == 'vel' and 'container' in self.tg:
                ex.oblige(s, simp(z3.And(self.g(s, VN) == k + 1, bv(p.off) == 8 * k)), 'pre(element):the-new-last-element')
            else:
                ex.store(s, p, elemval(k), ['i', 64]); self.sg(s, PEND, 1)
            self.sg(s, CNT, simp(k + 1))
            e = s.fork(); self.token(s, fresh('vt', 8)); self.sg(s, PH, 2); self.token(e, fresh('vt', 8))
            err = fresh('elemerr', 8); e.assume(err > E['NoError']); self.sg(e, PH, 5); self.sg(e, GE, err); setcell(e, 'ctx', self.eo, self.es, fresh('ctxerr', 8)); self.sg(e, PEND, 0)
            return [(s, E['NoError']), (e, err)]
        return h
    def last(self, ex, s, p, what):
        """*p is the element read last, which is not stored yet"""
        v = ex.load(s, p, ['i', 64])
        ex.oblige(s, simp(z3.Or(self.g(s, PH) == 5, z3.And(self.g(s, PEND) == 1, bv(v) == elemval(simp(self.g(s, CNT) - 1))))), what); self.sg(s, PEND, 0)
    def contracts(self):
        ex = self.ex; C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'contract')); M = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'model'))
        C(r'^JS::Tokenizer::nextToken\(JS::Token&\)$', self.next)
        for t in 'UVW': C(r'^JS::TypeHandler<%s(, void)?>::to\(' % t, self.elem(t))
        if 'container' not in self.tg: return
        at = self.tg['container']
        def chk(s, p):
            if not (isinstance(p, Ptr) and p.reg == 'v' and same(p.off, at)): raise Unsupported('another container')
        def grow(s): self.sg(s, VN, simp(self.g(s, VN) + 1))
        def lastp(s): return Ptr('vel', simp(8 * (self.g(s, VN) - 1)))
        VU = r'std::vector<U, std::allocator<U>>::'
        def clear(ex, s, ins, a): chk(s, a[0]); self.sg(s, VN, 0); return [(s, None)]
        def emplace(ex, s, ins, a):
            chk(s, a[0])
            if len(a) > 1: self.last(ex, s, a[1], 'pre(push_back):the-element-read-last')
            grow(s); return [(s, lastp(s))]
        def back(ex, s, ins, a): chk(s, a[0]); ex.oblige(s, simp(self.g(s, VN) > 0), 'pre(back):not-empty'); return [(s, lastp(s))]
        def push(ex, s, ins, a):
            # a value-initialised element may be pushed and then filled in
            chk(s, a[0]); v = ex.load(s, a[1], ['i', 64])
            if not (not is_z(v) and v == 0): self.last(ex, s, a[1], 'pre(push_back):the-element-read-last')
            grow(s); return [(s, None)]
        M('^' + VU + r'clear\(\)$', clear); M('^' + VU + r'reserve\(', lambda ex, s, ins, a: (chk(s, a[0]), [(s, None)])[1])
        M(VU + r'emplace_back<', emplace); M('^' + VU + r'back\(\)$', back); M('^' + VU + r'push_back\(', push)
        M('^' + VU + r'size\(\) const$', lambda ex, s, ins, a: (chk(s, a[0]), [(s, self.g(s, VN))])[1]); M('^' + VU + r'empty\(\) const$', lambda ex, s, ins, a: (chk(s, a[0]), [(s, simp(self.g(s, VN) == 0))])[1])
        SU = r'std::set<U, std::less<U>, std::allocator<U>>::'
        def insert(ex, s, ins, a):
            chk(s, a[0]); self.last(ex, s, a[1], 'pre(insert):the-element-read-last'); d = s.fork(); self.sg(d, DUP, 1); grow(s)
            return [(s, [Ptr('vel', 0), 1]), (d, [Ptr('vel', 0), 0])]
        M('^' + SU + r'clear\(\)$', clear); M('^' + SU + r'(insert\(|emplace<)', insert); M(SU + r'emplace<', insert)
        self.more(chk)
    def more(self, chk): pass
    def cands(self, ex, st, ints, bools, vars_, depth, fixed):
        c = self.c; out = []
        vtc = lambda s: bv(getcell(ex, s, 'ctx', c.to + c.TK.off('value_type'), 1))
        er = lambda s: bv(getcell(ex, s, 'ctx', self.eo, self.es))
        no = c.to + c.TK.off('name')
        for k in ((0,), (1,), (2,), (3,), (1, 3), (0, 2), (0, 1, 3), (2, 3), (1, 3, 5), (0, 1, 3, 5)): out.append(lambda s, k=k: z3.Or(*[self.g(s, PH) == x for x in k]))
        out.append(lambda s: z3.Implies(self.g(s, PH) != 5, (vtc(s) == self.T[self.end]) == (self.g(s, PH) == 3))); out.append(lambda s: (vtc(s) == self.T[self.end]) == (self.g(s, PH) == 3))
        out.append(lambda s: er(s) == self.g(s, GE)); out.append(lambda s: (self.g(s, PH) == 5) == (self.g(s, GE) != 0)); out.append(lambda s: (er(s) != 0) == (self.g(s, PH) == 5))
        out.append(lambda s: z3.Implies(self.g(s, GE) == 0, er(s) == 0)); out.append(lambda s: z3.Implies(self.g(s, PH) != 5, er(s) == 0))
        for o in (GE, DUP, PEND): out.append(lambda s, o=o: self.g(s, o) == 0)
        out.append(lambda s: self.g(s, CNT) == self.g(s, VN)); out.append(lambda s: self.g(s, CNT) >= 0)
        def nm(s):
            p = s.mem['ctx'].cells[no + c.DR.off('data')][1]; n = s.mem['ctx'].cells[no + c.DR.off('size')][1]
            return z3.And(bv(p.off) == self.g(s, NO), bv(n) == self.g(s, NS))
        out.append(lambda s: z3.Implies(self.g(s, PH) == 1, nm(s)))
        out.append(lambda s: z3.Implies(self.g(s, PH) == 1, z3.And(self.g(s, NO) >= 0, self.g(s, NS) >= 0, self.g(s, NO) + self.g(s, NS) <= self.txt.size)))
        out.append(lambda s: er(s) == 0); out.append(self.is0 if False else (lambda s: self.is0))
        for gx, reg, w, e, v in ints:
            if reg is None and w in (32, 64) and not (v.kind == 'cell' and v.key[0] == 'gh'):
                out.append(lambda s, gx=gx: eq(gx(s), self.g(s, CNT))); out.append(lambda s, gx=gx: add(gx(s), 1) == self.g(s, CNT))
                if 'n' in self.tg: out.append(lambda s, gx=gx: bv(gx(s)) <= self.tg['n'])
            if reg is None and w == 8: out.append(lambda s, gx=gx: eq(gx(s), self.g(s, GE)))
        if 'n' in self.tg:
            out.append(lambda s: self.g(s, CNT) <= self.tg['n'])
            if self.tg.get('size_off') is not None:
                sz = lambda s: bv(getcell(ex, s, 'v', self.tg['size_off'], 8))
                out.append(lambda s: z3.Implies(self.g(s, CNT) > 0, sz(s) == self.g(s, CNT))); out.append(lambda s: z3.Implies(self.g(s, PH) == 3, sz(s) == self.g(s, CNT))); out.append(lambda s: sz(s) == self.g(s, CNT))
        return out

def array_target(mod, kind, n):
    if kind in ('A', 'S'): return dict(size=8 * n, n=n, offsets=lambda k, ty: simp(8 * k))
    if kind == 'V':
        L = Layout(mod, 'JS::ArrayVariableContent<U, %dUL>' % n if 'JS::ArrayVariableContent<U, %dUL>' % n in mod.types else 'JS::ArrayVariableContent<U, %dul>' % n if 'JS::ArrayVariableContent<U, %dul>' % n in mod.types else 'JS::ArrayVariableContent<U, %d>' % n); d = L.off('data')
        return dict(size=L.size, n=n, offsets=lambda k, ty: simp(8 * k + d), size_off=L.off('size'), var=True)
    types = 'UVW'[:n]
    return dict(size=8 * n, n=n, types=types, offsets=lambda k, ty: simp(z3.If(k == types.index(ty), I(8 * (n - 1 - types.index(ty)) if kind == 'T' else 8 * types.index(ty)), I(-1))))

def unit_array_to(kind, n):
    def unit(mod, deadline):
        tg = array_target(mod, kind, n); q = Seq(mod, deadline, tg); ex, st, E = q.ex, q.st, q.E
        if tg.get('var'): setcell(st, 'v', tg['size_off'], 8, intvar('old_count', 64))
        def post(ex, s, rv):
            rv = bv(rv); ok = rv == E['NoError']; ph, cnt = q.g(s, PH), q.g(s, CNT)
            ex.oblige(s, simp(z3.Implies(z3.Not(q.is0), z3.And(rv == E['ExpectedArrayStart'], ph == 0))), 'post:only-arrays')
            fits = cnt <= n if tg.get('var') else cnt == n
            ex.oblige(s, simp(z3.Implies(q.is0, ok == z3.And(ph == 3, fits))), 'post:accepted-exactly-with-the-right-number-of-elements')
            ex.oblige(s, simp(z3.Implies(q.is0, z3.Or(ph == 3, ph == 5, z3.And(ph == 1, cnt == n)))), 'post:stops-early-only-when-full-or-on-error')
            ex.oblige(s, simp(z3.Implies(ok, q.g(s, PEND) == 0)), 'post:elements-stored')
            if tg.get('var'): ex.oblige(s, simp(z3.Implies(ok, bv(getcell(ex, s, 'v', tg['size_off'], 8)) == cnt)), 'post:size-is-the-number-of-elements')
        run_function(ex, mod.find1(r'^h_to_%s%d\(' % (kind, n)), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit

# ---- writing ----
WS = 0      # 0 nothing written, 1 opening bracket written, 2 closing bracket written
class Out:
    def __init__(self, mod, deadline, target, brackets='[]', names=False):
        self.c = c = Ctx(mod, deadline); self.ex, self.st, self.T = c.ex, c.st, c.T; ex, st = c.ex, c.st; self.mod, self.tg, self.br, self.names = mod, target, brackets, names; self.total = None
        TK, DR = self.TK, self.DR = c.TK, c.DR
        st.newreg('v', 'cells', target['size'], lazy=True, ro=True); st.newreg('vel', 'opaque', None)
        st.newreg('gh', 'cells', 64)
        for o in range(0, 64, 8): setcell(st, 'gh', o, 8, 0)
        self.n0 = intvar('nm0n', 64, MAXBUF); st.newreg('nm0', 'bytes', self.n0, ro=True); st.mem['nm0'].f = bytefun('byte_nm0')
        self.nt0 = intvar('nt0', 8); setcell(st, 'token', TK.off('name') + DR.off('data'), 8, Ptr('nm0', 0)); setcell(st, 'token', TK.off('name') + DR.off('size'), 8, self.n0); setcell(st, 'token', TK.off('name_type'), 1, self.nt0)
        setcell(st, 'token', TK.off('value') + DR.off('data'), 8, Ptr('nm0', 0)); setcell(st, 'token', TK.off('value') + DR.off('size'), 8, fresh('vs0', 64)); setcell(st, 'token', TK.off('value_type'), 1, fresh('vt0', 8))
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'contract'))
        C(r'^JS::Serializer::write\(JS::Token const&\)$', self.write)
        for t in 'UVW': C(r'^JS::TypeHandler<%s(, void)?>::from\(' % t, self.elem(t))
        ex.cand_hooks.append(self.cands); ex.unroll_policy = lambda ex, st, fr, h: False
    def g(self, s, o): return bv(s.mem['gh'].cells[o][1])
    def sg(self, s, o, v): setcell(s, 'gh', o, 8, v)
    def nsize(self, s, a): return getcell(self.ex, s, a.reg, a.off + self.TK.off('name') + self.DR.off('size'), 8)
    def own_name(self, s, a):
        p = s.mem[a.reg].cells[a.off + self.TK.off('name') + self.DR.off('data')][1]
        return b_and(isinstance(p, Ptr) and p.reg == 'nm0' and same(p.off, 0), eq(self.nsize(s, a), self.n0), eq(getcell(self.ex, s, a.reg, a.off + self.TK.off('name_type'), 1), self.nt0))
    def write(self, ex, s, ins, a):
        T, TK, DR = self.T, self.TK, self.DR; t = a[1]
        ex.oblige(s, a[0].reg == 'ser', 'pre(write):serializer')
        vt = getcell(ex, s, t.reg, t.off + TK.off('value_type'), 1); p = s.mem[t.reg].cells[t.off + TK.off('value') + DR.off('data')][1]; n = getcell(ex, s, t.reg, t.off + TK.off('value') + DR.off('size'), 8)
        vt, n = ex.conc(s, vt), ex.conc(s, n)
        if is_z(vt) or is_z(n): raise Unsupported('token value')
        val = ''.join(chr(ex.load(s, Ptr(p.reg, add(p.off, k)), ['i', 8])) for k in range(n))
        st_, en = (('ArrayStart', 'ArrayEnd') if self.br == '[]' else ('ObjectStart', 'ObjectEnd'))
        if vt == T[st_]:
            ex.oblige(s, simp(b_and(self.g(s, WS) == 0, val == self.br[0], self.own_name(s, t))), 'pre(write):opening-bracket-first-under-the-own-name'); self.sg(s, WS, 1)
        elif vt == T[en]:
            ex.oblige(s, simp(b_and(self.g(s, WS) == 1, val == self.br[1], eq(self.nsize(s, t), 0))), 'pre(write):closing-bracket-last-without-a-name'); self.sg(s, WS, 2)
        else: ex.oblige(s, False, 'pre(write):only-the-brackets')
        return [(s, freshb('written'))]
    def elem(self, ty):
        def h(ex, s, ins, a):
            k = self.g(s, CNT); p, t = a[0], a[1]
            ex.oblige(s, simp(self.g(s, WS) == 1), 'pre(element):between-the-brackets'); ex.oblige(s, a[2].reg == 'ser', 'pre(element):serializer')
            if not self.names: ex.oblige(s, simp(eq(self.nsize(s, t), 0)), 'pre(element):without-a-name')
            ok = self.place(s, p, k, ty)
            ex.oblige(s, simp(ok), 'pre(element):elements-in-order'); self.sg(s, CNT, simp(k + 1))
            self.after(ex, s, t)
            return [(s, None)]
        return h
    def after(self, ex, s, t):
        # the handler leaves the value as it likes, the name empty or as it was, its type as it was or that of a string
        TK, DR = self.TK, self.DR; n = self.nsize(s, t)
        o = t.off + TK.off('name_type'); old = bv(getcell(ex, s, t.reg, o, 1)); nt = fresh('nt', 8); s.assume(z3.Or(nt == old, nt == self.T['String'])); setcell(s, t.reg, o, 1, nt)
        setcell(s, t.reg, t.off + TK.off('value_type'), 1, fresh('vt', 8)); setcell(s, t.reg, t.off + TK.off('value') + DR.off('size'), 8, fresh('vs', 64))
        m = fresh('ns', 64); s.assume(z3.Or(m == 0, m == bv(n))); setcell(s, t.reg, t.off + TK.off('name') + DR.off('size'), 8, m)
    def place(self, s, p, k, ty):
        if 'offsets' in self.tg: return b_and(p.reg == 'v', k < self.tg['n'], bv(p.off) == self.tg['offsets'](k, ty))
        return b_and(p.reg == 'vel', bv(p.off) == simp(self.tg['stride'] * k + self.tg['eoff']))
    def cands(self, ex, st, ints, bools, vars_, depth, fixed):
        out = [lambda s, k=k: self.g(s, WS) == k for k in (0, 1, 2)]
        nt = lambda s: bv(getcell(ex, s, 'token', self.TK.off('name_type'), 1))
        out.append(lambda s: nt(s) == self.T['String']); out.append(lambda s: z3.Or(nt(s) == self.T['String'], nt(s) == self.nt0))
        out.append(lambda s: eq(self.nsize(s, Ptr('token', 0)), 0)); out.append(lambda s: self.g(s, CNT) >= 0)
        if 'n' in self.tg: out.append(lambda s: self.g(s, CNT) <= bv(self.tg['n']))
        if self.total is not None: out.append(lambda s: self.g(s, CNT) <= bv(self.total))
        for gx, reg, w, e, v in ints:
            if reg is None and w in (32, 64) and not (v.kind == 'cell' and v.key[0] == 'gh'): out.append(lambda s, gx=gx: eq(gx(s), self.g(s, CNT)))
            if reg is not None and 'stride' in self.tg: out.append(lambda s, gx=gx: eq(gx(s), self.tg['stride'] * self.g(s, CNT)))
        return out
    def post(self, total):
        def post(ex, s, rv):
            ex.oblige(s, simp(self.g(s, WS) == 2), 'post:brackets-around-the-elements'); ex.oblige(s, simp(self.g(s, CNT) == bv(total)), 'post:every-element-once')
            ex.oblige(s, simp(eq(self.nsize(s, Ptr('token', 0)), 0)), 'post:no-name-left-behind')
        return post

def unit_array_from(kind, n):
    def unit(mod, deadline):
        tg = array_target(mod, kind, n); q = Out(mod, deadline, tg); ex, st = q.ex, q.st; total = n
        if tg.get('var'): total = intvar('size', 64); st.assume(total <= n); setcell(st, 'v', tg['size_off'], 8, total)
        q.total = total
        run_function(ex, mod.find1(r'^h_from_%s%d\(' % (kind, n)), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, q.post(total))
        return ex
    return unit
UNITS = {}; TERM_OK = {}
for _k, _ns in (('A', (1, 3, 999)), ('S', (1, 3, 999)), ('V', (1, 3, 999)), ('T', (1, 3)), ('J', (1, 3))):
    for _n in _ns: UNITS['read-%s%d' % (_k, _n)] = unit_array_to(_k, _n); UNITS['write-%s%d' % (_k, _n)] = unit_array_from(_k, _n)

# ---- containers ----
STRT = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
MAPT = r'std::map<%s, U, std::less<%s>, std::allocator<std::pair<%s const, U>>>' % (STRT, STRT, STRT)
decoded = z3.Function('decoded', z3.IntSort(), z3.IntSort(), SeqS); declen = z3.Function('declen', z3.IntSort(), z3.IntSort(), z3.IntSort())
encoded = z3.Function('encoded', SeqS, SeqS)
class MapSeq(Seq):
    def more(self, chk):
        ex = self.ex; M = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'model'))
        def dec(ex, s, ins, a):
            """units string-decode (P05) and decode-name (P06)"""
            p = ex.load(s, Ptr(a[0].reg, add(a[0].off, self.c.DR.off('data'))), ['p']); n = ex.load(s, Ptr(a[0].reg, add(a[0].off, self.c.DR.off('size'))), ['i', 64])
            if p.reg != 'txt': raise Unsupported('decoding another text')
            l = declen(bv(p.off), bv(n)); s.assume(z3.And(l >= 0, l <= MAXN)); setstr(ex, s, a[1], StrVal(decoded(bv(p.off), bv(n)), simp(l))); return [(s, None)]
        ex.contracts.append((re.compile(r'^JS::Internal::handle_json_escapes_in\('), dec, 'contract'))
        def key(ex, s, k):
            v = getstr(ex, s, k); ex.oblige(s, simp(v.seq == decoded(self.g(s, NO), self.g(s, NS))), 'pre(key):the-decoded-name-of-the-value')
        def index(ex, s, ins, a):
            chk(s, a[0]); key(ex, s, a[1]); ex.oblige(s, simp(z3.Or(self.g(s, PH) == 2, self.g(s, PH) == 5)), 'pre(key):of-the-value-just-read')
            if 'slot' in s.mem: del s.mem['slot']
            s.newreg('slot', 'cells', 8); setcell(s, 'slot', 0, 8, fresh('oldvalue', 64)); return [(s, Ptr('slot', 0))]
        M('^' + MAPT + r'::operator\[\]\(', index)
    def settled(self, ex, s, where):
        ok = 'slot' in s.mem
        ex.oblige(s, ok, '%s:value-stored-under-its-name' % where)
        if ok: ex.oblige(s, simp(bv(getcell(ex, s, 'slot', 0, 8)) == elemval(simp(self.g(s, CNT) - 1))), '%s:value-stored-under-its-name' % where)
    def elem(self, ty):
        h0 = super().elem(ty)
        def h(ex, s, ins, a):
            if 'slot' in s.mem: del s.mem['slot']
            r = h0(ex, s, ins, a)
            for q, _ in r: self.sg(q, PEND, 0)
            return r
        return h
def unit_container_to(which):
    def unit(mod, deadline):
        obj = which == 'Map'
        tg = dict(size=64, container=0); q = (MapSeq(mod, deadline, tg, 'ObjectStart', 'ObjectEnd') if obj else Seq(mod, deadline, tg)); ex, st, E = q.ex, q.st, q.E
        def post(ex, s, rv):
            rv = bv(rv); ok = rv == E['NoError']; ph, cnt, dup = q.g(s, PH), q.g(s, CNT), q.g(s, DUP)
            ex.oblige(s, simp(z3.Implies(z3.Not(q.is0), z3.And(rv == E['ExpectedObjectStart' if obj else 'ExpectedArrayStart'], ph == 0))), 'post:only-%s' % ('objects' if obj else 'arrays'))
            if not obj: ex.oblige(s, simp(z3.Implies(z3.Not(q.is0), q.g(s, VN) == z3.Int('old_size'))), 'post:otherwise-untouched')
            ex.oblige(s, simp(z3.Implies(q.is0, ok == z3.And(ph == 3, dup == 0))), 'post:accepted-exactly-at-the-end')
            ex.oblige(s, simp(z3.Implies(dup == 1, rv == E['DuplicateInSet'])), 'post:duplicates-reported'); ex.oblige(s, simp(z3.Implies(ph == 5, rv == q.g(s, GE))), 'post:errors-passed-on')
            ex.oblige(s, simp(z3.Implies(q.is0, z3.Or(ph == 3, ph == 5, dup == 1))), 'post:whole-value-consumed')
            if not obj: ex.oblige(s, simp(z3.Implies(ok, q.g(s, VN) == cnt)), 'post:container-holds-exactly-the-elements')
            ex.oblige(s, simp(z3.Implies(ok, q.g(s, PEND) == 0)), 'post:elements-stored')
        run_function(ex, mod.find1(r'^h_to_%s\(' % which), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit
for _w in ('Vec', 'Set', 'Map'): UNITS['read-' + _w] = unit_container_to(_w); TERM_OK['read-' + _w] = 'runs until the array or the input ends'

def unit_oneormany_to(mod, deadline):
    out = []
    for arr in (True, False):
        tg = dict(size=64, container=0); q = Seq(mod, deadline, tg); ex, st, E = q.ex, q.st, q.E
        st.assume(q.is0 if arr else z3.Not(q.is0))
        if not arr: q.sg(st, PH, 1); q.sg(st, VN, 0)
        def post(ex, s, rv, q=q, arr=arr):
            rv = bv(rv); ok = rv == E['NoError']; ph, cnt = q.g(s, PH), q.g(s, CNT)
            ex.oblige(s, simp(ok == (ph == (3 if arr else 2))), 'post:accepted-exactly-at-the-end'); ex.oblige(s, simp(z3.Implies(ph == 5, rv == q.g(s, GE))), 'post:errors-passed-on')
            ex.oblige(s, simp(z3.Implies(ok, z3.And(q.g(s, VN) == cnt, q.g(s, PEND) == 0))), 'post:container-holds-exactly-the-elements')
            if not arr: ex.oblige(s, simp(cnt == 1), 'post:the-value-is-the-one-element')
        run_function(ex, mod.find1(r'^h_to_OoM\('), [Ptr('v', 0), Ptr('ctx', 0)], st, post); out.append(ex)
    return out
UNITS['read-OoM'] = unit_oneormany_to

class ContOut(Out):
    def models(self, which, total):
        ex = self.ex; self.total = total; M = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'model')); stride = self.tg['stride']
        def chk(p):
            if not (isinstance(p, Ptr) and p.reg == 'v' and same(p.off, self.tg['container'])): raise Unsupported('another container')
        ct = {'Vec': r'std::vector<U, std::allocator<U>>', 'Set': r'std::set<U, std::less<U>, std::allocator<U>>', 'Map': MAPT}[which]
        M('^' + ct + r'::c?begin\(\) const$', lambda ex, s, ins, a: (chk(a[0]), [(s, Ptr('vel', 0))])[1]); M('^' + ct + r'::c?end\(\) const$', lambda ex, s, ins, a: (chk(a[0]), [(s, Ptr('vel', simp(stride * bv(total))))])[1])
        M('^' + ct + r'::size\(\) const$', lambda ex, s, ins, a: (chk(a[0]), [(s, total)])[1]); M('^' + ct + r'::empty\(\) const$', lambda ex, s, ins, a: (chk(a[0]), [(s, simp(bv(total) == 0))])[1])
        M('^' + ct + r'::front\(\) const$', lambda ex, s, ins, a: (chk(a[0]), ex.oblige(s, simp(bv(total) > 0), 'pre(front):not-empty'), [(s, Ptr('vel', self.tg['eoff']))])[2])
        def at(ex, s, ins, a): chk(a[0]); ex.oblige(s, simp(bv(a[1]) < bv(total)), 'pre(index):in-range'); return [(s, Ptr('vel', simp(8 * bv(a[1]))))]
        if which == 'Vec': M('^' + ct + r'::operator\[\]\(unsigned long\) const$', at)
        def inc(ex, s, ins, a):
            ex.oblige(s, simp(b_and(a[0].reg == 'vel', bv(a[0].off) < stride * bv(total))), 'pre(increment):not-at-the-end'); return [(s, Ptr('vel', add(a[0].off, stride)))]
        M(r'^std::_Rb_tree_increment\(', inc)
class MapOut(ContOut):
    """keys: any string; the name handed on with a value is the encoded key of its pair"""
    def models(self, total):
        super().models('Map', total); ex, st = self.ex, self.st
        self.P = Layout(self.mod, 'std::pair<const std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, U>') if False else None
        keyf = self.keyf = z3.Function('key', z3.IntSort(), SeqS); keylen = z3.Function('keylen', z3.IntSort(), z3.IntSort())
        def deref(ex, s, ins, a):
            p = ex.load(s, a[0], ['p']); k = fresh('idx', 64); ex.oblige(s, simp(b_and(p.reg == 'vel', bv(p.off) < 64 * bv(self.total))), 'pre(dereference):not-at-the-end')
            s.assume(64 * k == bv(p.off))
            r = 'pair!%d' % next(core._fresh); s.newreg(r, 'cells', 40, lazy=True); s.assume(z3.And(keylen(k) >= 0, keylen(k) <= MAXN)); setcell(s, r, 0, 32, StrVal(keyf(k), simp(keylen(k)))); s.ghost[r] = k
            return [(s, Ptr(r, 0))]
        ex.contracts.append((re.compile(r'^std::_Rb_tree_(const_)?iterator<std::pair<%s const, U>>::operator(->|\*)\(\) const$' % STRT), deref, 'model'))
        def enc(ex, s, ins, a):
            """unit string-encode (P06): the encoded text of the string, in the string itself or in the buffer"""
            v = getstr(ex, s, a[0]) if len(a) == 2 else None
            if v is None: raise Unsupported('calling convention')
            l = fresh('enclen', 64); s.assume(l <= MAXN); e = encoded(v.seq)
            q = s.fork(); q.assume(e == v.seq); p = content(ex, q, v)
            setstr(ex, s, a[1], StrVal(e, l)); p2 = content(ex, s, getstr(ex, s, a[1]))
            return [(s, [p2, l]), (q, [p, v.len])]
        ex.contracts.append((re.compile(r'^JS::Internal::handle_json_escapes_out\('), enc, 'contract'))
    def place(self, s, p, k, ty):
        if p.reg not in s.ghost: return False
        ex = self.ex; t = Ptr('token', 0); TK, DR = self.TK, self.DR
        np = s.mem['token'].cells[TK.off('name') + DR.off('data')][1]; n = self.nsize(s, t)
        if not (isinstance(np, Ptr) and np.reg in s.mem): return False
        seq, _ = ex.seq_append(s, EMPTY, np, n)
        ex.oblige(s, simp(seq == encoded(self.keyf(s.ghost[p.reg]))), 'pre(element):under-its-encoded-key'); nt = getcell(ex, s, 'token', TK.off('name_type'), 1)
        ex.oblige(s, simp(eq(nt, self.T['String'])), 'pre(element):name-quoted')
        return b_and(eq(p.off, 32), eq(s.ghost[p.reg], k))
def unit_container_from(which):
    def unit(mod, deadline):
        tg = dict(size=64, container=0, stride=8 if which == 'Vec' else 64, eoff=0 if which == 'Vec' else 32)
        q = (MapOut if which == 'Map' else ContOut)(mod, deadline, tg, '{}' if which == 'Map' else '[]', which == 'Map'); total = intvar('count', 64, MAXN)
        if which == 'Map': q.models(total)
        else: q.models(which, total)
        run_function(q.ex, mod.find1(r'^h_from_%s\(' % which), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], q.st, q.post(total))
        return q.ex
    return unit
for _w in ('Vec', 'Set', 'Map'): UNITS['write-' + _w] = unit_container_from(_w)

def unit_oneormany_from(mod, deadline):
    out = []
    for case in (0, 1, 2):
        tg = dict(size=64, container=0, stride=8, eoff=0); q = ContOut(mod, deadline, tg); total = intvar('count', 64, MAXN); q.models('Vec', total)
        q.st.assume(total == case if case < 2 else total >= 2)
        if case == 2: post = q.post(total)
        else:
            q.sg(q.st, WS, 1); q.names = True      # a single element is written under the own name, without brackets
            def place(s, p, k, ty, q=q): return b_and(p.reg == 'vel', eq(p.off, 0), eq(k, 0), q.own_name(s, Ptr('token', 0)))
            q.place = place
            def post(ex, s, rv, q=q, case=case): ex.oblige(s, simp(z3.And(q.g(s, WS) == 1, q.g(s, CNT) == case)), 'post:the-element-itself')
        run_function(q.ex, mod.find1(r'^h_from_OoM\('), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], q.st, post); out.append(q.ex)
    return out
UNITS['write-OoM'] = unit_oneormany_from
