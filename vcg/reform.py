"""JS::reformat: the tokens the tokenizer delivers are handed to the serializer one by one, each once and unchanged, until the tokenizer
reports an error; the text is what the serializer stored.

The k-th token is (TY, NT, NO, NS, VO, VS)(k); there are M tokens, then nextToken reports ERR.  Ghost cells: R tokens read, W tokens
written, SZ size of the output string, LAST / CAP / USED: where the current buffer starts in it, how long it is, how much is used.
The buffer callback is one more function under contract (second engine); write(Token) may run it any number of times."""
from spec import *
from stdmodel import *
import stdmodel
I = z3.IntVal
TY, NT = bytefun('TY', 8), bytefun('NT', 8)
NO_, NS_, VO, VS_ = (bytefun(n, 40) for n in ('NO', 'NS', 'VO', 'VS'))
R, W, SZ, CAP, USED, GEN, SET, END = 0, 8, 16, 24, 32, 40, 48, 56
STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
FN = r'std::function<void \(JS::Serializer&\)>::'

class Ref:
    def __init__(self, mod, deadline):
        self.mod = mod; self.ex = ex = install(new_engine(mod, deadline)); self.st = st = State(); self.T, self.E = enum(mod, 'JS::Type'), enum(mod, 'JS::Error')
        self.TK, self.DR, self.B = Layout(mod, 'JS::Token'), Layout(mod, 'JS::DataRef'), Layout(mod, 'JS::SerializerBuffer')
        st.newreg('gh', 'cells', 64); st.newreg('out', 'opaque', 32); st.newreg('txt', 'bytes', MAXBUF, ro=True); st.newreg('opt', 'opaque', None, ro=True); st.newreg('cb', 'cells', self.B.size, lazy=True)
        self.M, self.ERR = intvar('ntokens', 64, MAXBUF), intvar('final_error', 8); st.assume(self.ERR != self.E['NoError'])
        n = intvar('out_size', 64, MAXBUF)
        for o, v in ((R, 0), (W, 0), (SZ, n), (CAP, 0), (USED, 0), (GEN, 0), (SET, 0), (END, 0)): setcell(st, 'gh', o, 8, v)
        def C(rx, h, kind='contract'): ex.contracts.append((re.compile(rx), h, kind))
        self.C = C
        isout = lambda p: isinstance(p, Ptr) and p.reg == 'out' and same(p.off, 0)
        def chk(p):
            if not isout(p): raise Unsupported('another string')
        def size(ex, s, ins, a): return [(s, self.g(s, SZ))] if isout(a[0]) else [(s, getstr(ex, s, a[0]).len)]
        def empty(ex, s, ins, a): return [(s, simp(self.g(s, SZ) == 0) if isout(a[0]) else simp(eq(getstr(ex, s, a[0]).len, 0)))]
        def resize(ex, s, ins, a):
            chk(a[0]); n = bv(a[1]); ex.oblige(s, simp(n <= 1 << 60), 'resize:sane'); s.ghost['resized'] = (n, self.g(s, SZ)); self.sg(s, SZ, n); self.sg(s, GEN, simp(self.g(s, GEN) + 1)); return [(s, None)]
        def at(ex, s, ins, a):
            chk(a[0]); ex.oblige(s, simp(bv(a[1]) <= self.g(s, SZ)), 'index-in-range'); return [(s, self.content(s, a[1]))]
        C(STR + r'(size|length)\(\) const$', size, 'model'); C(STR + r'empty\(\) const$', empty, 'model'); C(STR + r'resize\(unsigned long\)$', resize, 'model'); C(STR + r'operator\[\]\(unsigned long\)', at, 'model')
        C(STR + r'(data|c_str)\(\)( const)?$', lambda ex, s, ins, a: [(s, self.content(s, 0) if isout(a[0]) else content(ex, s, getstr(ex, s, a[0])))], 'model')
        C(r'^JS::Serializer::setBuffer\(', self.setbuf)
    def g(self, s, o): return bv(s.mem['gh'].cells[o][1])
    def sg(self, s, o, v): setcell(s, 'gh', o, 8, v)
    def content(self, s, off):
        """the bytes of the output string; another region after every resize"""
        k = 'oc:%s' % simp(self.g(s, GEN))
        if k not in s.mem: s.newreg(k, 'opaque', None)
        s.ghost['oc'] = k; return Ptr(k, off)
    def setbuf(self, ex, s, ins, a):
        p, n = a[1], bv(a[2]); cur = 'oc:%s' % simp(self.g(s, GEN))
        ex.oblige(s, isinstance(p, Ptr) and p.reg == cur, 'pre(setBuffer):memory-of-the-output'); ex.oblige(s, simp(bv(p.off) + n == self.g(s, SZ)), 'pre(setBuffer):up-to-the-end-of-the-output')
        s.ghost['start'] = bv(p.off); self.sg(s, CAP, n); self.sg(s, USED, 0); setcell(s, 'cb', self.B.off('used'), 8, 0); self.sg(s, SET, simp(self.g(s, SET) + 1)); return [(s, None)]

def unit_reformat(which):
    def unit(mod, deadline):
        c = Ref(mod, deadline); ex, st, T, E, TK, DR, C, g, sg = c.ex, c.st, c.T, c.E, c.TK, c.DR, c.C, c.g, c.sg; Z = (0,)
        b = add_buf(ex, st, 'in'); st.newreg('ins', 'cells', 32); setcell(st, 'ins', 0, 32, StrVal(EMPTY, b.size, 'in')); nop = lambda ex, s, ins, a: [(s, None)]
        st.ghost.update(data=False, opt=False, fn=None, cbset=False); ex.ghost_frame = set(ex.ghost_frame) | {'data', 'opt', 'fn', 'cbset'}
        C(r'^JS::Tokenizer::~?Tokenizer\(\)$', nop); C(r'^JS::Serializer::~?Serializer\(\)$', nop); C(r'^std::_Function_base::~_Function_base\(\)$', nop, 'model'); C(r'^' + FN + r'~function\(\)$', nop, 'model')
        def add_data(ex, s, ins, a):
            ex.oblige(s, not s.ghost['data'] and isinstance(a[1], Ptr) and a[1].reg == 'in' and same(a[1].off, 0), 'pre(addData):the-text'); ex.oblige(s, simp(eq(a[2], b.size)), 'pre(addData):all-of-it'); ex.oblige(s, simp(g(s, R) == 0), 'pre(addData):before-reading'); s.ghost['data'] = (a[0].reg, a[0].off); return [(s, None)]
        C(r'^JS::Tokenizer::addData\(char const\*, unsigned long\)$', add_data)
        def opts(ex, s, ins, a): ex.oblige(s, isinstance(a[1], Ptr) and a[1].reg == 'opt' and same(a[1].off, 0), 'pre(setOptions):the-given-options'); ex.oblige(s, simp(g(s, W) == 0), 'pre(setOptions):before-writing'); s.ghost['opt'] = (a[0].reg, a[0].off); return [(s, None)]
        C(r'^JS::Serializer::setOptions\(', opts)
        def fctor(ex, s, ins, a):
            r = s.mem.get(a[1].reg); base = a[1].off; cl = [(o - base, v[1]) for o, v in sorted(r.cells.items()) if base <= o]
            if not cl or not all(isinstance(v, Ptr) for _, v in cl): raise Unsupported('closure')
            s.ghost['fn'] = tuple(cl); return [(s, None)]
        C(FN + r'function<', fctor, 'model')
        def setcb(ex, s, ins, a): ex.oblige(s, s.ghost['fn'] is not None, 'pre(setRequestBufferCallback):a-callback'); s.ghost['cbset'] = (a[0].reg, a[0].off); return [(s, None)]
        C(r'^JS::Serializer::setRequestBufferCallback\(', setcb)
        def nxt(ex, s, ins, a):
            ex.oblige(s, s.ghost['data'] == (a[0].reg, a[0].off), 'pre(nextToken):the-tokenizer-of-the-text'); k = g(s, R); ex.oblige(s, simp(k == g(s, W)), 'pre(nextToken):every-token-was-written'); ex.oblige(s, simp(g(s, END) == 0), 'pre(nextToken):not-after-an-error')
            out = []; o = s.fork()
            if ex.feasible(s, [k < c.M]):
                s.assume(k < c.M); sg(s, R, simp(k + 1)); p = a[1]
                st_ = lambda f, v, ty: ex.store(s, Ptr(p.reg, add(p.off, f)), v, ty)
                st_(TK.off('value_type'), TY(k), ['i', 8]); st_(TK.off('name_type'), NT(k), ['i', 8])
                for f, po, sz in (('name', NO_(k), NS_(k)), ('value', VO(k), VS_(k))): st_(TK.off(f) + DR.off('data'), Ptr('txt', po), ['p']); st_(TK.off(f) + DR.off('size'), sz, ['i', 64])
                out.append((s, E['NoError']))
            if ex.feasible(o, [k >= c.M]): o.assume(k >= c.M); sg(o, END, 1); out.append((o, c.ERR))
            return out
        C(r'^JS::Tokenizer::nextToken\(JS::Token&\)$', nxt)
        def lastp(s):
            l = [v for _, v in s.ghost['fn'] if not (v.reg == 'out')]
            if len(l) != 1: raise Unsupported('closure')
            return l[0]
        def write(ex, s, ins, a):
            me = (a[0].reg, a[0].off); ex.oblige(s, me == s.ghost['opt'], 'pre(write):options-set'); ex.oblige(s, me == s.ghost['cbset'], 'pre(write):more-room-can-be-asked-for'); ex.oblige(s, simp(g(s, SET) >= 1), 'pre(write):buffer-set'); ex.oblige(s, simp(g(s, CAP) > 0), 'pre(write):buffer-not-empty')
            k = g(s, W); ex.oblige(s, simp(k + 1 == g(s, R)), 'pre(write):a-token-once'); sg(s, W, simp(k + 1)); ld = lambda f, ty: ex.load(s, Ptr(a[1].reg, add(a[1].off, f)), ty)
            ex.oblige(s, simp(z3.And(bv(ld(TK.off('value_type'), ['i', 8])) == TY(k), bv(ld(TK.off('name_type'), ['i', 8])) == NT(k))), 'pre(write):the-token-read')
            for f, po, sz in (('name', NO_(k), NS_(k)), ('value', VO(k), VS_(k))):
                p = ld(TK.off(f) + DR.off('data'), ['p']); ex.oblige(s, isinstance(p, Ptr) and p.reg == 'txt' and simp(eq(p.off, po)), 'pre(write):the-token-read'); ex.oblige(s, simp(eq(ld(TK.off(f) + DR.off('size'), ['i', 64]), sz)), 'pre(write):the-token-read')
            t = s.fork(); u = fresh('used', 64); s.assume(z3.And(u >= g(s, USED), u <= g(s, CAP))); sg(s, USED, u); setcell(s, 'cb', c.B.off('used'), 8, u)
            # with the callback (its contract: engine 2), once or more
            n, l, u = fresh('size', 64), fresh('last', 64), fresh('used', 64); t.assume(z3.And(n >= 2 * g(t, SZ), n <= 1 << 58, l >= g(t, SZ), l < n, u <= n - l)); ex.store(t, lastp(t), l, ['i', 64]); sg(t, SZ, n); sg(t, CAP, simp(n - l)); sg(t, USED, u); sg(t, GEN, fresh('gen', 32)); setcell(t, 'cb', c.B.off('used'), 8, u)
            return [(s, freshb('ok')), (t, freshb('ok'))]
        C(r'^JS::Serializer::write\(JS::Token const&\)$', write); C(r'^JS::Serializer::currentBuffer\(\)', lambda ex, s, ins, a: [(s, Ptr('cb', 0))])
        def cands(ex, st, ints, bools, vars_, depth, fixed):
            last = lambda s: bv(ex.load(s, lastp(s), ['i', 64])); used = lambda s: bv(getcell(ex, s, 'cb', c.B.off('used'), 8))
            out = [lambda s: g(s, R) == g(s, W), lambda s: g(s, R) == g(s, W) + 1, lambda s: z3.And(g(s, R) <= c.M, g(s, R) >= 0), lambda s: last(s) + g(s, CAP) == g(s, SZ), lambda s: z3.And(g(s, USED) <= g(s, CAP), g(s, CAP) > 0), lambda s: used(s) == g(s, USED), lambda s: g(s, SZ) <= 1 << 58, lambda s: g(s, SET) == 1, lambda s: g(s, END) == 0]
            # loops that read the next token before they test for an error
            out += [lambda s: z3.And(g(s, END) >= 0, g(s, END) <= 1), lambda s: z3.Implies(g(s, END) == 1, z3.And(g(s, R) == c.M, g(s, R) == g(s, W))), lambda s: z3.Implies(g(s, END) == 0, g(s, R) == g(s, W) + 1)]
            prev = lambda s, f: f(g(s, R) - 1)
            for gx, reg, w, en, v in ints:
                if v.kind == 'cell' and v.key[0] in ('gh', 'cb'): continue
                if reg is None: out.append(lambda s, gx=gx: bv(gx(s)) == E['NoError']); out.append(lambda s, gx=gx: bv(gx(s)) == z3.If(g(s, END) == 1, c.ERR, I(E['NoError'])))
                for f in (((TY, NT) if w == 8 else (NS_, VS_)) if reg is None else (NO_, VO) if reg == 'txt' else ()): out.append(lambda s, gx=gx, f=f: z3.Implies(g(s, END) == 0, bv(gx(s)) == prev(s, f)))
            return out
        ex.cand_hooks.append(cands); ex.unroll_policy = lambda ex, st, fr, h: False
        def post(ex, s, rv):
            rv = bv(rv); ex.oblige(s, simp(z3.And(g(s, R) == c.M, g(s, W) == c.M)), 'post:every-token-written'); ex.oblige(s, simp(rv == z3.If(c.ERR == E['NeedMoreData'], I(E['NoError']), c.ERR)), 'post:the-error-of-the-tokenizer')
            n, old = s.ghost.get('resized', (None, None)); ex.oblige(s, n is not None and simp(n == s.ghost['total']) if 'total' in s.ghost else False, 'post:exactly-the-bytes-stored')
        # the value of last_pos is gone at the return: take it when the string is cut
        old_resize = [h for rx, h, k in ex.contracts if rx.pattern == STR + r'resize\(unsigned long\)$'][0]
        def resize(ex, s, ins, a):
            if ex.must(s, g(s, END) == 1): l = bv(ex.load(s, lastp(s), ['i', 64])); s.ghost['total'] = simp(l + g(s, USED)); ex.oblige(s, simp(l + g(s, CAP) == g(s, SZ)), 'cut:the-last-buffer')
            return old_resize(ex, s, ins, a)
        ex.contracts.insert(0, (re.compile(STR + r'resize\(unsigned long\)$'), resize, 'model'))
        args = [Ptr('ins', 0)] if which == 'string' else [Ptr('in', 0), b.size]
        fn = mod.find1(r'^JS::reformat\(std::' if which == 'string' else r'^JS::reformat\(char const\*, unsigned long, [^\']*&\)$')
        cl = {}
        def fctor2(ex, s, ins, a): r = fctor(ex, s, ins, a); cl['v'] = s.ghost['fn']; return r
        ex.contracts.insert(0, (re.compile(FN + r'function<'), fctor2, 'model'))
        run_function(ex, fn, args + [Ptr('out', 0), Ptr('opt', 0)], st, post)
        if which == 'string': return ex
        # ---- the callback
        d = Ref(mod, deadline); ex2, st2 = d.ex, d.st; st2.newreg('lastv', 'cells', 8); l0 = intvar('last0', 64, MAXBUF); setcell(st2, 'lastv', 0, 8, l0); n0 = d.g(st2, SZ); st2.newreg('clo', 'cells', 8 * max(1, len(cl['v']))); st2.newreg('ser', 'opaque', None)
        for o, v in cl['v']: setcell(st2, 'clo', o, 8, Ptr('out', 0) if v.reg == 'out' else Ptr('lastv', 0))
        st2.assume(z3.And(n0 > 0, n0 <= 1 << 57, l0 <= n0)); d.sg(st2, SET, 0)
        def post2(ex, s, rv):
            ex.oblige(s, simp(d.g(s, SET) == 1), 'post:one-buffer-supplied'); ex.oblige(s, simp(d.g(s, CAP) > 0) if 'start' in s.ghost else False, 'post:there-is-room'); ex.oblige(s, simp(s.ghost.get('start') == n0) if 'start' in s.ghost else False, 'post:behind-what-is-written')
            ex.oblige(s, simp(z3.And(d.g(s, SZ) >= 2 * n0)), 'post:the-output-doubles'); ex.oblige(s, simp(bv(getcell(ex, s, 'lastv', 0, 8)) == n0), 'post:start-of-the-buffer-remembered')
        run_function(ex2, mod.find1(r"^JS::reformat\(.*::'lambda\d*'\(JS::Serializer&\)::operator\(\)"), [Ptr('clo', 0), Ptr('ser', 0)], st2, post2)
        return [ex, ex2]
    return unit
UNITS = {'reformat': unit_reformat('bytes'), 'reformat-string': unit_reformat('string')}
TERM_OK = {}
