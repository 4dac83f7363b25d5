"""Contracts of the tokenizer's constructor and of resetData: both leave a state that represents the abstract initial state (phase
NAME at the start position, nothing expected; glue.represents, the predicate the step units of P03 start from), with no container or
scope open, no capture in progress and no unfinished token, whatever the tokenizer went through before."""
from spec import *
from stdmodel import *
import stdmodel
from glue import Glue, Abs, represents
I = z3.IntVal

def open_containers(st, L):
    for k, (f, es) in enumerate((('container_stack', 1), ('scope_counter', 16), ('copy_buffers', 16))):
        r = 'old_' + f; n = intvar('n_' + f, 64, 1 << 30); st.newreg(r, 'opaque', None); o = L.off(f)
        setcell(st, 'tok', o, 8, Ptr(r, 0)); setcell(st, 'tok', o + 8, 8, Ptr(r, simp(es * n))); setcell(st, 'tok', o + 16, 8, Ptr(r, simp(es * (n + 4))))

def fresh_state(g, ex, s, pos, where):
    for nm, c in represents(g, s, Abs('NAME', pos, False), False): ex.oblige(s, simp(c), '%s:%s' % (where, nm))
    ex.oblige(s, simp(eq(g.get(s, 'property_state'), g.PS['NoStartFound'])), '%s:no-value-begun' % where)
    ex.oblige(s, simp(b_not(g.flag(s, 'continue_after_need_more_data'))), '%s:no-unfinished-token' % where); ex.oblige(s, simp(b_not(g.flag(s, 'active'))), '%s:no-stored-part' % where)
    L = g.L
    for f in ('container_stack', 'scope_counter', 'copy_buffers'):
        p, q = s.mem['tok'].cells[L.off(f)][1], s.mem['tok'].cells[L.off(f) + 8][1]
        ex.oblige(s, simp(b_and(isinstance(p, Ptr) and isinstance(q, Ptr) and p.reg == q.reg, eq(p.off, q.off))), '%s:%s-empty' % (where, f))

def setup(mod, deadline):
    g = Glue(mod, deadline, True); ex, st = g.ex, g.st
    C = lambda rx, h, kind='model': ex.contracts.append((re.compile(rx), h, kind))
    C(r'^JS::Internal::ErrorContext::clear\(\)$', lambda ex, s, ins, a: [(s, None)])
    return g, ex, st, C

def unit_reset(kind):
    def unit(mod, deadline):
        out = []
        for m in (0, 1, 2, 3):
            g, ex, st, C = setup(mod, deadline); L, T, TS, PS = g.L, g.T, g.TS, g.PS
            bits = {n: z3.Bool('flag_' + n) for n in g.flags}; g.write_bits(bits); g.bits = bits
            lo, hi, lo2, hi2 = (intvar(x, 64, MAXBUF) for x in ('nlo', 'nhi', 'dlo', 'dhi')); st.assume(z3.And(lo <= hi, lo2 <= hi2))
            g.setstr('name', lo, hi); g.setstr('data', lo2, hi2)
            st.assume(z3.Implies(z3.Not(bits['active']), z3.And(lo == hi, lo2 == hi2, z3.Not(bits['name_type_set']), z3.Not(bits['data_type_set']))))     # invariant: safe- and step- units
            for f in ('token_state', 'property_state', 'property_type', 'is_escaped'): g.set(f, intvar('old_' + f, 8))
            for f in ('cursor_index', 'current_data_start'): g.set(f, intvar('old_' + f, 64))
            for f in ('name_type', 'data_type'): g.iset(f, intvar('old_' + f, 8))
            open_containers(st, L)
            st.newreg('dl', 'cells', 16 * 4); o = L.off('data_list'); setcell(st, 'tok', o, 8, Ptr('dl', 0)); setcell(st, 'tok', o + 8, 8, Ptr('dl', 16 * m)); setcell(st, 'tok', o + 16, 8, Ptr('dl', 64))
            for k in range(m): st.newreg('ob%d' % k, 'bytes', intvar('osize%d' % k, 64, MAXBUF), ro=True); setcell(st, 'dl', 16 * k, 8, Ptr('ob%d' % k, 0)); setcell(st, 'dl', 16 * k + 8, 8, z3.Int('osize%d' % k))
            st.newreg('tv', 'opaque', None); st.newreg('oldtv', 'opaque', None); setcell(st, 'tok', L.off('parsed_data_vector'), 8, Ptr('oldtv', 0))
            has = z3.Bool('has_callback')
            def on_call(ex, s, ins, a):
                p = a[1]
                if isinstance(p, Ptr) and not p.reg.startswith('ob'): p = ex.load(s, p, ['p'])
                k = s.ghost.get('cb', 0); ex.oblige(s, p.reg == 'ob%d' % k and same(p.off, 0), 'pre(release-callback):the-next-old-buffer'); s.ghost['cb'] = k + 1; return [(s, None)]
            C(r'^std::function<void \(char const\*\)>::operator bool\(\) const$', lambda ex, s, ins, a, has=has: [(s, has)]); C(r'^std::function<void \(char const\*\)>::operator\(\)\(char const\*\) const$', on_call)
            idx = intvar('index', 64, MAXBUF)
            if kind == 'data': st.assume(idx <= g.b.size)
            def post(ex, s, rv, g=g, m=m, has=has, idx=idx):
                if kind == 'tokens': s.assume(idx <= g.b.size)     # the buffer of the predicate is a stand-in: the cursor counts tokens here
                fresh_state(g, ex, s, simp(g.base + idx), 'post'); ex.oblige(s, simp(eq(g.get(s, 'cursor_index'), idx)), 'post:starts-at-the-index')
                fin = s.mem['tok'].cells[o + 8][1]; n = 1 if kind == 'data' else 0; ex.oblige(s, isinstance(fin, Ptr) and fin.reg == 'dl' and same(fin.off, 16 * n), 'post:exactly-the-new-data')
                pv = s.mem['tok'].cells[g.L.off('parsed_data_vector')][1]
                if kind == 'data':
                    q = s.mem['dl'].cells.get(0); ex.oblige(s, q is not None and isinstance(q[1], Ptr) and q[1].reg == 'buf' and same(q[1].off, 0), 'post:the-new-buffer'); ex.oblige(s, simp(eq(getcell(ex, s, 'dl', 8, 8), g.b.size)), 'post:the-new-size')
                    ex.oblige(s, not (isinstance(pv, Ptr) and pv.reg in ('tv', 'oldtv')), 'post:no-token-list')
                else: ex.oblige(s, isinstance(pv, Ptr) and pv.reg == 'tv' and same(pv.off, 0), 'post:the-new-token-list')
                ex.oblige(s, simp(z3.Or(z3.BoolVal(s.ghost.get('cb', 0) == m), z3.Not(has))), 'post:old-buffers-released')
            args = [Ptr('tok', 0), Ptr('buf', 0), g.b.size, idx] if kind == 'data' else [Ptr('tok', 0), Ptr('tv', 0), idx]
            run_function(ex, mod.find1(r'^h_reset_%s\(' % kind), args, st, post); out.append(ex)
        return out
    return unit

def unit_construct(mod, deadline):
    g, ex, st, C = setup(mod, deadline); L = g.L
    C(r'^std::function<.*>::function\(\)$', lambda ex, s, ins, a: [(s, None)]); C(r'^JS::Internal::ErrorContext::ErrorContext\(\)$', lambda ex, s, ins, a: [(s, None)])
    def vec(ex, s, ins, a):
        for o in (0, 8, 16): setcell(s, a[0].reg, a[0].off + o, 8, Ptr('heap', 0))
        return [(s, None)]
    st.newreg('heap', 'opaque', None); C(r'^std::vector<.*>::vector\(\)$', vec); C(r'^std::vector<.*>::reserve\(', lambda ex, s, ins, a: [(s, None)])
    g.setstr('name', 0, 0); g.setstr('data', 0, 0)
    def sctor(ex, s, ins, a):
        g.ver += 1
        from glue import Seg
        v = Seg(0, 0, 'new', g.ver); s.wreg(a[0].reg).cells[a[0].off] = (32, v); g.mkreg(s, v); return [(s, None)]
    C('^' + stdmodel.S + r'basic_string\(\)$', sctor)
    def post(ex, s, rv):
        s.assume(g.base == 0)
        g.bits = {n: g.flag(s, n) for n in g.flags}
        for n in ('allow_ascii_properties', 'allow_new_lines', 'allow_superfluous_comma', 'allow_comments'): ex.oblige(s, simp(b_not(g.flag(s, n))), 'post:%s-off' % n)
        fresh_state(g, ex, s, simp(g.base), 'post')
        pv = s.mem['tok'].cells[L.off('parsed_data_vector')][1]; ex.oblige(s, not (isinstance(pv, Ptr) and pv.reg in s.mem), 'post:no-token-list')
    run_function(ex, mod.find1(r'^JS::Tokenizer::Tokenizer\(\)'), [Ptr('tok', 0)], st, post)
    return ex
UNITS = {'reset-data': unit_reset('data'), 'reset-tokens': unit_reset('tokens'), 'construct-tokenizer': unit_construct}
