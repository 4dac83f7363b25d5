"""Contracts of the struct handlers (TypeHandler<T>::to / ::from) for the structs of harness/struct.cpp, over any token sequence.

Ghost cells: PH phase of the object being read (0 nothing read, 1 first token of a member's value read and not consumed, 2 value
consumed, 3 end of object read, 5 error), NO/NS position and size of the current member's name in the text, MM the name was
reported as unknown, US the value was skipped, GE the error that occurred, ME an element handler reported a missing member.
AS[m]: member m was given to its element handler."""
from spec import *
from stdmodel import *
import stdmodel
from handlers import Ctx
I = z3.IntVal
PH, NO, NS, MM, US, GE, ME = range(0, 56, 8)

def lit(seq):
    """the text of a sequence of literal bytes"""
    out = []
    while not seq.eq(EMPTY):
        if seq.decl().name() != core.snoc_f.name(): return None
        c = seq.arg(1)
        if not z3.is_int_value(c): return None
        out.append(chr(c.as_long())); seq = seq.arg(0)
    return ''.join(reversed(out))

class VecS:
    """std::vector<std::string>: its elements, where they are known"""
    is_ghost = True
    def __init__(self, items, tag): self.items = tuple(items); self.tag = tag
    def same(self, o): return isinstance(o, VecS) and self.tag == o.tag and len(self.items) == len(o.items) and all(a.same(b) for a, b in zip(self.items, o.items))
    def havoc(self, name): raise Unsupported('list of strings changed in a loop')
    def terms(self): return []
    def copy_from_raw(self): raise Unsupported('raw copy of a vector')
def getvs(s, p):
    c = s.mem[p.reg].cells.get(p.off) if not is_z(p.off) else None
    if c is None or not isinstance(c[1], VecS): raise Unsupported('not a modelled vector of strings')
    return c[1]
def setvs(ex, s, p, v):
    r = s.wreg(p.reg)
    if p.off not in r.cells or not isinstance(r.cells[p.off][1], VecS): ex.clear_range(s, r, p.off, 24)
    r.cells[p.off] = (24, v)
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VS = r'std::vector<%s, std::allocator<%s> ?>' % (STR, STR)

def vecs_model(ex, on_add=None):
    """on_add(ex, s, tag, StrVal) -> True if it took care of the element"""
    C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'model'))
    def put(ex, s, p, v):
        w = getvs(s, p)
        if not (on_add and on_add(ex, s, w.tag, v)): setvs(ex, s, p, VecS(w.items + (v,), w.tag))
    def key(p): return 'vs:%s:%d' % (p.reg, p.off)
    def it(s, p, n):
        k = key(p)
        if k not in s.mem: s.newreg(k, 'opaque', None)
        return Ptr(k, 32 * n)
    C('^' + VS + r'::vector\(\)$', lambda ex, s, ins, a: (setvs(ex, s, a[0], VecS((), 'local')), [(s, None)])[1])
    C('^' + VS + r'::~vector\(\)$', lambda ex, s, ins, a: [(s, None)])
    C('^' + VS + r'::empty\(\) const$', lambda ex, s, ins, a: [(s, freshb('empty') if getvs(s, a[0]).tag != 'local' else len(getvs(s, a[0]).items) == 0)])
    def size(ex, s, ins, a):
        v = getvs(s, a[0])
        if v.tag != 'local': return [(s, fresh('vecsize', 64))]
        return [(s, len(v.items))]
    C('^' + VS + r'::size\(\) const$', size)
    C('^' + VS + r'::reserve\(', lambda ex, s, ins, a: (getvs(s, a[0]), [(s, None)])[1])
    def push(ex, s, ins, a): put(ex, s, a[0], getstr(ex, s, a[1])); return [(s, None)]
    C('^' + VS + r'::push_back\(', push)
    def emplace(ex, s, ins, a):
        n = len(a) - 1
        if n == 1: put(ex, s, a[0], getstr(ex, s, a[1]))
        else:
            p, q = [ex.load(s, x, ['p']) if not (n == 2 and isinstance(x, Ptr) and x.reg in ('txt',)) else x for x in a[1:3]]
            k = q if not isinstance(q, Ptr) else sub(q.off, p.off)
            if isinstance(q, Ptr) and q.reg != p.reg: raise Unsupported('range')
            put(ex, s, a[0], (p, k))
        return [(s, None)]
    C(VS + r'::emplace_back<', emplace)
    C('^' + VS + r'::c?begin\(\)( const)?$', lambda ex, s, ins, a: [(s, it(s, a[0], 0))])
    C('^' + VS + r'::c?end\(\)( const)?$', lambda ex, s, ins, a: [(s, it(s, a[0], 10**6 if getvs(s, a[0]).tag != 'local' else len(getvs(s, a[0]).items)))])
    def insert(ex, s, ins, a):
        d, pos, f, l = a[0], a[1], a[2], a[3]
        if pos.reg != key(d) or f.reg != l.reg or not f.reg.startswith('vs:'): raise Unsupported('insert')
        rr, oo = f.reg[3:].rsplit(':', 1); src = getvs(s, Ptr(rr, int(oo))); i, j = f.off // 32, min(l.off // 32, len(src.items))
        ex.oblige(s, pos.off == 32 * (10**6 if getvs(s, d).tag != 'local' else len(getvs(s, d).items)), 'insert-at-end'); ex.oblige(s, 0 <= i <= j, 'insert-range-valid')
        for v in src.items[i:j]: put(ex, s, d, v)
        return [(s, pos)]
    C(VS + r'::insert<', insert)
    def plus(ex, s, ins, a):
        x = getstr(ex, s, a[1]); y = a[2]; v = StrVal(x.seq, x.len)
        for c in ex.cstr(s, y): v = StrVal(snoc(v.seq, ord(c)), add(v.len, 1))
        setstr(ex, s, a[0], v); return [(s, None)]
    C(r'std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(%s( const&|&&), char const\*\)$' % STR, plus)
    def pluseq(ex, s, ins, a):
        x, y = getstr(ex, s, a[0]), getstr(ex, s, a[1]); t = lit(y.seq)
        if t is None: raise Unsupported('append of unknown text')
        v = x
        for c in t: v = StrVal(snoc(v.seq, ord(c)), add(v.len, 1))
        setstr(ex, s, a[0], v); return [(s, a[0])]
    C('^' + STR + r'::(operator\+=|append)\(%s const&\)$' % STR, pluseq)

class Obj:
    """one of the harness structs: members as (name, aliases, offset of the element, required, name it is reported under)"""
    def __init__(self, mod, cls, members):
        self.L = Layout(mod, cls); self.cls = cls; self.m = members
def harness_struct(mod, which):
    O = lambda c, f: Layout(mod, c).off(f)
    opt = Layout(mod, 'JS::Optional<U>').off('data')
    if which == 'P': return Obj(mod, 'P', [('x', (), O('P', 'x'), True, 'x'), ('y', (), O('P', 'y'), True, 'y')])
    if which == 'Q': return Obj(mod, 'Q', [('x', (), O('Q', 'x'), True, 'x')])
    b1 = 0; b2 = Layout(mod, 'B1').size
    return Obj(mod, 'S', [('a', (), O('S', 'a'), True, 'a'), ('ab', (), O('S', 'ab'), True, 'ab'), ('opt', (), O('S', 'opt') + opt, False, 'opt'), ('other name', (), O('S', 'ren'), True, 'other name'), ('al', ('alias', 'one'), O('S', 'al'), True, 'al'),
        ('one', (), b1 + O('B1', 'one'), True, 'B1::one'), ('two', (), b1 + O('B1', 'two') + opt, False, 'B1::two'), ('deep', (), b1 + O('B0', 'deep'), True, 'B0::deep'), ('three', ('tri', 'a'), b2 + O('B2', 'three'), True, 'B2::three')])

def unit_to(which):
    def unit(mod, deadline):
        c = Ctx(mod, deadline); ex, st = c.ex, c.st; T, E = c.T, c.E; ob = harness_struct(mod, which)
        txt = add_buf(ex, st, 'txt')
        st.newreg('v', 'cells', ob.L.size, ro=True)
        st.newreg('gh', 'cells', 56); st.newreg('as', 'cells', 8 * len(ob.m))
        for o in range(0, 56, 8): setcell(st, 'gh', o, 8, 0)
        for i in range(len(ob.m)): setcell(st, 'as', 8 * i, 8, 0)
        g = lambda s, o: bv(s.mem['gh'].cells[o][1])
        def sg(s, o, v): setcell(s, 'gh', o, 8, v)
        eo = c.L.off('error'); es = c.L.sz('error'); no = c.to + c.TK.off('name')
        setcell(st, 'ctx', eo, es, E['NoError'])
        flags = {}
        for f in ('allow_missing_members', 'allow_unasigned_required_members', 'track_member_assignement_state'):
            flags[f] = intvar(f, 8); st.assume(flags[f] <= 1); setcell(st, 'ctx', c.L.off(f), 1, flags[f])
        allow_missing, allow_un, track = [flags[f] == 1 for f in ('allow_missing_members', 'allow_unasigned_required_members', 'track_member_assignement_state')]
        setcell(st, 'ctx', c.L.off('missing_members'), 24, VecS((), 'missing')); setcell(st, 'ctx', c.L.off('unassigned_required_members'), 24, VecS((), 'unassigned'))
        is0 = c.vt == T['ObjectStart']
        def token(s, vt, name=None):
            setcell(s, 'ctx', c.to + c.TK.off('value_type'), 1, vt); setcell(s, 'ctx', c.to + c.TK.off('name_type'), 1, fresh('nt', 8))
            setcell(s, 'ctx', c.to + c.TK.off('value') + c.DR.off('data'), 8, Ptr('txt', fresh('vo', 64))); setcell(s, 'ctx', c.to + c.TK.off('value') + c.DR.off('size'), 8, fresh('vs', 64))
            o, n = fresh('no', 64), fresh('ns', 64); s.assume(z3.And(o >= 0, n >= 0, o + n <= txt.size))
            setcell(s, 'ctx', no + c.DR.off('data'), 8, Ptr('txt', o)); setcell(s, 'ctx', no + c.DR.off('size'), 8, n)
            return o, n
        token(st, c.vt)
        def isname(s, w): return z3.And(g(s, NS) == len(w), *[txt.byte(simp(g(s, NO) + i)) == ord(ch) for i, ch in enumerate(w)])
        def primary(s): return z3.Or(*[isname(s, m[0]) for m in ob.m])
        def alias(s): return z3.Or(False, *[isname(s, x) for m in ob.m for x in m[1]])
        def reported(ex, s, where):
            ex.oblige(s, simp(z3.If(g(s, US) == 1, (g(s, MM) == 1) == track, g(s, MM) == 0)), '%s:unknown-names-reported-exactly' % where)
        def nxt(ex, s, ins, a):
            ex.oblige(s, a[1].reg == 'ctx' and same(a[1].off, c.to), 'pre(nextToken):current-token')
            ex.oblige(s, simp(z3.Or(g(s, PH) == 0, g(s, PH) == 2)), 'pre(nextToken):previous-value-consumed-and-object-not-ended'); ex.oblige(s, is0, 'pre(nextToken):is-an-object')
            reported(ex, s, 'pre(nextToken)')
            s.assume(z3.Or(g(s, PH) == 0, g(s, PH) == 2))
            for o in (MM, US): sg(s, o, 0)
            e = s.fork(); d = s.fork()
            err = fresh('tokerr', 8); e.assume(z3.And(err > E['NoError'], err <= E['UserDefinedErrors'])); token(e, fresh('vt', 8)); sg(e, PH, 5); sg(e, GE, err)
            token(d, T['ObjectEnd']); sg(d, PH, 3)
            vt = fresh('vt', 8); s.assume(z3.And(vt != T['ObjectEnd'], vt != T['ArrayEnd'])); o, n = token(s, vt); sg(s, PH, 1); sg(s, NO, o); sg(s, NS, n)
            return [(s, E['NoError']), (d, E['NoError']), (e, err)]
        def elem(ex, s, ins, a):
            m = [i for i, x in enumerate(ob.m) if isinstance(a[0], Ptr) and a[0].reg == 'v' and same(a[0].off, x[2])]
            if not m: ex.oblige(s, False, 'pre(element):a-member'); raise PathEnd()
            i = m[0]; mem = ob.m[i]
            ex.oblige(s, a[1].reg == 'ctx' and same(a[1].off, 0), 'pre(element):context')
            ex.oblige(s, simp(g(s, PH) == 1), 'pre(element):at-the-start-of-an-unconsumed-value')
            ex.oblige(s, simp(z3.Or(isname(s, mem[0]), z3.And(z3.Not(primary(s)), z3.Or(False, *[isname(s, x) for x in mem[1]])))), 'pre(element):the-member-of-that-name')
            ex.oblige(s, simp(bv(getcell(ex, s, 'ctx', eo, es)) == E['NoError']), 'pre(element):no-error')
            setcell(s, 'as', 8 * i, 8, 1)
            e = s.fork(); token(s, fresh('vt', 8)); sg(s, PH, 2); token(e, fresh('vt', 8))
            err = fresh('elemerr', 8); e.assume(err > E['NoError']); sg(e, PH, 5); sg(e, GE, err); setcell(e, 'ctx', eo, es, fresh('ctxerr', 8)); sg(e, ME, simp(z3.If(err == E['MissingPropertyMember'], I(1), I(0))))
            return [(s, E['NoError']), (e, err)]
        def skip(ex, s, ins, a):
            """unit skip (P11)"""
            ex.oblige(s, a[0].reg == 'ctx' and same(a[0].off, 0), 'pre(skip):context'); ex.oblige(s, simp(g(s, PH) == 1), 'pre(skip):at-the-start-of-an-unconsumed-value')
            ex.oblige(s, simp(z3.Not(z3.Or(primary(s), alias(s)))), 'pre(skip):no-member-of-that-name'); ex.oblige(s, simp(allow_missing), 'pre(skip):unknown-members-allowed')
            sg(s, US, 1); e = s.fork(); token(s, fresh('vt', 8)); sg(s, PH, 2); setcell(s, 'ctx', eo, es, E['NoError'])
            err = fresh('skiperr', 8); e.assume(z3.And(err > E['NoError'], err <= E['UserDefinedErrors'])); token(e, fresh('vt', 8)); sg(e, PH, 5); sg(e, GE, err); setcell(e, 'ctx', eo, es, err)
            return [(s, freshb('skipped')), (e, False)]
        def on_add(ex, s, tag, v):
            if tag != 'missing': return False
            if isinstance(v, StrVal): raise Unsupported('reported name as a string object')
            p, n = v
            ex.oblige(s, simp(g(s, PH) == 1), 'report:while-the-name-is-current'); ex.oblige(s, simp(b_and(isinstance(p, Ptr) and p.reg == 'txt', eq(p.off, g(s, NO)), eq(n, g(s, NS)))), 'report:the-name-of-the-value')
            ex.oblige(s, simp(z3.And(z3.Not(z3.Or(primary(s), alias(s))), track, g(s, MM) == 0)), 'report:unknown-name-once')
            sg(s, MM, 1); return True
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'contract'))
        C(r'^JS::Tokenizer::nextToken\(JS::Token&\)$', nxt); C(r'^JS::TypeHandler<U(, void)?>::to\(', elem); C(r'^JS::Internal::skipArrayOrObject\(', skip)
        vecs_model(ex, on_add)
        ex.unroll_policy = lambda ex, st, fr, h: None if fr.fn.dem.startswith('JS::TypeHandler') is False else False
        def cands(ex, st, ints, bools, vars_, depth, fixed):
            out = []
            vtc = lambda s: bv(getcell(ex, s, 'ctx', c.to + c.TK.off('value_type'), 1))
            def nm(s):
                p = s.mem['ctx'].cells[no + c.DR.off('data')][1]; n = s.mem['ctx'].cells[no + c.DR.off('size')][1]
                return z3.And(bv(p.off) == g(s, NO), bv(n) == g(s, NS))
            for k in ((0,), (1,), (2,), (3,), (1, 3), (0, 2), (0, 1, 3), (2, 3)): out.append(lambda s, k=k: z3.Or(*[g(s, PH) == x for x in k]))
            out.append(lambda s: (vtc(s) == T['ObjectEnd']) == (g(s, PH) == 3)); out.append(lambda s: z3.Implies(g(s, PH) == 1, nm(s)))
            out.append(lambda s: z3.And(g(s, NO) >= 0, g(s, NS) >= 0, g(s, NO) + g(s, NS) <= txt.size)); out.append(lambda s: z3.Implies(g(s, PH) == 1, z3.And(g(s, NO) >= 0, g(s, NS) >= 0, g(s, NO) + g(s, NS) <= txt.size)))
            for o in (MM, US, GE, ME): out.append(lambda s, o=o: g(s, o) == 0)
            for i in range(len(ob.m)): out.append(lambda s, i=i: z3.And(bv(s.mem['as'].cells[8 * i][1]) >= 0, bv(s.mem['as'].cells[8 * i][1]) <= 1))
            for gx, reg, w, e, v in ints:
                if w in (1, 8) and reg is None and v.kind == 'cell' and v.key[0] not in ('gh', 'as'):
                    for i in range(len(ob.m)): out.append(lambda s, gx=gx, i=i: eq(gx(s), s.mem['as'].cells[8 * i][1]))
            return out
        ex.cand_hooks.append(cands)
        def post(ex, s, rv):
            rv = bv(rv); ok = rv == E['NoError']; ph = g(s, PH)
            ex.oblige(s, simp(z3.Implies(z3.Not(is0), z3.And(rv == E['ExpectedObjectStart'], ph == 0))), 'post:only-objects')
            ex.oblige(s, simp(z3.Implies(g(s, GE) != 0, z3.And(z3.Not(ok), z3.Or(g(s, ME) == 1, rv == g(s, GE))))), 'post:errors-passed-on')
            ex.oblige(s, simp(z3.Implies(g(s, ME) == 1, rv != E['MissingPropertyMember'])), 'post:element-error-not-taken-for-unknown-name')
            # an unknown name where unknown names are not allowed
            unknown = z3.And(ph == 1, z3.Not(z3.Or(primary(s), alias(s))))
            ex.oblige(s, simp(z3.Implies(ph == 1, z3.And(unknown, z3.Not(allow_missing), rv == E['MissingPropertyMember'], (g(s, MM) == 1) == track))), 'post:stops-inside-only-at-a-forbidden-unknown-member')
            ex.oblige(s, simp(z3.Implies(is0, z3.Or(ph == 1, ph == 3, ph == 5))), 'post:whole-object-consumed'); 
            un = [z3.And(z3.BoolVal(m[3]), bv(s.mem['as'].cells[8 * i][1]) == 0) for i, m in enumerate(ob.m)]
            some = z3.Or(*un); end = ph == 3
            ex.oblige(s, simp(z3.Implies(end, rv == z3.If(z3.And(some, z3.Not(allow_un)), I(E['UnassignedRequiredMember']), I(E['NoError'])))), 'post:required-members')
            rep = [lit(x.seq) for x in s.mem['ctx'].cells[c.L.off('unassigned_required_members')][1].items]
            if None in rep: raise Unsupported('reported text')
            for i, m in enumerate(ob.m):
                ex.oblige(s, simp(z3.If(z3.And(end, track, un[i]), z3.BoolVal(rep.count(m[4]) == 1), z3.BoolVal(rep.count(m[4]) == 0))), 'post:unassigned-required-members-reported-exactly')
            ex.oblige(s, all(x in [m[4] for m in ob.m] for x in rep), 'post:only-members-reported')
        run_function(ex, mod.find1(r'^JS::TypeHandler<%s(, void)?>::to\(' % ob.cls), [Ptr('v', 0), Ptr('ctx', 0)], st, post)
        return ex
    return unit

def unit_from(which):
    def unit(mod, deadline):
        c = Ctx(mod, deadline); ex, st = c.ex, c.st; T = c.T; ob = harness_struct(mod, which)
        st.newreg('v', 'cells', ob.L.size, ro=True); st.ghost['seq'] = ()
        TK, DR = c.TK, c.DR
        st.newreg('nm0', 'bytes', intvar('nm0n', 64, MAXBUF), ro=True); st.mem['nm0'].f = bytefun('byte_nm0')
        nt0 = intvar('nt0', 8); setcell(st, 'token', TK.off('name') + DR.off('data'), 8, Ptr('nm0', 0)); setcell(st, 'token', TK.off('name') + DR.off('size'), 8, z3.Int('nm0n')); setcell(st, 'token', TK.off('name_type'), 1, nt0)
        def nameof(s, reg, off):
            p = s.mem[reg].cells[off + TK.off('name') + DR.off('data')][1]; n = ex.conc(s, getcell(ex, s, reg, off + TK.off('name') + DR.off('size'), 8))
            if is_z(n): return p, n, None
            by = [ex.load(s, Ptr(p.reg, add(p.off, k)), ['i', 8]) for k in range(n)]
            return p, n, None if any(is_z(x) for x in by) else ''.join(chr(x) for x in by)
        def write(ex, s, ins, a):
            vt = ex.conc(s, getcell(ex, s, a[1].reg, a[1].off + TK.off('value_type'), 1)); p, n, t = nameof(s, a[1].reg, a[1].off)
            vp = s.mem[a[1].reg].cells[a[1].off + TK.off('value') + DR.off('data')][1]; vn = ex.conc(s, getcell(ex, s, a[1].reg, a[1].off + TK.off('value') + DR.off('size'), 8))
            if is_z(vn) or is_z(vt): raise Unsupported('token value')
            val = ''.join(chr(ex.load(s, Ptr(vp.reg, add(vp.off, k)), ['i', 8])) for k in range(vn))
            if vt == T['ObjectStart']:
                ex.oblige(s, s.ghost['seq'] == () and val == '{', 'pre(write):object-start-first'); ex.oblige(s, p.reg == 'nm0' and same(p.off, 0) and same(n, z3.Int('nm0n')) and same(getcell(ex, s, a[1].reg, a[1].off + TK.off('name_type'), 1), nt0), 'pre(write):name-of-the-struct-itself'); s.ghost['seq'] += ('{',)
            elif vt == T['ObjectEnd']: ex.oblige(s, t == '' and val == '}', 'pre(write):object-end'); s.ghost['seq'] += ('}',)
            else: ex.oblige(s, False, 'pre(write):only-the-brackets')
            return [(s, freshb('written'))]
        def elem(ex, s, ins, a):
            m = [i for i, x in enumerate(ob.m) if isinstance(a[0], Ptr) and a[0].reg == 'v' and same(a[0].off, x[2])]
            if not m: ex.oblige(s, False, 'pre(element):a-member'); raise PathEnd()
            p, n, t = nameof(s, a[1].reg, a[1].off)
            nt = ex.conc(s, getcell(ex, s, a[1].reg, a[1].off + TK.off('name_type'), 1))
            ex.oblige(s, t == ob.m[m[0]][0], 'pre(element):under-its-name'); ex.oblige(s, simp(b_or(eq(nt, T['Ascii']), eq(nt, T['String']))), 'pre(element):name-quoted'); ex.oblige(s, a[2].reg == 'ser', 'pre(element):serializer')
            s.ghost['seq'] += (m[0],)
            # the element handler may leave anything in the token
            setcell(s, a[1].reg, a[1].off + TK.off('value_type'), 1, fresh('vt', 8)); setcell(s, a[1].reg, a[1].off + TK.off('name') + DR.off('size'), 8, fresh('ns', 64)); n2 = fresh('nt', 8); s.assume(z3.Or(n2 == bv(nt), n2 == T['String'])); setcell(s, a[1].reg, a[1].off + TK.off('name_type'), 1, n2); setcell(s, a[1].reg, a[1].off + TK.off('value') + DR.off('size'), 8, fresh('vs', 64))
            return [(s, None)]
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h, 'contract'))
        C(r'^JS::Serializer::write\(JS::Token const&\)$', write); C(r'^JS::TypeHandler<U(, void)?>::from\(', elem)
        def post(ex, s, rv):
            q = s.ghost['seq']
            ex.oblige(s, len(q) >= 2 and q[0] == '{' and q[-1] == '}', 'post:brackets-around-the-members')
            ex.oblige(s, simp(eq(getcell(ex, s, 'token', TK.off('name') + DR.off('size'), 8), 0)), 'post:no-name-left-behind')
            ex.oblige(s, sorted(q[1:-1], key=str) == sorted(range(len(ob.m)), key=str), 'post:every-member-exactly-once')
        run_function(ex, mod.find1(r'^JS::TypeHandler<%s(, void)?>::from\(' % ob.cls), [Ptr('v', 0), Ptr('token', 0), Ptr('ser', 0)], st, post)
        return ex
    return unit
UNITS = {}
for _w in 'QPS': UNITS['read-' + _w] = unit_to(_w); UNITS['write-' + _w] = unit_from(_w)
TERM_OK = {'read-' + w: 'runs until the object or the input ends' for w in 'QPS'}
