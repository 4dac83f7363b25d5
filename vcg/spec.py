"""Specification vocabulary: folds over byte buffers, harness set-up helpers, candidate hooks."""
import re, os, sys, json, subprocess, time
import z3
from core import *
from engine import *
import core

class Fold:
    """ghost state machine over the bytes of one buffer: f(i+1) == step(f(i), byte(i)).
    Instances are added for every byte the code reads (and where a spec asks for it)."""
    def __init__(self, name, w, step, consts=(), relate=True):
        self.name = name; self.w = w; self.step = step; self.consts = consts
        self.f = bytefun(name, w) if w else None
        self.relate = relate
    def at(self, i): return self.f(bv(i, 64))
    def check_absorb(self, ex):
        """side condition of the absorbing-state lemma: step(a, c) == a for every byte c"""
        if getattr(self, '_abs_ok', False): return
        self._abs_ok = True
        i = z3.Int('abs_i')
        if hasattr(self, 'step_at'): e = self.step_at(i)
        else: e = self.step(self.at(i), z3.Int('abs_c'))
        for a in self.absorb:
            s = z3.Solver(); s.add(self.at(i) == a, e != a)
            ok = s.check() == z3.unsat
            ex.obls.append(Obl('lemma:absorbing-state-%d' % a, self.name, ok, 'unsat' if ok else 'sat'))
    def check_facts(self, ex):
        """side condition of an invariant fact about fold states: it is established by every step and at the base"""
        if getattr(self, '_facts_ok', False): return
        self._facts_ok = True
        i = z3.Int('fact_i')
        st_i = self.step_at(i) if hasattr(self, 'step_at') else self.step(self.at(i), self.b.byte(i))
        s = z3.Solver(); s.add(self.at(i + 1) == st_i, i >= self.base, i + (0 if getattr(self, 'incl', False) else 1) < self.b.size, z3.Not(self.facts(i + 1)))
        s.add(self.b.byte(i) >= 0, self.b.byte(i) <= 255, *([self.facts(i)] if getattr(self, 'inductive', False) else []))
        if hasattr(self, 'facts_step'): s.add(self.facts_step(i))
        ok = s.check() == z3.unsat
        s = z3.Solver(); s.add(self.at(self.base) == self.base_state, z3.Not(self.facts(self.base)))
        if hasattr(self, 'facts_base'): s.add(self.facts_base(self.base))
        ok = ok and s.check() == z3.unsat
        ex.obls.append(Obl('lemma:fold-fact', self.name, ok, 'unsat' if ok else 'sat'))
    def check_mono(self, ex):
        if getattr(self, '_mono_ok', False): return
        self._mono_ok = True
        v, c = z3.Ints('mono_v mono_c')
        s = z3.Solver(); s.add(self.step(v, c) < v)
        ok = s.check() == z3.unsat
        ex.obls.append(Obl('lemma:fold-monotone', self.name, ok, 'unsat' if ok else 'sat'))

class SeqFold(Fold):
    def __init__(self, name, step):
        self.name = name; self.w = None; self.step = step; self.consts = (); self.relate = True
        self.f = z3.Function(name, z3.IntSort(), SeqS)

class Buf:
    def __init__(self, rid, size):
        self.rid = rid; self.size = size
        self.f = bytefun('byte_' + rid, 8)
        self.folds = []
    def byte(self, i): return self.f(bv(i, 64))

MAXBUF = 1 << 40

def add_buf(ex, st, rid, size=None, maxsize=MAXBUF):
    sz = size if size is not None else intvar('size_' + rid, 64, maxsize)
    b = Buf(rid, sz)
    r = st.newreg(rid, 'bytes', sz, ro=True)
    r.f = b.f; r.info['buf'] = b
    return b

def inst(ex, st, buf, i):
    """instantiate every fold of buf at index i"""
    for fo in buf.folds:
        e = simp(bv(i, 64))
        key = (fo.name, e.get_id() if is_z(e) else e)
        if key in st.inst: continue
        st.inst.add(key)
        st.ghost.setdefault('keep', [])
        st.ghost['keep'] = st.ghost['keep'] + [e]
        nx = fo.f(bv(add(e, 1), 64))
        st.assume(nx == (fo.step_at(e) if hasattr(fo, 'step_at') else fo.step(fo.f(bv(e, 64)), buf.byte(e))))
        if hasattr(fo, 'facts'):
            fo.check_facts(ex)
            st.assume(z3.Implies(z3.And(bv(e) >= fo.base, bv(e) <= buf.size if getattr(fo, 'incl', False) else bv(e) < buf.size), fo.facts(e)))
        if getattr(fo, 'mono', False):
            fo.check_mono(ex)
            st.assume(z3.Implies(z3.And(bv(e) >= fo.base, bv(e) <= buf.size), z3.And(fo.at(e) >= fo.at(fo.base), fo.at(e) <= fo.at(buf.size))))
        ab = getattr(fo, 'absorb', ())
        if ab:
            fo.check_absorb(ex)
            st.assume(z3.Implies(z3.And(bv(e) >= 0, bv(e) < buf.size, z3.Or(*[nx == a for a in ab])), fo.f(bv(buf.size)) == nx))

def read_hook(ex, st, r, i):
    b = r.info.get('buf')
    if b is not None: inst(ex, st, b, i)

def counters(st, ints, fixed, b, have):
    """positions of the form base + counter, for counters that start at zero"""
    out = []
    for g, reg, w, e, v in ints:
        if w != 64 or reg is not None or v.kind != 'phi' or is_z(e) or e != 0: continue
        seen = set()
        for r2, w2, t in fixed:
            if w2 != 64 or not is_z(t) or (r2 is not None and r2 != b.rid) or t.get_id() in seen or len(seen) >= 8: continue
            seen.add(t.get_id())
            out.append(((lambda s, g=g, t=t: add(t, g(s))), t))
    return out

def fold_cands(ex, st, ints, bools, vars_, depth, fixed):
    out = []
    bufs = [r.info['buf'] for r in st.mem.values() if r.kind == 'bytes' and 'buf' in r.info]
    for b in bufs:
        for fo in b.folds:
            idx = [(g, e) for g, reg, w, e, v in ints if w == 64 and (reg == b.rid or reg is None)]
            if getattr(fo, 'based', False):
                # an index relative to a pointer into the buffer that the function received
                for x in st.frames[depth - 1].args:
                    if isinstance(x, Ptr) and x.reg == b.rid and is_z(x.off):
                        idx = idx + [((lambda s, g=g, o=x.off: add(o, g(s))), add(x.off, e)) for g, reg, w, e, v in ints if w == 64 and reg is None]
            idx = idx + counters(st, ints, fixed, b, [x[1] for x in idx])
            for g, e in idx:
                if fo.relate: out.append(lambda s, g=g, e=e, fo=fo: fo.at(g(s)) == fo.at(e))
                for c in fo.consts: out.append(lambda s, g=g, fo=fo, c=c: fo.at(g(s)) == c)
                for c in getattr(fo, 'nconsts', ()): out.append(lambda s, g=g, fo=fo, c=c: fo.at(g(s)) != c)
                if fo.w:
                    for g2, r2, w2, e2, v2 in ints:
                        if w2 == 8 and r2 is None:
                            out.append(lambda s, g=g, g2=g2, fo=fo: fo.at(g(s)) == bv(g2(s)))
                        if w2 == fo.w and w2 != 8 and r2 is None and g2 is not g:
                            out.append(lambda s, g=g, g2=g2, fo=fo: fo.at(g(s)) == bv(g2(s), fo.w))
                    for g2, e2, v2 in bools:
                        out.append(lambda s, g=g, g2=g2, fo=fo: fo.at(g(s)) == z3.If(zb(g2(s)), z3.IntVal(1), z3.IntVal(0)))
                    for hk in getattr(fo, 'extra', ()): out.extend(hk(ex, st, g, e, fo, ints, bools))
                else:
                    # sequence folds against modelled output sequences
                    for v in vars_:
                        ev = ex.getv(st, v, depth)
                        if hasattr(ev, 'seq') or v.kind == 'out':
                            def sq(s, v=v):
                                q = ex.getv(s, v, depth)
                                return q['seq'] if isinstance(q, dict) else q.seq
                            out.append(lambda s, g=g, fo=fo, sq=sq: sq(s) == fo.at(g(s)))
                    for g2, e2 in idx:
                        if g2 is g: continue
            # relations between two indices
            for i in range(len(idx)):
                for j in range(len(idx)):
                    if i == j or not fo.relate: continue
                    out.append(lambda s, g=idx[i][0], g2=idx[j][0], fo=fo: fo.at(g(s)) == fo.at(g2(s)))
    return out

def header_inst(ex, st, vars_, depth):
    bufs = [r.info['buf'] for r in st.mem.values() if r.kind == 'bytes' and 'buf' in r.info]
    for v in vars_:
        x = ex.getv(st, v, depth)
        if isinstance(x, Ptr):
            for b in bufs:
                if b.rid == x.reg: inst(ex, st, b, x.off)
        elif is_z(x) and z3.is_int(x):
            for b in bufs: inst(ex, st, b, x)

def new_engine(mod, deadline=None):
    ex = Engine(mod, deadline)
    ex.read_hooks.append(read_hook)
    ex.cand_hooks.append(fold_cands)
    ex.header_hooks = [header_inst]
    return ex

# ---------- struct layout ----------
class Layout:
    def __init__(self, mod, name):
        t = mod.types.get(name)
        if t is None: raise Unsupported('type %s not found' % name)
        self.size = t['size']; self.m = {}
        for m in t['m']: self.m[m[0]] = m[1:]
    def off(self, f):
        if f not in self.m: raise Unsupported('field %s' % f)
        return self.m[f][0] // 8
    def bit(self, f): return self.m[f][0]
    def sz(self, f): return self.m[f][1] // 8

def enum(mod, name):
    t = mod.types.get(name)
    if t is None: raise Unsupported('enum %s' % name)
    return {m[0]: m[1] for m in t['m']}

def setcell(st, rid, off, n, v):
    r = st.wreg(rid); r.cells[off] = (n, v)
def getcell(ex, st, rid, off, n):
    return ex.load_cell(st, st.mem[rid], off, n, ['i', 8 * n])
