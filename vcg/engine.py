"""Executor: instructions, calls, intrinsics, cut loops with Houdini."""
import re, time
import z3
from core import *
from core import _fresh
import core

class LoopVar:
    __slots__ = ('kind', 'key', 'name', 'sz')
    def __init__(self, kind, key, name, sz=None): self.kind = kind; self.key = key; self.name = name; self.sz = sz

class Engine(Exec):
    check_ovf = False

    # ---------- simple instructions ----------
    def simple(self, st, fr, ins, op):
        if op == 'alloca':
            rid = 'a:%s.%d.%d' % (fr.fn.dem.split('(')[0][-24:], ins['id'], next(_fresh))
            n = self.val(st, ins['o'][0])
            if is_z(n): raise Unsupported('dynamic alloca')
            st.newreg(rid, 'cells', ins['size'] * int(n))
            fr.allocas.append(rid)
            return Ptr(rid, 0)
        if op == 'load':
            p = self.val(st, ins['o'][0])
            return self.load(st, p, ins['t'])
        if op == 'store':
            v = self.val(st, ins['o'][0]); p = self.val(st, ins['o'][1])
            self.store(st, p, v, ins['vt'])
            return None
        if op == 'getelementptr':
            p = self.val(st, ins['b'])
            if not ins['ok']: raise Unsupported('gep')
            if isinstance(p, Undef): return UNDEF
            if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
            off = add(p.off, ins['c'])
            for o, sc in ins['var']:
                v = self.val(st, o)
                if isinstance(v, Undef): return UNDEF
                w = o.get('w', 64)
                if is_sym(v):
                    v = bv(v)
                    lo, hi = interval(v)
                    if hi >= (1 << 63) and not self.must(st, v < (1 << 63)): v = self.signed(v, 64)
                    off = add(off, simp(v * sc))
                else:
                    off = add(off, sx(v, 64) * sc)
            return Ptr(p.reg, off)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = self.val(st, ins['o'][0]); b = self.val(st, ins['o'][1])
            t = ins['t']
            if t[0] == 'v':
                w = self.lw(t[2])
                a = self.deundef(a, t); b = self.deundef(b, t)
                if op in ('and', 'or', 'xor') and w > 1:
                    w = min(a.w, b.w)
                a = a.re(w) if w > 1 else a; b = b.re(w) if w > 1 else b
                return Vec(w, [self.binop(op, x, y, w, None, st) for x, y in zip(a.l, b.l)])
            w = t[1]
            if op in ('udiv', 'urem', 'sdiv', 'srem') and (is_sym(b) or isinstance(b, Undef) or b == 0):
                self.oblige(st, b_not(eq(b, 0, w)) if not isinstance(b, Undef) else False, 'division-by-nonzero')
            if op in ('shl', 'lshr', 'ashr') and is_sym(b):
                self.oblige(st, bv(b) < w, 'shift-in-range')
            elif op in ('shl', 'lshr', 'ashr') and isinstance(b, int) and b >= w:
                self.oblige(st, False, 'shift-in-range')
            if self.check_ovf and ins.get('nsw') and op in ('add', 'sub', 'mul') and (is_sym(a) or is_sym(b)) and w > 1:
                A, B = self.signed(bv(a), w), self.signed(bv(b), w)
                if not is_sym(a): A = z3.IntVal(sx(a, w))
                if not is_sym(b): B = z3.IntVal(sx(b, w))
                r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B}[op]()
                self.oblige(st, simp(z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1)))), 'no-signed-overflow')
            return self.binop(op, a, b, w, ins, st)
        if op == 'icmp':
            a = self.val(st, ins['o'][0]); b = self.val(st, ins['o'][1]); t = ins['ot']
            if t[0] == 'v':
                w = self.lw(t[2]); a = self.deundef(a, t).re(w); b = self.deundef(b, t).re(w)
                return Vec(1, [self.icmp(st, ins['pred'], x, y, t[2]) for x, y in zip(a.l, b.l)])
            return self.icmp(st, ins['pred'], a, b, t)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            return self.cast(st, op, self.val(st, ins['o'][0]), ins['ot'], ins['t'])
        if op == 'select':
            c = self.val(st, ins['o'][0]); a = self.val(st, ins['o'][1]); b = self.val(st, ins['o'][2])
            if isinstance(c, Undef): c = freshb('undef')
            return self.select(st, c, a, b, ins['t'])
        if op == 'freeze':
            return self.deundef(self.val(st, ins['o'][0]), ins['t'])
        if op == 'extractvalue':
            v = self.val(st, ins['o'][0])
            for i in ins['idx']: v = v[i] if not isinstance(v, Undef) else UNDEF
            return v
        if op == 'insertvalue':
            v = self.val(st, ins['o'][0]); x = self.val(st, ins['o'][1])
            t = ins['t']
            if len(ins['idx']) != 1: raise Unsupported('deep insertvalue')
            n = len(t[1]) if t[0] == 's' else t[1]
            l = list(v) if isinstance(v, list) else [UNDEF] * n
            l[ins['idx'][0]] = x
            return l
        if op == 'extractelement':
            v = self.val(st, ins['o'][0]); i = self.val(st, ins['o'][1])
            if is_z(i): raise Unsupported('sym extractelement')
            t = ins['t']
            w = self.lw(t)
            if isinstance(v, Undef): return UNDEF
            return (v.re(w) if w > 1 else v).l[i]
        if op == 'insertelement':
            v = self.val(st, ins['o'][0]); x = self.val(st, ins['o'][1]); i = self.val(st, ins['o'][2])
            if is_z(i): raise Unsupported('sym insertelement')
            t = ins['t']; w = self.lw(t[2])
            if isinstance(v, Undef): v = Vec(w, [UNDEF] * t[1])
            l = list((v.re(w) if w > 1 else v).l); l[i] = x
            return Vec(w, l)
        if op == 'shufflevector':
            a = self.val(st, ins['o'][0]); b = self.val(st, ins['o'][1]); t = ins['t']; w = self.lw(t[2])
            n = None
            la = a.re(w).l if not isinstance(a, Undef) else None
            lb = b.re(w).l if not isinstance(b, Undef) else None
            n = len(la) if la is not None else len(lb)
            if la is None: la = [UNDEF] * n
            if lb is None: lb = [UNDEF] * n
            al = la + lb
            return Vec(w, [UNDEF if m < 0 else al[m] for m in ins['mask']])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp'):
            return self.fpop(st, ins, self.val(st, ins['o'][0]), self.val(st, ins['o'][1]) if len(ins['o']) > 1 else None, None)
        if op == 'fence': return None
        raise Unsupported('instruction ' + op)
    def select(self, st, c, a, b, t):
        if isinstance(c, Vec):
            w = self.lw(t[2])
            a = self.deundef(a, t); b = self.deundef(b, t)
            if w > 1: a = a.re(w); b = b.re(w)
            return Vec(w, [self.select(st, x, y, z, t[2]) for x, y, z in zip(c.l, a.l, b.l)])
        if isinstance(c, bool): return a if c else b
        if same(a, b): return a
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if t[0] == 'i' and t[1] == 1: return simp(z3.If(c, zb(a), zb(b)))
        if isinstance(a, Bits) and isinstance(b, Bits) and len(a.b) == len(b.b): return Bits([simp(z3.If(c, zb(x), zb(y))) for x, y in zip(a.b, b.b)])
        if t[0] == 'i' or t[0] == 'f': return simp(z3.If(c, bv(a, t[1]), bv(b, t[1])))
        if t[0] == 'v':
            w = min(a.w, b.w)
            return Vec(w, [simp(z3.If(c, bv(x, w), bv(y, w))) for x, y in zip(a.re(w).l, b.re(w).l)])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and (st.mem.get(a.reg) is None or st.mem[a.reg].kind in ('bytes', 'content', 'out')):
            return Ptr(a.reg, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
        raise ForkSel(c, a, b)

    # ---------- calls ----------
    def call(self, st, fr, ins, stop):
        c = ins['callee']
        if c['k'] == 'fn':
            name = c['n']
        else:
            f = self.val(st, c)
            if not isinstance(f, FnPtr): raise Unsupported('indirect call')
            name = f.name
        args = []
        for o, t in zip(ins['args'], ins['at']):
            if o['k'] == 'md': args.append(None); continue
            args.append(self.val(st, o))
        try:
            return self.call_fn(st, fr, ins, name, args)
        except ForkVal as f:
            return self.fork_val(st, f)
        except ForkSel as f:
            raise Unsupported('fork in call')
    def finish(self, st, ins, v):
        fr = st.frames[-1]
        fr.loc[ins['id']] = v
        if ins['op'] == 'invoke':
            r = self.jump(st, ins['normal'], None)
            return r
        fr.idx += 1
        return None
    def call_fn(self, st, fr, ins, name, args):
        if name.startswith('llvm.'):
            v = self.intrinsic(st, ins, name, args)
            return self.finish(st, ins, v)
        fn = self.mod.funcs.get(name)
        dem = fn.dem if fn else name
        hit = self._imatch.get(name)
        if hit is None:
            hit = False
            for rx, h, kind in self.contracts:
                if rx.search(dem): hit = (h, kind, rx.pattern); break
            if hit is False:
                for rx, h in self.intercepts:
                    if rx.search(dem): hit = (h, 'model', rx.pattern); break
            self._imatch[name] = hit
        if hit:
            h, kind, pat = hit
            if kind == 'model': self.used_models.add(dem if len(dem) < 160 else pat)
            else: self.used_contracts.add(short(dem))
            outs = h(self, st, ins, args)
            if outs is NotImplemented: pass
            else:
                res = []
                for s, v in outs:
                    try:
                        r = self.finish(s, ins, v)
                        if r is None: res.append(s)
                        else: res.extend(r)
                    except PathEnd: pass
                if len(res) == 1 and res[0] is st: return None
                return res
        if fn is None or fn.blocks is None:
            return self.extern(st, fr, ins, name, dem, args)
        if len(st.frames) > self.max_depth: raise Unsupported('inlining depth (recursion?) in ' + short(dem))
        if sum(1 for f in st.frames if f.fn is fn) > 3: raise Unsupported('recursion in ' + short(dem))
        self.inlined.add(short(dem))
        nf = Frame(fn, args)
        # byval copies
        for i, sz in ins.get('byval', []):
            r = st.newreg('bv:%d' % next(_fresh), 'cells', sz)
            self.memcpy(st, Ptr(r.rid, 0), args[i], sz)
            nf.allocas.append(r.rid)
            nf.args = list(nf.args); nf.args[i] = Ptr(r.rid, 0)
        st.frames.append(nf)
        return None
    def extern(self, st, fr, ins, name, dem, args):
        if name == '__assert_fail':
            msg = ''
            try: msg = self.cstr(st, args[0])
            except Exception: pass
            if self.check_assert: self.oblige(st, False, 'assert(%s)' % msg)
            raise PathEnd()
        if re.match(r'std::__throw_|abort|std::terminate|__cxa_', dem):
            self.oblige(st, False, 'no-throw(%s)' % dem.split('(')[0])
            raise PathEnd()
        raise Unsupported('external function ' + dem)
    def cstr(self, st, p):
        r = st.mem[p.reg]; s = ''
        o = p.off
        while True:
            b = self.cell_byte(st, r, o)
            if b == 0: return s
            s += chr(b); o += 1

    # ---------- intrinsics ----------
    def cttz(self, st, v, w):
        if not is_sym(v):
            if v == 0: return w
            n = 0
            while not (v >> n) & 1: n += 1
            return n
        bits = self.to_bits(st, v, w)
        e = z3.IntVal(w)
        for i in reversed(range(w)):
            if bits[i] is False: continue
            e = z3.If(zb(bits[i]), z3.IntVal(i), e)
        return self.define(st, simp(e), 'ctz', 0, w)
    def define(self, st, e, name, lo, hi):
        """give a big term a name (definition added to the path condition)"""
        if not is_z(e) or st is None or z3.is_const(e): return e
        v = z3.Int('%s!%d' % (name, next(_fresh))); reg_range(v.decl().name(), lo, hi)
        st.assume(v == e)
        return v
    def ctlz(self, st, v, w):
        if not is_sym(v): return w - v.bit_length()
        if isinstance(v, Bits):
            e = z3.IntVal(w)
            for i in range(len(v.b)): e = z3.If(zb(v.b[i]), z3.IntVal(w - 1 - i), e)
            return simp(e)
        e = z3.IntVal(w)
        for i in range(w): e = z3.If(v >= (1 << i), z3.IntVal(w - 1 - i), e)
        return e
    def intrinsic(self, st, ins, name, a):
        n = name[5:]
        if n.startswith(('lifetime', 'dbg', 'prefetch', 'invariant', 'experimental.noalias', 'stacksave', 'stackrestore', 'var.annotation', 'donothing')): return None
        if n.startswith('assume'): return None
        if n.startswith('expect'): return a[0]
        if n.startswith('is.constant'): return False
        if n.startswith('objectsize'): return M64
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, a[0], a[1], self.conc(st, a[2])); return None
        if n.startswith('memset'):
            self.memset(st, a[0], a[1], a[2]); return None
        t = ins['t']
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            if t[0] == 'v':
                w = self.lw(t[2]); x = a[0].re(w); y = a[1].re(w)
                return Vec(w, [self.minmax(n[:4], p, q, w) for p, q in zip(x.l, y.l)])
            return self.minmax(n[:4], a[0], a[1], t[1])
        if n.startswith('abs'):
            w = t[1]
            if not is_sym(a[0]): return abs(sx(a[0], w)) & mask(w)
            v = bv(a[0])
            return simp(z3.If(v >= (1 << (w - 1)), (1 << w) - v, v))
        if n.startswith('cttz'): return self.cttz(st, a[0], t[1])
        if n.startswith('ctlz'): return self.ctlz(st, a[0], t[1])
        if n.startswith('ctpop'):
            w = t[1]
            if not is_sym(a[0]): return bin(a[0]).count('1')
            return simp(z3.Sum([z3.If(zb(x), z3.IntVal(1), z3.IntVal(0)) for x in self.to_bits(st, a[0], w)]))
        if n.startswith('bswap'):
            w = t[1]
            return join([byte_of(a[0], i) for i in reversed(range(w // 8))])
        if n.startswith(('fshl', 'fshr')):
            w = t[1]
            if is_sym(a[2]): raise Unsupported('funnel shift')
            s = a[2] % w
            if s == 0: return a[0] if n.startswith('fshl') else a[1]
            if n.startswith('fshr'): s = w - s
            hi = self.binop('shl', a[0], s, w, None, st); lo = self.binop('lshr', a[1], w - s, w, None, st)
            return simp(bv(hi) + bv(lo)) if is_sym(hi) or is_sym(lo) else hi | lo
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', n)
        if m:
            sg = m.group(1) == 's'; w = t[1][0][1]; o = m.group(2)
            A, B = bv(a[0]), bv(a[1])
            if sg:
                A = self.signed(A, w) if is_sym(a[0]) else z3.IntVal(sx(a[0], w)); B = self.signed(B, w) if is_sym(a[1]) else z3.IntVal(sx(a[1], w))
            r = A + B if o == 'add' else A - B if o == 'sub' else A * B
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
            return [self.norm(None, r, w), simp(z3.Or(r < lo, r > hi))]
        m = re.match(r'([us])(add|sub)\.sat', n)
        if m and m.group(1) == 'u':
            def sat(x, y, w):
                A, B = bv(x), bv(y)
                if m.group(2) == 'add': return simp(z3.If(A + B > mask(w), z3.IntVal(mask(w)), A + B))
                return simp(z3.If(A >= B, A - B, z3.IntVal(0)))
            if t[0] == 'v':
                w = self.lw(t[2]); return Vec(w, [sat(x, y, w) for x, y in zip(a[0].re(w).l, a[1].re(w).l)])
            return sat(a[0], a[1], t[1])
        if n in ('x86.sse2.pmovmskb.128', 'x86.avx2.pmovmskb'):
            v = a[0].re(8)
            def msb(x):
                if isinstance(x, Bits): return x.b[7] if len(x.b) > 7 else False
                if not is_z(x): return bool(x >> 7)
                if ite_const(x): return ite_map(x, lambda c: bool(c >> 7))
                return simp(x >= 128)
            bits = [msb(x) for x in v.l]
            return simp(Bits(bits + [False] * (32 - len(bits))))
        if n == 'x86.sse42.pcmpistri128':
            return self.pcmpistri(a[0], a[1], a[2])
        if n in ('x86.ssse3.pshuf.b.128', 'x86.avx2.pshuf.b'):
            v = a[0].re(8); mm = a[1].re(8); out = []
            for k, x in enumerate(mm.l):
                base = (k // 16) * 16
                if not is_sym(x):
                    out.append(0 if x & 128 else v.l[base + (x & 15)]); continue
                X = bv(x); e = bv(v.l[base + 15])
                for i in reversed(range(15)): e = z3.If(X % 16 == i, bv(v.l[base + i]), e)
                out.append(simp(z3.If(X >= 128, z3.IntVal(0), e)))
            return Vec(8, out)
        if n.startswith('fabs'):
            return self.bitop(st, 'and', a[0], mask(t[1] - 1), t[1]) if is_sym(a[0]) else a[0] & mask(t[1] - 1)
        if n.startswith(('ceil.f64', 'floor.f64')) and not is_sym(a[0]):
            import struct, math
            x = struct.unpack('<d', a[0].to_bytes(8, 'little'))[0]
            return int.from_bytes(struct.pack('<d', float(math.ceil(x) if n[0] == 'c' else math.floor(x))), 'little')
        if n.startswith('vector.reduce.or'):
            w = t[1]; r = 0
            for x in a[0].re(w).l: r = self.binop('or', r, x, w, None, st)
            return r
        if n.startswith(('vector.reduce.umax', 'vector.reduce.umin')):
            w = t[1]; l = a[0].re(w).l; r = l[0]
            for x in l[1:]: r = self.minmax(n[14:18], r, x, w)
            return r
        if n.startswith('aarch64.neon.'):
            return self.neon(st, ins, n[13:], a, t)
        if n.startswith('trap'):
            self.oblige(st, False, 'no-trap'); raise PathEnd()
        raise Unsupported('intrinsic ' + name)
    def neon(self, st, ins, n, a, t):
        if n.startswith(('umin', 'umax')):
            w = self.lw(t[2]); x = a[0].re(w); y = a[1].re(w)
            return Vec(w, [self.minmax(n[:4], p, q, w) for p, q in zip(x.l, y.l)])
        raise Unsupported('neon ' + n)
    def minmax(self, k, a, b, w):
        pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
        c = self.icmp(None, pred, a, b, ['i', w])
        if isinstance(c, bool): return a if c else b
        return simp(z3.If(c, bv(a, w), bv(b, w)))
    def pcmpistri(self, a, b, imm):
        """Intel SDM: PCMPISTRI for EQUAL_ANY / RANGES over unsigned bytes, index of least significant set bit."""
        a = a.re(8); b = b.re(8)
        if imm & 3: raise Unsupported('pcmpistri element kind')
        agg = (imm >> 2) & 3; pol = (imm >> 4) & 3
        if imm & 0x40: raise Unsupported('pcmpistri msb')
        def valid(l):
            out = []; ok = True
            for x in l:
                nz = b_not(eq(x, 0, 8)); ok = b_and(ok, nz) if ok is not True else nz
                ok = simp(ok) if is_z(ok) else ok
                out.append(ok)
            return out
        va, vb = valid(a.l), valid(b.l)
        res = []
        for j in range(16):
            if agg == 0:
                r = b_or(*[b_and(va[i], eq(a.l[i], b.l[j], 8)) for i in range(16)])
            elif agg == 1:
                r = b_or(*[b_and(va[i], va[i + 1], z3.And(bv(b.l[j]) >= bv(a.l[i]), bv(b.l[j]) <= bv(a.l[i + 1]))) for i in range(0, 16, 2)])
            else: raise Unsupported('pcmpistri aggregation')
            r = b_and(vb[j], r)
            if pol == 1: r = b_not(r)
            elif pol == 3: r = b_or(b_and(vb[j], b_not(r)), b_and(b_not(vb[j]), r))
            res.append(simp(r) if is_z(r) else r)
        e = z3.IntVal(16)
        for j in reversed(range(16)): e = z3.If(zb(res[j]), z3.IntVal(j), e)
        return simp(e)

    # ---------- loops ----------
    def getv(self, st, v, depth):
        if v.kind == 'phi': return st.frames[depth - 1].loc[v.key]
        rid, off = v.key
        r = st.mem[rid]
        if v.kind == 'arr': return r.arr
        if v.kind == 'out': return r.info
        c = r.cells.get(off)
        return c[1] if c is not None else None
    def havoc_val(self, v, name, w=None):
        if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)): return freshb(name)
        if isinstance(v, Bits): return fresh(name, w or len(v.b))
        if is_z(v) and z3.is_int(v): return fresh(name, w or 64)
        if is_z(v): return z3.Const('%s!%d' % (name, next(_fresh)), v.sort())
        if isinstance(v, int): return fresh(name, w)
        if isinstance(v, Ptr):
            if v.reg in ('null', 'int', 'undef'): raise Unsupported('havoc of pointer %r' % v)
            o = fresh(name, 64); reg_range(o.decl().name(), -(1 << 62), 1 << 62)
            return Ptr(v.reg, o)
        if isinstance(v, Vec): return Vec(v.w, [self.havoc_val(x, name, v.w) for x in v.l])
        if isinstance(v, Undef): return UNDEF
        if hasattr(v, 'havoc'): return v.havoc(name)
        if v is None: return None
        raise Unsupported('havoc of %r' % (v,))
    def phi_w(self, fr, pid):
        for b in fr.fn.blocks:
            for i in b:
                if i['id'] == pid: return i['t']
    def apply_havoc(self, st, vars_, depth, header):
        fr = st.frames[depth - 1]
        for v in vars_:
            if v.kind == 'phi':
                t = self.phi_w(fr, v.key)
                cur = fr.loc[v.key]
                if isinstance(cur, Undef): cur = self.deundef(cur, t)
                w = t[1] if t[0] in 'if' else None
                alt = self.phi_alt.get((fr.fn.name, header, v.key))
                fr.loc[v.key] = self.havoc_elem(st, cur, self.havoc_val(cur, v.name, w))
            elif v.kind == 'arr':
                r = st.wreg(v.key[0])
                if r.arr is None: self.to_arr(st, r)
                r.arr = z3.Array('arr_%s!%d' % (r.rid, next(_fresh)), z3.IntSort(), z3.IntSort())
            elif v.kind == 'out':
                r = st.wreg(v.key[0])
                r.info['seq'] = z3.Const('seq_%s!%d' % (r.rid, next(_fresh)), SeqS)
                r.info['len'] = fresh('len_' + r.rid, 64)
            else:
                rid, off = v.key
                r = st.wreg(rid)
                c = r.cells.get(off)
                if c is None:
                    if not r.lazy: continue
                    c = (v.sz, lazy_init(rid, off, v.sz))
                sz, cur = c
                r.cells[off] = (sz, self.havoc_elem(st, cur, self.havoc_val(cur, v.name, sz * 8)))
    def havoc_elem(self, st, old, new):
        """a pointer to an element of an array stays a pointer to some element (checked at every back edge)"""
        if isinstance(new, Ptr) and new.reg in st.mem and st.mem[new.reg].kind == 'array':
            e = st.mem[new.reg].info['elem']
            if core.split_index(old.off, e)[1] != 0: raise Unsupported('pointer into an element')
            reg_range(new.off.decl().name(), 0, 1 << 40)
            return Ptr(new.reg, e * new.off)
        return new
    phi_alt = {}
    ghost_frame = ('writes', 'elem', 'elemw', 'deleted', 'out', 'elem_err')   # specification state that a loop body must not change
    def mod_diff(self, st, ctx):
        """cells that differ from the loop-head memory and are not in the havoc set"""
        known = set((v.kind, v.key) for v in ctx.vars)
        for k in self.ghost_frame:
            a, b = st.ghost.get(k), ctx.ghost.get(k)
            if a is not b and not (isinstance(a, int) and isinstance(b, int) and a == b): raise Unsupported('call recorded by the specification inside a loop: %s' % k)
        bad = []
        for rid, r0 in ctx.mem.items():
            r1 = st.mem.get(rid)
            if r1 is r0: continue
            if r1 is None: continue
            if r0.kind == 'out':
                if not (same(r0.info['seq'], r1.info['seq']) and same(r0.info['len'], r1.info['len'])):
                    if ('out', (rid, 0)) not in known: bad.append(('out', (rid, 0), 0))
                continue
            if r0.arr is not None or r1.arr is not None:
                if r0.arr is None or not r0.arr.eq(r1.arr):
                    if ('arr', (rid, 0)) not in known: bad.append(('arr', (rid, 0), 0))
                continue
            for off in set(r0.cells) | set(r1.cells):
                a = r0.cells.get(off); b = r1.cells.get(off)
                if a is None and b is not None and r0.lazy:
                    if same(b[1], lazy_init(rid, off, b[0])): continue
                    if ('cell', (rid, off)) not in known: bad.append(('cell', (rid, off), b[0]))
                    continue
                if a is None and b is not None:
                    # newly initialised memory: at the head it was undefined; drop it to undefined again
                    if rid not in getattr(ctx, 'undef_ok', ()): pass
                    if ('cell', (rid, off)) not in known:
                        if any(z0 <= off < z1 for z0, z1 in r0.z): bad.append(('cellz', (rid, off), b[0]))
                        continue
                    continue
                if b is None or a[0] != b[0]:
                    if ('cell', (rid, off)) not in known: bad.append(('cell', (rid, off), a[0]))
                    continue
                if not same(a[1], b[1]) and ('cell', (rid, off)) not in known:
                    bad.append(('cell', (rid, off), a[0]))
        return bad
    def loop_name(self, fr, h):
        line = None
        for i in fr.fn.blocks[h]:
            if 'line' in i: line = i['line']; break
        return '%s:%s' % (short(fr.fn.dem), line)
    discover = 0
    def grow(self, fkey, bad, msg):
        """the frame found for a loop (while exploring an outer one) was too small: remember what is missing and start the unit again"""
        have = FRAME_EXTRA.setdefault(fkey, []); bad = [(k, (alloca_name(key[0]), key[1]), sz) for k, key, sz in bad]; new = [b for b in bad if b not in have]
        if not new: raise Unsupported(msg)
        have.extend(new); raise FrameGrow(msg)
    def add_frame_var(self, vars_, kind, key, sz, states):
        if kind == 'cellz':
            kind = 'cell'
            for s in states:
                r = s.mem.get(key[0])
                if r is None or key[1] in r.cells: continue
                if not any(z0 <= key[1] and key[1] + sz <= z1 for z0, z1 in r.z): raise Unsupported('zero-initialised memory changed in loop')
                s.wreg(key[0]).cells[key[1]] = (sz, 0)
        vars_.append(LoopVar(kind, key, 'm%s_%d' % (re.sub(r'\W', '_', key[0])[-20:], key[1]), sz))
        for s in states:
            r = s.mem.get(key[0])
            if r is None: continue
            if kind == 'cell' and r.lazy and key[1] not in r.cells:
                s.wreg(key[0]).cells[key[1]] = (sz, lazy_init(key[0], key[1], sz))
            if kind == 'arr' and r.arr is None: self.to_arr(s, s.wreg(key[0]))
    def enter_loop(self, st, h, phi_ids):
        fr = st.frames[-1]; depth = len(st.frames)
        blocks = fr.fn.loop_of_header[h][0]
        vars_ = [LoopVar('phi', i, 'v%d' % i) for i in phi_ids]
        entry = st.fork()
        for i in phi_ids:
            if isinstance(entry.frames[-1].loc[i], Undef):
                t = self.phi_w(fr, i)
                entry.frames[-1].loc[i] = st.frames[-1].loc[i] = self.deundef(UNDEF, t)
        self.quiet += 1
        try:
            # --- frame discovery ---
            fkey = (tuple((f.fn.name, f.blk, f.idx) for f in st.frames[:-1]), fr.fn.name, h)
            extra = [(kind, (rid, key[1]), sz) for kind, key, sz in FRAME_EXTRA.get(fkey, ()) for rid in entry.mem if alloca_name(rid) == key[0]]
            for kind, key, sz in list(self.frame_memo.get(fkey, ())) + extra:
                if key[0] in entry.mem and not any(v.kind == kind and v.key == key for v in vars_): self.add_frame_var(vars_, kind, key, sz, (entry, st))
            if self.discover and fkey in self.frame_memo: rounds = 0
            else: rounds = 12
            self.discover += 1
            for rnd in range(rounds):
                ctx = LoopCtx2(); ctx.fkey = fkey; ctx.vars = vars_; ctx.depth = depth; ctx.blocks = blocks; ctx.header = h; ctx.inv = []
                hs = entry.fork()
                self.apply_havoc(hs, vars_, depth, h)
                ctx.mem = dict(hs.mem); ctx.ghost = dict(hs.ghost)
                hs.frames[-1].cut[h] = ctx
                hs = hs.fork()
                new = {}
                def on_back(s, ctx=ctx, new=new):
                    for kind, key, sz in self.mod_diff(s, ctx): new[(kind, key)] = sz
                # use cheap candidates (bounds) during discovery so that in-bounds assumptions stay consistent
                self.explore([hs], (depth, h, blocks, on_back))
                if not new: break
                for (kind, key), sz in new.items(): self.add_frame_var(vars_, kind, key, sz, (entry, st))
            else:
                if rounds: raise Unsupported('loop frame does not stabilise')
            self.discover -= 1
            self.frame_memo[fkey] = [(v.kind, v.key, v.sz) for v in vars_ if v.kind != 'phi']
            if self.discover:
                self.apply_havoc(st, vars_, depth, h)
                ctx = LoopCtx2(); ctx.fkey = fkey; ctx.vars = vars_; ctx.depth = depth; ctx.blocks = blocks; ctx.header = h; ctx.inv = []
                ctx.mem = dict(st.mem); ctx.ghost = dict(st.ghost); ctx.measures = []
                st.own = next(core._own)
                st.frames[-1].cut[h] = ctx
                return
            # --- candidates ---
            cands = self.candidates(entry, vars_, depth, h)
            cands = self.filter_at(entry, cands)
            it = 0
            while True:
                it += 1
                if it > 60: raise Unsupported('houdini diverges')
                ctx = LoopCtx2(); ctx.fkey = fkey; ctx.vars = vars_; ctx.depth = depth; ctx.blocks = blocks; ctx.header = h; ctx.inv = [c for c in cands]
                hs = entry.fork()
                self.apply_havoc(hs, vars_, depth, h)
                for hk in self.header_hooks: hk(self, hs, vars_, depth)
                for c in cands: hs.assume(self.ev(c, hs))
                ctx.mem = dict(hs.mem); ctx.ghost = dict(hs.ghost)
                hs.frames[-1].cut[h] = ctx
                ctx.head_vals = [self.getv(hs, v, depth) for v in vars_]
                hs = hs.fork()
                alive = list(cands)
                nback = [0]
                def on_back(s, ctx=ctx):
                    bad = self.mod_diff(s, ctx)
                    if bad: self.grow(fkey, bad, 'loop frame unstable %s' % bad[:2])
                    nback[0] += 1
                    alive[:] = self.filter_at(s, alive)
                self.explore([hs], (depth, h, blocks, on_back))
                if len(alive) == len(cands): break
                cands = alive
        finally:
            self.quiet -= 1
        # --- continue with the havoced state ---
        if cands and not self.quiet:
            self.oblige(entry, b_and(*[self.ev(c, entry) for c in cands]), 'loop-invariant-entry', self.loop_name(fr, h))
        self.loops_cut[self.loop_name(fr, h)] = len(cands)
        self.apply_havoc(st, vars_, depth, h)
        ctx = LoopCtx2(); ctx.fkey = fkey; ctx.vars = vars_; ctx.depth = depth; ctx.blocks = blocks; ctx.header = h; ctx.inv = cands
        ctx.name = self.loop_name(fr, h)
        for hk in self.header_hooks: hk(self, st, vars_, depth)
        for c in cands: st.assume(self.ev(c, st))
        ctx.mem = dict(st.mem); ctx.ghost = dict(st.ghost)
        ctx.head_vals = [self.getv(st, v, depth) for v in vars_]
        ctx.measures = self.measures(ctx)
        st.own = next(core._own)
        st.frames[-1].cut[h] = ctx
        if not self.quiet: self.ctxs.append(ctx)
        if os.environ.get('VCG_INV') and not self.quiet:
            print('LOOP', ctx.name, 'inv:', ' ;; '.join(' '.join(str(simp(self.ev(c, st))).split()) for c in cands[:200]))
    ctxs = []
    header_hooks = []
    def measures(self, ctx):
        out = []
        for k, v in enumerate(ctx.head_vals):
            t = v.off if isinstance(v, Ptr) else v
            if is_z(t) and z3.is_int(t):
                out.append((k, 'up')); out.append((k, 'down'))
        return out
    def backedge(self, st, ctx):
        bad = self.mod_diff(st, ctx)
        if bad: self.grow(ctx.fkey, bad, 'loop frame changed: %s' % (bad[:3],))
        for v in ctx.vars:
            x = self.getv(st, v, ctx.depth)
            if isinstance(x, Ptr) and x.reg in st.mem and st.mem[x.reg].kind == 'array':
                e = st.mem[x.reg].info['elem']; i, f = core.split_index(x.off, e)
                if f: raise Unsupported('pointer into an element')
                self.oblige(st, simp(z3.And(bv(i) >= 0, bv(i) <= 1 << 40)), 'loop:element-pointer')
        if ctx.inv:
            self.oblige(st, simp(b_and(*[self.ev(c, st) for c in ctx.inv])), 'loop-invariant-preserved', ctx.name if hasattr(ctx, 'name') else None)
        if not self.quiet and self.term:
            ctx.back = True
            keep = []
            for k, d in ctx.measures:
                a = ctx.head_vals[k]; b = self.getv(st, ctx.vars[k], ctx.depth)
                if isinstance(a, Ptr):
                    if not isinstance(b, Ptr) or a.reg != b.reg: continue
                    a, b = a.off, b.off
                g = a < bv(b) if d == 'up' else a > bv(b)
                if self.must(st, simp(g)): keep.append((k, d)); 
            ctx.measures = keep
    def ev(self, c, st):
        try:
            return c(st)
        except CandNA:
            return False
    def filter_at(self, st, cands):
        """keep candidates valid in st"""
        pairs = [(c, self.ev(c, st)) for c in cands]
        pairs = [(c, simp(f) if is_z(f) else f) for c, f in pairs]
        pairs = [(c, f) for c, f in pairs if f is not False]
        for rnd in range(400):
            open_ = [f for c, f in pairs if f is not True]
            if not open_: return [c for c, f in pairs]
            r = self.sol.check(st.pc, [b_not(b_and(*open_))])
            if r == 'unsat': return [c for c, f in pairs]
            if r == 'sat':
                m = self.sol.model
                keep = []
                for c, f in pairs:
                    if f is True: keep.append((c, f)); continue
                    v = m.eval(f, model_completion=True)
                    if z3.is_false(v): continue
                    keep.append((c, f))
                if len(keep) == len(pairs):
                    # model not total on something: drop one by one
                    keep = [(c, f) for c, f in pairs if f is True or self.sol.check(st.pc, [b_not(f)]) == 'unsat']
                pairs = keep
            else:
                pairs = [(c, f) for c, f in pairs if f is True or self.sol.check(st.pc, [b_not(f)]) == 'unsat']
        raise Unsupported('filter')

    # ---------- candidate templates ----------
    def candidates(self, st, vars_, depth, h):
        fr = st.frames[depth - 1]
        out = []
        ints = []   # (getter, region or None, width, entry term)
        bools = []
        for v in vars_:
            g = (lambda s, v=v: self.getv(s, v, depth))
            e = g(st)
            if isinstance(e, Ptr):
                def off(s, g=g, rid=e.reg):
                    p = g(s)
                    if not isinstance(p, Ptr) or p.reg != rid: raise CandNA()
                    return p.off
                ints.append((off, e.reg, 64, e.off, v))
            elif isinstance(e, bool) or (is_z(e) and z3.is_bool(e)):
                bools.append((g, e, v))
            elif isinstance(e, (int, Bits)) or (is_z(e) and z3.is_int(e)):
                w = None
                if v.kind == 'phi':
                    t = self.phi_w(fr, v.key); w = t[1]
                elif v.kind == 'cell':
                    w = st.mem[v.key[0]].cells[v.key[1]][0] * 8
                if isinstance(e, Bits): e = e.to_int()
                if w: ints.append(((lambda s, g=g: bv(g(s)) if isinstance(g(s), Bits) else g(s)), None, w, e, v))
            elif hasattr(e, 'terms'):
                for nm, w, gt in e.terms():
                    ints.append(((lambda s, g=g, gt=gt: gt(g(s))), None, w, gt(e), v))
            elif v.kind == 'out':
                ints.append(((lambda s, g=g: g(s)['len']), None, 64, e['len'], v))
        # fixed terms
        fixed = {}
        def addfix(reg, w, t):
            k = (reg, w, t if not is_z(t) else t.get_id())
            fixed.setdefault(k, (reg, w, t))
        for g, reg, w, e, v in ints: addfix(reg, w, e)
        for rid, r in st.mem.items():
            if r.kind in ('bytes',) :
                addfix(None, 64, r.size); addfix(rid, 64, r.size)
                if 'pool' in r.info:
                    for t in r.info['pool']: addfix(rid, 64, t); addfix(None, 64, t)
        ivs = set(v.key for v in vars_ if v.kind == 'phi')
        n = 0
        for i, x in fr.loc.items():
            if i in ivs: continue
            if isinstance(x, Ptr) and (is_z(x.off)) : addfix(x.reg, 64, x.off)
            elif is_z(x) and z3.is_int(x) and not ite_const(x): addfix(None, 64, x); addfix(None, 32, x)
        for x in fr.args:
            if isinstance(x, Ptr) and is_z(x.off): addfix(x.reg, 64, x.off)
            elif is_z(x) and z3.is_int(x) and not ite_const(x): addfix(None, 64, x); addfix(None, 32, x)
        fl = list(fixed.values())[:60]
        for g, reg, w, e, v in ints:
            out.append(lambda s, g=g, e=e, w=w: eq(g(s), e, w))
            for r2, w2, t in fl:
                if w2 != w or (r2 is not None and reg is not None and r2 != reg): continue
                if reg is None and r2 is not None: pass
                out.append(lambda s, g=g, t=t, w=w: ule(g(s), t, w))
                out.append(lambda s, g=g, t=t, w=w: ule(t, g(s), w))
            if reg is None and w in (32, 64):
                h = 1 << (w - 1)
                out.append(lambda s, g=g, h=h: bv(g(s)) < h)
            if w <= 32 and reg is None:
                for cst in (0, 1):
                    out.append(lambda s, g=g, w=w, cst=cst: eq(g(s), cst, w))
                out.append(lambda s, g=g, w=w: ule(g(s), 1, w))
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                g1, r1, w1, e1, _ = ints[i]; g2, r2, w2, e2, _ = ints[j]
                if w1 != w2: continue
                out.append(lambda s, g1=g1, g2=g2, e1=e1, e2=e2, w=w1: eq(sub(g1(s), g2(s), w), sub(e1, e2, w), w))
                out.append(lambda s, g1=g1, g2=g2, e1=e1, e2=e2, w=w1: eq(add(g1(s), g2(s), w), add(e1, e2, w), w))
                if r1 == r2 or r1 is None or r2 is None:
                    out.append(lambda s, g1=g1, g2=g2, w=w1: ule(g1(s), g2(s), w))
                    out.append(lambda s, g1=g1, g2=g2, w=w1: ule(g2(s), g1(s), w))
        # unrolled searches (trip counters): a*k + x == const
        for g1, r1, w1, e1, v1 in ints:
            for g2, r2, w2, e2, v2 in ints:
                if v1 is v2 or w1 != 64 or w2 != 64: continue
                for k in (2, 4, 8, 16, 32):
                    out.append(lambda s, g1=g1, g2=g2, e1=e1, e2=e2, k=k: eq(simp(bv(g1(s)) * k + bv(g2(s))), simp(bv(e1) * k + bv(e2))))
        for g, e, v in bools:
            out.append(lambda s, g=g, e=e: zb(g(s)) == zb(e))
            out.append(lambda s, g=g: zb(g(s)))
            out.append(lambda s, g=g: z3.Not(zb(g(s))))
        for hk in self.cand_hooks:
            out.extend(hk(self, st, ints, bools, vars_, depth, fl))
        return out

class CandNA(Exception): pass
FRAME_EXTRA = {}
def alloca_name(rid): return rid.rsplit('.', 1)[0] if isinstance(rid, str) and rid.startswith('a:') else rid
class FrameGrow(Unsupported): pass
def run_unit(fn, mod, deadline):
    """run a unit; again from the start whenever a loop's frame turned out too small"""
    FRAME_EXTRA.clear()
    for k in range(12):
        try: return fn(mod, deadline)
        except FrameGrow as e: err = e
    raise err
class LoopCtx2:
    pass

def run_function(ex, fn, args, setup_state, on_return):
    """symbolically execute fn from setup_state; on_return(ex, st, rv) posts the postcondition."""
    st = setup_state
    ex.fn_name = short(fn.dem)
    fr = Frame(fn, args)
    st.frames.append(fr)
    ex.on_return = lambda s, rv: on_return(ex, s, rv)
    ex.ctxs = []
    ex.explore([st])
    for c in ex.ctxs:
        if not c.measures and getattr(c, 'back', False): ex.noterm.append(c.name)
