"""VC generator: path-wise symbolic execution of LLVM IR with contracts, cut loops (inductive invariants
found by Houdini over candidate templates) and named obligations discharged by z3."""
import re, time, sys, itertools, os
import z3
from ir import Module, Func, tsize

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class Budget(Exception):
    pass

M64 = (1 << 64) - 1
def mask(w): return (1 << w) - 1
def sx(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v

# Integers iN are mathematical integers in [0, 2^N): python int | z3 Int term | Bits (list of booleans).
# Wrap-around is modelled exactly (see Exec.norm); leaf terms carry a registered range that is asserted with
# every query that mentions them.
class Bits:
    """integer given by its bits (LSB first); each a python bool or z3 Bool"""
    __slots__ = ('b', '_int')
    def __init__(self, b): self.b = b; self._int = None
    def to_int(self):
        if self._int is None:
            if all(isinstance(x, bool) for x in self.b):
                self._int = sum(1 << i for i, x in enumerate(self.b) if x)
            else:
                self._int = z3.simplify(z3.Sum([z3.If(x, z3.IntVal(1 << i), z3.IntVal(0)) if is_z(x) else z3.IntVal((1 << i) if x else 0) for i, x in enumerate(self.b)]))
        return self._int
    def same(self, o): return isinstance(o, Bits) and len(o.b) == len(self.b) and all(same(x, y) for x, y in zip(self.b, o.b))

def is_z(v): return isinstance(v, z3.ExprRef)
def is_sym(v): return isinstance(v, (z3.ExprRef, Bits))
def bv(v, w=None):
    """lift to a z3 Int term"""
    if isinstance(v, Bits): v = v.to_int()
    if is_z(v):
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    if isinstance(v, bool): v = int(v)
    return z3.IntVal(v)
def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v
def simp(e):
    if isinstance(e, Bits):
        i = e.to_int()
        return i if not is_z(i) else e
    if not is_z(e): return e
    r = z3.simplify(e)
    if z3.is_int_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def b_not(a): return (not a) if isinstance(a, bool) else z3.Not(a)
def b_and(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def b_or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)

# ---- ranges of leaf terms ----
RANGE = {}            # const / function name -> (lo, hi)
def reg_range(name, lo, hi): RANGE[name] = (lo, hi)
_leaf = {}
def leaves(e):
    """set of (ast) leaf int consts and uninterpreted int applications below e"""
    i = e.get_id()
    c = _leaf.get(i)
    if c is not None: return c[1]
    out = {}
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen: continue
        seen.add(xi)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x): out[xi] = x
            stack.extend(x.children())
    _leaf[i] = (e, out)
    return out
_ivl = {}
INF = float('inf')
def interval(e):
    """conservative integer interval of a term, from registered leaf ranges"""
    if not is_z(e):
        if isinstance(e, Bits): return (0, mask(len(e.b)))
        return (int(e), int(e))
    i = e.get_id()
    c = _ivl.get(i)
    if c is not None: return c[1]
    r = _interval(e)
    _ivl[i] = (e, r)
    return r
def _interval(e):
    if z3.is_int_value(e): v = e.as_long(); return (v, v)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED: return RANGE.get(e.decl().name(), (-INF, INF))
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for x in ch: a, b = interval(x); lo += a; hi += b
        return (lo, hi)
    if k == z3.Z3_OP_SUB:
        lo, hi = interval(ch[0])
        for x in ch[1:]: a, b = interval(x); lo -= b; hi -= a
        return (lo, hi)
    if k == z3.Z3_OP_MUL:
        lo, hi = interval(ch[0])
        for x in ch[1:]:
            a, b = interval(x)
            ps = []
            for p in (lo, hi):
                for q in (a, b):
                    ps.append(0 if p == 0 or q == 0 else p * q)
            lo, hi = min(ps), max(ps)
        return (lo, hi)
    if k == z3.Z3_OP_UMINUS: a, b = interval(ch[0]); return (-b, -a)
    if k == z3.Z3_OP_ITE:
        a, b = interval(ch[1]); c, d = interval(ch[2]); return (min(a, c), max(b, d))
    if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM) and z3.is_int_value(ch[1]):
        m = ch[1].as_long()
        if m > 0:
            a, b = interval(ch[0])
            if a >= 0 and b < m: return (a, b)
            return (0, m - 1)
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and z3.is_int_value(ch[1]):
        m = ch[1].as_long(); a, b = interval(ch[0])
        if m > 0: return (a if a in (INF, -INF) else a // m, b if b in (INF, -INF) else b // m)
    return (-INF, INF)

def ite_const(e, lim=80):
    """True if e is an If-tree whose leaves are integer constants"""
    n = 0; stack = [e]
    while stack:
        x = stack.pop(); n += 1
        if n > lim: return False
        if z3.is_int_value(x): continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            stack.append(x.arg(1)); stack.append(x.arg(2)); continue
        return False
    return True
def ite_map(e, f):
    if not is_z(e): return f(e)
    if z3.is_int_value(e): return f(e.as_long())
    a = ite_map(e.arg(1), f); b = ite_map(e.arg(2), f)
    if same(a, b): return a
    c = e.arg(0)
    if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)):
        return simp(z3.If(c, zb(a), zb(b)))
    return z3.If(c, bv(a), bv(b))

def add(a, b, w=64):
    """offset arithmetic without wrap (mathematical); use Exec.norm for machine arithmetic"""
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(b) and b == 0: return a
    if not is_sym(a) and a == 0: return b
    return simp(bv(a) + bv(b))
def sub(a, b, w=64):
    if not is_sym(a) and not is_sym(b): return a - b
    if not is_sym(b) and b == 0: return a
    return simp(bv(a) - bv(b))
def ule(a, b, w=64):
    if not is_sym(a) and not is_sym(b): return a <= b
    return bv(a) <= bv(b)
def ult(a, b, w=64):
    if not is_sym(a) and not is_sym(b): return a < b
    return bv(a) < bv(b)
def eq(a, b, w=64):
    if not is_sym(a) and not is_sym(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)): return zb(a) == zb(b)
    return bv(a) == bv(b)
def same(a, b):
    if a is b: return True
    if is_z(a) and is_z(b): return a.eq(b)
    if is_z(a) or is_z(b): return False
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.reg == b.reg and same(a.off, b.off)
    if isinstance(a, Vec) and isinstance(b, Vec): return a.w == b.w and len(a.l) == len(b.l) and all(same(x, y) for x, y in zip(a.l, b.l))
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'same'): return a.same(b)
    return type(a) == type(b) and a == b

class Ptr:
    __slots__ = ('reg', 'off')
    def __init__(self, reg, off): self.reg = reg; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.reg, self.off)
NULL = Ptr('null', 0)
class Undef:
    def __repr__(self): return 'undef'
    def same(self, o): return isinstance(o, Undef)
UNDEF = Undef()
class Vec:
    """vector value; w = width of the stored lanes (may differ from the IR lane width)"""
    __slots__ = ('w', 'l')
    def __init__(self, w, l): self.w = w; self.l = l
    def pack(self, w):
        """lanes are booleans (i1) -> lanes of width w"""
        return Vec(w, [simp(Bits(list(self.l[i:i + w]))) for i in range(0, len(self.l), w)])
    def re(self, w):
        if w == self.w: return self
        if w > self.w:
            k = w // self.w
            out = []
            for i in range(0, len(self.l), k):
                parts = self.l[i:i + k]
                if any(isinstance(p, Undef) for p in parts): out.append(UNDEF)
                elif all(not is_sym(p) for p in parts):
                    out.append(sum(p << (self.w * j) for j, p in enumerate(parts)))
                else:
                    out.append(simp(z3.Sum([bv(p) * (1 << (self.w * j)) for j, p in enumerate(parts)])))
            return Vec(w, out)
        k = self.w // w
        out = []
        for p in self.l:
            for j in range(k):
                out.append(UNDEF if isinstance(p, Undef) else byte_of(p, j, w))
        return Vec(w, out)

def byte_of(p, j, w=8):
    """j-th w-bit digit of p"""
    if isinstance(p, bool): p = int(p)
    if isinstance(p, Bits): return simp(Bits((p.b + [False] * w * (j + 1))[j * w:j * w + w]))
    if not is_z(p): return (p >> (w * j)) & mask(w)
    if z3.is_bool(p): return z3.If(p, z3.IntVal(1), z3.IntVal(0)) if j == 0 else 0
    if ite_const(p): return ite_map(p, lambda c: (c >> (w * j)) & mask(w))
    e = p if j == 0 else p / (1 << (w * j))
    lo, hi = interval(e)
    if lo >= 0 and hi <= mask(w): return simp(e)
    return simp(e % (1 << w))
def join(bs, w=8):
    if all(not is_sym(b) for b in bs): return sum(b << (w * i) for i, b in enumerate(bs))
    return simp(z3.Sum([bv(b) * (1 << (w * i)) for i, b in enumerate(bs)]))

class FnPtr:
    def __init__(self, name): self.name = name
    def same(self, o): return isinstance(o, FnPtr) and o.name == self.name

_fresh = itertools.count()
def fresh(name, w):
    n = '%s!%d' % (name, next(_fresh))
    reg_range(n, 0, mask(w))
    return z3.Int(n)
def intvar(name, w=64, hi=None):
    reg_range(name, 0, mask(w) if hi is None else hi)
    return z3.Int(name)
def bytefun(name, w=8):
    reg_range(name, 0, mask(w))
    return z3.Function(name, z3.IntSort(), z3.IntSort())
def freshb(name): return z3.Bool('%s!%d' % (name, next(_fresh)))

def lazy_init(rid, off, n): return intvar('init:%s+%d.%d' % (rid, off, n), n * 8)

class Reg:
    """memory region.  kind: cells | bytes (read-only symbolic byte buffer) | out (append log)"""
    __slots__ = ('rid', 'kind', 'size', 'cells', 'owner', 'lazy', 'ro', 'f', 'info', 'arr', 'alive', 'z')
    def __init__(self, rid, kind, size, lazy=False, ro=False):
        self.rid = rid; self.kind = kind; self.size = size; self.cells = {}; self.owner = None
        self.lazy = lazy; self.ro = ro; self.f = None; self.info = {}; self.arr = None; self.alive = True; self.z = []
    def clone(self, owner):
        r = Reg(self.rid, self.kind, self.size, self.lazy, self.ro)
        r.cells = dict(self.cells); r.f = self.f; r.info = dict(self.info); r.arr = self.arr; r.owner = owner; r.alive = self.alive; r.z = list(self.z)
        return r

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'loc', 'args', 'cut', 'unroll', 'ret', 'allocas', 'onret')
    def __init__(self, fn, args):
        self.fn = fn; self.blk = 0; self.idx = 0; self.prev = -1; self.loc = {}; self.args = args
        self.cut = {}; self.unroll = {}; self.ret = None; self.allocas = []; self.onret = None
    def copy(self):
        f = Frame(self.fn, self.args)
        f.blk = self.blk; f.idx = self.idx; f.prev = self.prev; f.loc = dict(self.loc); f.cut = dict(self.cut)
        f.unroll = dict(self.unroll); f.ret = self.ret; f.allocas = list(self.allocas); f.onret = self.onret
        return f

_own = itertools.count(1)
class State:
    __slots__ = ('frames', 'mem', 'pc', 'own', 'inst', 'ghost', 'trace')
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.own = next(_own); self.inst = set(); self.ghost = {}; self.trace = []
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc)
        s.own = next(_own); s.inst = set(self.inst); s.ghost = dict(self.ghost); s.trace = list(self.trace)
        self.own = next(_own)
        return s
    def wreg(self, rid):
        r = self.mem[rid]
        if r.owner != self.own:
            r = r.clone(self.own); self.mem[rid] = r
        return r
    def assume(self, c):
        if c is True: return
        self.pc.append(zb(c))
    def newreg(self, rid, kind, size, **k):
        base = rid; n = 0
        while rid in self.mem:
            n += 1; rid = '%s.%d' % (base, n)
        r = Reg(rid, kind, size, **k); r.owner = self.own
        self.mem[rid] = r
        return r

class SolverMgr:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.s = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.nq = 0; self.t = 0.0
        self.unknowns = 0; self.thirds = 0
        self.decl = {}
        self.hits = {}
    def ranges(self, c, level):
        for i, x in leaves(c).items():
            l = self.decl.get(i)
            if l is not None and l[0] <= level: continue
            r = RANGE.get(x.decl().name())
            if r is not None:
                self.decl[i] = (level, x)
                if r[0] != -INF: self.s.add(x >= r[0])
                if r[1] != INF: self.s.add(x <= r[1])
    def sync(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]: n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
            for i in [i for i, (l, _) in self.decl.items() if l > n]: del self.decl[i]
        for c in pc[n:]:
            self.s.push(); self.s.add(c); st.append(c)
            self.ranges(c, len(st))
    def check(self, pc, extra=()):
        """returns 'sat'/'unsat'/'unknown'"""
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        lv = len(self.stack) + 1
        for e in extra:
            self.s.add(zb(e)); self.ranges(zb(e), lv)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        for i in [i for i, (l, _) in self.decl.items() if l >= lv]: del self.decl[i]
        self.nq += 1; self.t += time.time() - t0
        if r == z3.unknown:
            # second attempt: fresh non-incremental solver
            t0 = time.time()
            # then, a few times per unit, others with more time: a slow machine must not turn a proof into an alarm
            for seed, tmo in ((7, 2), (11, 4)):
                if seed == 11:
                    if self.thirds >= 4 or self.timeout < 20000: break
                    self.thirds += 1
                s2 = z3.Solver(); s2.set('timeout', self.timeout * tmo); s2.set('random_seed', seed)
                done = set()
                for c in list(pc) + [zb(e) for e in extra]:
                    s2.add(c)
                    for i, x in leaves(c).items():
                        if i in done: continue
                        done.add(i); rr = RANGE.get(x.decl().name())
                        if rr is not None:
                            if rr[0] != -INF: s2.add(x >= rr[0])
                            if rr[1] != INF: s2.add(x <= rr[1])
                r = s2.check(); self.model = s2.model() if r == z3.sat else None
                if r != z3.unknown: break
            self.t += time.time() - t0
        return str(r)

class Obl:
    __slots__ = ('name', 'where', 'ok', 'status', 'detail', 'model', 't')
    def __init__(self, name, where, ok, status, detail='', model=None, t=0):
        self.name = name; self.where = where; self.ok = ok; self.status = status; self.detail = detail; self.model = model; self.t = t

class LoopCtx:
    __slots__ = ('inv', 'vars', 'depth', 'blocks', 'header', 'measures')

class Exec:
    def __init__(self, mod, deadline=None):
        self.bases = {}
        self.mod = mod
        self.sol = SolverMgr()
        self.obls = []
        self.quiet = 0           # >0: houdini phase; obligations assumed
        self.intercepts = []     # (regex, handler(ex, st, fr, ins, args) -> list[(state, ret)])
        self.contracts = []      # (regex, handler)
        self.cand_hooks = []     # f(ex, st, loopvars) -> [formula builders]
        self.read_hooks = []     # f(ex, st, reg, idx)
        self.append_hooks = []
        self.inlined = set(); self.used_contracts = set(); self.used_models = set(); self.assumed = set()
        self.deadline = deadline
        self.unroll_policy = None; self.header_hook = None
        self.max_depth = 60
        self.npaths = 0
        self.loops_cut = {}
        self.globs = {}
        self.where_prefix = ''
        self.check_assert = True
        self._imatch = {}
        self.max_unroll = 70
        self.term = True         # look for a termination measure
        self.noterm = []
        self.fn_name = ''
        self.havoc_regs = set(); self.frame_memo = {}; self.discover = 0

    # ---------- obligations ----------
    def where(self, st):
        if not st.frames: return ''
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][min(fr.idx, len(fr.fn.blocks[fr.blk]) - 1)]
        return '%s:%s' % (short(fr.fn.dem), ins.get('line', '?'))
    def oblige(self, st, cond, name, where=None, detail=''):
        if self.quiet:
            if cond is not True: st.assume(cond)
            return True
        if cond is True:
            self.obls.append(Obl(name, where or self.where(st), True, 'trivial'))
            return True
        t0 = time.time()
        r = self.sol.check(st.pc, [b_not(cond)])
        ok = r == 'unsat'
        self.obls.append(Obl(name, where or self.where(st), ok, r, detail, self.sol.model if r == 'sat' else None, time.time() - t0))
        if not ok and os.environ.get('VCG_DEBUG'):
            print('FAILED', name, where or self.where(st), r, detail, cond)
            if os.environ.get('VCG_DEBUG') == '2' and self.sol.model: print(self.sol.model)
        st.assume(cond)
        return ok
    def feasible(self, st, extra=()):
        if any(e is False for e in extra): return False
        r = self.sol.check(st.pc, extra)
        return r != 'unsat'
    def must(self, st, c):
        if c is True: return True
        if c is False: return False
        return self.sol.check(st.pc, [b_not(c)]) == 'unsat'

    # ---------- operands ----------
    def glob(self, st, name):
        rid = 'g:' + name
        if rid not in st.mem:
            g = self.mod.globals[name]
            r = Reg(rid, 'cells', g.get('size', 0), ro=g['const'])
            r.owner = None
            if rid in self.globs and g['const']:
                st.mem[rid] = self.globs[rid]
                return Ptr(rid, 0)
            if 'init' in g and (g['const'] or g['dem'] in ()):
                self.fill_const(st, r, 0, g['init'], g['t'])
            elif 'init' in g and not g['const']:
                # mutable global: treated as immutable only if never stored to in the module (checked by caller list)
                if name in self.stored_globals(): r.lazy = True
                else: self.fill_const(st, r, 0, g['init'], g['t']); r.ro = True
            else:
                r.lazy = True
            self.globs[rid] = r
            st.mem[rid] = r
        return Ptr(rid, 0)
    def stored_globals(self):
        if not hasattr(self, '_sg'):
            s = set()
            for f in self.mod.funcs.values():
                if f.blocks is None: continue
                for b in f.blocks:
                    for i in b:
                        if i['op'] == 'store':
                            for o in i['o'][1:]:
                                while o.get('k') == 'gep': o = o['b']
                                if o.get('k') == 'g': s.add(o['n'])
            self._sg = s
        return self._sg
    def fill_const(self, st, r, off, o, t):
        k = o['k']
        if k == 'zero':
            r.z.append((off, off + tsize(t)))
        elif k == 'agg':
            ty = o['t']
            if ty[0] == 'a':
                es = ty[3]
                for i, e in enumerate(o['e']): self.fill_const(st, r, off + i * es, e, ty[2])
            elif ty[0] == 's':
                for e, et, eo in zip(o['e'], ty[1], ty[2]): self.fill_const(st, r, off + eo, e, et)
            elif ty[0] == 'v':
                es = tsize(ty[2])
                for i, e in enumerate(o['e']): self.fill_const(st, r, off + i * es, e, ty[2])
        elif k in ('undef', 'poison'):
            pass
        else:
            v = self.opnd_const(st, o)
            sz = tsize(t)
            r.cells[off] = (sz, v)
    def opnd_const(self, st, o):
        k = o['k']
        if k == 'int':
            v = int(o['v'])
            return bool(v) if o['w'] == 1 else v
        if k == 'fp': return int(o['v'])
        if k == 'null': return NULL
        if k == 'g': return self.glob(st, o['n'])
        if k == 'fn': return FnPtr(o['n'])
        if k == 'gep':
            p = self.opnd_const(st, o['b'])
            off = add(p.off, o['c'])
            if o['var']: raise Unsupported('const gep var')
            return Ptr(p.reg, off)
        if k in ('undef', 'poison'): return UNDEF
        if k == 'zero':
            return self.zero(o['t'])
        if k == 'agg':
            if o['t'][0] == 'v':
                return Vec(self.lw(o['t'][2]), [self.opnd_const(st, e) for e in o['e']])
            return [self.opnd_const(st, e) for e in o['e']]
        if k == 'ce':
            if o['op'] == 'ptrtoint':
                return self.ptrtoint(st, self.opnd_const(st, o['e'][0]))
            if o['op'] == 'inttoptr':
                v = self.opnd_const(st, o['e'][0])
                return Ptr('int', v)
        raise Unsupported('const operand ' + str(o)[:100])
    def lw(self, t):
        if t[0] == 'i': return t[1]
        if t[0] == 'p': return 64
        if t[0] == 'f': return t[1]
        raise Unsupported('lane ' + str(t))
    def zero(self, t):
        if t[0] == 'i': return False if t[1] == 1 else 0
        if t[0] == 'p': return NULL
        if t[0] == 'f': return 0
        if t[0] == 'v': return Vec(self.lw(t[2]), [self.zero(t[2]) for _ in range(t[1])])
        if t[0] == 'a': return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 's': return [self.zero(x) for x in t[1]]
        raise Unsupported('zero ' + str(t))
    def val(self, st, o):
        k = o['k']
        if k == 'v': return st.frames[-1].loc[o['i']]
        if k == 'arg': return st.frames[-1].args[o['i']]
        return self.opnd_const(st, o)
    def deundef(self, v, t):
        """undef read as an arbitrary value"""
        if isinstance(v, Undef):
            if t[0] == 'i': return freshb('undef') if t[1] == 1 else fresh('undef', t[1])
            if t[0] == 'f': return fresh('undef', t[1])
            if t[0] == 'v': return Vec(self.lw(t[2]), [self.deundef(UNDEF, t[2]) for _ in range(t[1])])
            if t[0] == 'p': return Ptr('undef', 0)
        return v

    def ptrtoint(self, st, p):
        if isinstance(p, FnPtr): return intvar('fn_' + p.name, 64)
        if p.reg == 'null' or p.reg == 'int': return p.off
        b = intvar('base_' + p.reg, 64, (1 << 62)); self.bases['base_' + p.reg] = p.reg
        return add(b, p.off)

    # ---------- memory ----------
    def reg(self, st, p):
        if not isinstance(p, Ptr): raise Unsupported('deref of %r' % (p,))
        if p.reg not in st.mem:
            g = self.globs.get(p.reg)
            if g is None or not g.ro: return None
            st.mem[p.reg] = g       # constant reached through another constant
        return st.mem[p.reg]
    def bounds(self, st, p, n, what):
        r = self.reg(st, p)
        if r is None:
            self.oblige(st, False, what + ':valid-pointer(%s)' % p.reg)
            raise PathEnd()
        if r.size is None: return r
        if not is_z(p.off) and not is_z(r.size) and not is_z(n):
            c = p.off >= 0 and p.off + n <= r.size
        else:
            c = b_and(ule(0, p.off), ule(0, n), ule(add(p.off, n), r.size))
            c = simp(c) if is_z(c) else c
        self.oblige(st, c, what + ':in-bounds')
        return r
    def read_byte(self, st, r, i):
        """symbolic byte of a 'bytes' region"""
        e = r.f(bv(i, 64))
        for h in self.read_hooks: h(self, st, r, i)
        return e
    def load(self, st, p, t):
        n = tsize(t)
        if t[0] == 's':
            return [self.load(st, Ptr(p.reg, add(p.off, o)), x) for x, o in zip(t[1], t[2])]
        if t[0] == 'a':
            return [self.load(st, Ptr(p.reg, add(p.off, i * t[3])), t[2]) for i in range(t[1])]
        r = self.bounds(st, p, n, 'load')
        if t[0] == 'v':
            ew = self.lw(t[2])
            if r.kind == 'bytes':
                return Vec(8, [self.read_byte(st, r, add(p.off, i)) for i in range(n)])
            es = tsize(t[2])
            if r.kind == 'cells' and not is_z(p.off):
                # try to fetch at lane granularity / bytes
                return Vec(ew, [self.load_cell(st, r, p.off + i * es, es, t[2]) for i in range(t[1])])
            return Vec(8, [self.load1(st, r, add(p.off, i), 1, ['i', 8]) for i in range(n)])
        return self.load1(st, r, p.off, n, t)
    def load1(self, st, r, off, n, t):
        if r.kind == 'bytes':
            if t[0] == 'p': raise Unsupported('pointer load from byte buffer')
            bs = [self.read_byte(st, r, add(off, i)) for i in range(n)]
            v = join(bs)
            if t[0] == 'i' and t[1] == 1: return simp(v % 2 == 1)
            return v
        if r.kind == 'cells':
            if is_z(off): off = self.unique(st, off)
            if is_z(off):
                return self.load_sym(st, r, off, n, t)
            return self.load_cell(st, r, off, n, t)
        if r.kind == 'array':
            idx, fo = split_index(off, r.info['elem'])
            return self.conv(r.info['field'](self, st, idx, fo, n, t), n, t)
        if r.kind == 'junk':
            if t[0] == 'p': raise Unsupported('pointer in ' + r.rid)
            return freshb('junk') if t[0] == 'i' and t[1] == 1 else fresh('junk', 8 * n)
        raise Unsupported('load from region kind ' + r.kind)
    def conv(self, v, n, t):
        """cell value -> value of type t"""
        if t[0] == 'i' and t[1] == 1:
            if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)): return v
            if isinstance(v, Undef): return UNDEF
            if isinstance(v, Bits): return v.b[0]
            return bool(v & 1) if not is_z(v) else simp(b_not(eq(v, 0))) if interval(v)[1] <= 1 else simp(v % 2 == 1)
        if t[0] == 'p':
            if isinstance(v, (Ptr, FnPtr, Undef)): return v
            if not is_z(v) and v == 0: return NULL
            if hasattr(v, 'is_ghost'): return v
            if is_sym(v): return self.int_to_ptr(None, v)
            raise Unsupported('int read as pointer %r' % (v,))
        if isinstance(v, Ptr):
            return self.ptrtoint(None, v)
        if isinstance(v, bool): return int(v)
        if is_z(v) and z3.is_bool(v): return bv(v, n * 8)
        return v
    def load_cell(self, st, r, off, n, t):
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv(c[1], n, t)
        # overlapping cells?
        ov = [(o, s, v) for o, (s, v) in r.cells.items() if o < off + n and off < o + s]
        if not ov:
            for a, b in r.z:
                if a <= off and off + n <= b: return self.conv(0, n, t)
            if not r.lazy:
                return UNDEF if t[0] != 'v' else UNDEF
            if t[0] == 'p':
                raise Unsupported('lazy pointer load %s+%d' % (r.rid, off))
            v = lazy_init(r.rid, off, n)
            w = st.wreg(r.rid); w.cells[off] = (n, v)
            return self.conv(v, n, t)
        for o, s, v in ov:
            if hasattr(v, 'is_ghost'): raise Unsupported('raw access to modelled object %s+%d (%s)' % (r.rid, off, v))
        if t[0] == 'p': raise Unsupported('partial pointer load %s+%d' % (r.rid, off))
        bs = []
        for i in range(n):
            bs.append(self.cell_byte(st, r, off + i))
        if all(isinstance(b, Undef) for b in bs): return UNDEF
        bs = [fresh('undef', 8) if isinstance(b, Undef) else b for b in bs]
        return self.conv(join(bs), n, t)
    def cell_byte(self, st, r, off):
        for o, (s, v) in r.cells.items():
            if o <= off < o + s:
                if isinstance(v, Undef): return UNDEF
                if isinstance(v, Ptr): v = self.ptrtoint(st, v)
                if isinstance(v, FnPtr) or hasattr(v, 'is_ghost'): raise Unsupported('byte of ghost')
                k = off - o
                return byte_of(v, k) if s > 1 else v
        for a, b in r.z:
            if a <= off < b: return 0
        if r.lazy:
            v = lazy_init(r.rid, off, 1)
            w = st.wreg(r.rid); w.cells[off] = (1, v)
            return v
        return UNDEF
    def load_sym(self, st, r, off, n, t):
        """symbolic offset into a cells region of known size (constant tables, small local arrays)"""
        if r.arr is not None:
            bs = [z3.Select(r.arr, bv(add(off, i), 64)) for i in range(n)]
            v = join(bs)
            return self.conv(v, n, t)
        if is_z(r.size) or r.size > 65536: raise Unsupported('symbolic offset into %s' % r.rid)
        # entries at stride n
        stride = n
        cnt = r.size // stride
        # alignment is an obligation unless stride==1
        if stride > 1:
            a = simp(bv(off) % stride == 0)
            if not (a is True or self.must(st, a)): raise Unsupported('unaligned symbolic access %s' % r.rid)
        key = (r.rid, stride, str(t[0]))
        idx = off if stride == 1 else simp(bv(off) / stride)
        vals = None
        cache = getattr(self, '_tabs', None)
        if cache is None: cache = self._tabs = {}
        if r.ro and key in cache: vals = cache[key]
        else:
            vals = [self.load_cell(st, r, i * stride, stride, t) for i in range(cnt)]
            if r.ro: cache[key] = vals
        if any(isinstance(v, (Ptr, FnPtr)) or hasattr(v, 'is_ghost') for v in vals):
            raise ForkOn([(eq(off, i * stride), i * stride) for i in range(cnt)])
        w = n * 8
        # group consecutive equal values into ranges
        groups = []
        for i, v in enumerate(vals):
            if isinstance(v, Undef): v = fresh('undef', w)
            if groups and same(groups[-1][2], v): groups[-1][1] = i
            else: groups.append([i, i, v])
        if all(not is_z(g[2]) for g in groups) and cnt >= 300 and r.ro:
            # big constant table: function symbol with point facts is left to specs; use array constant
            f = bytefun('tab_' + r.rid, w)
            return f(bv(idx, 64))
        zi = bv(idx, 64)
        # narrow the index if it is a zero-extension of a byte
        e = bv(groups[-1][2], w)
        for a, b, v in reversed(groups[:-1]):
            e = z3.If(zi <= b, bv(v, w), e)
        return self.conv(simp(e), n, t)
    def store(self, st, p, v, t):
        n = tsize(t)
        if t[0] == 's':
            for x, o, e in zip(t[1], t[2], v if isinstance(v, list) else [UNDEF] * len(t[1])): self.store(st, Ptr(p.reg, add(p.off, o)), e, x)
            return
        if t[0] == 'a':
            for i in range(t[1]): self.store(st, Ptr(p.reg, add(p.off, i * t[3])), v[i] if isinstance(v, list) else UNDEF, t[2])
            return
        r = self.bounds(st, p, n, 'store')
        if r.ro:
            self.oblige(st, False, 'store:writable(%s)' % r.rid); raise PathEnd()
        if t[0] == 'v':
            ew = self.lw(t[2]); es = ew // 8
            if isinstance(v, Undef): v = Vec(ew, [UNDEF] * t[1])
            for i, e in enumerate(v.re(ew).l): self.store1(st, r.rid, add(p.off, i * es), es, e)
            return
        self.store1(st, r.rid, p.off, n, v)
    def store1(self, st, rid, off, n, v):
        r = st.wreg(rid)
        if r.kind == 'junk': return
        if r.kind == 'sink': return r.info['store'](self, st, off, n, v)
        if r.kind == 'out':
            return self.out_store(st, r, off, n, v)
        if r.kind != 'cells': raise Unsupported('store to ' + r.kind)
        if is_z(off): off = self.unique(st, off)
        if is_z(off):
            return self.store_sym(st, r, off, n, v)
        if r.arr is not None:
            for i in range(n):
                r.arr = z3.Store(r.arr, z3.IntVal(off + i), bv(byte_of(v, i) if n > 1 else v))
            return
        self.put(st, r, off, n, v)
    def put(self, st, r, off, n, v):
        c = r.cells.get(off)
        if c is None or c[0] != n:
            for o in [o for o, (s, _) in r.cells.items() if o < off + n and off < o + s]:
                s, ov = r.cells[o]
                if hasattr(ov, 'is_ghost'):
                    raise Unsupported('raw store over modelled object %s+%d' % (r.rid, off))
                keep = [(k, self.cell_byte(st, r, k)) for k in range(o, o + s) if not (off <= k < off + n)] if not isinstance(ov, (FnPtr,)) else []
                del r.cells[o]
                for k, b in keep: r.cells[k] = (1, b)
        r.cells[off] = (n, v)
    def to_arr(self, st, r):
        """switch a small integer-only region to array mode"""
        if is_z(r.size): raise Unsupported('array mode of unsized region')
        a = z3.Array('arr_%s!%d' % (r.rid, next(_fresh)), z3.IntSort(), z3.IntSort())
        for i in range(r.size):
            b = self.cell_byte(st, r, i)
            if isinstance(b, Undef): continue
            a = z3.Store(a, z3.IntVal(i), bv(b))
        r.arr = a; r.cells = {}; r.z = []
    def store_sym(self, st, r, off, n, v):
        if r.arr is None: self.to_arr(st, r)
        for i in range(n):
            b = byte_of(v, i) if n > 1 else v
            r.arr = z3.Store(r.arr, bv(add(off, i), 64), bv(b, 8))
    def out_store(self, st, r, off, n, v):
        for i in range(n):
            b = byte_of(v, i) if n > 1 else v
            self.oblige(st, eq(add(off, i), r.info['len']), 'out:sequential-write')
            r.info['seq'] = snoc(r.info['seq'], b)
            r.info['len'] = add(r.info['len'], 1)
    def memcpy(self, st, d, s, n):
        n = self.conc(st, n) if is_z(n) else n
        rd = st.mem.get(d.reg)
        if rd is not None and rd.kind == 'sink': return rd.info['copy'](self, st, d, s, n)
        if not is_z(n):
            if n == 0: return
            rd = self.bounds(st, d, n, 'memcpy-dst'); rs = self.bounds(st, s, n, 'memcpy-src')
            if rs.kind == 'cells' and rd.kind == 'cells' and not is_z(d.off) and not is_z(s.off) and rs.arr is None and rd.arr is None:
                items = []
                pos = s.off; end = s.off + n
                inside = sorted(o for o, (sz, _) in rs.cells.items() if o < end and s.off < o + sz)
                covered = set()
                for o in inside:
                    sz, v = rs.cells[o]
                    if o >= s.off and o + sz <= end:
                        items.append((o - s.off, sz, v)); covered.update(range(o, o + sz))
                for k in range(s.off, end):
                    if k not in covered:
                        hit = any(o <= k < o + sz for o, (sz, _) in rs.cells.items()) or any(a <= k < b for a, b in rs.z) or rs.lazy
                        if hit: 
                            items.append((k - s.off, 1, self.cell_byte(st, st.mem[s.reg], k)))
                w = st.wreg(d.reg)
                for o, (sz, v) in list(w.cells.items()):
                    if hasattr(v, 'is_ghost') and o < d.off + n and d.off < o + sz: raise Unsupported('memcpy over modelled object')
                # clear destination
                for k in range(d.off, d.off + n, 1):
                    pass
                self.clear_range(st, w, d.off, n)
                # merge single zero bytes into wider cells where possible
                items = merge_items(items)
                for o, sz, v in items:
                    if hasattr(v, 'is_ghost'): v = v.copy_from_raw()
                    w.cells[d.off + o] = (sz, v)
                return
            if rs.kind == 'array' and rd.kind == 'cells' and not is_z(d.off):
                idx, fo = split_index(s.off, rs.info['elem'])
                if fo + n > rs.info['elem']: raise Unsupported('copy across array elements')
                vs = [(o - fo, sz, rs.info['field'](self, st, idx, o, sz, None)) for o, sz in rs.info['fields'] if fo <= o and o + sz <= fo + n]
                w = st.wreg(d.reg); self.clear_range(st, w, d.off, n)
                for o, sz, v in vs: w.cells[d.off + o] = (sz, v)
                return
            bs = [self.load1(st, st.mem[s.reg], add(s.off, i), 1, ['i', 8]) for i in range(n)]
            for i, b in enumerate(bs): self.store1(st, d.reg, add(d.off, i), 1, b)
            return
        self.memcpy_sym(st, d, s, n)
    def clear_range(self, st, w, off, n):
        for o in [o for o, (s, _) in w.cells.items() if o < off + n and off < o + s]:
            s, ov = w.cells[o]
            keep = []
            if o < off or o + s > off + n:
                keep = [(k, self.cell_byte(st, w, k)) for k in range(o, o + s) if not (off <= k < off + n)]
            del w.cells[o]
            for k, b in keep: w.cells[k] = (1, b)
        nz = []
        for a, b in w.z:
            if b <= off or a >= off + n: nz.append((a, b)); continue
            if a < off: nz.append((a, off))
            if b > off + n: nz.append((off + n, b))
        w.z = nz
    def memcpy_sym(self, st, d, s, n):
        rd = st.mem.get(d.reg)
        if rd is not None and rd.kind == 'out':
            self.bounds(st, d, n, 'memcpy-dst')
            w = st.wreg(d.reg)
            self.oblige(st, b_or(eq(n, 0), eq(d.off, w.info['len'])), 'out:sequential-write')
            seq, facts = self.seq_append(st, w.info['seq'], s, n)
            w = st.wreg(d.reg)
            w.info['seq'] = seq
            w.info['len'] = add(w.info['len'], n)
            return
        raise Unsupported('memcpy of symbolic size into %s' % d.reg)
    def memset(self, st, d, v, n):
        if is_z(n): raise Unsupported('symbolic memset')
        if n == 0: return
        r = self.bounds(st, d, n, 'memset')
        if is_z(d.off) or r.kind != 'cells': 
            for i in range(n): self.store1(st, d.reg, add(d.off, i), 1, v)
            return
        w = st.wreg(d.reg)
        for o, (s, ov) in w.cells.items():
            if hasattr(ov, 'is_ghost') and o < d.off + n and d.off < o + s: raise Unsupported('memset over modelled object')
        self.clear_range(st, w, d.off, n)
        if not is_z(v) and v == 0: w.z.append((d.off, d.off + n))
        else:
            for i in range(n): w.cells[d.off + i] = (1, v)

    # ---------- ghost sequences ----------
    def seq_append(self, st, seq, p, n):
        """append n bytes at pointer p to ghost sequence; returns (seq', None)"""
        n = self.conc(st, n)
        if not is_z(n) and n == 0: return seq, None
        r = self.bounds(st, p, n, 'append-src')
        if r.kind == 'bytes':
            if not is_z(n) and n <= 8:
                for i in range(n): seq = snoc(seq, self.read_byte(st, r, add(p.off, i)))
                return seq, None
            j = add(p.off, n)
            out = appr(r.rid)(seq, bv(p.off, 64), bv(j, 64))
            st.assume(z3.Implies(bv(p.off, 64) == bv(j, 64), out == seq))
            for h in self.append_hooks: h(self, st, r, seq, p.off, j, out)
            return out, None
        if r.kind == 'cells':
            if is_z(n):
                raise ForkVal(n)
            for i in range(n):
                b = self.load1(st, st.mem[p.reg], add(p.off, i), 1, ['i', 8])
                if isinstance(b, Undef): b = fresh('undef', 8)
                seq = snoc(seq, b)
            return seq, None
        if r.kind == 'content':     # contents of a modelled string
            full = b_and(eq(p.off, 0), eq(n, r.info['len']))
            self.oblige(st, full, 'append:whole-string')
            out = seqcat(seq, r.info['seq'])
            for h in getattr(self, 'cat_hooks', []): h(self, st, r, seq, out)
            return out, None
        raise Unsupported('append from ' + r.kind)

    unique_offsets = False
    def unique(self, st, e):
        """the only value of e on this path, where there is just one"""
        if not self.unique_offsets or self.sol.check(st.pc) != 'sat': return e
        k = self.sol.model.eval(e, model_completion=True).as_long()
        return k if self.must(st, e == k) else e
    def conc(self, st, e):
        if is_z(e):
            c = st.ghost.get('conc')
            if c:
                for k, v in c:
                    if k.eq(e): return v
        return e

    # ---------- instruction semantics ----------
    def norm(self, st, e, w):
        """e is a mathematical integer term; its value modulo 2^w"""
        if not is_z(e): return e & mask(w)
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long() & mask(w)
        lo, hi = interval(e)
        m = 1 << w
        if lo >= 0 and hi < m: return e
        if st is not None and self.must(st, z3.And(e >= 0, e < m)):
            return e
        if lo >= -m and hi < 2 * m:
            r = e
            if hi >= m: r = z3.If(e >= m, e - m, r)
            if lo < 0: r = z3.If(e < 0, e + m, r)
            return simp(r)
        return simp(e % m)
    def to_bits(self, st, v, w):
        if isinstance(v, Bits): return v.b + [False] * (w - len(v.b))
        if isinstance(v, bool): v = int(v)
        if not is_z(v): return [bool((v >> i) & 1) for i in range(w)]
        if ite_const(v): return [ite_map(v, lambda c, i=i: bool((c >> i) & 1)) for i in range(w)]
        key = ('bits', v.get_id(), w)
        c = self._bits.get(key)
        if c is None:
            lo, hi = interval(v)
            n = w
            if hi != INF: n = min(w, int(hi).bit_length())
            bs = [freshb('bit') for _ in range(n)]
            d = v == z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bs)])
            c = (v, bs + [False] * (w - n), d)
            self._bits[key] = c
        if st is None: raise Unsupported('bits without state')
        if not any(x is c[2] for x in st.pc): st.pc.append(c[2])
        return c[1]
    _bits = {}
    def binop(self, op, a, b, w, ins=None, st=None):
        if isinstance(a, Undef): a = fresh('undef', w) if w > 1 else freshb('undef')
        if isinstance(b, Undef): b = fresh('undef', w) if w > 1 else freshb('undef')
        if w == 1:
            if op == 'and': return simp(b_and(a, b))
            if op == 'or': return simp(b_or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if isinstance(b, bool): return simp(z3.Not(a)) if b else a
                if isinstance(a, bool): return simp(z3.Not(b)) if a else b
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        ca, cb = not is_sym(a), not is_sym(b)
        m = mask(w)
        if ca and cb:
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sx(a, w) >> min(b, w - 1)) & m
            if op == 'udiv' and b: return a // b
            if op == 'urem' and b: return a % b
            if op == 'sdiv' and b:
                x, y = sx(a, w), sx(b, w); q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                return q & m
            if op == 'srem' and b:
                x, y = sx(a, w), sx(b, w); q = abs(x) % abs(y)
                return (-q if x < 0 else q) & m
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, w)
        if isinstance(a, Bits) and cb and op in ('shl', 'lshr'):
            x = a.b + [False] * (w - len(a.b))
            if op == 'shl': return simp(Bits(([False] * b + x)[:w]))
            return simp(Bits((x[b:] + [False] * b)[:w]))
        if cb and is_z(a) and ite_const(a, 40) and op not in ('udiv', 'urem', 'sdiv', 'srem'):
            r = ite_map(a, lambda c: self.binop(op, c, b, w))
            return simp(r)
        A, B = bv(a), bv(b)
        if op == 'add': return self.norm(st, A + B, w)
        if op == 'sub' and ca and a == 0 and st is not None and is_z(B) and (B.get_id() in self.sview or (self.name_div and self.must(st, B < (1 << (w - 1))))):
            if B.get_id() not in self.sview: return self.sname(st, -B, w, 'neg')
            return self.sname(st, -self.signed(B, w), w, 'neg')
        if op == 'sub': return self.norm(st, A - B, w)
        if op == 'mul':
            if cb and b > (m >> 1) : return self.norm(st, A * (b - m - 1), w)   # multiplication by a negative constant
            if ca and a > (m >> 1) : return self.norm(st, B * (a - m - 1), w)
            return self.norm(st, A * B, w)
        if op == 'shl':
            if cb: return self.norm(st, A * (1 << b), w) if b < w else 0
            return self.varshift(st, op, a, b, w)
        if op == 'lshr':
            if cb and self.name_shift and st is not None and b < w: return self.divmod_named(st, A, 1 << b)[0]
            if cb: return simp(A / (1 << b)) if b < w else 0
            return self.varshift(st, op, a, b, w)
        if op == 'ashr' and cb:
            return self.norm(st, self.signed(A, w) / (1 << b), w)
        if cb and b and st is not None and self.name_div and op in ('udiv', 'urem'):
            q, r = self.divmod_named(st, A, b)
            return q if op == 'udiv' else r
        if cb and b and st is not None and self.name_div and op in ('sdiv', 'srem') and sx(b, w) > 0:
            q, r = self.sdivmod_named(st, A, b, w)
            return q if op == 'sdiv' else r
        if op == 'udiv': return simp(A / B)
        if op == 'urem':
            if cb and interval(A)[1] < b: return a
            return simp(A % B)
        if op in ('sdiv', 'srem'):
            sa, sb_ = self.signed(A, w), self.signed(B, w) if not cb else z3.IntVal(sx(b, w))
            absa = z3.If(sa < 0, -sa, sa); absb = z3.If(sb_ < 0, -sb_, sb_)
            if op == 'sdiv':
                q = absa / absb; q = z3.If((sa < 0) != (sb_ < 0), -q, q)
            else:
                q = absa % absb; q = z3.If(sa < 0, -q, q)
            return self.norm(st, simp(q) if not isinstance(simp(q), int) else z3.IntVal(simp(q)), w)
        raise Unsupported('binop ' + op)
    name_div = False
    name_shift = False
    def divmod_named(self, st, A, c):
        """quotient and remainder of a non-negative term by a positive constant, as named values A == c*q + r"""
        if not is_z(A): return A // c, A % c
        lo, hi = interval(A)
        if hi < c and lo >= 0: return 0, A
        dm = st.ghost.get('divmod', {})
        k = (A.get_id(), c)
        if k in dm: return dm[k][1], dm[k][2]
        q = fresh('q', 64); r = fresh('r', 64)
        reg_range(q.decl().name(), 0, hi // c if hi < INF else INF); reg_range(r.decl().name(), 0, c - 1)
        st.assume(A == c * q + r); st.assume(z3.And(r >= 0, r < c)); st.assume(q >= 0)
        dm = dict(dm); dm[k] = (A, q, r); st.ghost['divmod'] = dm
        return q, r
    sview = {}
    def sname(self, st, e, w, name):
        """the w-bit value whose signed reading is e (|e| small enough), under a name that remembers its signed reading"""
        lo, hi = interval(e)
        if lo >= 0 and hi < (1 << (w - 1)): return simp(e)
        if not z3.is_const(e):
            v = fresh(name + 's', w); reg_range(v.decl().name(), lo, hi); st.assume(v == e); e = v
        m = fresh(name, w)
        st.assume(m == z3.If(e < 0, e + (1 << w), e))
        self.sview[m.get_id()] = (m, e, w)
        return m
    def sdivmod_named(self, st, A, c, w):
        sa = self.signed(A, w)
        if not is_z(sa):
            q = abs(sa) // c; r = abs(sa) % c; sg = -1 if sa < 0 else 1
            return (q * sg) & mask(w), (r * sg) & mask(w)
        dm = st.ghost.get('divmod', {})
        k = (A.get_id(), c, 's')
        if k in dm: return dm[k][1], dm[k][2]
        lo, hi = interval(sa); lo = max(lo, -(1 << (w - 1))); hi = min(hi, (1 << (w - 1)) - 1)
        q = fresh('sq', w); r = fresh('sr', w)
        reg_range(q.decl().name(), -(abs(lo) // c) if lo < 0 else 0, hi // c if hi > 0 else 0); reg_range(r.decl().name(), -(c - 1) if lo < 0 else 0, c - 1 if hi > 0 else 0)
        st.assume(sa == c * q + r); st.assume(z3.And(r > -c, r < c)); st.assume(z3.Implies(sa >= 0, z3.And(q >= 0, r >= 0))); st.assume(z3.Implies(sa <= 0, z3.And(q <= 0, r <= 0)))
        Q, R = self.sname(st, q, w, 'q'), self.sname(st, r, w, 'r')
        dm = dict(dm); dm[k] = (A, Q, R); st.ghost['divmod'] = dm
        return Q, R
    def varshift(self, st, op, a, b, w):
        vals = self.enum_vals(st, bv(b), 66) if st is not None else list(range(w))
        vals = [v for v in vals if v < w]
        if not vals: return 0
        e = self.binop(op, a, vals[-1], w, None, st)
        for v in vals[:-1]:
            e = z3.If(bv(b) == v, bv(self.binop(op, a, v, w, None, st)), bv(e))
        return simp(e)
    def signed(self, v, w):
        if not is_z(v): return sx(v, w)
        x = self.sview.get(v.get_id())
        if x is not None and x[2] == w: return x[1]
        lo, hi = interval(v)
        if hi < (1 << (w - 1)): return v
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
    def bitop(self, st, op, a, b, w):
        m = mask(w)
        for x, y in ((a, b), (b, a)):
            if not is_sym(y):
                c = y
                if op == 'and':
                    if c == 0: return 0
                    if c == m: return x
                    if is_z(x) and ite_const(x): return simp(ite_map(x, lambda k: k & c))
                    if isinstance(x, Bits): return simp(Bits([p if (c >> i) & 1 else False for i, p in enumerate(x.b)]))
                    X = bv(x); lo, hi = interval(X)
                    if c & (c + 1) == 0:
                        if hi <= c: return x
                        if self.name_shift and st is not None: return self.divmod_named(st, X, c + 1)[1]
                        return simp(X % (c + 1))
                    low = (c & -c)                      # contiguous mask not at bit 0
                    top = c // low
                    if self.name_shift and st is not None and top == 1:
                        return simp(self.divmod_named(st, bv(self.divmod_named(st, X, low)[0]), 2)[1] * low)
                    if top & (top + 1) == 0:
                        t = X if hi < low * (top + 1) else X % (low * (top + 1))
                        return simp(t - t % low)
                elif op == 'or':
                    if c == 0: return x
                    if is_z(x) and ite_const(x): return simp(ite_map(x, lambda k: k | c))
                    if isinstance(x, Bits): return simp(Bits([True if (c >> i) & 1 else p for i, p in enumerate(x.b + [False] * (w - len(x.b)))]))
                    X = bv(x); lo, hi = interval(X)
                    low = c & -c
                    if hi < low or (st is not None and hi != INF and self.must(st, X < low)): return simp(X + c)
                elif op == 'xor':
                    if c == 0: return x
                    if c == m and not isinstance(x, Bits): return simp(m - bv(x))
                    if is_z(x) and ite_const(x): return simp(ite_map(x, lambda k: k ^ c))
                    if isinstance(x, Bits): return simp(Bits([b_not(p) if (c >> i) & 1 else p for i, p in enumerate(x.b + [False] * (w - len(x.b)))]))
                    if c == 1 << (w - 1):
                        X = bv(x); return simp(z3.If(X >= c, X - c, X + c))
        if is_z(a) and is_z(b):
            if ite_const(a, 40) and ite_const(b, 40):
                return simp(ite_map(a, lambda k: bv(self.bitop(st, op, k, b, w)) if True else 0))
        if op == 'or' and not (isinstance(a, Bits) or isinstance(b, Bits)):
            # disjoint bits: high part divisible, low part small
            for x, y in ((a, b), (b, a)):
                hi = interval(bv(y))[1]
                if hi != INF:
                    k = 1 << int(hi).bit_length()
                    if divisible(bv(x), k): return simp(bv(x) + bv(y))
            if st is not None and w > 1:
                for x, y in ((a, b), (b, a)):
                    k = 1
                    while k < (1 << (64 if self.name_shift else 32)) and divisible(bv(x), 2 * k): k *= 2
                    if k > 1 and self.must(st, bv(y) < k): return simp(bv(x) + bv(y))
                if self.or_abstract:
                    r = fresh('or', w)        # over-approximation: max(x,y) <= x|y <= x+y
                    st.assume(z3.And(r >= bv(a), r >= bv(b), r <= bv(a) + bv(b)))
                    for x, y in ((a, b), (b, a)):
                        k = 1
                        while k < (1 << 32) and divisible(bv(x), 2 * k): k *= 2
                        if k > 1: st.assume(z3.Implies(bv(y) < k, r == bv(x) + bv(y)))
                    return r
        xa, xb = self.to_bits(st, a, w), self.to_bits(st, b, w)
        if op == 'and': r = [b_and(p, q) for p, q in zip(xa, xb)]
        elif op == 'or': r = [b_or(p, q) for p, q in zip(xa, xb)]
        else: r = [b_not(q) if p is True else q if p is False else b_not(p) if q is True else p if q is False else z3.Xor(p, q) for p, q in zip(xa, xb)]
        return simp(Bits([simp(x) for x in r]))
    def icmp(self, st, pred, a, b, t):
        if t[0] == 'p': return self.pcmp(st, pred, a, b)
        w = t[1]
        if isinstance(a, Undef): a = self.deundef(a, t)
        if isinstance(b, Undef): b = self.deundef(b, t)
        if w == 1:
            if pred == 'eq': return simp(eq(a, b)) if is_z(a) or is_z(b) else a == b
            if pred == 'ne':
                r = simp(eq(a, b)) if is_z(a) or is_z(b) else a == b
                return b_not(r)
            a, b = bv(a, 1), bv(b, 1)
        if not is_sym(a) and not is_sym(b):
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            if pred[0] == 's': a, b = sx(a, w), sx(b, w)
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
        if pred in ('eq', 'ne'):
            if isinstance(a, Bits) or isinstance(b, Bits):
                if (isinstance(a, Bits) and (isinstance(b, Bits) or not is_z(b))) or (isinstance(b, Bits) and not is_z(a)):
                    xa, xb = self.to_bits(st, a, w), self.to_bits(st, b, w)
                    r = simp(b_and(*[p if q is True else b_not(p) if q is False else (q if p is True else b_not(q) if p is False else p == q) for p, q in zip(xa, xb)]))
                    return r if pred == 'eq' else simp(b_not(r))
            r = bv(a) == bv(b)
            for x, y in ((a, b), (b, a)):
                if is_z(x) and not is_sym(y) and ite_const(x): r = ite_map(x, lambda k: k == y); break
            r = simp(r) if is_z(r) else r
            return r if pred == 'eq' else (simp(b_not(r)) if is_z(r) else not r)
        A, B = bv(a), bv(b)
        if pred[0] == 's':
            A = self.signed(A, w) if is_sym(a) else z3.IntVal(sx(a, w))
            B = self.signed(B, w) if is_sym(b) else z3.IntVal(sx(b, w))
        p = pred[1:]
        return simp({'gt': A > B, 'ge': A >= B, 'lt': A < B, 'le': A <= B}[p])
    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same_ = same(a, b)
            if pred == 'eq': return same_
            if pred == 'ne': return not same_
            raise Unsupported('fnptr cmp')
        if isinstance(a, Undef) or isinstance(b, Undef): return freshb('undefcmp')
        for x in (a, b):
            if not isinstance(x, Ptr): raise Unsupported('pointer compare of %r' % (x,))
        if a.reg == b.reg:
            return self.icmp(st, pred, a.off, b.off, ['i', 64])
        if a.reg == 'int' or b.reg == 'int':
            return self.icmp(st, pred, self.ptrtoint(st, a), self.ptrtoint(st, b), ['i', 64])
        if pred == 'eq': return False
        if pred == 'ne': return True
        # ordering across regions: by address
        return self.icmp(st, pred, self.ptrtoint(st, a), self.ptrtoint(st, b), ['i', 64])
    def cast(self, st, op, v, ft, tt):
        if ft[0] == 'v' and tt[0] == 'v' and op != 'bitcast':
            v = self.deundef(v, ft)
            v = v.re(self.lw(ft[2])) if self.lw(ft[2]) > 1 else v
            return Vec(self.lw(tt[2]), [self.cast(st, op, x, ft[2], tt[2]) for x in v.l])
        if op == 'bitcast':
            if ft[0] == 'v' and tt[0] == 'v':
                if isinstance(v, Undef): return v
                if v.w == 1:
                    return v.re(self.lw(tt[2])) if False else Vec(1, v.l).pack(self.lw(tt[2]))
                return v
            if ft[0] == 'v':
                if isinstance(v, Undef): return v
                if v.w == 1: r = v.pack(tt[1])
                else: r = v.re(tt[1])
                return r.l[0]
            if tt[0] == 'v':
                return Vec(ft[1], [v]).re(self.lw(tt[2]))
            return v
        if op == 'ptrtoint': 
            r = self.ptrtoint(st, v) if not isinstance(v, Undef) else fresh('undef', 64)
            return r if tt[1] == 64 else self.cast(st, 'trunc', r, ['i', 64], tt)
        if op == 'inttoptr':
            if not is_sym(v) and v == 0: return NULL
            return self.int_to_ptr(st, v)
        if op in ('zext', 'sext', 'trunc'):
            v = self.deundef(v, ft)
            fw, tw = ft[1], tt[1]
            if fw == 1:
                hi = mask(tw) if op == 'sext' else 1
                if isinstance(v, bool): return hi if v else 0
                return z3.If(v, z3.IntVal(hi), z3.IntVal(0))
            if isinstance(v, Bits):
                x = v.b + [False] * (fw - len(v.b))
                if op == 'zext': x = x + [False] * (tw - fw)
                elif op == 'sext': x = x + [x[-1]] * (tw - fw)
                else: x = x[:tw]
                if tw == 1: return x[0]
                return simp(Bits(x))
            if is_z(v) and op in ('sext', 'trunc') and st is not None and v.get_id() in self.sview and self.sview[v.get_id()][2] == fw:
                e = self.sview[v.get_id()][1]; lo, hi = interval(e)
                if (lo >= -(1 << (tw - 1)) and hi < (1 << (tw - 1))) or (self.name_div and self.must(st, z3.And(e >= -(1 << (tw - 1)), e < (1 << (tw - 1))))): return self.sname(st, e, tw, 'c')
            if not is_z(v):
                r = v if op == 'zext' else (sx(v, fw) & mask(tw) if op == 'sext' else v & mask(tw))
                return bool(r) if tw == 1 else r
            if op == 'zext': return v
            if op == 'sext':
                if interval(v)[1] < (1 << (fw - 1)): return v
                if ite_const(v): return ite_map(v, lambda c: sx(c, fw) & mask(tw))
                if st is not None and self.name_div and self.must(st, v < (1 << (fw - 1))): return v
                return simp(z3.If(v >= (1 << (fw - 1)), v + (1 << tw) - (1 << fw), v))
            if tw == 1:
                if interval(v)[1] <= 1: return simp(v == 1)
                return simp(v % 2 == 1)
            lo, hi = interval(v)
            if hi <= mask(tw): return v
            if ite_const(v): return ite_map(v, lambda c: c & mask(tw))
            if st is not None and tw >= 8 and self.must(st, v <= mask(tw)): return v
            return simp(v % (1 << tw))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return self.fpcast(st, op, v, ft, tt)
        raise Unsupported('cast ' + op)
    def int_to_ptr(self, st, v):
        # the integer value of a pointer, read back as a pointer
        if is_z(v) and z3.is_const(v) and v.decl().name() in self.bases: return Ptr(self.bases[v.decl().name()], 0)
        if is_z(v) and z3.is_add(v):
            l = [c for c in v.children() if z3.is_const(c) and c.decl().name() in self.bases]
            if len(l) == 1:
                rest = simp(v - l[0])
                if not is_z(rest) or not any(x.decl().name() in self.bases for x in leaves(rest).values()): return Ptr(self.bases[l[0].decl().name()], rest)
        return Ptr('int', v)
    def fpcast(self, st, op, v, ft, tt):
        raise Unsupported('fp cast')
    def fpop(self, st, ins, a, b, w):
        raise Unsupported('fp op ' + ins['op'])

    # ---------- control ----------
    def explore(self, states, stop=None):
        """DFS. stop: None for the whole function (frame depth 1 return ends the path via on_return), or
        (depth, header, blocks, on_backedge) for a Houdini pass over a loop body."""
        work = list(states)
        while work:
            if self.deadline and time.time() > self.deadline: raise Budget('time budget exhausted')
            st = work.pop()
            try:
                nxt = self.run_path(st, stop)
            except PathEnd:
                continue
            if nxt: work.extend(reversed(nxt))
    def run_path(self, st, stop):
        """execute until fork/end; returns list of successor states"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.idx]
            op = ins['op']
            if op == 'br':
                o = ins['o']
                if len(o) == 1:
                    r = self.jump(st, o[0]['i'], stop)
                    if r is not None: return r
                    continue
                c = self.val(st, o[0])
                if isinstance(c, Undef): c = freshb('undef')
                # irdump operand order for conditional br: cond, false, true
                fb, tb = o[1]['i'], o[2]['i']
                if isinstance(c, bool):
                    r = self.jump(st, tb if c else fb, stop)
                    if r is not None: return r
                    continue
                if tb == fb:
                    r = self.jump(st, tb, stop)
                    if r is not None: return r
                    continue
                ft = self.feasible(st, [c]); ff = self.feasible(st, [b_not(c)]) if ft else True
                if ft and not ff:
                    r = self.jump(st, tb, stop)
                elif ff and not ft:
                    if not self.feasible(st): raise PathEnd()
                    r = self.jump(st, fb, stop)
                else:
                    if self.merge and (self.merge != 'unroll' or fr.unroll):
                        r = self.try_merge(st, c, tb, fb)
                        if r is not None: continue
                    s2 = st.fork()
                    st.assume(c); s2.assume(b_not(c))
                    out = []
                    for s, b in ((st, tb), (s2, fb)):
                        try:
                            r = self.jump(s, b, stop)
                            if r is None: out.append(s)
                            else: out.extend(r)
                        except PathEnd:
                            pass
                    return out
                if r is not None: return r
                continue
            if op == 'switch':
                v = self.val(st, ins['cond'])
                w = None
                if isinstance(v, Undef): v = fresh('undef', 64)
                if isinstance(v, bool): v = int(v)
                if not is_sym(v):
                    tgt = ins['def']
                    for cv, b in ins['cases']:
                        if int(cv) == int(v): tgt = b
                    r = self.jump(st, tgt, stop)
                    if r is not None: return r
                    continue
                v = bv(v)
                groups = {}
                for cv, b in ins['cases']: groups.setdefault(b, []).append(int(cv))
                alts = [(b, b_or(*[v == c for c in cs])) for b, cs in groups.items() if b != ins['def']]
                alldef = b_and(*[b_not(c) for _, c in alts])
                alts.append((ins['def'], alldef))
                out = []
                feas = [(b, c) for b, c in alts if self.feasible(st, [c])]
                for k, (b, c) in enumerate(feas):
                    s = st.fork() if k < len(feas) - 1 else st
                    s.assume(c)
                    try:
                        r = self.jump(s, b, stop)
                        if r is None: out.append(s)
                        else: out.extend(r)
                    except PathEnd: pass
                return out
            if op == 'ret':
                rv = self.val(st, ins['o'][0]) if ins['o'] else None
                if stop and len(st.frames) == stop[0]: raise PathEnd()   # leaves the loop under analysis
                return self.do_ret(st, rv)
            if op == 'unreachable':
                self.reach_unreachable(st); raise PathEnd()
            if op in ('call', 'invoke'):
                r = self.call(st, fr, ins, stop)
                if r is None: continue
                return r
            try:
                v = self.simple(st, fr, ins, op)
            except ForkOn as f:
                return self.fork_load(st, fr, ins, f)
            except ForkVal as f:
                return self.fork_val(st, f)
            except ForkSel as f:
                s2 = st.fork()
                out = []
                for s, c, x in ((st, f.c, f.a), (s2, b_not(f.c), f.b)):
                    if self.feasible(s, [c]):
                        s.assume(c)
                        s.frames[-1].loc[ins['id']] = x; s.frames[-1].idx += 1
                        out.append(s)
                return out
            fr.loc[ins['id']] = v
            fr.idx += 1
    # ---------- path merging at the join of small acyclic regions ----------
    merge = False
    or_abstract = False
    def succs(self, fn, b):
        t = fn.blocks[b][-1]
        if t['op'] == 'br': return [o['i'] for o in t['o'] if o['k'] == 'bb'] if any(o['k'] == 'bb' for o in t['o']) else ([t['o'][0]['i']] if len(t['o']) == 1 else [t['o'][1]['i'], t['o'][2]['i']])
        if t['op'] == 'switch': return sorted(set([t['def']] + [x for _, x in t['cases']]))
        if t['op'] == 'invoke': return [t['normal']]
        return []
    def merge_point(self, fn, b):
        """join block of the region that starts at the branch ending block b, and the region's blocks; None if too big or impure"""
        cache = self.__dict__.setdefault('_mp', {})
        key = (fn.name, b)
        if key in cache: return cache[key]
        cache[key] = None
        # forward reachability with limit; immediate postdominator by set intersection over paths
        paths_sets = []
        limit = 14
        def region(j):
            seen = set(); stack = list(self.succs(fn, b))
            while stack:
                x = stack.pop()
                if x == j or x in seen: continue
                if x in fn.loop_of_header or x == b: return None
                sc = self.succs(fn, x)
                if not sc: return None
                seen.add(x)
                if len(seen) > limit: return None
                stack.extend(sc)
            return seen
        # candidates in BFS order
        order = []; q = list(self.succs(fn, b)); vis = set()
        while q and len(order) < 24:
            x = q.pop(0)
            if x in vis: continue
            vis.add(x); order.append(x); q.extend(self.succs(fn, x))
        for j in order:
            if j in fn.loop_of_header: continue
            r = region(j)
            if r is None: continue
            pure = True
            for x in r:
                for i in fn.blocks[x]:
                    if i['op'] in ('call', 'invoke') and not (i['callee'].get('k') == 'fn' and i['callee']['n'].startswith('llvm.')): pure = False
                    if i['op'] in ('alloca', 'ret', 'unreachable'): pure = False
            if pure: cache[key] = (j, r); break
            break
        return cache[key]
    def try_merge(self, st, c, tb, fb):
        fr = st.frames[-1]
        mp = self.merge_point(fr.fn, fr.blk)
        if mp is None: return None
        j, region = mp
        if any(j not in fr.fn.loop_of_header[h][0] for h in fr.cut): return None
        depth = len(st.frames)
        base = len(st.pc)
        arrive = []
        work = []
        def goto(s, b):
            f = s.frames[-1]
            vals = self.phis(s, f, b)
            if b == j: arrive.append((s, dict(vals))); return
            for i, v in vals: f.loc[i] = v
            f.prev = f.blk; f.blk = b; f.idx = len(vals)
            work.append(s)
        try:
            s1 = st.fork(); s1.assume(c); goto(s1, tb)
            s2 = st.fork(); s2.assume(b_not(c)); goto(s2, fb)
            while work:
                s = work.pop(); f = s.frames[-1]
                while True:
                    ins = f.fn.blocks[f.blk][f.idx]; op = ins['op']
                    if op == 'br':
                        o = ins['o']
                        if len(o) == 1: goto(s, o[0]['i']); break
                        cc = self.val(s, o[0])
                        if isinstance(cc, Undef): cc = freshb('undef')
                        t2, f2 = o[2]['i'], o[1]['i']
                        if isinstance(cc, bool): goto(s, t2 if cc else f2); break
                        ft = self.feasible(s, [cc]); ff = self.feasible(s, [b_not(cc)])
                        if ft and ff:
                            x = s.fork(); x.assume(b_not(cc)); s.assume(cc)
                            goto(s, t2); goto(x, f2)
                        elif ft: goto(s, t2)
                        elif ff: goto(s, f2)
                        break
                    if op == 'switch':
                        v = self.val(s, ins['cond'])
                        if isinstance(v, (bool, Undef)): return None
                        if not is_sym(v):
                            tgt = ins['def']
                            for cv, b in ins['cases']:
                                if int(cv) == int(v): tgt = b
                            goto(s, tgt); break
                        v = bv(v); groups = {}
                        for cv, b in ins['cases']: groups.setdefault(b, []).append(int(cv))
                        alts = [(b, b_or(*[v == k for k in cs])) for b, cs in groups.items() if b != ins['def']]
                        alts.append((ins['def'], b_and(*[b_not(k) for _, k in alts])))
                        for b, k in alts:
                            if self.feasible(s, [k]):
                                x = s.fork(); x.assume(k); goto(x, b)
                        break
                    if op == 'call':
                        args = [None if o['k'] == 'md' else self.val(s, o) for o in ins['args']]
                        f.loc[ins['id']] = self.intrinsic(s, ins, ins['callee']['n'], args)
                    else:
                        f.loc[ins['id']] = self.simple(s, f, ins, op)
                    f.idx += 1
                if len(arrive) > 12: return None
        except (ForkSel, ForkOn, ForkVal, PathEnd):
            return None
        if not arrive: return None
        conds = [b_and(*s.pc[base:]) for s, _ in arrive]
        def mix(vals):
            v = vals[-1]
            if all(same(v, x) for x in vals): return v
            if any(isinstance(x, (Ptr, FnPtr, Vec, list)) or hasattr(x, 'is_ghost') or x is None for x in vals):
                if all(isinstance(x, Ptr) and x.reg == v.reg for x in vals): return Ptr(v.reg, mix([x.off for x in vals]))
                raise Unsupported('mix')
            isb = any(isinstance(x, bool) or (is_z(x) and z3.is_bool(x)) for x in vals)
            vals = [(freshb('undef') if isb else None) if isinstance(x, Undef) else x for x in vals]
            if any(x is None for x in vals): raise Unsupported('mix')
            if isb:
                if not all(isinstance(x, bool) or (is_z(x) and z3.is_bool(x)) for x in vals): raise Unsupported('mix')
                e = zb(vals[-1])
                for k in range(len(vals) - 2, -1, -1): e = z3.If(zb(conds[k]), zb(vals[k]), e)
                return simp(e)
            e = bv(vals[-1])
            for k in range(len(vals) - 2, -1, -1): e = z3.If(zb(conds[k]), bv(vals[k]), e)
            e = simp(e)
            if is_z(e) and not ite_const(e):
                # name the merged value so that terms stay small
                lo = min(interval(bv(x))[0] for x in vals); hi = max(interval(bv(x))[1] for x in vals)
                n = z3.Int('mrg!%d' % next(_fresh)); reg_range(n.decl().name(), lo, hi)
                defs.append(n == e); return n
            return e
        defs = []
        try:
            phis = {}
            for i in arrive[0][1]: phis[i] = mix([a[1][i] for a in arrive])
            # locals defined inside the region are dead after the join except through phis
            mem = {}
            for rid in arrive[0][0].mem:
                rs = [a[0].mem.get(rid) for a in arrive]
                if any(r is None for r in rs): raise Unsupported('mix')
                if all(r is rs[0] for r in rs): mem[rid] = rs[0]; continue
                if any(r.kind != 'cells' or r.arr is not None or r.z != rs[0].z for r in rs): raise Unsupported('mix')
                r = rs[0].clone(-1)
                for off in set().union(*[set(x.cells) for x in rs]):
                    cs = [x.cells.get(off) for x in rs]
                    szs = set(x[0] for x in cs if x is not None)
                    if len(szs) != 1: raise Unsupported('mix')
                    sz = szs.pop()
                    if any(x is None for x in cs) and rs[0].lazy: cs = [x if x is not None else (sz, lazy_init(rid, off, sz)) for x in cs]
                    vs = [fresh('undef', sz * 8) if x is None or isinstance(x[1], Undef) else x[1] for x in cs]
                    r.cells[off] = (sz, mix(vs))
                mem[rid] = r
        except Unsupported:
            return None
        for a in arrive[1:]:
            if any(rid not in mem for rid in a[0].mem): return None
        st.mem = mem
        for r in mem.values():
            if r.owner == -1: r.owner = None
        st.own = next(_own)
        st.pc.append(zb(b_or(*conds)))
        for d in defs: st.assume(d)
        st.inst = set.intersection(*[a[0].inst for a in arrive])
        for a in arrive: 
            if 'keep' in a[0].ghost: st.ghost['keep'] = st.ghost.get('keep', []) + a[0].ghost['keep']
        for i, v in phis.items(): fr.loc[i] = v
        fr.prev = fr.blk; fr.blk = j; fr.idx = len(phis)
        # leaving loops at the join
        loops = fr.fn.loop_of_header
        for h in list(fr.cut):
            if j not in loops[h][0]: raise Unsupported('merge leaves a cut loop')
        for h in list(fr.unroll):
            if j not in loops[h][0]: del fr.unroll[h]
        return True
    def reach_unreachable(self, st):
        self.oblige(st, False, 'unreachable-code')
    def fork_load(self, st, fr, ins, f):
        out = []
        p = self.val(st, ins['o'][0])
        for c, off in f.alts:
            if c is False: continue
            if not self.feasible(st, [c]): continue
            s = st.fork(); s.assume(c)
            s.frames[-1].loc[ins['id']] = self.load(s, Ptr(p.reg, off), ins['t'])
            s.frames[-1].idx += 1
            out.append(s)
        return out
    def enum_vals(self, st, e, limit=70):
        vals = []
        extra = []
        while True:
            r = self.sol.check(st.pc, extra)
            if r == 'unsat': return vals
            if r != 'sat': raise Unsupported('cannot enumerate value')
            v = self.sol.model.eval(e, model_completion=True)
            v = v.as_long()
            vals.append(v); extra.append(e != v)
            if len(vals) > limit: raise Unsupported('too many values to concretise')
    def fork_val(self, st, f):
        vals = self.enum_vals(st, f.e)
        out = []
        for v in vals:
            s = st.fork(); s.assume(f.e == v)
            s.ghost['conc'] = list(s.ghost.get('conc', ())) + [(f.e, v)]
            out.append(s)
        return out
    def do_ret(self, st, rv):
        fr = st.frames.pop()
        for rid in fr.allocas:
            if rid in st.mem: del st.mem[rid]
        if not st.frames:
            self.npaths += 1
            if not self.quiet: self.on_return(st, rv)
            raise PathEnd()
        if fr.onret is not None:
            return fr.onret(self, st, rv)
        caller = st.frames[-1]
        ins = caller.fn.blocks[caller.blk][caller.idx]
        caller.loc[ins['id']] = rv
        if ins['op'] == 'invoke':
            r = self.jump(st, ins['normal'], None)
            return r if r is not None else [st]
        caller.idx += 1
        return [st]
    def phis(self, st, fr, blk):
        vals = []
        for ins in fr.fn.blocks[blk]:
            if ins['op'] != 'phi': break
            v = None; found = False
            for b, o in ins['in']:
                if b == fr.blk: v = self.val(st, o); found = True; break
            if not found: raise Unsupported('phi')
            vals.append((ins['id'], v))
        return vals
    def jump(self, st, b, stop):
        """returns None to go on with st, or a list of states; raises PathEnd"""
        fr = st.frames[-1]
        vals = self.phis(st, fr, b)
        src = fr.blk
        if stop and len(st.frames) == stop[0] and b not in stop[2]:
            raise PathEnd()
        loops = fr.fn.loop_of_header
        is_header = b in loops
        back = is_header and src in loops[b][0]
        if fr.cut or fr.unroll:
            for h in list(fr.cut):
                if b not in loops[h][0]: del fr.cut[h]
            for h in list(fr.unroll):
                if b not in loops[h][0]: del fr.unroll[h]
        for i, v in vals: fr.loc[i] = v
        fr.prev = src; fr.blk = b; fr.idx = len(vals)
        if not is_header: return None
        if back:
            if b in fr.cut:
                if stop and len(st.frames) == stop[0] and b == stop[1]:
                    stop[3](st)
                else:
                    self.backedge(st, fr.cut[b])
                raise PathEnd()
            if b in fr.unroll:
                if self.header_hook is not None: self.header_hook(st, fr, b)
                fr.unroll[b] += 1
                if fr.unroll[b] > self.max_unroll: raise Unsupported('unroll limit in ' + short(fr.fn.dem))
                return None
            raise Unsupported('backedge without context')
        pol = self.want_unroll(st, fr, b, [i for i, _ in vals])
        if pol:
            fr.unroll[b] = 0
            return None
        self.enter_loop(st, b, [i for i, _ in vals])
        return None
    def want_unroll(self, st, fr, h, phis):
        if self.unroll_policy is not None:
            r = self.unroll_policy(self, st, fr, h)
            if r is not None: return r
        # counted loop with concrete start and constant bound: exact unrolling
        blocks = fr.fn.loop_of_header[h][0]
        term = fr.fn.blocks[h][-1]
        if term['op'] == 'br' and len(term['o']) == 3 and term['o'][0]['k'] == 'v':
            ci = None
            for i in fr.fn.blocks[h]:
                if i['id'] == term['o'][0]['i']: ci = i
            if ci is not None and ci['op'] == 'icmp':
                a, b = ci['o']
                for x, y in ((a, b), (b, a)):
                    if x['k'] == 'v' and x['i'] in phis and y['k'] == 'int':
                        v = fr.loc[x['i']]
                        if not is_z(v) and isinstance(v, int): return True
        return False
    def backedge(self, st, ctx):
        """final pass over a cut loop: invariant preservation as an obligation"""
        self.havoc_check(st, ctx)
        if ctx.inv:
            goal = b_and(*[simp(f(st)) for f in ctx.inv])
            self.oblige(st, goal, 'loop-invariant-preserved')
        if self.term and not self.quiet:
            ok = False
            for (up, m) in ctx.measures:
                x0 = st.ghost[m[0]]
                g = self.measure_goal(st, m)
                if self.must(st, g): ok = True; break
            self.obls.append(Obl('loop-terminates', self.where(st), ok, 'unsat' if ok else 'no-measure')) if ctx.measures else self.noterm.append(self.where(st))
    def measure_goal(self, st, m):
        return False
    def havoc_check(self, st, ctx):
        bad = self.mod_diff(st, ctx)
        if bad: raise Unsupported('loop frame changed: %s' % (bad[:3],))

SeqS = z3.DeclareSort('Seq')
snoc_f = z3.Function('snoc', SeqS, z3.IntSort(), SeqS)
cat_f = z3.Function('cat', SeqS, SeqS, SeqS)
EMPTY = z3.Const('empty', SeqS)
def snoc(s, b): return snoc_f(s, bv(b, 8))
def divisible(e, k):
    if z3.is_int_value(e): return e.as_long() % k == 0
    d = e.decl().kind()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return all(divisible(c, k) for c in e.children())
    if d == z3.Z3_OP_MUL: return any(divisible(c, k) for c in e.children())
    if d == z3.Z3_OP_ITE: return divisible(e.arg(1), k) and divisible(e.arg(2), k)
    return False
def split_index(off, k):
    """off == k * index + field with a constant field < k, syntactically"""
    if not is_z(off): return off // k, off % k
    e = z3.simplify(off, som=True); idx, c = [], 0
    for x in (e.children() if z3.is_add(e) else [e]):
        if z3.is_int_value(x): c += x.as_long(); continue
        if z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % k == 0:
            rest = [x.arg(i) for i in range(1, x.num_args())]; q = x.arg(0).as_long() // k
            idx.append(q * z3.Product(*rest) if len(rest) > 1 else (rest[0] if q == 1 else q * rest[0])); continue
        raise Unsupported('offset into an array of elements')
    i = idx[0]
    for x in idx[1:]: i = i + x
    return simp(i + c // k) if c // k else i, c % k
def seqcat(a, b):
    if b.eq(EMPTY): return a
    if a.eq(EMPTY): return b
    return cat_f(a, b)
_appr = {}
def appr(rid):
    if rid not in _appr:
        _appr[rid] = z3.Function('appr_' + rid, SeqS, z3.IntSort(), z3.IntSort(), SeqS)
    return _appr[rid]

def merge_items(items):
    items.sort(key=lambda x: x[0])
    return items

class PathEnd(Exception): pass
class ForkSel(Exception):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class ForkOn(Exception):
    def __init__(self, alts): self.alts = alts
class ForkVal(Exception):
    def __init__(self, e): self.e = e

def short(dem):
    # strip template args and parameter list for display
    d = re.sub(r'\(.*', '', dem)
    return d[-90:]
