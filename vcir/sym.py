"""Symbolic executor: verification-condition generator over LLVM IR.

One pass per function; control-flow joins merge states (ite), loops with concrete trip counts are
followed, Kokkos launches are summarised once for a symbolic iteration, calls are either inlined
(their body is verified in place) or replaced by a contract registered in `overrides`.
"""
import re, heapq, sys, time
from fractions import Fraction
import expr as E
from expr import Poly, B, const, ZERO, ONE, TRUE, FALSE
from ir import IRError, wto

sys.setrecursionlimit(200000)

class Unsupported(Exception):
    pass

class Stop(Exception):
    """the path ends here (throw / abort / unreachable)"""
    def __init__(self, why): self.why = why

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(s, t): return isinstance(t, Ptr) and s.o == t.o and (s.off is t.off or s.off == t.off)
    def __hash__(s): return hash((s.o, s.off if not isinstance(s.off, Poly) else s.off.id))
    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)
class FuncPtr:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(s, t): return isinstance(t, FuncPtr) and s.n == t.n
    def __hash__(s): return hash(s.n)
    def __repr__(s): return 'Fn(%s)' % s.n
class ViewPtr:
    __slots__ = ('v', 'idx')
    def __init__(self, v, idx): self.v = v; self.idx = idx
    def __eq__(s, t): return isinstance(t, ViewPtr) and s.v == t.v and len(s.idx) == len(t.idx) and all(a is b for a, b in zip(s.idx, t.idx))
    def __hash__(s): return hash((s.v, tuple(i.id for i in s.idx)))
    def __repr__(s): return 'VP(%s,%s)' % (s.v, s.idx)
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __eq__(s, t): return isinstance(t, PIte) and s.c is t.c and s.a == t.a and s.b == t.b
    def __hash__(s): return hash((s.c.id, s.a, s.b))
class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __eq__(s, t): return isinstance(t, Agg) and len(s.v) == len(t.v) and all(same(a, b) for a, b in zip(s.v, t.v))
    __hash__ = None
class Cat:
    """bytes of several cells read as one integer: list of (off, size, value)"""
    __slots__ = ('p', 'size')
    def __init__(self, p, size): self.p = p; self.size = size
    def __eq__(s, t): return isinstance(t, Cat) and s.size == t.size and len(s.p) == len(t.p) and all(a[0] == b[0] and a[1] == b[1] and same(a[2], b[2]) for a, b in zip(s.p, t.p))
    __hash__ = None
NULL = Ptr(None, 0)

def same(a, b):
    if a is b: return True
    if isinstance(a, (Poly, B)) or isinstance(b, (Poly, B)): return False
    return a == b

class Obj:
    __slots__ = ('size', 'cells', 'own', 'zero', 'name')
    def __init__(self, size, name=''): self.size = size; self.cells = {}; self.own = None; self.zero = False; self.name = name
    def copy(self, own):
        o = Obj(self.size, self.name); o.cells = dict(self.cells); o.own = own; o.zero = self.zero; return o

class PC:
    __slots__ = ('par', 'c', 'd', '_set')
    def __init__(self, par, c): self.par = par; self.c = c; self.d = par.d + 1 if par else 0; self._set = None
    def lits(self, stop=None):
        out = []; p = self
        while p is not stop and p.par is not None:
            out.append(p.c); p = p.par
        out.reverse(); return out
    def set(self):
        if self._set is None:
            s = set()
            for c in self.lits():
                if c.k == 'and': s.update(c.a)
                else: s.add(c)
            self._set = s
        return self._set
PC0 = PC(None, TRUE)
def pc_add(pc, c):
    return pc if c is TRUE else PC(pc, c)
def pc_lca(a, b):
    while a is not b:
        if a.d >= b.d and a.par is not None: a = a.par
        else: b = b.par
    return a

class State:
    __slots__ = ('objs', 'views', 'pc', 'own', 'regs')
    def __init__(self): self.objs = {}; self.views = {}; self.pc = PC0; self.own = object(); self.regs = None
    def fork(self):
        s = State(); s.objs = dict(self.objs); s.views = dict(self.views); s.pc = self.pc
        self.own = object(); s.own = object(); s.regs = dict(self.regs) if self.regs is not None else None
        return s
    def wobj(self, o):
        x = self.objs.get(o)
        if x is None: raise Unsupported('store to dead object %s' % (o,))
        if x.own is not self.own:
            x = x.copy(self.own); self.objs[o] = x
        return x

def merge_val(c, a, b):
    if same(a, b): return a
    if isinstance(a, Poly) and isinstance(b, Poly): return E.ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B): return E.bite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([merge_val(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, (Ptr, FuncPtr, ViewPtr, PIte)) and isinstance(b, (Ptr, FuncPtr, ViewPtr, PIte)):
        return PIte(c, a, b)
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.p) == len(b.p) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a.p, b.p)):
        return Cat([(x[0], x[1], merge_val(c, x[2], y[2])) for x, y in zip(a.p, b.p)], a.size)
    return None

# ------------------------------------------------------------------ view versions
class Version:
    open = False
    n = 0
    def __init__(self): Version.n += 1; self.vid = Version.n
    def read(self, idx): return E.apoly(E.atom('sel', (self, idx)))
    def __repr__(self): return '%s#%d' % (type(self).__name__, self.vid)
class Base(Version):
    def __init__(self, name, isint=False): super().__init__(); self.name = name
    def __repr__(self): return self.name
class Fill(Version):
    def __init__(self, val): super().__init__(); self.val = val
    def read(self, idx): return self.val
class StoreV(Version):
    def __init__(self, prev, idx, val): super().__init__(); self.prev = prev; self.idx = idx; self.val = val
class IteV(Version):
    def __init__(self, c, a, b): super().__init__(); self.c = c; self.a = a; self.b = b
class LaunchV(Version):
    """writes: list of (guard, idx, val, mode)"""
    def __init__(self, prev, its, dom, writes, name=''):
        super().__init__(); self.prev = prev; self.its = its; self.dom = dom; self.writes = writes; self.name = name
        self.cache = {}

class Launch:
    def __init__(self, base_pc, first=0): self.log = {}; self.base_pc = base_pc; self.reads = {}; self.seq = 0; self.first = first; self.shared = []

class VView:
    def __init__(self, vid, ext, name): self.id = vid; self.ext = ext; self.name = name

class Oblig:
    __slots__ = ('label', 'goal', 'pc', 'where', 'kind', 'vals')
    def __init__(self, label, goal, pc, where, kind, vals=None): self.label = label; self.goal = goal; self.pc = pc; self.where = where; self.kind = kind; self.vals = vals

WRAP = {}
def sx(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

class Exec:
    def __init__(self, mod, demangle, overrides=None, check_bounds=False, check_race=False, max_loop=4096):
        self.m = mod; self.dem = demangle
        self.ov = []            # (compiled regex, fn)
        self.ovcache = {}
        for k, f in (overrides or []): self.ov.append((re.compile(k), f))
        self.obl = []
        self.nobj = 0; self.nfresh = {}
        self.viewtab = {}
        self.launch = None
        self.check_bounds = check_bounds; self.check_race = check_race
        self.max_loop = max_loop
        self.depth = 0
        self.assumed = {}       # description -> count
        self.used_funcs = {}    # demangled -> count (inlined and verified)
        self.contracts = {}     # demangled -> count (replaced by contract)
        self.stack = []
        self.globs = {}
        self.facts = []         # side facts valid globally (var declarations)
        self.decider = None     # callback(pc, B) -> True/False/None
        self.races = []
        self.dropped = []
        self.launches = []
        self.steps = 0
        self.inputs = []
        self.undefs = []
        self.deadline = None

    # -------------------------------------------------------------- helpers
    def note(self, s): self.assumed[s] = self.assumed.get(s, 0) + 1
    def fresh(self, name, isint=False):
        k = self.nfresh.get(name, 0); self.nfresh[name] = k + 1
        return E.var(name if k == 0 else '%s#%d' % (name, k), isint)
    def newobj(self, st, size, name=''):
        self.nobj += 1; o = Obj(size, name); o.own = st.own
        st.objs[self.nobj] = o
        return self.nobj
    def undef(self, ty):
        if ty.k in ('double', 'float', 'x86_fp80'):
            v = self.fresh('undef'); self.undefs.append(v); return v
        if ty.k == 'i':
            if ty.n == 1: return E.bvar('undefb%d' % len(self.undefs))
            v = self.fresh('undefi', True); self.undefs.append(v); return v
        if ty.k == 'ptr': return Ptr('undef', 0)
        if ty.k == 'struct': return Agg([self.undef(f) for f in ty.fields])
        if ty.k in ('arr', 'vec'): return Agg([self.undef(ty.el) for _ in range(ty.n)])
        raise Unsupported('undef %r' % ty)

    def zero(self, ty):
        if ty.k in ('double', 'float', 'x86_fp80', 'half'): return ZERO
        if ty.k == 'i': return FALSE if ty.n == 1 else ZERO
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return Agg([self.zero(f) for f in ty.fields])
        if ty.k in ('arr', 'vec'): return Agg([self.zero(ty.el) for _ in range(ty.n)])
        raise Unsupported('zero %r' % ty)

    def fpval(self, v):
        if isinstance(v, float):
            if v != v: return E.var('NaN')
            return E.var('+INF') if v > 0 else E.neg(E.var('+INF'))
        return const(v)

    # -------------------------------------------------------------- memory
    def glob(self, st, name):
        o = self.globs.get(name)
        if o is None:
            if name in self.m.funcs or name in self.m.aliases: return FuncPtr(name)
            if name not in self.m.globals: raise Unsupported('global ' + name)
            self.nobj += 1; o = self.globs[name] = ('g', name)
        if o not in st.objs:
            ty, init, cst = self.m.globals[name]
            try: size = self.m.size(ty)
            except IRError: size = 8
            ob = Obj(size, name); ob.own = st.own
            st.objs[o] = ob
            if init is not None:
                self.init_mem(st, ob, 0, ty, init)
        return Ptr(o, 0)

    def init_mem(self, st, ob, off, ty, v):
        if v.k == 'zero':
            if off == 0 and self.m.size(ty) == ob.size: ob.zero = True
            else: self.put(ob, off, ty, self.zero(ty))
            return
        if v.k == 'undef' or v.k == 'unsupported': return
        if v.k == 'str':
            for i, ch in enumerate(v.v): ob.cells[off + i] = (1, const(sx(ch, 8)))
            return
        if v.k == 'agg':
            if ty.k == 'struct':
                for f, o, x in zip(ty.fields, self.m.offsets(ty), v.v): self.init_mem(st, ob, off + o, f, x)
            else:
                s = self.m.size(ty.el)
                for i, x in enumerate(v.v): self.init_mem(st, ob, off + i * s, ty.el, x)
            return
        self.put(ob, off, ty, self.val(st, v))

    def put(self, ob, off, ty, val):
        if isinstance(val, Agg):
            if ty.k == 'struct':
                for f, o, x in zip(ty.fields, self.m.offsets(ty), val.v): self.put(ob, off + o, f, x)
            else:
                s = self.m.size(ty.el)
                for i, x in enumerate(val.v): self.put(ob, off + i * s, ty.el, x)
            return
        size = self.m.size(ty)
        if isinstance(val, Cat):
            self.clear(ob, off, size)
            for (o, s, x) in val.p: ob.cells[off + o] = (s, x)
            return
        c = ob.cells.get(off)
        if c is None or c[0] != size: self.clear(ob, off, size)
        ob.cells[off] = (size, val)

    def clear(self, ob, off, size):
        """remove the cells overlapping [off, off+size); split integers when needed"""
        if ob.zero and size < 64:
            pass
        for o in range(off - 15, off + size):
            c = ob.cells.get(o)
            if c is None: continue
            if o + c[0] <= off: continue
            if o < off or o + c[0] > off + size:
                parts = self.split(c)
                if parts is None: del ob.cells[o]; continue
                del ob.cells[o]
                for i, x in enumerate(parts):
                    if not (off <= o + i < off + size): ob.cells[o + i] = (1, x)
                continue
            del ob.cells[o]

    def split(self, c):
        s, v = c
        if isinstance(v, Poly) and E.is_const(v) and type(E.cval(v)) is int:
            n = E.cval(v)
            return [const(sx(n >> (8 * i), 8)) for i in range(s)]
        return None

    def store(self, st, p, ty, val):
        if isinstance(p, PIte):
            # guarded stores on both sides
            for c, q in ((p.c, p.a), (E.bnot(p.c), p.b)):
                old = self.load(st, q, ty)
                self.store(st, q, ty, merge_val(c, val, old))
            return
        if isinstance(p, ViewPtr): return self.view_store(st, p, val)
        if not isinstance(p, Ptr) or p.o is None or p.o == 'undef': raise Unsupported('store to %r' % (p,))
        self.private(st, p.o)
        ob = st.wobj(p.o)
        if isinstance(p.off, int):
            if not (0 <= p.off and p.off + self.m.size(ty) <= ob.size):
                self.oblig('memory-safety: store inside object %s' % ob.name, FALSE, st, 'mem')
            self.put(ob, p.off, ty, val); return
        size = self.m.size(ty)
        if ob.zero: self.expand_zero(ob, ty, size)
        hit = False
        for o in sorted(ob.cells):
            s, v = ob.cells[o]
            if s != size or not isinstance(v, type(val)): continue
            c = E.eq(E.sub(p.off, const(o)))
            c = self.simp(st, c)
            if c is FALSE: continue
            hit = True
            ob.cells[o] = (s, merge_val(c, val, v))
        if not hit:
            n = ob.size // size
            for i in range(n):
                c = E.eq(E.sub(p.off, const(i * size)))
                if c is FALSE: continue
                ob.cells[i * size] = (size, merge_val(c, val, self.undef(ty)))

    def expand_zero(self, ob, ty, size):
        for i in range(0, ob.size, size):
            if i not in ob.cells and ob.size - i >= size: ob.cells[i] = (size, self.zero(ty))
        ob.zero = False

    def load(self, st, p, ty):
        if isinstance(p, PIte):
            c = self.simp(st, p.c)
            if c is TRUE: return self.load(st, p.a, ty)
            if c is FALSE: return self.load(st, p.b, ty)
            r = merge_val(c, self.load(st, p.a, ty), self.load(st, p.b, ty))
            if r is None: raise Unsupported('merge of loads')
            return r
        if isinstance(p, ViewPtr): return self.view_load(st, p)
        if not isinstance(p, Ptr) or p.o is None or p.o == 'undef': raise Unsupported('load from %r' % (p,))
        ob = st.objs.get(p.o)
        if ob is None: raise Unsupported('load from dead object %s' % (p.o,))
        if ty.k == 'struct':
            return Agg([self.load(st, Ptr(p.o, p.off + o), f) for f, o in zip(ty.fields, self.m.offsets(ty))])
        if ty.k in ('arr', 'vec'):
            s = self.m.size(ty.el)
            return Agg([self.load(st, Ptr(p.o, p.off + i * s), ty.el) for i in range(ty.n)])
        size = self.m.size(ty)
        if not isinstance(p.off, int):
            if ob.zero: st.wobj(p.o); ob = st.objs[p.o]; self.expand_zero(ob, ty, size)
            res = None
            for o in sorted(ob.cells, reverse=True):
                s, v = ob.cells[o]
                if s != size or not self.tymatch(v, ty): continue
                if res is None: res = v; continue
                c = self.simp(st, E.eq(E.sub(p.off, const(o))))
                if c is FALSE: continue
                if c is TRUE: res = v; break
                res = merge_val(c, v, res)
            if res is None: return self.undef(ty)
            lo = min(o for o in ob.cells); hi = max(o for o in ob.cells)
            return res
        off = p.off
        if not (0 <= off and off + size <= ob.size):
            self.oblig('memory-safety: load inside object %s' % ob.name, FALSE, st, 'mem')
            return self.undef(ty)
        c = ob.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], ty)
        # gather
        parts = []; o = off; full = True
        if c is None and ob.zero:
            ov = False
            for q in range(off - 7, off + size):
                x = ob.cells.get(q)
                if x is not None and q + x[0] > off: ov = True
            if not ov: return self.zero(ty)
        for q in range(off - 15, off + size):
            x = ob.cells.get(q)
            if x is None or q + x[0] <= off: continue
            if q < off or q + x[0] > off + size:
                sp = self.split(x)
                if sp is None: raise Unsupported('partial load of cell %s+%d' % (ob.name, off))
                for i, y in enumerate(sp):
                    if off <= q + i < off + size: parts.append((q + i - off, 1, y))
                continue
            parts.append((q - off, x[0], x[1]))
        if not parts:
            u = self.undef(ty)
            return u
        tot = sum(s for _, s, _ in parts)
        if tot == size and all(isinstance(x, Poly) and E.is_const(x) and type(E.cval(x)) is int for _, _, x in parts) and ty.k == 'i':
            n = 0
            for (o2, s, x) in parts: n |= (E.cval(x) & ((1 << (8 * s)) - 1)) << (8 * o2)
            return const(sx(n, 8 * size))
        if ob.zero and tot < size:
            # zero-filled remainder
            cov = set()
            for (o2, s, _) in parts: cov.update(range(o2, o2 + s))
            for b in range(size):
                if b not in cov: parts.append((b, 1, ZERO))
        return Cat(sorted(parts, key=lambda t: t[0]), size)

    def tymatch(self, v, ty):
        if ty.k in ('double', 'float'): return isinstance(v, Poly)
        if ty.k == 'i': return isinstance(v, Poly) if ty.n > 1 else isinstance(v, (B, Poly))
        if ty.k == 'ptr': return isinstance(v, (Ptr, FuncPtr, ViewPtr, PIte))
        return True

    def coerce(self, v, ty):
        if ty.k == 'i':
            if ty.n == 1 and isinstance(v, Poly): return E.bnot(E.eq(v))
            if ty.n > 1 and isinstance(v, B): return E.b2i(v)
            if isinstance(v, (Ptr, FuncPtr, ViewPtr)): return v
        if ty.k == 'ptr' and isinstance(v, Poly) and v is ZERO: return NULL
        return v

    def memcpy(self, st, d, s, n):
        if isinstance(n, Poly):
            if not E.is_const(n): raise Unsupported('memcpy symbolic size')
            n = E.cval(n)
        if n == 0: return
        if isinstance(s, PIte):
            c = self.simp(st, s.c)
            if c is TRUE: return self.memcpy(st, d, s.a, n)
            if c is FALSE: return self.memcpy(st, d, s.b, n)
            s1 = st.fork(); s2 = st.fork(); s1.regs = s2.regs = None
            s1.pc = pc_add(st.pc, c); s2.pc = pc_add(st.pc, E.bnot(c))
            self.memcpy(s1, d, s.a, n); self.memcpy(s2, d, s.b, n)
            r, m = self.merge(s1, s2)
            st.objs = m.objs; st.views = m.views; st.pc = m.pc; st.own = m.own
            return
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)): raise Unsupported('memcpy %r %r' % (d, s))
        so = st.objs.get(s.o)
        if so is None: raise Unsupported('memcpy from dead %r' % s)
        if not isinstance(s.off, int) or not isinstance(d.off, int): raise Unsupported('memcpy symbolic offset')
        cs = []
        if n > 4 * len(so.cells) + 64:
            rng = [o for o in so.cells if s.off <= o < s.off + n]
        else: rng = range(s.off, s.off + n)
        for o in rng:
            c = so.cells.get(o)
            if c is not None:
                if o + c[0] > s.off + n:
                    sp = self.split(c)
                    if sp is None: continue
                    for i, y in enumerate(sp):
                        if o + i < s.off + n: cs.append((o + i - s.off, (1, y)))
                    continue
                cs.append((o - s.off, c))
        self.private(st, d.o)
        do = st.wobj(d.o)
        if do.size < d.off + n or so.size < s.off + n:
            self.oblig('memory-safety: memcpy inside object %s' % do.name, FALSE, st, 'mem')
        if so.zero:
            if d.off == 0 and n >= do.size: do.cells = {}; do.zero = True
            else:
                self.clear_range(do, d.off, n)
                cov = set()
                for o, c in cs: cov.update(range(o, o + c[0]))
                for b in range(n):
                    if b not in cov: do.cells[d.off + b] = (1, ZERO)
        else:
            self.clear_range(do, d.off, n)
        for o, c in cs: do.cells[d.off + o] = c

    def clear_range(self, ob, off, n):
        for o in [o for o in ob.cells if o < off + n and o + ob.cells[o][0] > off]:
            c = ob.cells[o]
            del ob.cells[o]
            if o < off or o + c[0] > off + n:
                sp = self.split(c)
                if sp:
                    for i, y in enumerate(sp):
                        if not (off <= o + i < off + n): ob.cells[o + i] = (1, y)

    def memset(self, st, d, val, n):
        if isinstance(n, Poly): 
            if not E.is_const(n): raise Unsupported('memset size')
            n = E.cval(n)
        if n == 0: return
        self.private(st, d.o)
        ob = st.wobj(d.o)
        if val is not ZERO: 
            self.clear_range(ob, d.off, n)
            for i in range(n): ob.cells[d.off + i] = (1, val)
            return
        if d.off == 0 and n >= ob.size: ob.cells = {}; ob.zero = True; return
        self.clear_range(ob, d.off, n)
        for i in range(n): ob.cells[d.off + i] = (1, ZERO)

    def private(self, st, o):
        """a loop body may write its own objects only: anything older than the launch is shared by all iterations"""
        L = self.launch
        if L is None or (not isinstance(o, tuple) and o > L.first): return
        if isinstance(o, tuple) and o[1].startswith('@_ZGV'): return
        n = st.objs[o].name if o in st.objs else str(o)
        if (o, n) not in L.shared: L.shared.append((o, n))
        if not self.check_race: self.oblig('a parallel loop body writes the shared variable %s' % n, FALSE, st, 'mem')

    # -------------------------------------------------------------- views
    def view_name(self, vid): return self.viewtab[vid].name
    def new_view(self, st, ext, name):
        vid = len(self.viewtab) + 1
        self.viewtab[vid] = VView(vid, ext, name)
        st.views[vid] = Fill(ZERO)
        return vid

    def relguard(self, st):
        return E.band(*st.pc.lits(self.launch.base_pc)) if st.pc is not self.launch.base_pc else TRUE

    def bounds(self, st, p):
        if not self.check_bounds: return
        v = self.viewtab[p.v]
        g = []
        for i, n in zip(p.idx, v.ext):
            g.append(E.ge(i)); g.append(E.ge(E.sub(E.sub(n, i), ONE)))
        g = E.band(*g)
        self.oblig('bounds of view %s' % v.name, g, st, 'bounds')

    def view_load(self, st, p):
        self.bounds(st, p)
        ver = st.views.get(p.v)
        if ver is None: raise Unsupported('read of unknown view')
        r = ver.read(p.idx)
        if self.launch is not None:
            lg = self.launch.log.get(p.v)
            if self.check_race:
                self.launch.reads.setdefault(p.v, {}).setdefault((p.idx, self.relguard(st)), self.where())
            if lg:
                pcs = st.pc.set()
                for (g, idx, val, mode, w) in lg:
                    c = E.band(*[E.eq(E.sub(a, b)) for a, b in zip(p.idx, idx)])
                    if c is FALSE: continue
                    g2 = E.band(*[x for x in (g.a if g.k == 'and' else [g]) if x not in pcs])
                    c = E.band(c, g2)
                    if mode == 'set': r = E.ite(c, val, r)
                    else: r = E.add(r, E.ite(c, val, ZERO))
        return r

    def view_store(self, st, p, val, mode='set'):
        self.bounds(st, p)
        if not isinstance(val, Poly): raise Unsupported('view store of non number')
        if self.launch is not None:
            self.launch.log.setdefault(p.v, []).append((self.relguard(st), p.idx, val, mode, self.where()))
            return
        prev = st.views[p.v]
        if mode == 'add': val = E.add(prev.read(p.idx), val)
        st.views[p.v] = StoreV(prev, p.idx, val)

    def where(self):
        return ' < '.join(self.stack[-1:-4:-1])

    def oblig(self, label, goal, st, kind, vals=None):
        if goal is TRUE and kind in ('bounds', 'mem'): return
        self.obl.append(Oblig(label, goal, st.pc, self.where(), kind, vals))

    def run_launch(self, st, dims, fn, fptr, name):
        """dims: list of (begin,end) polys"""
        if self.launch is not None: raise Unsupported('nested launch')
        its = []; dom = []
        for d, (b, e) in enumerate(dims):
            v = self.fresh('it%d' % d, True); its.append(v)
            dom.append(E.ge(E.sub(v, b))); dom.append(E.ge(E.sub(E.sub(e, v), ONE)))
        bs = st.fork()
        for c in dom: bs.pc = pc_add(bs.pc, c)
        L = Launch(bs.pc, self.nobj); self.launch = L
        self.launches.append(name)
        try:
            self.call_ptr(bs, fn, [fptr] + its, None)
        except Stop as e:
            self.dropped.append(e.why)
        finally:
            self.launch = None
        for vid, lg in L.log.items():
            st.views[vid] = LaunchV(st.views[vid], its, dom, lg, name)
        if self.check_race: self.races.append((name, its, dom, L, st.pc, bs))
        return L

    # -------------------------------------------------------------- values
    def val(self, st, v):
        k = v.k
        if k == 'reg':
            try: return st.regs[v.v]
            except KeyError: raise Unsupported('register %s undefined' % v.v)
        if k == 'int':
            return (TRUE if v.v else FALSE) if v.ty.k == 'i' and v.ty.n == 1 else const(v.v)
        if k == 'fp': return self.fpval(v.v)
        if k == 'null': return NULL
        if k == 'glob': return self.glob(st, v.v)
        if k == 'zero': return self.zero(v.ty)
        if k == 'undef': return self.undef(v.ty) if v.ty.k != 'metadata' else None
        if k == 'agg': return Agg([self.val(st, x) for x in v.v])
        if k == 'cgep':
            bt, b, idx = v.v
            return self.gep(st, bt, self.val(st, b), [self.val(st, i) for i in idx])
        if k == 'ccast':
            return self.val(st, v.v[1])
        raise Unsupported('value ' + k)

    def gep(self, st, ty, base, idx):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(st, ty, base.a, idx), self.gep(st, ty, base.b, idx))
        if isinstance(base, ViewPtr):
            if len(idx) == 1 and idx[0] is ZERO: return base
            raise Unsupported('pointer arithmetic on view element')
        off = 0; sym = None
        for n, i in enumerate(idx):
            if n == 0: sz = self.m.size(ty); t = ty
            else:
                if t.k == 'struct':
                    f = E.cval(i); off += self.m.offsets(t)[f]; t = t.fields[f]; continue
                t = t.el; sz = self.m.size(t)
            if E.is_const(i): off += E.cval(i) * sz
            else:
                x = E.scale(i, sz); sym = x if sym is None else E.add(sym, x)
        if isinstance(base, FuncPtr): raise Unsupported('gep fn')
        if base.o is None and (off or sym is not None): raise Unsupported('gep null')
        if sym is None:
            if isinstance(base.off, int): return Ptr(base.o, base.off + off)
            r = E.add(base.off, const(off))
        else:
            b = const(base.off) if isinstance(base.off, int) else base.off
            r = E.add(E.add(b, const(off)), sym)
        if E.is_const(r): return Ptr(base.o, E.cval(r))
        return Ptr(base.o, r)

    def simp(self, st, c):
        """simplify a condition under the path condition"""
        if c is TRUE or c is FALSE: return c
        s = st.pc.set()
        if c in s: return TRUE
        n = E.bnot(c)
        if n in s: return FALSE
        if c.k == 'and':
            r = [x for x in c.a if x not in s]
            for x in r:
                if E.bnot(x) in s: return FALSE
            if len(r) < len(c.a): return self.simp(st, E.band(*r))
        if c.k == 'or':
            r = [x for x in c.a if E.bnot(x) not in s]
            for x in r:
                if x in s: return TRUE
            if len(r) < len(c.a): return self.simp(st, E.bor(*r))
        if self.decider is not None:
            r = self.decider(st.pc, c)
            if r is not None: return TRUE if r else FALSE
        return c

    # -------------------------------------------------------------- calls
    def find_override(self, name):
        r = self.ovcache.get(name, 0)
        if r == 0:
            d = self.dem.get(name, name)
            r = None
            for rx, f in self.ov:
                if rx.search(d): r = f; break
            self.ovcache[name] = r
        return r

    def call_ptr(self, st, fn, args, rty):
        if isinstance(fn, FuncPtr): return self.call(st, fn.n, args, rty)
        if isinstance(fn, PIte):
            c = self.simp(st, fn.c)
            if c is TRUE: return self.call_ptr(st, fn.a, args, rty)
            if c is FALSE: return self.call_ptr(st, fn.b, args, rty)
            s1 = st.fork(); s2 = st.fork(); s1.regs = s2.regs = None
            s1.pc = pc_add(st.pc, c); s2.pc = pc_add(st.pc, E.bnot(c))
            r1 = self.call_ptr(s1, fn.a, args, rty); r2 = self.call_ptr(s2, fn.b, args, rty)
            r, m = self.merge(s1, s2, r1, r2)
            st.objs = m.objs; st.views = m.views; st.pc = m.pc; st.own = m.own
            return r
        raise Unsupported('call of %r' % (fn,))

    def call(self, st, name, args, rty):
        nm = name
        ov = self.find_override(nm)
        if ov is not None:
            d = self.dem.get(nm, nm)
            self.contracts[d] = self.contracts.get(d, 0) + 1
            saved = st.regs
            r = ov(self, st, args, rty, d)
            st.regs = saved
            return r
        f = self.m.func(nm)
        if f is None or f.decl:
            b = BUILTIN.get(nm[1:])
            if b is None and nm.startswith('@llvm.'): b = llvm_intrinsic(nm[1:])
            if b is None:
                raise Unsupported('external function %s' % self.dem.get(nm, nm))
            return b(self, st, args, rty)
        d = self.dem.get(nm, nm)
        self.used_funcs[d] = self.used_funcs.get(d, 0) + 1
        self.stack.append(d)
        self.depth += 1
        if self.depth > 300: raise Unsupported('call depth')
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit in symbolic execution')
        saved = st.regs
        try:
            r = self.run(st, f, args)
        except (Unsupported, Stop):
            if getattr(self, 'errstack', None) is None: self.errstack = list(self.stack)
            raise
        finally:
            st.regs = saved; self.depth -= 1; self.stack.pop()
        return r

    def merge(self, a, b, ra=None, rb=None):
        """merge state b into a; returns (merged retval, state)"""
        l = pc_lca(a.pc, b.pc)
        ca = E.band(*a.pc.lits(l)) if a.pc is not l else TRUE
        cb = E.band(*b.pc.lits(l)) if b.pc is not l else TRUE
        m = State()
        m.pc = pc_add(l, E.bor(ca, cb))
        c = ca if ca is not TRUE else E.bnot(cb)
        for o, x in a.objs.items():
            y = b.objs.get(o)
            if y is None:
                if isinstance(o, tuple): m.objs[o] = x
                continue
            if x is y: m.objs[o] = x; continue
            z = Obj(x.size, x.name); z.own = m.own; z.zero = x.zero
            if x.zero != y.zero:
                if x.zero: self.materialize(x, y)
                else: self.materialize(y, x)
                z.zero = False
            for off, cx in x.cells.items():
                cy = y.cells.get(off)
                if cy is None:
                    if x.zero and y.zero and isinstance(cx[1], Poly): cy = (cx[0], ZERO)
                    else: continue
                if cx[0] != cy[0]: continue
                v = merge_val(c, cx[1], cy[1])
                if v is not None: z.cells[off] = (cx[0], v)
            if x.zero and y.zero:
                for off, cy in y.cells.items():
                    if off not in x.cells and isinstance(cy[1], Poly): z.cells[off] = (cy[0], E.ite(c, ZERO, cy[1]))
            m.objs[o] = z
        for o, y in b.objs.items():
            if o not in a.objs and isinstance(o, tuple): m.objs[o] = y
        for v, x in a.views.items():
            y = b.views.get(v)
            if y is None: m.views[v] = x; continue
            m.views[v] = x if x is y else IteV(c, x, y)
        for v, y in b.views.items():
            if v not in a.views: m.views[v] = y
        r = None
        if ra is not None and rb is not None:
            r = merge_val(c, ra, rb)
            if r is None: raise Unsupported('merge of return values')
        if a.regs is not None and b.regs is not None:
            R = {}
            br = b.regs
            for k, x in a.regs.items():
                y = br.get(k)
                if y is None: continue
                if x is y: R[k] = x
                else:
                    z = merge_val(c, x, y)
                    if z is not None: R[k] = z
            m.regs = R
        return r, m

    def materialize(self, x, y):
        # x is zero-filled, y not: add explicit zero cells to x where y has cells
        for off, cy in y.cells.items():
            if off not in x.cells and isinstance(cy[1], Poly):
                ok = all(not (o <= off < o + c[0]) for o, c in x.cells.items())
                if ok: x.cells[off] = (cy[0], ZERO)
        x.zero = False

    def run(self, st, f, args):
        order = wto(f)
        st.regs = {}
        if len(args) < len(f.params): raise Unsupported('arity %s' % f.name)
        for (t, nm, at), v in zip(f.params, args): st.regs[nm] = v
        frame_objs = []
        # pending: list of (key, seq, blockname, state)
        pend = {}       # (block, iter counters) -> state
        heap = []; seq = [0]
        entry = f.order[0]
        def key(b, counts):
            pfx, pos = order[b]
            k = []
            for (p, h) in pfx: k.append(p); k.append(counts.get(h, 0))
            k.append(pos)
            return tuple(k)
        def push(b, s, counts):
            pfx, _ = order[b]
            cc = {h: counts.get(h, 0) for (_, h) in pfx}
            kk = (b, tuple(sorted(cc.items())))
            if kk in pend:
                _, pend[kk] = self.merge(pend[kk], s)
            else:
                pend[kk] = s
                seq[0] += 1
                heapq.heappush(heap, (key(b, cc), seq[0], kk, cc))
        push(entry, self._move(st), {})
        result = None; rstate = None
        nstop = 0; lastwhy = None
        while heap:
            _, _, kk, counts = heapq.heappop(heap)
            s = pend.pop(kk)
            b = kk[0]
            bl = f.blocks[b]
            term = None
            try:
                for ins in bl.ins:
                    self.steps += 1
                    op = ins.op
                    if op == 'phi': continue
                    if op in TERMS: term = ins; break
                    self.exec_ins(s, ins, frame_objs)
            except Stop as e:
                nstop += 1; lastwhy = e.why
                continue
            if term is None: raise Unsupported('block without terminator')
            op = term.op
            if op == 'invoke':
                try:
                    self.exec_call(s, term)
                except Stop as e:
                    nstop += 1; lastwhy = e.why; continue
                self.edge(f, s, b, term.x['normal'], counts, push, order)
            elif op == 'br':
                if not term.args: self.edge(f, s, b, term.x[0], counts, push, order)
                else:
                    c = self.simp(s, self.val(s, term.args[0]))
                    if c is TRUE: self.edge(f, s, b, term.x[0], counts, push, order)
                    elif c is FALSE: self.edge(f, s, b, term.x[1], counts, push, order)
                    else:
                        s2 = s.fork()
                        s.pc = pc_add(s.pc, c); s2.pc = pc_add(s2.pc, E.bnot(c))
                        self.edge(f, s, b, term.x[0], counts, push, order)
                        self.edge(f, s2, b, term.x[1], counts, push, order)
            elif op == 'switch':
                v = self.val(s, term.args[0])
                d, cs = term.x
                if E.is_const(v):
                    t = d
                    for cv, l in cs:
                        if cv == E.cval(v): t = l; break
                    self.edge(f, s, b, t, counts, push, order)
                else:
                    rest = s; done = False
                    for cv, l in cs:
                        c = self.simp(rest, E.eq(E.sub(v, const(cv))))
                        if c is FALSE: continue
                        if c is TRUE: self.edge(f, rest, b, l, counts, push, order); done = True; break
                        s2 = rest.fork(); s2.pc = pc_add(s2.pc, c)
                        self.edge(f, s2, b, l, counts, push, order)
                        rest.pc = pc_add(rest.pc, E.bnot(c))
                    if not done: self.edge(f, rest, b, d, counts, push, order)
            elif op == 'ret':
                rv = self.val(s, term.args[0]) if term.args else None
                s.regs = None
                if rstate is None: rstate = s; result = rv
                else: result, rstate = self.merge(rstate, s, result, rv)
            elif op in ('unreachable', 'resume'):
                nstop += 1; lastwhy = 'unreachable'
            else:
                raise Unsupported(op)
        if rstate is None:
            raise Stop(lastwhy or 'no return')
        if nstop: self.dropped.append('%s: %s' % (self.dem.get(f.name, f.name), lastwhy))
        for o in frame_objs: rstate.objs.pop(o, None)
        st.objs = rstate.objs; st.views = rstate.views; st.pc = rstate.pc; st.own = rstate.own
        return result

    def _move(self, st):
        s = State(); s.objs = st.objs; s.views = st.views; s.pc = st.pc; s.own = st.own; s.regs = st.regs
        return s

    def edge(self, f, s, b, t, counts, push, order):
        # evaluate phis
        tb = f.blocks[t]
        new = None
        for ins in tb.ins:
            if ins.op != 'phi': break
            for l, v in ins.x:
                if l == b:
                    if new is None: new = []
                    new.append((ins.dst, self.val(s, v))); break
            else: raise Unsupported('phi')
        if new:
            for d, v in new: s.regs[d] = v
        # back edge? t is a head of a component containing b
        pfx, pos = order[t]
        if pos == -1 and pfx:
            h = pfx[-1][1]
            if h == t and any(x[1] == t for x in order[b][0]):
                counts = dict(counts); counts[t] = counts.get(t, 0) + 1
                if counts[t] > self.max_loop: raise Unsupported('loop without concrete bound in %s' % self.dem.get(f.name, f.name))
        push(t, s, counts)

    # -------------------------------------------------------------- instructions
    def exec_call(self, st, ins):
        x = ins.x; callee = x['callee']
        args = []
        for v, at in ins.args:
            a = self.val(st, v)
            for q in at:
                if isinstance(q, tuple) and q[0] == 'byval':
                    sz = self.m.size(q[1]); o = self.newobj(st, sz, 'byval'); p = Ptr(o, 0)
                    self.memcpy(st, p, a, sz); a = p
            args.append(a)
        if callee.k == 'glob': r = self.call(st, callee.v, args, ins.ty)
        else: r = self.call_ptr(st, self.val(st, callee), args, ins.ty)
        if ins.dst is not None:
            if r is None: r = self.undef(ins.ty)
            st.regs[ins.dst] = self.fit(r, ins.ty)

    def fit(self, r, ty):
        if ty is not None and ty.k == 'i':
            if ty.n == 1 and isinstance(r, Poly): return E.bnot(E.eq(r))
            if ty.n > 1 and isinstance(r, B): return E.b2i(r)
        return r

    def exec_ins(self, st, ins, frame_objs):
        op = ins.op
        if op == 'load':
            p = self.val(st, ins.args[0])
            st.regs[ins.dst] = self.load(st, p, ins.ty)
            return
        if op == 'store':
            v = self.val(st, ins.args[0]); p = self.val(st, ins.args[1])
            self.store(st, p, ins.ty, v)
            return
        if op == 'gep':
            b = self.val(st, ins.args[0])
            st.regs[ins.dst] = self.gep(st, ins.ty, b, [self.val(st, a) for a in ins.args[1:]])
            return
        if op == 'call':
            self.exec_call(st, ins); return
        if op == 'alloca':
            n = 1
            if ins.x is not None:
                c = self.val(st, ins.x)
                if not E.is_const(c): raise Unsupported('alloca vla')
                n = E.cval(c)
            o = self.newobj(st, self.m.size(ins.ty) * n, ins.dst); frame_objs.append(o)
            st.regs[ins.dst] = Ptr(o, 0); return
        f = OPS.get(op)
        if f is not None:
            st.regs[ins.dst] = f(self, st, ins); return
        if op == 'nop' or op == 'landingpad': return
        if op == 'unsupported': raise Unsupported('instruction ' + ins.x)
        raise Unsupported('op ' + op)

TERMS = {'br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'}

def num2(ex, st, ins):
    a = ex.val(st, ins.args[0]); b = ex.val(st, ins.args[1])
    return a, b

def wrapint(p, n):
    if E.is_const(p):
        return const(sx(E.cval(p), n))
    return p

def op_int(f):
    def g(ex, st, ins):
        a, b = num2(ex, st, ins)
        if ins.ty.k == 'vec':
            return Agg([wrapint(f(x, y), ins.ty.el.n) for x, y in zip(a.v, b.v)])
        if isinstance(a, B): a = E.b2i(a)
        if isinstance(b, B): b = E.b2i(b)
        if isinstance(a, Cat) or isinstance(b, Cat): raise Unsupported('arith on packed')
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o: return const(a.off - b.off) if isinstance(a.off, int) and isinstance(b.off, int) else E.sub(*[x if isinstance(x, Poly) else const(x) for x in (a.off, b.off)])
            raise Unsupported('ptr arith')
        if not isinstance(a, Poly) or not isinstance(b, Poly): raise Unsupported('int arith on %r %r' % (a, b))
        return wrapint(f(a, b), ins.ty.n)
    return g

def op_div(ex, st, ins):
    a, b = num2(ex, st, ins)
    if E.is_const(a) and E.is_const(b):
        x, y = E.cval(a), E.cval(b)
        if y == 0: raise Stop('integer division by zero')
        q = abs(x) // abs(y); q = q if (x >= 0) == (y > 0) else -q
        return const(q)
    ex.note('integer division taken with non-negative dividend and positive divisor')
    return E.idiv(a, b)
def op_rem(ex, st, ins):
    a, b = num2(ex, st, ins)
    q = op_div(ex, st, ins)
    return E.sub(a, E.mul(b, q))

def op_bits(kind):
    def g(ex, st, ins):
        a, b = num2(ex, st, ins)
        n = ins.ty.n if ins.ty.k == 'i' else None
        if isinstance(a, B) and isinstance(b, B):
            return {'and': E.band, 'or': E.bor, 'xor': E.bxor}[kind](a, b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            return cat_bits(ex, kind, a, b, n)
        if E.is_const(a) and E.is_const(b):
            x, y = E.cval(a), E.cval(b)
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[kind]
            return const(sx(r, n))
        if kind == 'xor' and E.is_const(b) and E.cval(b) == -1: return E.sub(const(-1), a)
        # low-bit tests on symbolic integers: x & (2^k-1) == x mod 2^k
        if kind == 'and':
            if E.is_const(a): a, b = b, a
            if E.is_const(b) and E.cval(b) >= 0 and (E.cval(b) & (E.cval(b) + 1)) == 0:
                k = E.cval(b) + 1
                if k == 1: return ZERO
                # boolean ite(…,1,0) & 1
                if isbool(a) and k >= 2: return a
                return E.sub(a, E.scale(E.idiv(a, const(k)), k))
        if isbool(a) and isbool(b):
            x = E.bnot(E.eq(a)); y = E.bnot(E.eq(b))
            return E.b2i({'and': E.band, 'or': E.bor, 'xor': E.bxor}[kind](x, y))
        raise Unsupported('bitwise %s on symbolic integers' % kind)
    return g

def isbool(p):
    if E.is_const(p): return E.cval(p) in (0, 1)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = E.ATOMS[m[0][0]]
            return A.k == 'ite' and isbool(A.a[1]) and isbool(A.a[2])
    if len(p.t) == 2 and p.t.get(()) == 1:
        for m, c in p.t.items():
            if m and c == -1 and len(m) == 1 and m[0][1] == 1:
                return isbool(E.apoly(E.ATOMS[m[0][0]]))
    return False

def cat_bits(ex, kind, a, b, n):
    if kind == 'and' and isinstance(a, Cat) and E.is_const(b):
        m = E.cval(b) & ((1 << n) - 1)
        parts = []
        for (o, s, x) in a.p:
            mm = (m >> (8 * o)) & ((1 << (8 * s)) - 1)
            if mm == (1 << (8 * s)) - 1: parts.append((o, s, x))
            elif mm == 0: parts.append((o, s, ZERO))
            else: raise Unsupported('mask on packed')
        return Cat(parts, a.size)
    if kind == 'or':
        A = a.p if isinstance(a, Cat) else None; Bp = b.p if isinstance(b, Cat) else None
        if A is not None and Bp is not None:
            d = {}
            for (o, s, x) in A + Bp:
                if x is ZERO and o in d: continue
                if o in d and d[o][1] is not ZERO: raise Unsupported('or on packed')
                d[o] = (s, x)
            return Cat(sorted((o, s, x) for o, (s, x) in d.items()), a.size)
    raise Unsupported('bits on packed')

def op_shift(kind):
    def g(ex, st, ins):
        a, b = num2(ex, st, ins)
        n = ins.ty.n
        if not E.is_const(b): raise Unsupported('symbolic shift')
        k = E.cval(b)
        if isinstance(a, Cat):
            if k % 8: raise Unsupported('shift packed')
            kb = k // 8
            if kind == 'lshr':
                p = [(o - kb, s, x) for (o, s, x) in a.p if o >= kb]
                if len(p) == 1 and p[0][0] == 0: return p[0][2]
                return Cat(p, a.size)
            if kind == 'shl':
                return Cat([(o + kb, s, x) for (o, s, x) in a.p if o + kb < n // 8], a.size)
            raise Unsupported('shift packed')
        if isinstance(a, B): a = E.b2i(a)
        if E.is_const(a):
            x = E.cval(a)
            if kind == 'shl': return const(sx(x << k, n))
            if kind == 'lshr': return const(sx((x & ((1 << n) - 1)) >> k, n))
            return const(sx(x, n) >> k)
        if kind == 'shl':
            if k >= 32 and n == 64:
                return Cat([(k // 8, n // 8 - k // 8, a)], 8)
            return E.scale(a, 1 << k)
        if kind in ('ashr', 'lshr'):
            ex.note('right shift of a symbolic integer taken as division of a non-negative value')
            return E.idiv(a, const(1 << k))
        raise Unsupported('shift')
    return g

def fop(f):
    def g(ex, st, ins):
        a, b = num2(ex, st, ins)
        if ins.ty.k == 'vec': return Agg([f(x, y) for x, y in zip(a.v, b.v)])
        return f(a, b)
    return g

def fdiv(a, b):
    if len(a.t) > 1 and len(b.t) > 1:                  # common factor (denominators are non-zero)
        c1, m1, q1 = E.primitive(a); c2, m2, q2 = E.primitive(b)
        if q1 is q2:
            one = E.mk({m1: 1}) if m1 else ONE; two = E.mk({m2: 1}) if m2 else ONE
            return E.scale(E.mul(one, E.inv(two)), E.Fraction(c1) / E.Fraction(c2))
    return _fdiv(a, b)
def _fdiv(a, b):
    if E.is_const(b) and E.cval(b) == 0:
        raise Stop('floating division by constant zero')
    return E.div(a, b)

def op_icmp(ex, st, ins):
    a, b = num2(ex, st, ins); pr = ins.x
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, B) and isinstance(b, B):
            if pr == 'ne': return E.bxor(a, b)
            if pr == 'eq': return E.bnot(E.bxor(a, b))
        if isinstance(a, B): a = E.b2i(a)
        if isinstance(b, B): b = E.b2i(b)
    if isinstance(a, (Ptr, FuncPtr, ViewPtr, PIte)) or isinstance(b, (Ptr, FuncPtr, ViewPtr, PIte)):
        return ptr_cmp(ex, st, a, b, pr)
    if isinstance(a, Cat) or isinstance(b, Cat): raise Unsupported('compare packed')
    if pr[0] == 'u' and pr not in ('une',):
        n = ins.ty.n
        if E.is_const(a) and E.is_const(b):
            x = E.cval(a) & ((1 << n) - 1); y = E.cval(b) & ((1 << n) - 1)
            return E.bconst({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pr])
        ex.note('unsigned comparison of symbolic integers taken on their mathematical values')
        if E.is_const(b) and E.cval(b) < 0: b = const(E.cval(b) & ((1 << n) - 1))
        if E.is_const(a) and E.cval(a) < 0: a = const(E.cval(a) & ((1 << n) - 1))
        pr = 's' + pr[1:]
    d = E.sub(a, b)
    if pr == 'eq': return E.eq(d)
    if pr == 'ne': return E.bnot(E.eq(d))
    if pr == 'sge': return E.ge(d)
    if pr == 'sgt': return E.gt(d)
    if pr == 'sle': return E.ge(E.neg(d))
    if pr == 'slt': return E.gt(E.neg(d))
    raise Unsupported('icmp ' + pr)

def ptr_cmp(ex, st, a, b, pr):
    if a is ZERO: a = NULL
    if b is ZERO: b = NULL
    if isinstance(a, PIte): return E.bite(a.c, ptr_cmp(ex, st, a.a, b, pr), ptr_cmp(ex, st, a.b, b, pr))
    if isinstance(b, PIte): return E.bite(b.c, ptr_cmp(ex, st, a, b.a, pr), ptr_cmp(ex, st, a, b.b, pr))
    if pr in ('eq', 'ne'):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and not (isinstance(a.off, int) and isinstance(b.off, int)):
            x = a.off if isinstance(a.off, Poly) else const(a.off); y = b.off if isinstance(b.off, Poly) else const(b.off)
            r = E.eq(E.sub(x, y))
            return r if pr == 'eq' else E.bnot(r)
        if (isinstance(a, Ptr) and a.o == 'undef') or (isinstance(b, Ptr) and b.o == 'undef'):
            u = E.bvar('undefptr%d' % len(ex.undefs)); ex.undefs.append(u); return u
        e = a == b
        return E.bconst(e == (pr == 'eq'))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and isinstance(a.off, int) and isinstance(b.off, int):
        x, y = a.off, b.off
        return E.bconst({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pr])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return E.bvar('ptrcmp(%r,%r,%s)' % (a, b, pr))
    raise Unsupported('pointer compare %s' % pr)

def op_fcmp(ex, st, ins):
    a, b = num2(ex, st, ins); pr = ins.x
    return fcmp(pr, a, b)
def fcmp(pr, a, b):
    if pr == 'ord': return TRUE
    if pr == 'uno': return FALSE
    if pr in ('true', 'false'): return E.bconst(pr == 'true')
    d = E.sub(a, b); k = pr[1:]
    if k == 'eq': return E.eq(d)
    if k == 'ne': return E.bnot(E.eq(d))
    if k == 'ge': return E.ge(d)
    if k == 'gt': return E.gt(d)
    if k == 'le': return E.ge(E.neg(d))
    if k == 'lt': return E.gt(E.neg(d))
    raise Unsupported('fcmp ' + pr)

def op_select(ex, st, ins):
    c = ex.val(st, ins.args[0]); a = ex.val(st, ins.args[1]); b = ex.val(st, ins.args[2])
    c = ex.simp(st, c)
    if c is TRUE: return a
    if c is FALSE: return b
    r = merge_val(c, a, b)
    if r is None: raise Unsupported('select')
    return r

def op_trunc(ex, st, ins):
    a = ex.val(st, ins.args[0]); n = ins.ty.n
    if isinstance(a, Cat):
        want = n // 8
        for (o, s, x) in a.p:
            if o == 0 and s == want: return x
        if n < 8: raise Unsupported('trunc packed')
        return Cat([(o, s, x) for (o, s, x) in a.p if o < want], want)
    if isinstance(a, B): a = E.b2i(a)
    if n == 1:
        if E.is_const(a): return E.bconst(E.cval(a) & 1)
        return E.bnot(E.eq(a))
    return wrapint(a, n)
def op_zext(ex, st, ins):
    a = ex.val(st, ins.args[0]); n = ins.ty.n
    if isinstance(a, Agg): raise Unsupported('vec zext')
    if isinstance(a, B): return E.b2i(a)
    if isinstance(a, Cat): return a
    if E.is_const(a): return const(E.cval(a) & ((1 << ins.x.n) - 1))
    if ins.x.n >= 8 and n == 64 and ins.x.n == 32:
        return a
    return a
def op_sext(ex, st, ins):
    a = ex.val(st, ins.args[0])
    if isinstance(a, B): return E.neg(E.b2i(a))
    return a
def op_id(ex, st, ins): return ex.val(st, ins.args[0])
def op_fptosi(ex, st, ins):
    a = ex.val(st, ins.args[0])
    if E.is_const(a):
        return const(int(E.cval(a)))
    if E.isint(a): return a
    return E.app('trunc', a, isint=True)
def op_itofp(ex, st, ins):
    a = ex.val(st, ins.args[0])
    if isinstance(a, B): return E.b2i(a) if ins.op == 'uitofp' else E.neg(E.b2i(a))
    if ins.op == 'uitofp' and E.is_const(a): return const(E.cval(a) & ((1 << ins.x.n) - 1))
    return a
def op_fptrunc(ex, st, ins):
    a = ex.val(st, ins.args[0])
    ex.note('conversion double->float taken as exact')
    return a
def op_extractvalue(ex, st, ins):
    a = ex.val(st, ins.args[0])
    for i in ins.x: a = a.v[i]
    return a
def op_insertvalue(ex, st, ins):
    a = ex.val(st, ins.args[0]); b = ex.val(st, ins.args[1])
    def rec(a, path):
        v = list(a.v)
        v[path[0]] = b if len(path) == 1 else rec(v[path[0]], path[1:])
        return Agg(v)
    return rec(a, ins.x)
def op_extractelement(ex, st, ins):
    a = ex.val(st, ins.args[0]); i = ex.val(st, ins.args[1]); return a.v[E.cval(i)]
def op_insertelement(ex, st, ins):
    a = ex.val(st, ins.args[0]); b = ex.val(st, ins.args[1]); i = ex.val(st, ins.args[2])
    v = list(a.v); v[E.cval(i)] = b; return Agg(v)
def op_shuffle(ex, st, ins):
    a = ex.val(st, ins.args[0]); b = ex.val(st, ins.args[1]); m = ex.val(st, ins.args[2])
    ab = a.v + b.v
    return Agg([ab[E.cval(i)] for i in m.v])
def op_fneg(ex, st, ins): return E.neg(ex.val(st, ins.args[0]))
def op_atomicrmw(ex, st, ins):
    p = ex.val(st, ins.args[0]); v = ex.val(st, ins.args[1]); k = ins.x
    old = ex.load(st, p, ins.ty)
    new = {'add': lambda: E.add(old, v), 'sub': lambda: E.sub(old, v), 'xchg': lambda: v, 'fadd': lambda: E.add(old, v)}[k]()
    ex.store(st, p, ins.ty, new)
    return old
def op_p2i(ex, st, ins):
    return ex.val(st, ins.args[0])

OPS = {'add': op_int(E.add), 'sub': op_int(E.sub), 'mul': op_int(E.mul), 'sdiv': op_div, 'udiv': op_div, 'srem': op_rem, 'urem': op_rem,
       'and': op_bits('and'), 'or': op_bits('or'), 'xor': op_bits('xor'), 'shl': op_shift('shl'), 'lshr': op_shift('lshr'), 'ashr': op_shift('ashr'),
       'fadd': fop(E.add), 'fsub': fop(E.sub), 'fmul': fop(E.mul), 'fdiv': fop(fdiv), 'fneg': op_fneg,
       'icmp': op_icmp, 'fcmp': op_fcmp, 'select': op_select, 'trunc': op_trunc, 'zext': op_zext, 'sext': op_sext,
       'fptrunc': op_fptrunc, 'fpext': op_id, 'fptosi': op_fptosi, 'fptoui': op_fptosi, 'sitofp': op_itofp, 'uitofp': op_itofp,
       'bitcast': op_id, 'ptrtoint': op_p2i, 'inttoptr': op_p2i, 'freeze': op_id,
       'extractvalue': op_extractvalue, 'insertvalue': op_insertvalue, 'extractelement': op_extractelement,
       'insertelement': op_insertelement, 'shufflevector': op_shuffle, 'atomicrmw': op_atomicrmw}

# ------------------------------------------------------------------ externals
BUILTIN = {}
def builtin(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d

def known(ex, st, c):
    if c is TRUE or c is FALSE: return c
    if c.k in ('ge', 'eq') and len(c.a.t) > 60: return c
    return ex.simp(st, c)
@builtin('sqrt', 'sqrtf')
def b_sqrt(ex, st, a, r): return E.vsqrt(a[0])
@builtin('fabs', 'fabsf')
def b_fabs(ex, st, a, r):
    c = known(ex, st, E.ge(a[0]))
    return a[0] if c is TRUE else E.neg(a[0]) if c is FALSE else E.vabs(a[0])
@builtin('fmax', 'fmaxf')
def b_fmax(ex, st, a, r):
    c = known(ex, st, E.ge(E.sub(a[0], a[1])))
    return a[0] if c is TRUE else a[1] if c is FALSE else E.vmax(a[0], a[1])
@builtin('fmin', 'fminf')
def b_fmin(ex, st, a, r):
    c = known(ex, st, E.ge(E.sub(a[0], a[1])))
    return a[1] if c is TRUE else a[0] if c is FALSE else E.vmin(a[0], a[1])
@builtin('abs', 'labs', 'llabs')
def b_abs(ex, st, a, r): return E.vabs(a[0])
@builtin('copysign')
def b_copysign(ex, st, a, r):
    x = E.vabs(a[0]); return E.ite(E.ge(a[1]), x, E.neg(x))
@builtin('pow')
def b_pow(ex, st, a, r):
    if E.is_const(a[1]):
        c = E.cval(a[1])
        if type(c) is int and abs(c) <= 16: return E.powi(a[0], c)
        if c == Fraction(1, 2): return E.vsqrt(a[0])
    if E.is_const(a[0]) and E.cval(a[0]) == 1: return ONE
    return E.app('pow', a[0], a[1])
def _fn(n):
    def f(ex, st, a, r): return E.app(n, *a)
    return f
for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'atan', 'atan2', 'acos', 'asin', 'cosh', 'sinh', 'log10', 'erf', 'floor', 'ceil', 'fmod', 'exp2', 'cbrt'):
    BUILTIN[_n] = _fn(_n)
@builtin('sin', 'sinf')
def b_sin(ex, st, a, r): return ZERO if a[0] is ZERO else E.app('sin', a[0])
@builtin('cos')
def b_cos(ex, st, a, r): return ONE if a[0] is ZERO else E.app('cos', a[0])
@builtin('exp')
def b_exp(ex, st, a, r): return ONE if a[0] is ZERO else E.app('exp', a[0])
@builtin('tan')
def b_tan(ex, st, a, r): return ZERO if a[0] is ZERO else E.app('tan', a[0])

@builtin('_Znwm', '_Znam', 'malloc')
def b_new(ex, st, a, r):
    if not E.is_const(a[0]): raise Unsupported('allocation of symbolic size')
    return Ptr(ex.newobj(st, max(E.cval(a[0]), 1), 'heap'), 0)
@builtin('_ZdlPvm', '_ZdlPv', '_ZdaPv', '_ZdaPvm', 'free')
def b_del(ex, st, a, r):
    if isinstance(a[0], Ptr) and a[0].o is not None and a[0].o != 'undef': st.objs.pop(a[0].o, None)
@builtin('__cxa_throw', '__cxa_rethrow', 'abort', 'exit', '_ZSt9terminatev', '__assert_fail', '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '__clang_call_terminate', '__cxa_pure_virtual', '_ZSt21__throw_runtime_errorPKc', '_ZSt24__throw_invalid_argumentPKc','_ZSt16__throw_bad_castv')
def b_abort(ex, st, a, r): raise Stop('abnormal termination')
@builtin('__cxa_allocate_exception')
def b_cae(ex, st, a, r): return Ptr(ex.newobj(st, E.cval(a[0]), 'exc'), 0)
@builtin('__cxa_free_exception', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort')
def b_nop(ex, st, a, r): return ZERO if r is not None and r.k == 'i' else (NULL if r is not None and r.k == 'ptr' else None)
@builtin('__cxa_guard_acquire')
def b_guard(ex, st, a, r):
    p = a[0]; ob = st.wobj(p.o)
    c = ob.cells.get(p.off)
    if c is None or c[1] is ZERO:
        ob.cells[p.off] = (1, ONE); return ONE
    return ZERO
@builtin('memcpy', 'memmove')
def b_memcpy(ex, st, a, r): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
@builtin('memset')
def b_memset(ex, st, a, r): ex.memset(st, a[0], a[1], a[2]); return a[0]
def cstring(ex, st, p, maxn=4096):
    out = []; ob = st.objs[p.o]
    o = p.off
    if not isinstance(o, int): raise Unsupported('string at symbolic offset')
    while True:
        c = ob.cells.get(o)
        if c is None:
            if ob.zero: break
            raise Unsupported('string with unknown bytes')
        s, v = c
        if s != 1:
            sp = ex.split(c)
            if sp is None: raise Unsupported('string cell')
            for y in sp:
                if E.cval(y) == 0: return bytes(out)
                out.append(E.cval(y) & 255)
            o += s; continue
        if not E.is_const(v): raise Unsupported('symbolic string')
        if E.cval(v) == 0: break
        out.append(E.cval(v) & 255); o += 1
    return bytes(out)
@builtin('strlen')
def b_strlen(ex, st, a, r): return const(len(cstring(ex, st, a[0])))
@builtin('strcmp')
def b_strcmp(ex, st, a, r):
    x = cstring(ex, st, a[0]); y = cstring(ex, st, a[1])
    return const(0 if x == y else (-1 if x < y else 1))
@builtin('memcmp', 'bcmp')
def b_memcmp(ex, st, a, r):
    n = E.cval(a[2])
    for i in range(n):
        x = ex.load(st, Ptr(a[0].o, a[0].off + i), I8); y = ex.load(st, Ptr(a[1].o, a[1].off + i), I8)
        if not (E.is_const(x) and E.is_const(y)): raise Unsupported('memcmp symbolic')
        d = (E.cval(x) & 255) - (E.cval(y) & 255)
        if d: return const(d)
    return ZERO
@builtin('memchr', 'strchr')
def b_memchr(ex, st, a, r):
    c = E.cval(a[1]) & 255; i = 0
    while len(a) < 3 or i < E.cval(a[2]):
        x = ex.load(st, Ptr(a[0].o, a[0].off + i), I8)
        if not E.is_const(x): raise Unsupported('memchr symbolic')
        if E.cval(x) & 255 == c: return Ptr(a[0].o, a[0].off + i)
        if len(a) < 3 and E.cval(x) == 0: break
        i += 1
    return NULL
from ir import INT
I8 = INT(8)
@builtin('printf', 'puts', 'putchar', 'fprintf', 'fflush', 'fputs', 'fputc')
def b_print(ex, st, a, r): return ZERO

def llvm_intrinsic(n):
    if n.startswith('llvm.fabs'): return b_fabs
    if n.startswith('llvm.sqrt'): return b_sqrt
    if n.startswith(('llvm.maxnum', 'llvm.maximum')): return b_fmax
    if n.startswith(('llvm.minnum', 'llvm.minimum')): return b_fmin
    if n.startswith('llvm.copysign'): return b_copysign
    if n.startswith(('llvm.memcpy', 'llvm.memmove')): return lambda ex, st, a, r: ex.memcpy(st, a[0], a[1], a[2])
    if n.startswith('llvm.memset'): return lambda ex, st, a, r: ex.memset(st, a[0], a[1], a[2])
    if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.experimental', 'llvm.var.annotation', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_')): return lambda ex, st, a, r: (NULL if r is not None and r.k == 'ptr' else None)
    if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'): return lambda ex, st, a, r: E.add(E.mul(a[0], a[1]), a[2])
    if n.startswith('llvm.pow.'): return b_pow
    if n.startswith('llvm.powi'): return lambda ex, st, a, r: E.powi(a[0], E.cval(a[1]))
    if n.startswith('llvm.floor'): return BUILTIN['floor']
    if n.startswith('llvm.ceil'): return BUILTIN['ceil']
    if n.startswith('llvm.exp.'): return BUILTIN['exp']
    if n.startswith('llvm.sin.'): return BUILTIN['sin']
    if n.startswith('llvm.cos.'): return BUILTIN['cos']
    if n.startswith('llvm.log.'): return BUILTIN['log']
    if n.startswith('llvm.trap'): return b_abort
    if n.startswith(('llvm.smax', 'llvm.umax')): return b_fmax
    if n.startswith(('llvm.smin', 'llvm.umin')): return b_fmin
    if n.startswith('llvm.abs'): return lambda ex, st, a, r: E.vabs(a[0])
    if n.startswith('llvm.is.constant'): return lambda ex, st, a, r: FALSE
    if n.startswith('llvm.expect'): return lambda ex, st, a, r: a[0]
    if n.startswith('llvm.launder') or n.startswith('llvm.strip'): return lambda ex, st, a, r: a[0]
    if n.startswith('llvm.threadlocal'): return lambda ex, st, a, r: a[0]
    if n.startswith('llvm.is.fpclass'): return lambda ex, st, a, r: FALSE
    if n.startswith('llvm.eh.typeid'): return lambda ex, st, a, r: ONE
    import re as _re
    m = _re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', n)
    if m:
        f = {'add': E.add, 'sub': E.sub, 'mul': E.mul}[m.group(2)]
        return lambda ex, st, a, r: Agg([f(a[0], a[1]), FALSE])
    return None
