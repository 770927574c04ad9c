"""Obligation discharge: view-read resolution, congruence, case splitting, exact polynomial
normalisation, z3 / cvc5 for arithmetic side conditions."""
import time, sys
from fractions import Fraction
import math, random
import numpy as np
import z3
import expr as E
from expr import Poly, B, Atom, TRUE, FALSE, ZERO, ONE, ATOMS, const
from sym import Base, Fill, StoreV, IteV, LaunchV, Unsupported

class Z:
    """translation to z3"""
    def __init__(self):
        self.va = {}; self.cp = {}; self.cb = {}; self.side = []; self.sorts = {}
    def zatom(self, A):
        r = self.va.get(A.id)
        if r is not None: return r
        k = A.k
        if k == 'var' or k == 'app' or k == 'sel':
            n = '%s!%d' % (A.a if k == 'var' else k, A.id)
            r = z3.Int(n) if A.isint else z3.Real(n)
        elif k == 'sqrt':
            r = z3.Real('sqrt!%d' % A.id); self.va[A.id] = r
            self.side.append(r >= 0); self.side.append(r * r == self.real(A.a))
        elif k == 'pos':
            x = self.p(A.a); r = z3.If(x >= 0, x, z3.IntVal(0) if x.is_int() else z3.RealVal(0))
        elif k == 'ite':
            c, t, e = A.a
            t = self.p(t); e = self.p(e)
            if t.is_int() != e.is_int():
                t = z3.ToReal(t) if t.is_int() else t; e = z3.ToReal(e) if e.is_int() else e
            r = z3.If(self.b(c), t, e)
        elif k == 'par': r = self.real(A.a)
        elif k == 'idiv':
            r = z3.Int('idiv!%d' % A.id); self.va[A.id] = r
            p = self.p(A.a[0]); q = self.p(A.a[1])
            self.side.append(z3.Implies(z3.And(p >= 0, q >= 1), z3.And(q * r <= p, p < q * r + q, r >= 0)))
        else: raise Exception(k)
        self.va[A.id] = r
        return r
    def real(self, p):
        r = self.p(p)
        return z3.ToReal(r) if r.is_int() else r
    def p(self, p):
        r = self.cp.get(p.id)
        if r is not None: return r
        isi = E.isint(p)
        terms = []
        for m, c in p.t.items():
            num = []; den = []
            for (a, e) in m:
                v = self.zatom(ATOMS[a])
                if not isi and v.is_int(): v = z3.ToReal(v)
                (num if e > 0 else den).extend([v] * abs(e))
            if isi: t = z3.IntVal(c)
            else: t = z3.RealVal(str(c))
            if num or den:
                x = None
                for v in num: x = v if x is None else x * v
                if c != 1 or x is None: x = t if x is None else t * x
                if den:
                    d = None
                    for v in den: d = v if d is None else d * v
                    x = x * self.recip(d)
                t = x
            terms.append(t)
        if not terms: r = z3.IntVal(0) if isi else z3.RealVal(0)
        else:
            r = terms[0]
            for t in terms[1:]: r = r + t
        self.cp[p.id] = r
        return r
    def recip(self, d):
        k = ('r', d.get_id())
        r = self.va.get(k)
        if r is None:
            r = z3.FreshReal('inv'); self.va[k] = r; self.va[('keep', d.get_id())] = d
            self.side.append(z3.Implies(d != 0, r * d == 1))
            self.side.append(d != 0)
        return r
    def b(self, b):
        r = self.cb.get(b.id)
        if r is not None: return r
        k = b.k
        if k == 'true': r = z3.BoolVal(True)
        elif k == 'false': r = z3.BoolVal(False)
        elif k == 'ge': r = self.p(b.a) >= 0
        elif k == 'eq': r = self.p(b.a) == 0
        elif k == 'not':
            r = z3.Not(self.b(b.a))
        elif k == 'and': r = z3.And([self.b(x) for x in sorted(b.a, key=lambda x: x.id)])
        elif k == 'or': r = z3.Or([self.b(x) for x in sorted(b.a, key=lambda x: x.id)])
        elif k == 'bvar': r = z3.Bool('b!' + str(b.a))
        self.cb[b.id] = r
        return r

def lit_int(b):
    """b involves only integer atoms"""
    k = b.k
    if k in ('ge', 'eq'): return E.isint(b.a)
    if k == 'not': return lit_int(b.a)
    if k in ('and', 'or'): return all(lit_int(x) for x in b.a)
    return k in ('true', 'false')

def nonlinear(p):
    for m in p.t:
        if len(m) > 1 or (m and m[0][1] != 1): return True
        for (a, e) in m:
            A = ATOMS[a]
            if A.k == 'idiv' and not E.is_const(A.a[1]): return True
            if A.k not in ('var', 'idiv'): pass
    return False

_leaf = {}
def leaves(n):
    """variables and reads a term depends on"""
    r = _leaf.get(id(n))
    if r is not None: return r
    if isinstance(n, Atom) and n.k in ('var', 'sel'): r = frozenset([n.id])
    else:
        r = frozenset()
        for c in E.children(n): r |= leaves(c)
    _leaf[id(n)] = r
    return r

class VEval(E.Eval):
    """K samples at once (numpy); used to propose sub-term equalities and to skip hopeless goals, never to accept a goal"""
    def __init__(self, ints, K=48):
        self.K = K; self.cp = {}; self.ca = {}; self.cb = {}
        self.rng = np.random.RandomState(12345)
        self.mask = np.ones(K, bool)
        self.sample_ints(ints)
        self.smooth = (np.arange(K) % 3).astype(float)     # two thirds of the samples use smooth fields
    def sample_ints(self, ints):
        va = sorted((x for x in E.walk(ints) if isinstance(x, Atom) and x.k == 'var' and x.isint), key=lambda a: a.id)
        if not va: return
        rows = []
        rnd = random.Random(7)
        plain = [f for f in ints]
        for t in range(3000):
            if len(rows) >= self.K: break
            hi = (4, 8, 20, 40)[t % 4]
            env = {}
            def ev(A):
                if A.a not in env: env[A.a] = rnd.randint(0, hi)
                return env[A.a]
            try:
                e = E.Eval(ev, lambda A, v: 1, lambda A, v: 1)
                ok = all(e.b(f) for f in plain)
            except Exception: ok = False
            if ok: rows.append([env.get(A.a, 1) for A in va])
        if len(rows) < 6:
            z = Z(); sv = z3.Solver(); sv.set('timeout', 2000)
            for f in ints: sv.add(z.b(f))
            for x in z.side: sv.add(x)
            zs = [z.zatom(A) for A in va]
            for t in range(6):
                sv.push()
                if rows and t: sv.add(z3.Or([v != w for v, w in zip(zs, rows[-1])]))
                if sv.check() == z3.sat:
                    mo = sv.model(); rows.append([mo.eval(v, True).as_long() for v in zs])
                sv.pop()
        if not rows: return
        for n, A in enumerate(va):
            self.ca[A.id] = np.array([rows[k % len(rows)][n] for k in range(self.K)], float)
    def restrict(self, facts):
        with np.errstate(all='ignore'):
            for f in facts:
                try: m = np.asarray(self.b(f)) & self.mask
                except Exception: continue
                self.mask = np.broadcast_to(m, (self.K,)).copy()
    def p(self, p):
        r = self.cp.get(p)
        if r is None:
            with np.errstate(all='ignore'):
                r = np.zeros(self.K)
                for m, c in p.t.items():
                    x = float(c)
                    for (a, e) in m:
                        v = self.atom(ATOMS[a])
                        x = x * (v if e == 1 else v ** float(e))
                    r = r + x
            self.cp[p] = r
        return r
    def mag(self, p):
        with np.errstate(all='ignore'):
            s = np.zeros(self.K)
            for m, c in p.t.items():
                x = abs(float(c))
                for (a, e) in m: x = x * np.abs(self.atom(ATOMS[a])) ** float(e)
                s = s + x
        return s
    def mix(self, tag, xs):
        s = tag * 0.7531 + np.arange(self.K) * 2.3
        for i, x in enumerate(xs): s = s + np.sin(i * 1.7 + tag + 0.3) * x * 0.83 + 0.11 * np.sin(x + i)      # mild: rounding errors must not be amplified through nested applications
        return 1.6 + 1.3 * np.sin(s)
    def atom(self, A):
        r = self.ca.get(A.id)
        if r is not None: return r
        k = A.k
        with np.errstate(all='ignore'):
            if k == 'var':
                rg = np.random.RandomState((A.id * 7919 + 13) % (2 ** 31))
                r = rg.randint(1, 12, self.K).astype(float) if A.isint else rg.choice([0.3, 1.0, 3.0], self.K) * rg.uniform(0.5, 2.0, self.K)
            elif k == 'ite': r = np.where(self.b(A.a[0]), self.p(A.a[1]), self.p(A.a[2]))
            elif k == 'pos': r = np.maximum(self.p(A.a), 0)
            elif k == 'sqrt': r = np.sqrt(np.abs(self.p(A.a)))
            elif k == 'par': r = self.p(A.a)
            elif k == 'idiv': r = np.floor(self.p(A.a[0]) / self.p(A.a[1]))
            elif k == 'app':
                r = self.mix(len(A.a[0]) + sum(map(ord, str(A.a[0]))) % 97, [self.p(x) if isinstance(x, Poly) else np.asarray(self.b(x), float) for x in A.a[1:] if isinstance(x, (Poly, B))])
            elif k == 'sel':
                xs = [self.p(x) for x in A.a[1]]
                r = self.mix(A.a[0].vid, xs)
                w = 10.0 ** ((self.mix(A.a[0].vid + 3, xs[-1:]) - 1.6) / 1.3)
                sm = 1.0
                for d, x in enumerate(xs[:-1]): sm = sm + 0.03 * (self.mix(A.a[0].vid + 11 * d + 5, xs[-1:]) - 1.6) * x
                r = np.where(self.smooth > 0, w * (sm + np.where(self.smooth > 1, 0.0005, 0.01) * (r - 1.6)), r)
            else: raise Exception(k)
        self.ca[A.id] = r
        return r
    def b(self, b):
        r = self.cb.get(b)
        if r is None:
            k = b.k
            if k == 'true': r = np.ones(self.K, bool)
            elif k == 'false': r = np.zeros(self.K, bool)
            elif k == 'ge': r = self.p(b.a) >= 0
            elif k == 'eq': r = np.abs(self.p(b.a)) < 1e-12
            elif k == 'not': r = ~self.b(b.a)
            elif k == 'and': r = np.logical_and.reduce([self.b(x) for x in b.a])
            elif k == 'or': r = np.logical_or.reduce([self.b(x) for x in b.a])
            elif k == 'bvar': r = np.random.RandomState((b.id * 31 + 7) % (2 ** 31)).rand(self.K) > .5
            self.cb[b] = r
        return r

# ---- constants (no variables): rigorous interval value
_CIV = {}
def civ_atom(A):
    import mpmath; iv = mpmath.iv
    if A.id in _CIV: return _CIV[A.id]
    r = None
    if A.k == 'par': r = civ(A.a)
    elif A.k == 'sqrt':
        x = civ(A.a); r = iv.sqrt(x) if x is not None and x.a >= 0 else None
    elif A.k == 'app' and A.a[0] in ('cos', 'sin', 'exp') and len(A.a) == 2:
        x = civ(A.a[1]); r = getattr(iv, A.a[0])(x) if x is not None else None
    _CIV[A.id] = r
    return r
def civ(p):
    import mpmath; iv = mpmath.iv; iv.prec = 240
    s = iv.mpf(0)
    for m, c in p.t.items():
        t = iv.mpf(c.numerator) / iv.mpf(c.denominator) if not isinstance(c, int) else iv.mpf(c)
        for a, e in m:
            A = ATOMS[a]
            if A.k not in ('par', 'sqrt', 'app'): return None
            x = civ_atom(A)
            if x is None or (e < 0 and x.a <= 0 <= x.b): return None
            t = t * x ** e
        s = s + t
    return s

class Stats:
    def __init__(self): self.t = {}; self.n = {}
    def add(self, k, dt): self.t[k] = self.t.get(k, 0) + dt; self.n[k] = self.n.get(k, 0) + 1

STATS = Stats()

class Ctx:
    kept = 0
    def __init__(self, facts, parent=None):
        self.facts = []; self.fset = set()
        self.memo = {}; self.rmemo = {}; self.smemo = {}; self.amemo = {}
        self.parent = parent
        self.ints = []
        self.solver = None; self.z = None; self.nl = False
        for f in facts: self.addfact(f)
    def addfact(self, f):
        st = [f]
        while st:
            f = st.pop()
            if f is TRUE: continue
            if f.k == 'and': st.extend(f.a); continue
            if f in self.fset: continue
            self.fset.add(f); self.facts.append(f)
            if lit_int(f): self.ints.append(f)
    def veval(self):
        v = getattr(self, '_ve', None)
        if v is None:
            v = self._ve = VEval(self.ints); v.restrict(self.facts)
        return v
    def child(self, *more):
        ch = self.__dict__.setdefault('ch', {})
        k = tuple(m.id for m in more)
        c = ch.get(k)
        if c is None:
            c = Ctx(list(self.facts) + list(more))
            Ctx.kept += 1
            if Ctx.kept < 4000: ch[k] = c
        return c
    def infeasible(self):
        r = self.__dict__.get('inf')
        if r is None: r = self.inf = self._infeasible()
        return r
    def _infeasible(self):
        for f in self.fset:
            if f is FALSE or E.bnot(f) in self.fset: return True
        if not self.ints: return False
        self._init()
        t = time.time()
        r = self.solver.check()
        STATS.add('z3-int', time.time() - t)
        return r == z3.unsat
    def _init(self):
        if self.solver is not None: return
        self.z = Z()
        self.nl = any(self._nl(f) for f in self.ints)
        self.solver = z3.Solver() if not self.nl else z3.Solver()
        self.solver.set('timeout', 3000)
        for f in self.ints: self.solver.add(self.z.b(f))
        self.ns = 0
        self._flush()
    def _flush(self):
        while self.ns < len(self.z.side):
            self.solver.add(self.z.side[self.ns]); self.ns += 1
    def _nl(self, b):
        for n in E.walk([b]):
            if isinstance(n, Poly) and nonlinear(n): return True
        return False
    # ---- sign analysis of real terms from the facts: 2 >0, 1 >=0, 0 unknown, -1 <=0, -2 <0, 9 =0
    def sign(self, p, deep=0):
        r = self.smemo.get(p)
        if r is None:
            self.smemo[p] = 0
            r = self.smemo[p] = self._sign(p, deep)
        return r
    def factsign(self, p):
        if E.is_const(p): return 0
        g, h = E.ge(p), E.ge(E.neg(p))
        if h is FALSE or E.bnot(h) in self.fset: return 2
        if g is FALSE or E.bnot(g) in self.fset: return -2
        a, b = g is TRUE or g in self.fset, h is TRUE or h in self.fset
        if a and b: return 9
        if a: return 2 if E.bnot(E.eq(p)) in self.fset else 1
        if b: return -2 if E.bnot(E.eq(p)) in self.fset else -1
        return 0
    def _sign(self, p, deep):
        if E.is_const(p):
            c = E.cval(p); return 2 if c > 0 else -2 if c < 0 else 9
        r = self.factsign(p)
        if r: return r
        x = civ(p)
        if x is not None: return 2 if x.a > 0 else -2 if x.b < 0 else 0
        ss = []
        for m, c in p.t.items():
            s = 2 if c > 0 else -2
            for a, e in m:
                x = self.asign(ATOMS[a])
                if x == 9: s = 9; break
                if e % 2 == 0: x = 2 if (e < 0 or x in (2, -2)) else 1
                elif e < 0 and x in (1, -1): x *= 2          # denominators are non-zero
                if x == 0: s = 0; break
                s = (2 if abs(s) == 2 and abs(x) == 2 else 1) * (1 if s * x > 0 else -1)
            if s != 9: ss.append(s)
        if not ss: return 9
        if all(s > 0 for s in ss): return 2 if 2 in ss else 1
        if all(s < 0 for s in ss): return -2 if -2 in ss else -1
        if len(p.t) > 8 or deep > 3: return 0
        # positive parts: p = r + c*pos(x)
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].k != 'pos': continue
            x = ATOMS[m[0][0]].a
            r0 = E.sub(p, E.mk({m: c})); r1 = E.add(r0, E.scale(x, c))
            s0, s1 = self.sign(r0, deep + 1), self.sign(r1, deep + 1)
            up = {2: 2, 1: 1, 9: 1}.get
            if c > 0:                                        # p = max(r0, r1)
                b = max(up(s0, 0), up(s1, 0))
                if b: return b
                if r0 is E.neg(r1): return 1                 # |r1|
                if s0 < 0 and s1 < 0: return max(s0, s1)
            else:                                            # p = min(r0, r1)
                if up(s0, 0) and up(s1, 0): return min(up(s0), up(s1))
                if s0 < 0 or s1 < 0: return min(s0, s1)
                if r0 is E.neg(r1): return -1
        # common positive factor
        return 0
    def asign(self, A):
        r = self.amemo.get(A.id)
        if r is not None: return r
        self.amemo[A.id] = 0
        k = A.k
        r = self.factsign(E.apoly(A)) if k != 'par' else 0
        if not r:
            if k == 'sqrt': r = 2 if self.sign(A.a) == 2 else 1
            elif k == 'pos': r = {2: 2, 9: 9, -1: 9, -2: 9}.get(self.sign(A.a), 1)
            elif k == 'par': r = self.factsign(E.apoly(A)) or self.sign(A.a)
            elif k == 'ite':
                a, b = self.sign(A.a[1]), self.sign(A.a[2])
                if a == 9: a = 1 if b > 0 and b != 9 else -1 if b < 0 else 9
                if b == 9: b = 1 if a > 0 and a != 9 else -1 if a < 0 else 9
                r = a if a == b else (min(a, b) if a > 0 and b > 0 and 9 not in (a, b) else max(a, b) if a < 0 and b < 0 else 0)
        self.amemo[A.id] = r
        return r
    def decide(self, b):
        """True / False / None"""
        if b is TRUE: return True
        if b is FALSE: return False
        if b in self.fset: return True
        if E.bnot(b) in self.fset: return False
        k = b.k
        if k == 'not':
            r = self.decide(b.a); return None if r is None else (not r)
        if k == 'and':
            all_ = True
            for x in b.a:
                r = self.decide(x)
                if r is False: return False
                if r is None: all_ = False
            if all_: return True
            if not lit_int(b): return None
        if k == 'or':
            all_ = True
            for x in b.a:
                r = self.decide(x)
                if r is True: return True
                if r is None: all_ = False
            if all_: return False
            if not lit_int(b): return None
        if k in ('ge', 'eq') and not lit_int(b):
            s = self.sign(b.a)
            if k == 'ge': return True if s in (1, 2, 9) else False if s == -2 else None
            return True if s == 9 else False if s in (2, -2) else None
        if k == 'bvar' or not lit_int(b): return None
        r = self.memo.get(b, 0)
        if r == 0:
            r = self._decide(b); self.memo[b] = r
        return r
    def _decide(self, b):
        self._init()
        t0 = time.time()
        x = self.z.b(b); self._flush()
        try:
            if self.nl or self._nl(b): return self._decide_nl(b)
            r = self.solver.check(z3.Not(x))
            if r == z3.unsat: return True
            r = self.solver.check(x)
            if r == z3.unsat: return False
            return None
        finally: STATS.add('z3-int', time.time() - t0)
    def _decide_nl(self, b):
        """nonlinear integer question: linear part first, then products of hypothesis pairs, then real relaxation"""
        if b.k == 'ge':
            if self.nonneg(b.a): return True
            if self.nonneg(E.sub(E.neg(b.a), ONE)): return False
        if b.k == 'eq':
            for q in (b.a, E.neg(b.a)):
                if self.nonneg(E.sub(q, ONE)): return False
        for sign, res in ((False, True), (True, False)):
            q = b if sign else E.bnot(b)
            if self._unsat_nl(q): return res
        return None
    def nonneg(self, p):
        """sufficient test for p >= 0: after replacing every upper bound u by (bounded term + slack) and every variable by
        (lower bound + slack) all coefficients are non-negative"""
        if len(p.t) > 120: return False
        L = getattr(self, '_lin', None)
        if L is None:
            L = self._lin = []; lows = self._lows = {}
            for f in self.ints:
                for g in ([f.a] if f.k == 'ge' else [f.a, E.neg(f.a)] if f.k == 'eq' else []):
                    if not any(nonlinear(x) or len(x.t) > 5 for x in (g,)):
                        L.append(g)
                        vs = [m for m in g.t if m]
                        if len(vs) == 1 and g.t[vs[0]] == 1:
                            a = vs[0][0][0]; lo = -g.t.get((), 0); lows[a] = max(lows.get(a, lo), lo)
        lows = self._lows
        def shifted(p):
            am = {}
            for a in E.atoms_of(p):
                if a not in lows: continue
                if lows[a]: am[a] = E.add(E.apoly(ATOMS[a]), E.const(lows[a]))
            q = E.Subst(am).p(p) if am else p
            for m, c in q.t.items():
                if c < 0 or any(a not in lows and not (ATOMS[a].k == 'var' and str(ATOMS[a].a).startswith('_slack')) for a, e in m): return False
            return True
        def top(p):
            us = [u for u in sorted(E.atoms_of(p)) if any(g.t.get(((u, 1),)) == 1 and len([m for m in g.t if m]) > 1 for g in L)]
            return elim(p, us, {})
        def elim(p, us, _):
            if shifted(p): return True
            if not us: return False
            u = us[0]
            if elim(p, us[1:], _): return True
            for n, g in enumerate(L):
                if g.t.get(((u, 1),)) != 1: continue
                vs = [m[0][0] for m in g.t if m and m[0][0] != u]
                if not any(g.t[((a, 1),)] < 0 for a in vs): continue
                sl = E.var('_slack%d_%d' % (u, n), True)
                q = E.Subst({u: E.add(E.sub(E.apoly(ATOMS[u]), g), sl)}).p(p)
                if len(q.t) <= 200 and elim(q, us[1:], _): return True
            return False
        key = ('nn', p)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = top(p)
        return r
    def _unsat_nl(self, q):
        # linearise: every monomial is a variable; add products of pairs of inequality facts
        fs = [f for f in self.ints] + ([q] if q.k not in ('and',) else list(q.a))
        # idiv axioms as facts
        ds = {}
        for n in E.walk(fs):
            if isinstance(n, Atom) and n.k == 'idiv': ds[n.id] = n
        extra = []
        for A in ds.values():
            p, d = A.a; r = E.apoly(A)
            extra += [E.ge(E.sub(p, E.mul(d, r))), E.ge(E.sub(E.sub(E.add(E.mul(d, r), d), p), ONE)), E.ge(r)]
        ge = [f.a for f in fs + extra if f.k == 'ge']
        eqs = [f.a for f in fs if f.k == 'eq']
        ge = list(dict.fromkeys(ge))
        base = [p for p in ge]
        nlm = set(m for p in base + eqs for m in p.t if len(m) > 1 or (m and m[0][1] > 1))
        lvl = [p for p in base]
        prods = {}
        for rnd in range(2):
            new = []
            for i, a in enumerate(lvl):
                for b in base:
                    if len(a.t) * len(b.t) > 12: continue
                    r = E.mul(a, b)
                    if E.is_const(r) or r in prods: continue
                    nm = [m for m in r.t if len(m) > 1 or (m and m[0][1] > 1)]
                    if nm and not all(m in nlm for m in nm) and (rnd == 1 or len(nm) > 2): continue
                    prods[r] = 1; new.append(r)
            lvl = [p for p in new if len(p.t) <= 3][:60]
            if len(prods) > 3000: break
        s = z3.Solver(); s.set('timeout', 3000)
        mv = {}
        def tr(p):
            t = []
            for m, c in p.t.items():
                if not m: t.append(z3.IntVal(c)); continue
                v = mv.get(m)
                if v is None: v = mv[m] = z3.Int('m%d' % len(mv))
                t.append(c * v)
            return z3.Sum(t) if t else z3.IntVal(0)
        def trb(b):
            if b.k == 'ge': return tr(b.a) >= 0
            if b.k == 'eq': return tr(b.a) == 0
            if b.k == 'not': return z3.Not(trb(b.a))
            if b.k == 'and': return z3.And([trb(x) for x in b.a])
            if b.k == 'or': return z3.Or([trb(x) for x in b.a])
            return z3.BoolVal(b is TRUE)
        for f in fs + extra: s.add(trb(f))
        for p in prods: s.add(tr(p) >= 0)
        for e in eqs:
            for a in base[:12]:
                if len(a.t) * len(e.t) <= 16: s.add(tr(E.mul(a, e)) == 0)
        if s.check() == z3.unsat: return True
        return False

    # ---------------------------------------------------------------- resolution of view reads
    def read(self, v, idx):
        k = (v.vid, tuple(i.id for i in idx))
        r = self.rmemo.get(k)
        if r is None:
            r = self._read(v, idx); self.rmemo[k] = r
        return r
    def eqlist(self, a, b):
        """conjunction of index equalities, decided under facts"""
        out = []
        for x, y in zip(a, b):
            if x is y: continue
            c = E.eq(E.sub(x, y))
            if c is FALSE: return FALSE
            out.append(c)
        return self.simp(E.band(*out))
    def simp(self, c):
        if c is TRUE or c is FALSE: return c
        r = self.decide(c)
        if r is not None: return E.bconst(r)
        if c.k == 'and':
            return E.band(*[x for x in c.a if self.decide(x) is not True])
        if c.k == 'or':
            return E.bor(*[x for x in c.a if self.decide(x) is not False])
        return c
    def _read(self, v, idx):
        if isinstance(v, Base): return v.read(idx)
        if isinstance(v, Fill): return self.res(v.val)
        if isinstance(v, StoreV):
            chain = []
            while isinstance(v, StoreV):
                c = self.eqlist(v.idx, idx)
                if c is not FALSE: chain.append((c, v.val))
                if c is TRUE: break
                v = v.prev
            if chain and chain[-1][0] is TRUE: r = self.res(chain[-1][1]); chain.pop()
            else: r = self.read(v, idx)
            for c, val in reversed(chain): r = E.ite(c, self.res(val), r)
            return r
        if isinstance(v, IteV):
            c = self.simp(self.resb(v.c))
            if c is TRUE: return self.read(v.a, idx)
            if c is FALSE: return self.read(v.b, idx)
            return E.ite(c, self.read(v.a, idx), self.read(v.b, idx))
        if isinstance(v, LaunchV): return self._read_launch(v, idx)
        raise Unsupported('version')
    def _read_launch(self, v, idx):
        modes = set(w[3] for w in v.writes)
        chain = []; done = False
        seq = v.writes
        if modes == {'add'}:
            r = self.read(v.prev, idx)
            for w in seq:
                c, val = self.inst(v, w, idx)
                if c is FALSE: continue
                r = E.add(r, E.ite(c, val(), ZERO))
            return r
        # sequence of sets (and own-iteration adds after sets)
        items = []
        for w in seq:
            c, val = self.inst(v, w, idx)
            if c is FALSE: continue
            items.append((c, val, w[3]))
        # find last TRUE set
        start = 0; r = None
        for n in range(len(items) - 1, -1, -1):
            if items[n][0] is TRUE and items[n][2] == 'set':
                r = items[n][1](); start = n + 1; break
        if r is None: r = self.read(v.prev, idx)
        for c, val, md in items[start:]:
            x = val()
            if md == 'set': r = E.ite(c, x, r)
            else: r = E.add(r, E.ite(c, x, ZERO))
        return r
    def inst(self, v, w, idx):
        """condition and value of write w of launch v at location idx"""
        g, widx, val, mode, where = w
        # quick constant mismatch
        for a, b in zip(widx, idx):
            d = E.sub(a, b)
            if E.is_const(d) and E.cval(d) != 0: return FALSE, None
        am, conds = solve_index(v.its, widx, idx, g)
        sb = Resolver(self, am)
        cs = [sb.b(c) for c in v.dom] + [sb.b(c) for c in conds]
        c = self.simp(E.band(*cs))
        if c is FALSE: return FALSE, None
        c = self.simp(E.band(c, sb.b(g)))
        if c is FALSE: return FALSE, None
        return c, (lambda: sb.p(val))
    def res(self, p): return Resolver(self, None).p(p)
    def resb(self, b): return Resolver(self, None).b(b)

class Resolver(E.Subst):
    def __init__(self, ctx, am):
        super().__init__(am, None, None); self.ctx = ctx
    def atom(self, A):
        r = self.cm.get(A.id)
        if r is not None: return r
        if A.k == 'sel' and not self.am.get(A.id):
            v, idx = A.a
            n = tuple(self.p(x) for x in idx)
            r = self.ctx.read(v, n)
            self.cm[A.id] = r
            return r
        return super().atom(A)
    def _atom(self, A):
        if A.k == 'idiv':
            p = self.p(A.a[0]); q = self.p(A.a[1])
            return simp_idiv(self.ctx, p, q)
        return super()._atom(A)
    def b(self, b):
        r = self.dm.get(b)
        if r is not None: return r
        r = super().b(b)
        if r.k in ('ge', 'eq', 'not') and r is not TRUE and r is not FALSE:
            d = self.ctx.decide(r)
            if d is not None: r = E.bconst(d)
        self.dm[b] = r
        return r

def simp_idiv(ctx, p, q):
    """idiv(q*a + r, q) = a when 0 <= r < q is provable"""
    r0 = E.idiv(p, q)
    if E.is_const(r0): return r0
    a = {}; rest = {}
    if len(q.t) == 1:
        (mq, cq), = q.t.items()
        dq = dict(mq)
        for m, c in p.t.items():
            dm = dict(m)
            if type(c) is int and c % cq == 0 and all(dm.get(x, 0) >= e for x, e in dq.items()):
                for x, e in dq.items():
                    dm[x] -= e
                    if dm[x] == 0: del dm[x]
                a[tuple(sorted(dm.items()))] = c // cq
            else: rest[m] = c
        if a:
            r = E.mk(rest)
            if ctx.decide(E.ge(r)) is True and ctx.decide(E.ge(E.sub(E.sub(q, r), ONE))) is True:
                # non-negative dividend required for C semantics
                A = E.mk(a)
                if ctx.decide(E.ge(A)) is True: return A
    elif E.isint(q):
        # divisor with several terms: polynomial division by its leading term (the product of most extents)
        mq, cq = max(q.t.items(), key=lambda x: (sum(e for a, e in x[0]), x[0]))
        if cq == 1:
            A = ZERO; r = p; dq = dict(mq)
            for _ in range(6):
                t = {}
                for m, c in r.t.items():
                    dm = dict(m)
                    if type(c) is int and all(dm.get(x, 0) >= e for x, e in dq.items()):
                        for x, e in dq.items():
                            dm[x] -= e
                            if dm[x] == 0: del dm[x]
                        t[tuple(sorted(dm.items()))] = c
                if not t: break
                t = E.mk(t); A = E.add(A, t); r = E.sub(r, E.mul(t, q))
            if A is not ZERO and ctx.decide(E.ge(r)) is True and ctx.decide(E.ge(E.sub(E.sub(q, r), ONE))) is True and ctx.decide(E.ge(A)) is True: return A
    if ctx.decide(E.ge(p)) is True and ctx.decide(E.ge(E.sub(E.sub(q, p), ONE))) is True: return ZERO
    return r0

def contains(p, ids, memo):
    for n in E.walk([p]):
        if isinstance(n, Atom) and n.id in ids: return True
    return False

def lin_coeff(p, a, ids):
    """p = c*a + rest, with c integer constant and rest free of a; else None"""
    c = None; rest = {}
    for m, k in p.t.items():
        if any(x == a for x, e in m):
            if m == ((a, 1),): c = k
            else: return None
        else: rest[m] = k
    if c is None: return None
    r = E.mk(rest)
    for n in E.walk([r]):
        if isinstance(n, Atom) and n.id == a: return None
    return c, r

def solve_index(its, widx, idx, guard):
    """Find the iteration that writes location idx.  Returns ({atom: poly}, side conditions)."""
    itids = [next(iter(E.atoms_of(x))) for x in its]
    eqs = [E.sub(a, b) for a, b in zip(widx, idx)]
    # equalities in the guard also pin iterations
    gl = list(guard.a) if guard.k == 'and' else [guard]
    am = {}; conds = []
    unknown = set(itids)
    iset = set(itids)
    # idiv atoms depending on iteration variables
    def idivs():
        out = []
        for p in eqs:
            for n in E.walk([p]):
                if isinstance(n, Atom) and n.k == 'idiv' and n.id not in am and contains(n.a[0], iset, None): out.append(n)
        return out
    todo = list(eqs)
    solved = {}
    origdiv = {}
    progress = True
    cur = [p for p in eqs if p is not ZERO]
    geq = [x.a for x in gl if x.k == 'eq' and lit_int(x)]
    while True:
        progress = False
        for pool in (cur, geq):
            for p in pool:
                cand = []
                for a in E.atoms_of(p):
                    A = ATOMS[a]
                    if A.k == 'idiv' and contains(E.apoly(A), iset, None): cand.append((0, a))
                    elif a in iset: cand.append((1, a))
                for pr, a in sorted(cand):
                    lc = lin_coeff(p, a, iset)
                    if lc is None or abs(lc[0]) != 1: continue
                    c, rest = lc
                    # rest must not contain other unknown direct idiv solved later: fine
                    val = E.scale(rest, -c)
                    if contains(val, iset, None):
                        # still unknown inside; only accept when no better choice exists
                        continue
                    A = ATOMS[a]
                    if A.k == 'idiv': 
                        conds.append(('div', A, val))
                    sub = E.Subst({a: val})
                    cur = [q for q in (sub.p(q) for q in cur) if q is not ZERO]
                    geq = [q for q in (sub.p(q) for q in geq) if q is not ZERO]
                    # rewrite previously recorded values (they contain no iteration variables)
                    conds = [(k, (A2 if k == 'div' and A2 is A else A2), v) for k, A2, v in conds]
                    am[a] = val
                    progress = True; break
                if progress: break
            if progress: break
        if not progress: break
    left = [i for i in itids if i not in am]
    side = []
    if left: raise Unsupported('write index does not determine the iteration: %s' % (widx,))
    s = E.Subst(dict(am))
    for k, A, v in conds:
        # A = idiv(p,q): with p,q instantiated
        s2 = E.Subst({a: w for a, w in am.items() if a != A.id})
        p = s2.p(A.a[0]); q = s2.p(A.a[1])
        r = E.sub(p, E.mul(q, v))
        side.append(E.ge(r)); side.append(E.ge(E.sub(E.sub(q, r), ONE))); side.append(E.ge(v))
    for q in cur: side.append(E.eq(q))
    return am, side

# ==================================================================== proving
class Budget(Exception): pass

LZ = {}
class Prover:
    ckey = None; cctx = None
    def __init__(self, timeout=60, z3_ms=4000):
        self.timeout = timeout; self.z3_ms = z3_ms
        self.backends = {}
        self.depth = 0; self.insweep = False
        self.why = None
    def used(self, k): self.backends[k] = self.backends.get(k, 0) + 1

    def prove(self, goal, facts):
        """True if proved; False/None otherwise (self.why explains)"""
        self.end = time.time() + self.timeout
        self.why = None; self.posdone = False
        try:
            key = tuple(f.id for f in facts)
            if Prover.ckey == key: ctx = Prover.cctx           # same assumptions as the obligation before
            else:
                Prover.ckey = None; Ctx.kept = 0
                ctx = Ctx(facts)
                if any(not lit_int(f) for f in ctx.facts):
                    ic = Ctx(ctx.ints)
                    ctx = Ctx([f if lit_int(f) else ic.resb(f) for f in ctx.facts])
                Prover.cctx = ctx; Prover.ckey = key
            return self.goal(goal, ctx, 0)
        except Budget:
            self.why = 'time limit'; return None
        except E.TooBig:
            self.why = 'expression too large'; return None
        except RecursionError:
            self.why = 'recursion'; return None

    def tick(self):
        if time.time() > self.end: raise Budget()

    def goal(self, g, ctx, depth):
        self.tick()
        if g is TRUE: self.used('simplifier'); return True
        # facts resolved too
        g2 = ctx.resb(g)
        if g2 is TRUE: self.used('simplifier'); return True
        if g2.k == 'and':
            return all([self.goal(x, ctx, depth) for x in g2.a])
        if g2.k == 'eq':
            return self.zero(g2.a, ctx, depth)
        if g2.k == 'or':
            # case analysis: prove one disjunct under the negation of the others
            xs = sorted(g2.a, key=lambda x: (x.k != 'eq', x.id))
            d = ctx.decide(g2)
            if d is True: self.used('z3-int'); return True
            main = None
            for x in xs:
                if x.k == 'eq' and not lit_int(x): main = x
            if main is not None:
                c2 = ctx.child(*[E.bnot(x) for x in xs if x is not main])
                if c2.infeasible(): self.used('z3-int'); return True
                return self.goal(main, c2, depth)
        return self.ineq(g2, ctx, depth)

    # ------------------------------------------------------------ equalities
    def zero(self, p, ctx, depth):
        self.tick()
        if p is ZERO: self.used('canonical-form'); return True
        n = self.norm(p)
        if n is ZERO: self.used('polynomial'); return True
        # positive parts decided by the facts
        am = {}
        for x in E.walk([n]):
            if isinstance(x, Atom) and x.k == 'pos':
                sg = ctx.sign(x.a)
                if sg in (1, 2): am[x.id] = x.a
                elif sg in (-1, -2, 9): am[x.id] = ZERO
        if am:
            q = E.Subst(am).p(n)
            if q is not n: return self.zero(q, ctx, depth)
        # equality facts
        for f in ctx.facts:
            if f.k == 'eq':
                s = self.fact_subst(f)
                if s is not None:
                    m = E.Subst(s)
                    q = m.p(n)
                    if q is not n:
                        c2 = Ctx([m.b(x) for x in ctx.facts if x is not f])
                        return self.zero(q, c2, depth)
        if depth == 0 and not self.insweep:         # is it true whatever the deeper sub-terms are?
            save = (self.why, self.end); done = False
            self.insweep = True
            try:
                for lv in (1, 2, 3):
                    q, c2 = self.abstract(n, ctx, lv)
                    if q is n: break
                    self.end = min(save[1], time.time() + 4)
                    try:
                        if self.sampled_nonzero(q, c2) is None and self.zero(q, c2, 1): done = True; break
                    except (Budget, E.TooBig): pass
            finally: self.insweep = False; self.why, self.end = save
            self.tick()
            if done: self.used('generalised'); return True
        if depth <= 2 and not self.insweep:
            n, c2 = self.sweep(n, ctx)
            if n is not ZERO and c2 is not None: return self.zero(n, c2, depth + 1)
            if n is ZERO: self.used('congruence'); return True
        if not self.insweep:
            cex = self.sampled_nonzero(n, ctx)
            if cex is not None:
                self.why = 'not an identity (differs at a sample): %s' % E.show(n, 4)[:400]
                return False
        lit = self.pick(n, ctx)
        if lit is None:
            # reads of one array at indices that the facts make equal
            sels = [x for x in E.walk([n]) if isinstance(x, Atom) and x.k == 'sel']
            if 1 < len(sels) <= 40:
                am = {}
                for q, x in enumerate(sels):
                    for y in sels[:q]:
                        if y.id not in am and x.a[0] is y.a[0] and len(x.a[1]) == len(y.a[1]) and ctx.eqlist(x.a[1], y.a[1]) is TRUE: am[x.id] = E.apoly(y); break
                if am:
                    r = E.Subst(am).p(n)
                    if r is not n:
                        self.used('congruence'); return self.zero(r, ctx, depth)
            if depth and ctx.infeasible(): self.used('z3-int'); return True
            if self.smt(E.eq(n), ctx): return True
            self.why = 'not an identity: %s' % E.show(n, 4)[:400]
            return False
        for val in (True, False):
            f = lit if val else E.bnot(lit)
            c2 = ctx.child(f)
            if lit_int(f) and c2.infeasible(): self.used('z3-int'); continue
            q = self.assign(n, lit, val, c2)
            if not self.zero(q, c2, depth + 1):
                return False
        self.used('case-split')
        return True

    def norm(self, p, limit=40000):
        """canonical form; keeps p when clearing denominators would be too large"""
        t = time.time()
        try: return E.norm0l(p, limit)
        except E.TooBig: return p
        finally: STATS.add('polynomial', time.time() - t)

    # ---- congruence by sweeping: sub-terms that agree on samples are proved equal, innermost first, and merged
    def sampled_nonzero(self, n, ctx):
        """a sample satisfying the facts where n is clearly not zero"""
        V = ctx.veval()
        try: v, sc = V.p(n), V.mag(n)
        except Exception: return None
        with np.errstate(all='ignore'):
            bad = V.mask & np.isfinite(v) & (np.abs(v) > 1e-5 * sc) & (np.abs(v) > 1e-9)
        return True if bad.any() else None
    def sweep(self, n, ctx):
        V = ctx.veval()
        deep = [f for f in ctx.facts if not lit_int(f) and any(isinstance(x, Atom) and x.k != 'var' for x in E.walk([f]))]
        atoms = sorted((x for x in E.walk([n] + deep) if isinstance(x, Atom) and x.k != 'var'), key=lambda a: a.id)
        if len(atoms) < 2: return n, None
        s = E.Subst({})
        s.am = {}
        buckets = {}
        self.insweep = True
        mask = V.mask if V.mask.sum() >= 8 else np.ones(V.K, bool)
        try:
            for A in atoms:
                self.tick()
                if A.isint: continue
                try: r = s.atom(A)          # rebuilt under the merges so far
                except E.TooBig: continue
                try: g = (V.p(r) + np.zeros(V.K))[mask]
                except Exception: continue
                if not np.isfinite(g).all(): continue
                k0 = round(float(math.log(abs(g).sum() + 1e-30)) * 1e6)
                hit = None; cands = []
                for kk in (k0 - 1, k0, k0 + 1):
                    for y, gy in buckets.get(kk, ()):
                        if y is r: hit = r; break
                        if (np.abs(g - gy) <= 1e-7 * (np.abs(g) + np.abs(gy)) + 1e-12).all() and leaves(y) == leaves(r): cands.append(y)
                    if hit is not None: break
                if hit is None:
                    kd = lambda p: sorted(ATOMS[a].k for m in p.t for a, e in m)
                    kr = kd(r)
                    cands.sort(key=lambda y: kd(y) != kr)
                    for y in cands[:6]:
                        if self.local_zero(E.sub(r, y), ctx, r, y): hit = y; break
                if hit is None: buckets.setdefault(k0, []).append((r, g))
                elif hit is not r: s.cm[A.id] = hit
            s.pm = {}
            q = s.p(n)
            new = [(f, s.b(f)) for f in deep]
        finally: self.insweep = False
        c2 = None
        if any(f is not g for f, g in new):         # facts follow the merges
            m = {f.id: g for f, g in new}
            c2 = Ctx([m.get(f.id, f) for f in ctx.facts])
        return self.norm(q), c2
    def local_zero(self, d, ctx, a=None, b=None):
        fk = getattr(ctx, '_fk', None)
        if fk is None: fk = ctx._fk = frozenset(f.id for f in ctx.facts)
        key = (d.id, fk)
        r = LZ.get(key)
        if r is not None: return r
        save = (self.why, self.end)
        r = False
        try:
            if self.norm(d, 4000) is ZERO: r = True
            if not r: r = self.app_args(a, b, ctx)
            if not r:
                for lv in (1, 2, 3, 4):
                    q, c2 = self.abstract(d, ctx, lv)
                    self.end = min(save[1], time.time() + 2.5)
                    try:
                        if self.sampled_nonzero(q, c2) is None and self.zero(q, c2, 1): r = True; break
                    except (Budget, E.TooBig): pass
                    if q is d: break
        finally: self.why, self.end = save
        self.tick()
        LZ[key] = r
        return r
    def app_args(self, a, b, ctx):
        def single(p):
            if p is None or len(p.t) != 1: return None
            (m, c), = p.t.items()
            return ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 and c == 1 else None
        x, y = single(a), single(b)
        if x is None or y is None or x.k != y.k or x.k not in ('app', 'sel', 'sqrt'): return False
        if x.k == 'app' and x.a[0] != y.a[0]: return False
        if x.k == 'sel' and x.a[0] is not y.a[0]: return False
        ax, ay = self.args(x), self.args(y)
        if len(ax) != len(ay): return False
        for u, v in zip(ax, ay):
            if u is v: continue
            if not (isinstance(u, Poly) and isinstance(v, Poly)): return False
            d = E.sub(u, v)
            if E.is_const(d): return False
            if E.isint(d):
                if ctx.decide(E.eq(d)) is not True: return False
            elif not self.local_zero(d, ctx): return False
        return True
    def abstract(self, d, ctx, level):
        """generalise: conditionals and applications deeper than `level` become free variables"""
        dep = {}
        cur = [d]; lv = 0; opened = set(); seen = set()
        while cur and lv <= level:
            nxt = []
            st = list(cur)
            while st:
                x = st.pop()
                if id(x) in seen: continue
                seen.add(id(x))
                if isinstance(x, Atom) and x.k != 'var':
                    if lv < level: opened.add(x.id); nxt.extend(E.children(x))
                    continue
                st.extend(E.children(x))
            cur = nxt; lv += 1
        def hook(A, s):
            if A.k == 'var' or A.id in opened or A.isint: return None
            v = E.var('abs!%d' % A.id)
            if A.id not in signs:
                g = ctx.asign(A)
                signs[A.id] = {2: E.gt, 1: E.ge, -1: lambda p: E.ge(E.neg(p)), -2: lambda p: E.gt(E.neg(p)), 9: E.eq}[g](v) if g else TRUE
            return v
        signs = {}
        s = E.Subst({}, None, hook)
        q = s.p(d)
        if q is d: return d, ctx
        fs = [s.b(f) for f in ctx.facts if not lit_int(f)]
        return q, Ctx([f for f in ctx.facts if lit_int(f)] + fs + list(signs.values()))

    def fact_subst(self, f):
        p = f.a
        for m, c in sorted(p.t.items()):
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].k in ('var', 'sel'):
                a = m[0][0]
                if E.isint(p) and abs(c) != 1: continue
                rest = E.mk({x: y for x, y in p.t.items() if x != m})
                ok = True
                for nn in E.walk([rest]):
                    if isinstance(nn, Atom) and nn.id == a: ok = False; break
                if ok: return {a: E.scale(rest, -Fraction(1) / c)}
        return None

    def assign(self, p, lit, val, ctx):
        bm = {lit: E.bconst(val), E.bnot(lit): E.bconst(not val)}
        am = {}
        if lit.k == 'ge':
            A = E._atoms.get(('pos', lit.a))
            if A is not None: am[A.id] = lit.a if val else ZERO
            # the canonical pos atom may hold the negated polynomial
            q = E.neg(lit.a)
            A = E._atoms.get(('pos', q))
            if A is not None: am[A.id] = ZERO if val else q
        s = Resolver(ctx, am); s.bm = bm
        r = s.p(p)
        return r

    def pick(self, n, ctx):
        """an undecided condition to split on: innermost, most frequent"""
        cnt = {}
        order = []
        seen = set()
        def lits_of(b):
            if b.k in ('and', 'or'):
                o = []
                for x in b.a: o += lits_of(x)
                return o
            if b.k == 'not': return lits_of(b.a)
            return [b] if b.k in ('ge', 'eq', 'bvar') else []
        for x in E.walk([n]):
            if isinstance(x, Atom):
                if x.k == 'ite':
                    for l in lits_of(x.a[0]):
                        cnt[l] = cnt.get(l, 0) + 1
                elif x.k == 'pos':
                    l = E.ge(x.a)
                    if l.k == 'not': l = l.a
                    if l.k in ('ge',): cnt[l] = cnt.get(l, 0) + 1
        if not cnt: return None
        def inner(l):
            for x in E.walk([l]):
                if isinstance(x, Atom) and x.k in ('ite', 'pos'): return 1
            return 0
        # integer conditions first (cheap to prune), then innermost, then most frequent
        best = min(cnt, key=lambda l: (0 if lit_int(l) else 1, inner(l), -cnt[l], l.id))
        return best

    def args(self, x):
        if x.k == 'app': return x.a[1:]
        if x.k == 'sel': return x.a[1]
        return (x.a,)
    # ------------------------------------------------------------ inequalities and mixed formulas
    def ineq(self, g, ctx, depth):
        self.tick()
        d = ctx.decide(g)
        if d is True: self.used('z3-int'); return True
        if d is False and depth == 0 and not ctx.infeasible():
            self.why = 'refuted: %s' % E.showb(g, 5)[:300]; return False
        # positive parts decided by the facts
        am = {}
        for x in E.walk([g] + [f for f in ctx.facts if not lit_int(f)]):
            if isinstance(x, Atom) and x.k == 'pos' and not x.isint:
                sg = ctx.sign(x.a)
                if sg in (1, 2): am[x.id] = x.a
                elif sg in (-1, -2, 9): am[x.id] = ZERO
        if am:
            sb = E.Subst(am); g2 = sb.b(g); fs = []
            for f in ctx.facts:
                h = sb.b(f) if not lit_int(f) else f
                fs.append(f)
                if h is not f: fs.append(h)
            c2 = Ctx(fs)
            if c2.decide(g2) is True: self.used('sign'); return True
            if (g2 is not g or len(fs) > len(ctx.facts)) and not self.posdone:
                self.posdone = True
                try:
                    if self.goal(g2, c2, depth): return True
                finally: self.posdone = False
        if self.smt(g, ctx): return True
        # split on conditions
        lit = self.pick_b(g, ctx)
        if lit is not None and depth < 14:
            for val in (True, False):
                f = lit if val else E.bnot(lit)
                c2 = ctx.child(f)
                if lit_int(f) and c2.infeasible(): continue
                bm = {lit: E.bconst(val), E.bnot(lit): E.bconst(not val)}
                am = {}
                if lit.k == 'ge':
                    A = E._atoms.get(('pos', lit.a))
                    if A is not None: am[A.id] = lit.a if val else ZERO
                    q = E.neg(lit.a); A = E._atoms.get(('pos', q))
                    if A is not None: am[A.id] = ZERO if val else q
                s = Resolver(c2, am); s.bm = bm
                g2 = s.b(g)
                if g2 is TRUE: continue
                c3 = Ctx([s.b(x) if x is not f and x is not lit else x for x in c2.facts])
                if not self.goal(g2, c3, depth + 1): return False
            self.used('case-split'); return True
        if self.why is None: self.why = 'not proved: %s' % E.showb(g, 5)[:400]
        return False
    def pick_b(self, g, ctx):
        cnt = {}
        for x in E.walk([g]):
            if isinstance(x, Atom):
                if x.k == 'ite':
                    for y in E.walk([x.a[0]]):
                        if isinstance(y, B) and y.k in ('ge', 'eq', 'bvar'): cnt[y] = cnt.get(y, 0) + 1
                elif x.k == 'pos':
                    l = E.ge(x.a)
                    if l.k == 'ge': cnt[l] = cnt.get(l, 0) + 1
        cnt = {l: c for l, c in cnt.items() if ctx.decide(l) is None}
        if not cnt: return None
        def inner(l):
            for x in E.walk([l]):
                if isinstance(x, Atom) and x.k in ('ite', 'pos'): return 1
            return 0
        return min(cnt, key=lambda l: (0 if lit_int(l) else 1, inner(l), -cnt[l], l.id))

    def smt(self, g, ctx, ms=None):
        """facts -> g by z3 (real closed fields); relevant facts only"""
        t0 = time.time()
        z = Z()
        s = z3.Solver() if True else None
        s.set('timeout', ms or self.z3_ms)
        rel = self.relevant(g, ctx)
        for f in rel: s.add(z.b(f))
        s.add(z3.Not(z.b(g)))
        for x in z.side: s.add(x)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        STATS.add('z3', time.time() - t0)
        if r == z3.unsat:
            self.used('z3'); return True
        if r == z3.sat: self.lastmodel = s.model()
        if r == z3.unknown and not all(lit_int(f) for f in rel + [g]):
            if self.nra(g, rel): return True
        return False
    def nra(self, g, rel):
        t0 = time.time()
        z = Z()
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'qfnra-nlsat').solver()
        s.set('timeout', self.z3_ms)
        for f in rel:
            if not any(isinstance(x, Atom) and x.isint for x in E.walk([f])): s.add(z.b(f))
        s.add(z3.Not(z.b(g)))
        for x in z.side: s.add(x)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        STATS.add('z3-nlsat', time.time() - t0)
        if r == z3.unsat: self.used('z3-nlsat'); return True
        return False
    def relevant(self, g, ctx):
        def at(n): return set(x.id for x in E.walk([n]) if isinstance(x, Atom) and x.k in ('var', 'sel', 'app', 'idiv'))
        cur = at(g); fs = [(f, at(f)) for f in ctx.facts]; out = []
        ch = True
        while ch:
            ch = False
            for f, a in list(fs):
                if not a or a & cur:
                    out.append(f); fs.remove((f, a)); cur |= a; ch = True
        return out
