"""Hash-consed terms: Laurent polynomials over atoms (reals and integers), booleans.

Canonical forms chosen so that max/min/abs/std::max/ternaries with the same meaning coincide:
  pos(p) = max(p,0); max(a,b) = b+pos(a-b); |x| = 2 pos(x)-x; pos(-p) = pos(p)-p.
par(p)^-1 is the reciprocal of a sum; sqrt(p)^2 = p.
"""
from fractions import Fraction
from math import gcd, isqrt

import os
EXPAND_LIMIT = int(os.environ.get("VC_EXPAND", "600"))

class Atom:
    __slots__ = ('id', 'k', 'a', 'isint', 'm')
    def __repr__(self): return show_atom(self)

class Poly:
    __slots__ = ('t', 'id', '_isint', '_lead', '_atoms')
    def __repr__(self): return show(self)
    def __add__(s, o): return add(s, o)
    def __sub__(s, o): return sub(s, o)
    def __mul__(s, o): return mul(s, o)
    def __neg__(s): return neg(s)

class B:
    __slots__ = ('id', 'k', 'a', '_neg')
    def __repr__(self): return showb(self)

_atoms = {}; ATOMS = []
_polys = {}
_bools = {}
_pid = [0]

def atom(k, a, isint=False):
    key = (k, a)
    r = _atoms.get(key)
    if r is None:
        r = Atom(); r.id = len(ATOMS); r.k = k; r.a = a; r.isint = isint
        ATOMS.append(r); _atoms[key] = r
        r.m = None
    return r

def _norm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def mk(t):
    """poly from dict (no zero coefficients, coefficients normalised)"""
    key = frozenset(t.items())
    r = _polys.get(key)
    if r is None:
        r = Poly(); r.t = t; r.id = _pid[0]; _pid[0] += 1; r._isint = None; r._lead = None; r._atoms = None
        _polys[key] = r
    return r

ZERO = mk({}); 
def const(c):
    c = _norm(c)
    if c == 0: return ZERO
    return mk({(): c})
ONE = const(1)
def apoly(a):
    if a.m is None: a.m = mk({((a.id, 1),): 1})
    return a.m

def is_const(p): return not p.t or (len(p.t) == 1 and () in p.t)
def cval(p): return p.t.get((), 0) if p.t else 0

def isint(p):
    if p._isint is None:
        r = True
        for m, c in p.t.items():
            if type(c) is not int: r = False; break
            for (a, e) in m:
                if e < 0 or not ATOMS[a].isint: r = False; break
            if not r: break
        p._isint = r
    return p._isint

def atoms_of(p):
    if p._atoms is None:
        s = set()
        for m in p.t:
            for (a, e) in m: s.add(a)
        p._atoms = s
    return p._atoms

def var(name, isint=False): return apoly(atom('var', name, isint))

def add(p, q):
    if not p.t: return q
    if not q.t: return p
    if len(p.t) < len(q.t): p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        x = t.get(m)
        if x is None: t[m] = c
        else:
            x = _norm(x + c)
            if x == 0: del t[m]
            else: t[m] = x
    return mk(t)

def scale(p, k):
    if k == 1: return p
    if k == 0: return ZERO
    return mk({m: _norm(c * k) for m, c in p.t.items()})
def neg(p): return mk({m: -c for m, c in p.t.items()})
def sub(p, q):
    if p is q: return ZERO
    return add(p, neg(q))

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    i = j = 0; out = []; na = len(a); nb = len(b)
    while i < na and j < nb:
        x = a[i]; y = b[j]
        if x[0] < y[0]: out.append(x); i += 1
        elif x[0] > y[0]: out.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e: out.append((x[0], e))
            i += 1; j += 1
    if i < na: out.extend(a[i:])
    elif j < nb: out.extend(b[j:])
    return tuple(out)

def _needs_fix(m):
    for (a, e) in m:
        if (e > 1 or e < 0) and ATOMS[a].k == 'sqrt': return True
        if e > 1 and ATOMS[a].k == 'ind': return True
    return False

def _fix_mono(m, c):
    """poly for c*m with sqrt powers reduced"""
    rest = []; r = const(c)
    for (a, e) in m:
        A = ATOMS[a]
        if A.k == 'sqrt' and (e > 1 or e < 0):
            arg = A.a
            if e % 2: rest.append((a, 1)); e -= 1
            r = mul(r, powi(arg, e // 2))
        else: rest.append((a, e))
    return mul_mono(r, tuple(rest), 1)

def mul_mono(p, m, c):
    t = {}; extra = None
    for m1, c1 in p.t.items():
        mm = mono_mul(m1, m)
        if _needs_fix(mm):
            e = _fix_mono(mm, c1 * c)
            extra = e if extra is None else add(extra, e)
        else: t[mm] = _norm(c1 * c)
    r = mk(t)
    return r if extra is None else add(r, extra)

def mul(p, q):
    if not p.t or not q.t: return ZERO
    if p is ONE: return q
    if q is ONE: return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m: return scale(q, c)
        return mul_mono(q, m, c)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if not m: return scale(p, c)
        return mul_mono(p, m, c)
    # reciprocal cancellation p * par(q)^-1
    if len(p.t) * len(q.t) > EXPAND_LIMIT and not (isint(p) and isint(q)):
        return mul(wrap(p), wrap(q))
    t = {}; extra = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            mm = mono_mul(m1, m2)
            c = c1 * c2
            if _needs_fix(mm):
                e = _fix_mono(mm, c)
                extra = e if extra is None else add(extra, e)
                continue
            x = t.get(mm)
            if x is None: t[mm] = c
            else: t[mm] = x + c
    r = mk({m: _norm(c) for m, c in t.items() if c != 0})
    return r if extra is None else add(r, extra)

def lead(p):
    """leading (monomial, coef): deterministic choice"""
    if p._lead is None:
        m = min(p.t)
        if m == () and len(p.t) > 1:
            m = min(x for x in p.t if x != ())
        p._lead = (m, p.t[m])
    return p._lead

def content(p):
    """monomial gcd (Laurent) of a nonzero poly"""
    it = iter(p.t); g = dict(next(it)); n = len(p.t)
    # min exponents, where missing = 0
    allm = list(p.t)
    ats = set(a for m in allm for (a, e) in m)
    out = []
    for a in ats:
        lo = None
        for m in allm:
            e = 0
            for (x, y) in m:
                if x == a: e = y; break
            if lo is None or e < lo: lo = e
        if lo: out.append((a, lo))
    return tuple(sorted(out))

def mono_inv(m): return tuple((a, -e) for a, e in m)

def primitive(p):
    """p = c * m * q with q having unit leading coeff and trivial content"""
    if len(p.t) == 1:
        (m, c), = p.t.items(); return c, m, ONE
    m = content(p)
    # do not pull sqrt atoms with negative result into trouble: handled by mul
    q = p
    if m:
        mi = tuple((a, -e) for a, e in m if ATOMS[a].k != 'sqrt')
        m = tuple((a, e) for a, e in m if ATOMS[a].k != 'sqrt')
        if mi:
            q = mk({mono_mul(x, mi): c for x, c in p.t.items()})
    c = lead(q)[1]
    q = scale(q, Fraction(1) / c)
    return c, m, q

def wrap(p):
    """factor form: content * par(primitive)"""
    if len(p.t) <= 1: return p
    c, m, q = primitive(p)
    if len(q.t) <= 1: return p
    a = atom('par', q)
    return _fix_mono(mono_mul(m, ((a.id, 1),)), c) if _needs_fix(m) else mk({mono_mul(m, ((a.id, 1),)): _norm(c)})

def inv(p):
    if not p.t: return apoly(atom('app', ('inv0',)))
    c, m, q = primitive(p)
    mi = mono_inv(m)
    if len(q.t) > 1:
        a = atom('par', q)
        mi = mono_mul(mi, ((a.id, -1),))
    c = _norm(Fraction(1) / c)
    if _needs_fix(mi): return _fix_mono(mi, c)
    return mk({mi: c})

def ratio(p, q):
    """monomial r with p = r*q, or None"""
    if len(p.t) != len(q.t) or not q.t: return None
    c1, m1, a = primitive(p); c2, m2, b = primitive(q)
    if a is not b: return None
    mm = mono_mul(m1, mono_inv(m2))
    if _needs_fix(mm): return None
    return mk({mm: _norm(Fraction(c1) / c2)})

def div(p, q):
    if len(q.t) > 1:
        r = ratio(p, q)
        if r is not None: return r
    return mul(p, inv(q))

def powi(p, n):
    if n == 0: return ONE
    if n < 0: return inv(powi(p, -n))
    r = ONE; b = p
    while n:
        if n & 1: r = mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

def pos(p):
    if is_const(p):
        return p if cval(p) > 0 else ZERO
    c = lead(p)[1]
    if c < 0:
        return add(p, pos(neg(p)))
    if c != 1:
        return scale(pos(scale(p, Fraction(1) / c)), c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(e % 2 == 0 or ATOMS[a].k in ('sqrt', 'pos') for a, e in m): return p
    a = atom('pos', p, isint(p))
    return apoly(a)

def named(p):
    """keep a sum as one factor (a name for it; opened again by numerator)"""
    if len(p.t) <= 1 or isint(p): return p
    return apoly(atom('par', p))
def vmax(a, b): return named(add(b, pos(sub(a, b))))
def vmin(a, b): return named(sub(a, pos(sub(a, b))))
def vabs(a): return named(sub(scale(pos(a), 2), a))

def _sqfrac(c):
    c = Fraction(c)
    if c < 0: return None
    a = isqrt(c.numerator); b = isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator: return Fraction(a, b)
    return None

def vsqrt(p):
    if not p.t: return ZERO
    if is_const(p):
        r = _sqfrac(cval(p))
        if r is not None: return const(r)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = _sqfrac(c)
        if r is not None and all(e % 2 == 0 for a, e in m):
            out = const(r)
            for a, e in m:
                x = apoly(ATOMS[a])
                h = abs(e) // 2
                x = vabs(powi(x, h)) if h % 2 else powi(x, h)
                out = mul(out, x) if e > 0 else div(out, x)
            return out
    l = lead(p)[1]
    if l > 0 and l != 1:
        r = _sqfrac(l)
        if r is not None:
            return scale(vsqrt(scale(p, 1 / Fraction(l))), r)
    return apoly(atom('sqrt', p))

def app(f, *args, isint=False):
    return apoly(atom('app', (f,) + tuple(args), isint))

def ite(c, t, e):
    if c is TRUE: return t
    if c is FALSE: return e
    if t is e: return t
    if c.k == 'not': c = c.a; t, e = e, t
    # nested same condition
    t = _under(t, c, True); e = _under(e, c, False)
    if t is e: return t
    if c.k == 'ge':
        q = c.a; d = sub(t, e)
        if len(d.t) == len(q.t):
            k = None; ok = True
            for m, x in d.t.items():
                y = q.t.get(m)
                if y is None: ok = False; break
                r = Fraction(x) / y
                if k is None: k = r
                elif k != r: ok = False; break
            if ok: return named(add(e, scale(pos(q), k)))
        if isint(q) and len(d.t) <= len(q.t) + 1:
            pass
    if c.k == 'eq':
        # x==0 ? t : e  with t = e at x==0 : handled by prover
        pass
    com = {m: x for m, x in t.t.items() if e.t.get(m) == x}
    if com and (len(com) < len(t.t) or len(com) < len(e.t)):
        cm = mk(com); return add(cm, ite(c, sub(t, cm), sub(e, cm)))
    return apoly(atom('ite', (c, t, e), isint(t) and isint(e)))

def _under(p, c, val):
    if len(p.t) != 1: return p
    (m, k), = p.t.items()
    if len(m) == 1 and m[0][1] == 1:
        A = ATOMS[m[0][0]]
        if A.k == 'ite' and A.a[0] is c:
            return scale(A.a[1] if val else A.a[2], k)
    return p

def idiv(p, q):
    """C integer division, used for non negative dividend and positive divisor (recorded)"""
    if is_const(p) and is_const(q):
        a, b = cval(p), cval(q)
        r = abs(a) // abs(b)
        return const(r if (a >= 0) == (b > 0) else -r)
    if q is ONE: return p
    return apoly(atom('idiv', (p, q), True))

# ---------------------------------------------------------------- booleans
_bid = [0]
def _b(k, a):
    key = (k, a)
    r = _bools.get(key)
    if r is None:
        r = B(); r.id = _bid[0]; _bid[0] += 1; r.k = k; r.a = a; r._neg = None
        _bools[key] = r
    return r
TRUE = _b('true', None); FALSE = _b('false', None)
def bconst(x): return TRUE if x else FALSE

def bvar(n): return _b('bvar', n)

def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b._neg is not None: return b._neg
    if b.k == 'not': r = b.a
    elif b.k == 'ge' and isint(b.a):
        r = ge(sub(neg(b.a), ONE))
    elif b.k == 'and': r = bor(*[bnot(x) for x in b.a])
    elif b.k == 'or': r = band(*[bnot(x) for x in b.a])
    else: r = _b('not', b)
    b._neg = r
    if r._neg is None: r._neg = b
    return r

def _ite01(p, f):
    """comparison of an affine function of one conditional with constant branches"""
    if len(p.t) > 2: return None
    A = None
    for m, c in p.t.items():
        if m == (): continue
        if A is not None or len(m) != 1 or m[0][1] != 1: return None
        A = ATOMS[m[0][0]]; k = c
    if A is None or A.k != 'ite' or not (is_const(A.a[1]) and is_const(A.a[2])): return None
    c0 = p.t.get((), 0)
    x, y = f(cval(A.a[1]) * k + c0), f(cval(A.a[2]) * k + c0)
    if x == y: return bconst(x)
    return A.a[0] if x else bnot(A.a[0])
def ge(p):
    """p >= 0"""
    if is_const(p): return bconst(cval(p) >= 0)
    r = _ite01(p, lambda v: v >= 0)
    if r is not None: return r
    if isint(p):
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, c)
        if g > 1:
            p = mk({m: (c // g) for m, c in p.t.items() if not (m == () and c // g == 0)})
        return _b('ge', p)
    c = abs(lead(p)[1])
    if c != 1: p = scale(p, Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 or ATOMS[a].k in ('sqrt', 'pos') for a, e in m): return TRUE
    return _b('ge', p)
def gt(p): return bnot(ge(neg(p)))
def eq(p):
    if is_const(p): return bconst(cval(p) == 0)
    r = _ite01(p, lambda v: v == 0)
    if r is not None: return r
    if isint(p):
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, c)
        c0 = p.t.get((), 0)
        if g > 1:
            if c0 % g: return FALSE
            p = mk({m: c // g for m, c in p.t.items()})
        if lead(p)[1] < 0: p = neg(p)
    else:
        c = lead(p)[1]
        if c != 1: p = scale(p, Fraction(1) / c)
    return _b('eq', p)

def band(*bs):
    s = set()
    st = list(bs)
    while st:
        b = st.pop()
        if b is TRUE: continue
        if b is FALSE: return FALSE
        if b.k == 'and': st.extend(b.a)
        else: s.add(b)
    for b in s:
        if bnot(b) in s: return FALSE
    if not s: return TRUE
    # absorption / unit propagation into or-members
    ch = True
    while ch:
        ch = False
        for b in list(s):
            if b.k == 'or':
                if any(x in s for x in b.a): s.discard(b); ch = True; continue
                keep = [x for x in b.a if bnot(x) not in s]
                if len(keep) < len(b.a):
                    s.discard(b); n = bor(*keep)
                    if n is FALSE: return FALSE
                    if n.k == 'and': s.update(n.a)
                    elif n is not TRUE: s.add(n)
                    ch = True; break
    for b in s:
        if bnot(b) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return _b('and', frozenset(s))

def bor(*bs):
    s = set()
    st = list(bs)
    while st:
        b = st.pop()
        if b is FALSE: continue
        if b is TRUE: return TRUE
        if b.k == 'or': st.extend(b.a)
        else: s.add(b)
    for b in s:
        if bnot(b) in s: return TRUE
    # (c & x) | (~c & x) -> x ; absorption ; (~a | (a & x)) -> (~a | x)
    ch = True
    while ch and len(s) > 1 and len(s) <= 40:
        ch = False
        ls = list(s)
        sets = {b: (b.a if b.k == 'and' else frozenset([b])) for b in ls}
        for x in ls:
            for y in ls:
                if x is y: continue
                sx, sy = sets[x], sets[y]
                if sx <= sy: s.discard(y); ch = True; break
                d1 = sx - sy
                if len(d1) == 1:
                    l = next(iter(d1)); n = bnot(l)
                    if n in sy:
                        # sx = common+l ; sy includes common and ~l  -> drop ~l from y
                        s.discard(y); z = band(*(sy - {n}))
                        if z is TRUE: return TRUE
                        if z.k == 'or': s.update(z.a)
                        elif z is not FALSE: s.add(z)
                        ch = True; break
            if ch: break
    for b in s:
        if bnot(b) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    return _b('or', frozenset(s))

def bite(c, t, e):
    if c is TRUE: return t
    if c is FALSE: return e
    if t is e: return t
    return bor(band(c, t), band(bnot(c), e))
def bxor(a, b): return bor(band(a, bnot(b)), band(bnot(a), b))
def b2i(b):
    return ite(b, ONE, ZERO)
def implies(a, b): return bor(bnot(a), b)

# ---------------------------------------------------------------- substitution
class Subst:
    """structural rebuild.  atom_map: {atom id: Poly}; bool_map: {B: B}; hook(atom, self)->Poly|None"""
    def __init__(self, atom_map=None, bool_map=None, hook=None):
        self.am = atom_map or {}; self.bm = bool_map or {}; self.hook = hook
        self.pm = {}; self.cm = {}; self.dm = {}
    def p(self, p):
        r = self.pm.get(p)
        if r is not None: return r
        dirty = False
        for a in atoms_of(p):
            x = self.atom(ATOMS[a])
            if x is not apoly(ATOMS[a]): dirty = True
        if not dirty: r = p
        else:
            r = ZERO; t0 = {}
            for m, c in p.t.items():
                ch = False
                for (a, e) in m:
                    if self.am2(a) is not apoly(ATOMS[a]): ch = True; break
                if not ch: t0[m] = c
            parts = [mk(t0)]
            for m, c in p.t.items():
                if m in t0: continue
                keep = []; x = const(c)
                negs = []
                for (a, e) in m:
                    v = self.am2(a)
                    if v is apoly(ATOMS[a]): keep.append((a, e))
                    elif e > 0: x = mul(x, powi(v, e))
                    else: negs.append((v, -e))
                x = mul_mono(x, tuple(keep), 1) if keep else x
                for v, e in negs: x = div(x, powi(v, e))
                parts.append(x)
            r = sumup(parts)
        self.pm[p] = r
        return r
    def am2(self, a): return self.cm[a]
    def atom(self, A):
        r = self.cm.get(A.id)
        if r is not None: return r
        r = self.am.get(A.id)
        if r is None:
            r = None
            if self.hook: r = self.hook(A, self)
            if r is None: r = self._atom(A)
        self.cm[A.id] = r
        return r
    def _atom(self, A):
        k = A.k
        if k == 'var': return apoly(A)
        if k == 'app':
            n = tuple(self.p(x) if isinstance(x, Poly) else (self.b(x) if isinstance(x, B) else x) for x in A.a[1:])
            if all(x is y for x, y in zip(n, A.a[1:])): return apoly(A)
            return mkapp(A.a[0], n, A.isint)
        if k == 'sel':
            v, idx = A.a
            v2 = v.subst(self) if v.open else v
            n = tuple(self.p(x) for x in idx)
            if v2 is v and all(x is y for x, y in zip(n, idx)): return apoly(A)
            return v2.read(n)
        if k == 'ite':
            c, t, e = A.a
            c2 = self.b(c)
            if c2 is TRUE: return self.p(t)
            if c2 is FALSE: return self.p(e)
            return ite(c2, self.p(t), self.p(e))
        if k == 'pos': return pos(self.p(A.a))
        if k == 'sqrt': return vsqrt(self.p(A.a))
        if k == 'par':
            q = self.p(A.a)
            if q is A.a: return apoly(A)
            return named(q)
        if k == 'idiv': return idiv(self.p(A.a[0]), self.p(A.a[1]))
        raise Exception('subst ' + k)
    def b(self, b):
        r = self.dm.get(b)
        if r is not None: return r
        r = self.bm.get(b)
        if r is None:
            k = b.k
            if k in ('true', 'false', 'bvar'): r = b
            elif k == 'ge': r = ge(self.p(b.a))
            elif k == 'eq': r = eq(self.p(b.a))
            elif k == 'not': r = bnot(self.b(b.a))
            elif k == 'and': r = band(*[self.b(x) for x in b.a])
            elif k == 'or': r = bor(*[self.b(x) for x in b.a])
            else: raise Exception('substb ' + k)
            if r is not b and r in self.bm: r = self.bm[r]
        self.dm[b] = r
        return r

def mkapp(f, args, isint):
    h = APPHOOK.get(f)
    if h is not None:
        r = h(args)
        if r is not None: return r
    return apoly(atom('app', (f,) + args, isint))
APPHOOK = {}

def sumup(parts):
    t = {}
    for p in parts:
        for m, c in p.t.items():
            x = t.get(m)
            t[m] = c if x is None else x + c
    return mk({m: _norm(c) for m, c in t.items() if c != 0})

# ---------------------------------------------------------------- traversal
def children(n):
    if isinstance(n, Poly): return [ATOMS[a] for a in atoms_of(n)]
    if isinstance(n, Atom):
        k = n.k
        if k == 'var': return []
        if k == 'app': return [x for x in n.a[1:] if isinstance(x, (Poly, B))]
        if k == 'sel': return list(n.a[1])
        if k == 'ite': return list(n.a)
        if k in ('pos', 'sqrt', 'par'): return [n.a]
        if k == 'idiv': return list(n.a)
        return []
    if isinstance(n, B):
        if n.k in ('ge', 'eq', 'not'): return [n.a]
        if n.k in ('and', 'or'): return list(n.a)
        return []
    return []

def walk(roots):
    seen = set(); st = list(roots); out = []
    while st:
        n = st.pop()
        if id(n) in seen: continue
        seen.add(id(n)); out.append(n)
        st.extend(children(n))
    return out

# ---------------------------------------------------------------- full rational normal form
def has_par(p):
    for a in atoms_of(p):
        if ATOMS[a].k == 'par': return True
    return False

class TooBig(Exception): pass

def mul_big(p, q, limit):
    if len(p.t) * len(q.t) > limit: raise TooBig()
    global EXPAND_LIMIT
    old = EXPAND_LIMIT; EXPAND_LIMIT = limit * 10
    try: return mul(p, q)
    finally: EXPAND_LIMIT = old

def numerator(p, limit=4000000):
    """a polynomial with no par atoms and no negative powers of them, zero iff p is zero
    (given non-zero denominators)"""
    guard = 0
    while True:
        lo = {}
        anypar = False
        for m in p.t:
            for (a, e) in m:
                if ATOMS[a].k == 'par':
                    anypar = True
                    if e < lo.get(a, 0): lo[a] = e
        if not anypar:
            return p
        guard += 1
        if guard > 50: raise TooBig()
        # pick the par atom created last (outermost) first
        groups = {}
        # choose a single par atom to clear: the one with largest id
        a0 = max(a for m in p.t for (a, e) in m if ATOMS[a].k == 'par')
        d = -lo.get(a0, 0)
        for m, c in p.t.items():
            e0 = 0; rest = []
            for (a, e) in m:
                if a == a0: e0 = e
                else: rest.append((a, e))
            groups.setdefault(e0 + d, {})[tuple(rest)] = c
        body = ATOMS[a0].a
        pw = ONE; cur = 0; parts = []
        for e in sorted(groups):
            while cur < e:
                pw = mul_big(pw, body, limit); cur += 1
            parts.append(mul_big(mk(groups[e]), pw, limit))
        p = sumup(parts)
        if not p.t: return p
        if len(p.t) > min(limit, 400000): raise TooBig()

def norm0l(p, limit):
    """zero iff p is zero: denominators cleared (factors that may vanish are kept)"""
    p = numerator(p, limit)
    if len(p.t) <= 1: return p
    mi = tuple((a, -e) for a, e in content(p) if e < 0 and ATOMS[a].k != 'sqrt')
    if mi: p = mk({mono_mul(x, mi): c for x, c in p.t.items()})
    return scale(p, Fraction(1) / lead(p)[1])

def norm0(p): return norm0l(p, 4000000)

# ---------------------------------------------------------------- numeric evaluation
import math
class Eval:
    def __init__(self, env, sel=None, appf=None, soft=False):
        self.soft = soft
        self.env = env; self.cp = {}; self.ca = {}; self.cb = {}; self.appf = appf; self.sel = sel
    def p(self, p):
        r = self.cp.get(p)
        if r is None:
            r = 0
            for m, c in p.t.items():
                x = c if type(c) is int else c.numerator / c.denominator
                for (a, e) in m:
                    v = self.atom(ATOMS[a])
                    x = x * (v if e == 1 else v ** e)
                r += x
            self.cp[p] = r
        return r
    def mag(self, p):
        """sum of absolute term values (scale for the numeric zero test)"""
        s = 0.0
        for m, c in p.t.items():
            x = abs(float(c))
            for (a, e) in m: x = x * abs(self.atom(ATOMS[a])) ** e
            s += x
        return s
    def atom(self, A):
        r = self.ca.get(A.id)
        if r is not None: return r
        k = A.k
        if k == 'var': r = self.env[A.a] if not callable(self.env) else self.env(A)
        elif k == 'ite': r = self.p(A.a[1]) if self.b(A.a[0]) else self.p(A.a[2])
        elif k == 'pos': r = max(self.p(A.a), 0)
        elif k == 'sqrt': r = math.sqrt(abs(self.p(A.a)) if self.soft else self.p(A.a))
        elif k == 'par': r = self.p(A.a)
        elif k == 'idiv': r = self.p(A.a[0]) // self.p(A.a[1])
        elif k == 'app': r = self.appf(A, self)
        elif k == 'sel': r = self.sel(A, self)
        else: raise Exception(k)
        self.ca[A.id] = r
        return r
    def b(self, b):
        r = self.cb.get(b)
        if r is None:
            k = b.k
            if k == 'true': r = True
            elif k == 'false': r = False
            elif k == 'ge': r = self.p(b.a) >= 0
            elif k == 'eq': r = abs(self.p(b.a)) == 0
            elif k == 'not': r = not self.b(b.a)
            elif k == 'and': r = all(self.b(x) for x in b.a)
            elif k == 'or': r = any(self.b(x) for x in b.a)
            elif k == 'bvar': r = bool(self.env(b)) if callable(self.env) else bool(self.env[b.a])
            self.cb[b] = r
        return r

# ---------------------------------------------------------------- printing
def show_atom(A, d=6):
    k = A.k
    if d <= 0: return '..'
    if k == 'var': return str(A.a)
    if k == 'app': return '%s(%s)' % (A.a[0], ', '.join(show(x, d-1) if isinstance(x, Poly) else str(x) for x in A.a[1:]))
    if k == 'sel': return '%s[%s]' % (A.a[0], ', '.join(show(x, d-1) for x in A.a[1]))
    if k == 'ite': return '(%s ? %s : %s)' % (showb(A.a[0], d-1), show(A.a[1], d-1), show(A.a[2], d-1))
    if k == 'idiv': return '(%s div %s)' % (show(A.a[0], d-1), show(A.a[1], d-1))
    if k == 'par': return '{%s}' % show(A.a, d-1)
    return '%s(%s)' % (k, show(A.a, d-1))
def show(p, d=6):
    if not p.t: return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items())):
        if n > 12: out.append('+ ...%d terms' % len(p.t)); break
        s = '*'.join((show_atom(ATOMS[a], d-1) + ('' if e == 1 else '^%d' % e)) for a, e in m)
        cs = str(c)
        if not s: out.append(cs)
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append(cs + '*' + s)
    return ' + '.join(out)
def showb(b, d=6):
    if d <= 0: return '..'
    k = b.k
    if k in ('true', 'false'): return k
    if k == 'ge': return '%s >= 0' % show(b.a, d-1)
    if k == 'eq': return '%s == 0' % show(b.a, d-1)
    if k == 'not': return '!(%s)' % showb(b.a, d-1)
    if k == 'bvar': return str(b.a)
    return '(' + (' && ' if k == 'and' else ' || ').join(showb(x, d-1) for x in b.a) + ')'
