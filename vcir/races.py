"""Race freedom of parallel launches: for every shared element, a write of one iteration and an access of another iteration
(other than two atomic additions) never meet.  One obligation per pair of conflicting access sites."""
import expr as E
from expr import ZERO, ONE, TRUE, FALSE
import prove as PR
import sym

def ints(g):
    """the integer conjuncts of a guard (dropping the others only weakens the hypotheses)"""
    if g is TRUE: return []
    return [x for x in (g.a if g.k == 'and' else [g]) if PR.lit_int(x)]

class NoDiv(E.Subst):
    """quotients as integers of which only the remainder bounds are kept: a stronger statement"""
    def __init__(self, ex): super().__init__(hook=self.h); self.ex = ex; self.tab = {}; self.rem = []
    def h(self, A, _):
        if A.k != 'idiv': return None
        v = self.tab.get(A.id)
        if v is None:
            v = self.tab[A.id] = self.ex.fresh('quotient', True)
            a, b = self.p(A.a[0]), self.p(A.a[1]); r = E.sub(a, E.mul(v, b)); self.rem += [E.ge(v), E.ge(r), E.ge(E.sub(E.sub(b, r), ONE))]
        return v

def add_obligations(ex):
    for name, its, dom, L, pc, bs in ex.races: launch(ex, name, its, dom, L, pc)

def alt(ex, goal, pc):
    n = NoDiv(ex); g = n.b(goal); f = [n.b(x) for x in pc.lits()]
    return (g, f + n.rem) if n.tab else None

def launch(ex, name, its, dom, L, pc):
    ids = [E.lead(i)[0][0][0] for i in its]
    t2 = [ex.fresh('other_it%d' % d, True) for d in range(len(its))]
    ren = E.Subst(dict(zip(ids, t2)))
    atom = lambda p: E.ATOMS[E.lead(p)[0][0][0]]
    for o, why in L.shared:
        ex.obl.append(sym.Oblig('no race: a parallel loop body writes the shared variable %s' % why, FALSE, pc, name, 'race'))
    n0 = len(ex.obl)
    for vid, lg in L.log.items():
        vn = ex.viewtab[vid].name
        W = {}; R = {}
        for g, idx, val, mode, where in lg: W.setdefault((idx, tuple(ints(g)), mode), where)
        for (idx, g), where in L.reads.get(vid, {}).items(): R.setdefault((idx, tuple(ints(g)), 'read'), where)
        acc = list(W.items()) + list(R.items()); seen = set()
        for n, ((i1, g1, m1), w1) in enumerate(W.items()):
            for (i2, g2, m2), w2 in acc[n:]:
                if m1 == 'add' and m2 == 'add': continue
                eqs = []; am = {}; ok = True
                for a, b in zip(i1, i2):
                    d = E.sub(a, b)
                    if E.is_const(d) and not any(E.lead(x)[0] for x in (a, b) if not E.is_const(x)):
                        if E.cval(d) != 0: ok = False; break
                        continue
                    # a(t1) = b(t2)
                    b2 = ren.p(b); s = None
                    for q, t in zip(ids, t2):
                        r = E.sub(b2, t)
                        if q not in am and not any(E.apoly(E.ATOMS[y]) in t2 for x in E.walk([r]) if isinstance(x, E.Poly) for y in E.atoms_of(x) if E.ATOMS[y].k == 'var'): s = (q, E.sub(a, r)); break
                    if s: am[s[0]] = s[1]
                    else: eqs.append(E.eq(E.sub(a, b2)))
                if not ok: continue
                if all(q in am and am[q] is i for q, i in zip(ids, its)): continue      # only the iteration itself
                key = (tuple((q, am[q].t and tuple(sorted(am[q].t.items(), key=repr))) for q in ids if q in am), tuple(eqs), g1, g2)
                if key in seen: continue
                seen.add(key)
                s2 = E.Subst({q: am.get(q, t) for q, t in zip(ids, t2)})
                p = pc; bad = False
                same = []
                for q, i, t in zip(ids, its, t2): same.append(E.eq(E.sub(i, am.get(q, t))))
                for f in list(dom) + list(g1) + [s2.b(x) for x in dom] + [s2.b(x) for x in g2] + eqs:
                    if f is TRUE: continue
                    if f is FALSE: bad = True; break
                    p = sym.pc_add(p, f)
                if bad: continue
                goal = E.band(*same)
                ex.obl.append(sym.Oblig('no race between two iterations on view %s (%s against %s)' % (vn, {'set': 'write', 'add': 'atomic add'}[m1], {'set': 'write', 'add': 'atomic add', 'read': 'read'}[m2]), goal, p, name + ' : ' + w1[:120] + ' / ' + w2[:120], 'race', alt(ex, goal, p)))
    if len(ex.obl) == n0: ex.obl.append(sym.Oblig('no race: iterations write their own elements only', TRUE, pc, name, 'race'))
