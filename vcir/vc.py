"""Runs one contract harness: clang -> LLVM IR -> verification conditions -> proofs."""
import os, re, subprocess, sys, time, hashlib, tempfile, json, signal
import expr as E
from expr import const, ZERO, ONE, TRUE, FALSE, Poly
from ir import Module, IRError, INT
import sym
from sym import Exec, State, Ptr, ViewPtr, FuncPtr, PIte, NULL, Unsupported, Stop, BUILTIN, builtin, cstring, pc_add, Base, Fill
import prove as PR

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'; OPT = 'opt-18'
DBL = __import__('ir').DBL

def flags(defs=()):
    return ['-std=c++17', '-DUSE_DOUBLE', '-I' + VERIF + '/stubs', '-I' + VERIF + '/harness', '-I' + REPO + '/src', '-I' + REPO + '/src/utils', '-w'] + list(defs)

class BuildError(Exception): pass

def compile_ir(src, defs, out):
    cmd = [CLANG] + flags(defs) + ['-DVC_SYM', '-include', VERIF + '/stubs/vc_pre.h', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-ffp-contract=off', '-S', '-emit-llvm', src, '-o', out + '.0']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    r = subprocess.run([OPT, '-S', '-passes=sroa', out + '.0', '-o', out], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    os.unlink(out + '.0')

def compile_native(src, defs, out):
    cmd = ['g++'] + flags(defs) + ['-O1', '-ffp-contract=off', src, VERIF + '/harness/native_main.cc', '-rdynamic', '-ldl', '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])

def load(path):
    m = Module.parse(open(path).read())
    names = [n for n in m.funcs] + list(m.aliases)
    r = subprocess.run(['llvm-cxxfilt-18', '--no-strip-underscore'], input='\n'.join(n[1:].strip('"') for n in names), capture_output=True, text=True)
    dem = dict(zip(names, r.stdout.split('\n')))
    return m, dem

# ------------------------------------------------------------ intrinsics
def _name(ex, st, p): return cstring(ex, st, p).decode()

@builtin('__vc_real')
def i_real(ex, st, a, r):
    n = _name(ex, st, a[0]); v = ex.fresh(n); ex.inputs.append(v); return v
@builtin('__vc_int')
def i_int(ex, st, a, r):
    n = _name(ex, st, a[0]); v = ex.fresh(n, True); ex.inputs.append(v)
    st.pc = pc_add(st.pc, E.ge(E.sub(v, a[1])))
    return v
@builtin('__vc_index')
def i_index(ex, st, a, r):
    n = _name(ex, st, a[0]); v = ex.fresh(n, True); ex.inputs.append(v)
    st.pc = pc_add(st.pc, E.ge(E.sub(v, a[1])))
    st.pc = pc_add(st.pc, E.ge(E.sub(E.sub(a[2], v), ONE)))
    return v
def tob(x): return E.bnot(E.eq(x)) if isinstance(x, Poly) else x
@builtin('__vc_assume')
def i_assume(ex, st, a, r):
    c = tob(a[0])
    if c is FALSE: raise Stop('assumption is false')
    st.pc = pc_add(st.pc, c)
@builtin('__vc_eq')
def i_eq(ex, st, a, r):
    ex.oblig(_name(ex, st, a[0]), E.eq(E.sub(a[1], a[2])), st, 'eq', (a[1], a[2]))
@builtin('__vc_le')
def i_le(ex, st, a, r):
    ex.oblig(_name(ex, st, a[0]), E.ge(E.sub(a[2], a[1])), st, 'le', (a[1], a[2]))
@builtin('__vc_true')
def i_true(ex, st, a, r):
    ex.oblig(_name(ex, st, a[0]), tob(a[1]), st, 'true')
@builtin('__vc_note')
def i_note(ex, st, a, r): ex.note(_name(ex, st, a[0]))
@builtin('__vc_view_alloc')
def i_alloc(ex, st, a, r):
    rank = E.cval(a[0])
    return const(ex.new_view(st, tuple(a[1:1 + rank]), 'view%d' % (len(ex.viewtab) + 1)))
@builtin('__vc_view_ref')
def i_ref(ex, st, a, r):
    v = a[0]
    def mkp(v):
        if not E.is_const(v): raise Unsupported('symbolic view id')
        n = E.cval(v)
        if n not in ex.viewtab: raise Unsupported('access to an unallocated view')
        return ViewPtr(n, tuple(a[1:1 + len(ex.viewtab[n].ext)]))
    if E.is_const(v): return mkp(v)
    if len(v.t) == 1:
        (m, c), = v.t.items()
        A = E.ATOMS[m[0][0]]
        if A.k == 'ite' and c == 1 and len(m) == 1:
            return PIte(A.a[0], i_ref(ex, st, [A.a[1]] + a[1:], r), i_ref(ex, st, [A.a[2]] + a[1:], r))
    raise Unsupported('symbolic view id')
@builtin('__vc_view_copy')
def i_copy(ex, st, a, r):
    st.views[E.cval(a[0])] = st.views[E.cval(a[1])]
@builtin('__vc_view_fill')
def i_fill(ex, st, a, r): st.views[E.cval(a[0])] = Fill(a[1])
@builtin('__vc_view_havoc')
def i_havoc(ex, st, a, r):
    n = _name(ex, st, a[1])
    k = ex.nfresh.get('view ' + n, 0); ex.nfresh['view ' + n] = k + 1
    vid = E.cval(a[0])
    st.views[vid] = Base(n if k == 0 else '%s#%d' % (n, k))
    if ex.viewtab[vid].name.startswith('view'): ex.viewtab[vid].name = n
@builtin('__vc_view_clone')
def i_clone(ex, st, a, r):
    src = ex.viewtab[E.cval(a[0])]
    vid = ex.new_view(st, src.ext, src.name + "'")
    st.views[vid] = st.views[src.id]
    return const(vid)
@builtin('__vc_atomic_add')
def i_atomic(ex, st, a, r):
    if isinstance(a[0], ViewPtr): ex.view_store(st, a[0], a[1], 'add')
    elif isinstance(a[0], PIte):
        raise Unsupported('atomic on conditional pointer')
    else: ex.store(st, a[0], DBL, E.add(ex.load(st, a[0], DBL), a[1]))
@builtin('__vc_parallel_for')
def i_pfor(ex, st, a, r):
    nd = E.cval(a[0]); dims = [(a[1 + 2 * d], a[2 + 2 * d]) for d in range(nd)]
    f, t = a[7], a[8]
    # thunks take three indices; missing ones are zero
    name = ex.stack[-2] if len(ex.stack) > 1 else '?'
    run_launch(ex, st, dims, t, f, [])
def run_launch(ex, st, dims, t, f, extra):
    class W: pass
    orig = ex.call_ptr
    pad = 3 - len(dims)
    def call(bs, fn, args, rty):
        ex.call_ptr = orig
        return orig(bs, fn, list(args) + [ZERO] * pad + extra, rty)
    ex.call_ptr = call
    try:
        return ex.run_launch(st, dims, t, f, ' / '.join(ex.stack[-3:-1]))
    finally: ex.call_ptr = orig

def alpha_key(goal, facts):
    '''the obligation up to renaming of its variables (injective, keeps integer/real)'''
    num = {}; out = []
    def P(p): return '+'.join('%s*%s' % (c, '.'.join('%d^%s' % (A(E.ATOMS[a]), e) for a, e in m)) for m, c in p.t.items())
    def A(a):
        n = num.get(a)
        if n is not None: return n
        if a.k == 'var': d = 'v%d' % bool(a.isint) if not (isinstance(a.a, str) and a.a[:3] in ('DBL', 'INT')) else 'V' + str(a.a)
        else: d = a.k + X(a.a)
        n = num[a] = len(num); out.append('%d:%s' % (n, d)); return n
    def X(x):
        if isinstance(x, E.Poly): return '(' + P(x) + ')'
        if isinstance(x, E.Atom): return '#%d' % A(x)
        if isinstance(x, E.B): return B(x)
        if isinstance(x, (tuple, list)): return '[' + ','.join(X(y) for y in x) + ']'
        return repr(x)
    def B(b):
        n = num.get(b)
        if n is not None: return '&%d' % n
        d = b.k + X(b.a); n = num[b] = len(num); out.append('%d=%s' % (n, d)); return '&%d' % n
    r = [B(goal)] + [B(f) for f in facts]
    return ';'.join(out) + '|' + ','.join(r)

class Reduction:
    def __init__(self, acc, its, dom, out, ident, name): self.acc = acc; self.its = its; self.dom = dom; self.out = out; self.ident = ident; self.name = name; self.leaves = None
def fold_leaves(out, acc):
    '''out = max(acc, e) case by case: list of (condition, e | None) with e independent of acc, or None when the shape is not recognised'''
    aid = E.lead(acc)[0][0][0]
    free = lambda x: not any(isinstance(t, E.Atom) and t.id == aid for t in E.walk([x]))
    def opened(p):
        while len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and E.ATOMS[m[0][0]].k == 'par': p = E.ATOMS[m[0][0]].a
            else: break
        return p
    def big(p): return any(len(m) == 1 and m[0][1] == 1 and E.ATOMS[m[0][0]].k in ('pos', 'ite') and not free(E.ATOMS[m[0][0]].a if E.ATOMS[m[0][0]].k == 'pos' else E.apoly(E.ATOMS[m[0][0]])) for m in p.t)
    def go(p, cond):
        p = opened(p)
        if p is acc: return [(cond, None)], True
        if free(p): return [(cond, p)], False
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and E.ATOMS[m[0][0]].k == 'ite' and free(E.ATOMS[m[0][0]].a[0]):
                A = E.ATOMS[m[0][0]]
                if free(E.apoly(A)): continue
                rest = E.sub(p, E.scale(E.apoly(A), c))
                l = go(E.add(rest, E.scale(A.a[1], c)), cond + [A.a[0]]); r = go(E.add(rest, E.scale(A.a[2], c)), cond + [E.bnot(A.a[0])])
                return None if l is None or r is None else (l[0] + r[0], l[1] and r[1])
        # p = base + c pos(A) = max(base, base + c A)
        for m, c in p.t.items():
            if c > 0 and len(m) == 1 and m[0][1] == 1 and E.ATOMS[m[0][0]].k == 'pos' and not free(E.ATOMS[m[0][0]].a):
                base = E.sub(p, E.mk({m: c})); up = E.add(base, E.scale(E.ATOMS[m[0][0]].a, c))
                if not any(x is acc or free(x) or big(x) for x in (opened(base), opened(up))): continue
                l = go(base, cond); r = go(up, cond)
                if l is not None and r is not None: return l[0] + r[0], l[1] or r[1]
                return None
        q = E.ZERO
        for m, c in p.t.items():          # open named sums that hide acc
            t = E.mk({m: c})
            if len(m) == 1 and m[0][1] == 1 and E.ATOMS[m[0][0]].k == 'par' and not free(t): t = E.scale(E.ATOMS[m[0][0]].a, c)
            q = E.add(q, t)
        if q is not p: return go(q, cond)
        return None
    r = go(out, [])
    return r[0] if r is not None and r[1] else None

@builtin('__vc_parallel_reduce')
def i_preduce(ex, st, a, r):
    """acc' = body(acc): the contract of a max-reduction. Obligations: body(acc) = max(acc, e) with e independent
    of acc, join = max, identity absorbing.  Result r: r >= e(it) for every iteration, r = identity or r = e(it*)."""
    nd = E.cval(a[0]); dims = [(a[1 + 2 * d], a[2 + 2 * d]) for d in range(nd)]
    f, t, ini, jn, res = a[7], a[8], a[9], a[10], a[11]
    if ini == NULL or ini is ZERO:
        ident = E.neg(E.var('DBL_MAX'))
        isid = True
    else:
        o = ex.newobj(st, 8, 'acc'); ex.call_ptr(st, ini, [f, Ptr(o, 0)], None)
        ident = ex.load(st, Ptr(o, 0), DBL)
        ja = ex.fresh('join_a'); jb = ex.fresh('join_b'); o1 = ex.newobj(st, 8, 'ja'); o2 = ex.newobj(st, 8, 'jb')
        ex.store(st, Ptr(o1, 0), DBL, ja); ex.store(st, Ptr(o2, 0), DBL, jb)
        ex.call_ptr(st, jn, [f, Ptr(o1, 0), Ptr(o2, 0)], None)
        ex.oblig('reduction join is max', E.eq(E.sub(ex.load(st, Ptr(o1, 0), DBL), E.vmax(ja, jb))), st, 'eq')
    acc = ex.fresh('acc')
    its = [ex.fresh('rit%d' % d, True) for d in range(nd)]
    dom = []
    for v, (b, e) in zip(its, dims): dom += [E.ge(E.sub(v, b)), E.ge(E.sub(E.sub(e, v), ONE))]
    bs = st.fork()
    for c in dom: bs.pc = pc_add(bs.pc, c)
    o = ex.newobj(bs, 8, 'acc'); ex.store(bs, Ptr(o, 0), DBL, acc)
    L = sym.Launch(bs.pc, o - 1); ex.launch = L      # the accumulator is the iteration's own
    try: ex.call_ptr(bs, t, [f] + its + [ZERO] * (3 - nd) + [Ptr(o, 0)], None)
    finally: ex.launch = None
    if L.log: raise Unsupported('reduction body writes a view')
    out = ex.load(bs, Ptr(o, 0), DBL)
    R = Reduction(acc, its, dom, out, ident, ex.stack[-1])
    rv = ex.fresh('reduced')
    ex.reductions = getattr(ex, 'reductions', {}); ex.reductions[E.lead(rv)[0][0][0]] = R
    R.leaves = fold_leaves(out, acc)
    sub = lambda p, x: E.Subst({E.lead(acc)[0][0][0]: x}).p(p)
    if R.leaves is None:
        # body(acc) = max(acc, e) for some e independent of acc  <=>  max(body(a), b) = max(body(b), a)
        acc2 = ex.fresh('acc2'); o2 = sub(out, acc2)
        ex.oblig('reduction body folds with max', E.eq(E.sub(E.vmax(out, acc2), E.vmax(o2, acc))), bs, 'eq')
    else: ex.oblig('reduction body folds with max', TRUE, bs, 'eq')
    # some iteration attains the result
    wit = [ex.fresh('wit%d' % d, True) for d in range(nd)]
    am = {E.lead(i)[0][0][0]: w for i, w in zip(its, wit)}
    s = E.Subst(am)
    att = E.bor(E.eq(E.sub(rv, ident)), E.band(*[s.b(c) for c in dom], E.eq(E.sub(sub(s.p(out), ident), rv))))
    st.pc = pc_add(st.pc, att)
    st.pc = pc_add(st.pc, E.ge(E.sub(rv, ident)))
    ex.store(st, res, DBL, rv)
@builtin('__vc_reduce_instance')
def i_rinst(ex, st, a, r):
    # (result, linear number of the cell, its coordinates): whichever the loop iterates over
    rv = a[0]
    for at in E.walk([rv]):
        if isinstance(at, E.Atom) and at.id in getattr(ex, 'reductions', {}):
            R = ex.reductions[at.id]; v = E.apoly(at)
            am = {E.lead(i)[0][0][0]: x for i, x in zip(R.its, a[1:] if len(R.its) == 1 else a[2:])}
            am[E.lead(R.acc)[0][0][0]] = v
            s = E.Subst(am)
            if R.leaves is None: fs = [E.implies(E.band(*[s.b(c) for c in R.dom]), E.eq(E.sub(s.p(R.out), v)))]
            else: fs = [E.implies(E.band(*[s.b(c) for c in R.dom + cond]), E.ge(E.sub(v, s.p(e)))) for cond, e in R.leaves if e is not None]
            for x in fs: st.pc = pc_add(st.pc, x)
            return
    raise Unsupported('not a reduction result')
@builtin('__vc_uf')
def i_uf(ex, st, a, r):
    n = _name(ex, st, a[0]); k = E.cval(a[1])
    return E.app(n, *[ex.load(st, Ptr(a[2].o, a[2].off + 8 * i), DBL) for i in range(k)])

# ------------------------------------------------------------ default overrides
def ov_nop(ex, st, a, rty, d):
    if rty is None or rty.k == 'void': return None
    return ex.zero(rty)
def ov_ret0(ex, st, a, rty, d): return a[0] if a else None
def ov_nop_sret(ex, st, a, rty, d): return None if rty is None or rty.k == 'void' else ex.zero(rty)
def ov_ptr(ex, st, a, rty, d): return Ptr(ex.newobj(st, 64, 'opaque'), 0)

DEFAULT_OV = [
    (r'^std::map<int, std::shared_ptr<.*Timer>.*::operator\[\]', ov_ptr),
    (r'^std::(__shared_ptr_access|shared_ptr|__shared_ptr)<.*Timer.*operator->', ov_ptr),
    (r'^std::ostream::|^std::basic_ostream|operator<<|^std::operator<<|^std::endl|^std::setw|^std::setprecision', ov_ret0),
    (r'^std::ios_base::|^std::basic_ios', ov_nop),
]

def ov_mapstr(ex, st, a, rty, d):
    o = ex.newobj(st, 32, 'string'); ex.store(st, Ptr(o, 0), PTRT, Ptr(o, 16)); ex.store(st, Ptr(o, 8), I64T, ZERO); ex.store(st, Ptr(o, 16), I8T, ZERO)
    return Ptr(o, 0)
_ir = __import__('ir')
PTRT = _ir.PTR; I64T = INT(64); I8T = INT(8)
DEFAULT_OV += [(r'^std::map<int, std::(__cxx11::)?basic_string.*::operator\[\]', ov_mapstr),
               (r'^std::shared_ptr<.*Timer.*std::make_shared<.*Timer', ov_nop_sret),
               (r'^std::shared_ptr<.*Timer.*operator=|^std::(__)?shared_ptr<.*Timer.*::~', ov_ret0)]
def ov_disjunct(ex, st, a, rty, d):
    p = ex.load(st, a[0], PTRT); q = a[1]
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.o != q.o: return TRUE
    if isinstance(p, Ptr) and isinstance(q, Ptr):
        n = E.cval(ex.load(st, Ptr(a[0].o, a[0].off + 8), I64T)); return TRUE if q.off < p.off or q.off > p.off + n else FALSE
    raise Unsupported('string aliasing')
DEFAULT_OV += [(r'^std::(__cxx11::)?basic_string<char.*::_M_disjunct', ov_disjunct)]
def ov_call(target):
    def f(ex, st, a, rty, d):
        if target == 'nop': return None if rty is None or rty.k == 'void' else ex.zero(rty)
        return ex.call(st, '@' + target, a, rty)
    return f
def harness_overrides(src):
    """contract substitutions written in the harness:  // VC-OVERRIDE: <regex on the demangled name> => <contract function>"""
    out = []
    for l in open(src):
        m = re.match(r'\s*// VC-OVERRIDE: (.*?) => (\w+)\s*$', l)
        if m: out.append((m.group(1), ov_call(m.group(2))))
        m = re.match(r'#include "(\w+\.h)"', l)
        if m and os.path.exists(os.path.join(os.path.dirname(src), m.group(1))): out += harness_overrides(os.path.join(os.path.dirname(src), m.group(1)))
    return out

def small_real(c):
    if c.k == 'not': c = c.a
    return c.k in ('ge', 'eq') and len(c.a.t) <= 60

def run_harness(irpath, fn, overrides=(), check_bounds=False, check_race=False, timeout=60, verbose=False, exec_limit=400, globals_init=False):
    """returns dict with obligations and outcomes"""
    t0 = time.time()
    m, dem = load(irpath)
    ex = Exec(m, dem, list(overrides) + DEFAULT_OV, check_bounds, check_race)
    ex.deadline = time.time() + exec_limit
    def decider(pc, c):
        # quick integer reasoning for loop bounds and guards inside executed code
        if not PR.lit_int(c) and not small_real(c): return None
        ctx = CT.get(id(pc))
        if ctx is None:
            CT[id(pc)] = ctx = (PR.Ctx(pc.lits()), pc)
        return ctx[0].decide(c)
    CT = {}
    ex.decider = decider
    st = State()
    out = {'fn': fn, 'obligations': [], 'error': None}
    try:
        if globals_init:
            for _, c in m.ctors:
                if c and c.startswith('@'): ex.call(st, c, [], None)
        ex.call(st, '@' + fn, [], None)
    except Stop as e:
        out['error'] = 'harness stopped: %s' % e.why
    except (Unsupported, IRError) as e:
        out['error'] = 'unsupported: %s   [in %s]' % (e, ' < '.join(x[:100] for x in (getattr(ex, 'errstack', None) or ['?'])[-1:-6:-1]))
    t1 = time.time()
    out['exec_s'] = round(t1 - t0, 2); out['steps'] = ex.steps
    if out['error'] is None and not ex.obl: out['error'] = 'no obligations generated'
    if check_race and out['error'] is None:
        import races
        races.add_obligations(ex)
    done = {}
    failed = 0
    for o in ex.obl:
        facts = o.pc.lits()
        key = (o.goal.id, tuple(sorted(f.id for f in facts)))
        if key in done:
            ok, why, be = done[key]
        else:
            ak = alpha_key(o.goal, facts)
            if ak in done:        # the same statement about other variables: proved once
                done[key] = done[ak]
                ok, why, be = done[key]
                if verbose: print('   %-60s %s (renaming of an earlier one)' % (o.label[:60], ok))
                out['obligations'].append({'label': o.label, 'ok': ok, 'why': None if ok else why, 'where': o.where, 'backends': {'renaming': 1}, 'kind': o.kind})
                if not ok:
                    failed += 1
                    if failed >= 6: break
                continue
            P = PR.Prover(timeout if not failed else min(timeout, 15))
            t = time.time()
            try:
                ok = False
                if o.kind == 'race' and o.vals is not None:
                    P0 = PR.Prover(5); ok = P0.prove(*o.vals)
                    if ok: P = P0
                ok = ok or P.prove(o.goal, facts)
            except (Unsupported,) as e:
                ok = None; P.why = 'unsupported: %s' % e
            ok = bool(ok); why = P.why; be = P.backends
            dt = time.time() - t
            if verbose: print('   %-60s %s %.2fs %s' % (o.label[:60], 'ok' if ok else 'FAIL ' + str(why), dt, be))
            done[key] = done[ak] = (ok, why, be)
        out['obligations'].append({'label': o.label, 'ok': ok, 'why': None if ok else why, 'where': o.where, 'backends': be, 'kind': o.kind})
        if not ok:
            failed += 1
            if failed >= 6: break
    # vacuity: the hypotheses of the last obligation must not be contradictory
    if ex.obl and out['error'] is None:
        seen = set(); vac = 0
        for o in [o for o in ex.obl if o.kind not in ('race', 'bounds', 'mem')][-3:]:
            facts = o.pc.lits()
            k = tuple(sorted(f.id for f in facts))
            if k in seen: continue
            seen.add(k)
            P = PR.Prover(20)
            ctx = PR.Ctx(facts)
            if ctx.infeasible(): vac += 1; continue
            P.end = time.time() + 20
            P.z3_ms = 2000
            try:
                if P.smt(FALSE, PR.Ctx([ctx.resb(f) for f in facts])): vac += 1
            except Exception: pass
        out['vacuous'] = vac
        if vac: out['error'] = 'vacuous: contradictory hypotheses'
    out['assumed'] = ex.assumed; out['functions'] = {k: v for k, v in ex.used_funcs.items()}; out['contracts'] = ex.contracts
    out['dropped'] = sorted(set(ex.dropped))
    out['launches'] = ex.launches
    out['prove_s'] = round(time.time() - t1, 2)
    out['solver'] = {k: [PR.STATS.n[k], round(v, 2)] for k, v in PR.STATS.t.items()}
    return out

if __name__ == '__main__':
    src = sys.argv[1]; fn = sys.argv[2]; defs = sys.argv[3:]
    p = '/tmp/vc_%s_%s.ll' % (hashlib.md5((src + ' '.join(defs)).encode()).hexdigest()[:10], fn)
    compile_ir(src, defs, p)
    r = run_harness(p, fn, harness_overrides(src), verbose=True); os.remove(p)
    r['functions'] = len(r['functions'])
    print(json.dumps({k: v for k, v in r.items() if k != 'obligations'}, indent=1)[:3000])
    print(len(r['obligations']), 'obligations', sum(o['ok'] for o in r['obligations']), 'ok')
