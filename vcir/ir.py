"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang++-18 emits.

Only the subset clang produces for the code under verification is supported; anything
else raises IRError, which the driver reports as an undecided obligation, never as "proved".
"""
import re, struct
from fractions import Fraction

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'name', 'packed', '_size', '_align', '_offs')
    def __init__(self, k, n=0, el=None, fields=None, name=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.fields = fields; self.name = name
        self.packed = packed; self._size = None; self._align = None; self._offs = None
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.fields or []))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); DBL = Ty('double'); FLT = Ty('float'); LABEL = Ty('label')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('i', n)
    return _ints[n]

TOK = re.compile(r'''
  "(?:[^"\\]|\\.)*" | c"(?:[^"])*" | [%@]"[^"]*" | [%@][-a-zA-Z$._0-9]+ | \#\d+ | \![-a-zA-Z0-9_.]* |
  0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | \.\.\. | [A-Za-z_$][\w$.]* | [\[\]{}()<>,=*:|]
''', re.X)

FP_KINDS = {'double': DBL, 'float': FLT, 'x86_fp80': Ty('x86_fp80'), 'half': Ty('half'), 'fp128': Ty('fp128')}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg'}
ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'returned', 'nest', 'immarg', 'noinline', 'nofree', 'allocptr', 'nofpclass', 'dso_local', 'local_unnamed_addr',
         'unnamed_addr', 'dead_on_unwind', 'writable', 'noreturn', 'captures', 'allocalign', 'swiftself'}

def tokenize(s):
    return TOK.findall(s)

class Value:
    """operand: kinds reg, const-int, fp, null, undef, zero, glob, agg, cexpr, str"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty): self.k = k; self.v = v; self.ty = ty
    def __repr__(self): return '<%s %s>' % (self.k, self.v)

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x')
    def __init__(self, op, dst=None, ty=None, args=(), x=None):
        self.op = op; self.dst = dst; self.ty = ty; self.args = args; self.x = x

class Block:
    __slots__ = ('name', 'ins', 'succ')
    def __init__(self, name): self.name = name; self.ins = []; self.succ = []

class Func:
    def __init__(self, name): self.name = name; self.params = []; self.rty = None; self.blocks = {}; self.order = []; self.decl = True; self.lines = None; self._wto = None

class P:
    """token stream parser"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def accept(self, s):
        if self.peek() == s: self.i += 1; return True
        return False
    def expect(self, s):
        x = self.next()
        if x != s: raise IRError('expected %s got %s in %s' % (s, x, ' '.join(self.t)[:200]))
    def type(self):
        t = self.next()
        if t == 'void': r = VOID
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace': raise IRError('addrspace')
        elif t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t in FP_KINDS: r = FP_KINDS[t]
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = Ty('metadata')
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); r = Ty('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next(); r = Ty('struct', fields=self.tylist('}'), packed=True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); r = Ty('vec', n, e)
        elif t == '{':
            r = Ty('struct', fields=self.tylist('}'))
        elif t[0] == '%':
            r = self.m.named(t)
        else:
            raise IRError('type? %s in %s' % (t, ' '.join(self.t)[:200]))
        if self.peek() == '(':   # function type
            self.next(); depth = 1
            while depth:
                x = self.next()
                if x == '(': depth += 1
                elif x == ')': depth -= 1
            r = Ty('fn', el=r)
        return r
    def tylist(self, end):
        out = []
        if self.accept(end): return out
        while True:
            out.append(self.type())
            if self.accept(end): return out
            self.expect(',')
    def skip_attrs(self):
        out = []
        while True:
            t = self.peek()
            if t is None: return out
            if t in ATTRS or t[0] == '#': self.next(); out.append(t)
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'preallocated', 'inalloca', 'elementtype', 'memory', 'allocsize', 'range', 'initializes'):
                self.next()
                if t == 'align' and self.peek() != '(':
                    self.next(); out.append('align')
                elif self.peek() == '(':
                    self.next()
                    if t in ('byval', 'sret'):
                        ty = self.type(); self.expect(')'); out.append((t, ty))
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            if x == '(': d += 1
                            elif x == ')': d -= 1
            else: return out
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return Value('reg', t, ty)
        if t[0] == '@': return Value('glob', t, ty)
        if t == 'null' : return Value('null', None, ty)
        if t in ('undef', 'poison'): return Value('undef', None, ty)
        if t == 'zeroinitializer': return Value('zero', None, ty)
        if t == 'true': return Value('int', 1, ty)
        if t == 'false': return Value('int', 0, ty)
        if t == 'none': return Value('null', None, ty)
        if t[0] == 'c' and t.startswith('c"'):
            return Value('str', _unesc(t[2:-1]), ty)
        if ty.k == 'i':
            if re.fullmatch(r'-?\d+', t): return Value('int', int(t), ty)
        if ty.k in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            return Value('fp', parse_fp(t), ty)
        if t in ('[', '{', '<'):
            if t == '<' and self.peek() == '{':
                self.next(); vals = self.vlist('}'); self.expect('>'); return Value('agg', vals, ty)
            end = {'[': ']', '{': '}', '<': '>'}[t]
            return Value('agg', self.vlist(end), ty)
        if t == 'getelementptr':
            while self.peek() in FMF or self.peek() == 'inrange':
                self.next()
            self.expect('('); bt = self.type(); self.expect(','); pt = self.type(); b = self.value(pt); idx = []
            while self.accept(','):
                if self.peek() == 'inrange': self.next()
                it = self.type(); idx.append(self.value(it))
            self.expect(')')
            return Value('cgep', (bt, b, idx), ty)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('('); a = self.type(); v = self.value(a); self.expect('to'); b = self.type(); self.expect(')')
            return Value('ccast', (t, v, b), ty)
        if t in ('sub', 'add', 'mul', 'and', 'icmp', 'select', 'or', 'xor'):
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            return Value('unsupported', t, ty)
        if t == 'blockaddress' or t == 'asm':
            raise IRError(t)
        raise IRError('value? %s (ty %r) in %s' % (t, ty, ' '.join(self.t)[:300]))
    def vlist(self, end):
        out = []
        if self.accept(end): return out
        while True:
            t = self.type(); out.append(self.value(t))
            if self.accept(end): return out
            self.expect(',')
    def tv(self):
        t = self.type(); self.skip_attrs(); return self.value(t)

def _unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\' and re.match(r'[0-9A-Fa-f]{2}', s[i+1:i+3]):
            out.append(int(s[i+1:i+3], 16)); i += 3
        elif s[i] == '\\' and s[i+1:i+2] == '\\':
            out.append(92); i += 2
        else:
            out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)

_fpcache = {}
def parse_fp(t):
    if t in _fpcache: return _fpcache[t]
    if t.startswith('0xK'):
        h = int(t[3:], 16); sign = h >> 79; e = (h >> 64) & 0x7fff; m = h & ((1 << 64) - 1)
        v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63)); v = -v if sign else v
        r = v
    elif t.startswith('0x'):
        d = struct.unpack('>d', struct.pack('>Q', int(t, 16)))[0]
        r = d
    else:
        r = float(t)
    if isinstance(r, float):
        if r != r or r in (float('inf'), float('-inf')):
            _fpcache[t] = r
            return r
        r = rationalize(r)
    _fpcache[t] = r
    return r

def rationalize(d):
    """A double literal stands for the simplest rational that rounds to it (so 0.1 is 1/10)."""
    if d == int(d) and abs(d) < 2**53: return Fraction(int(d))
    f = Fraction(d)
    g = f.limit_denominator(100000)
    if g != 0 and float(g) == d: return g
    # decimal literal (shortest repr that rounds to the double)
    s = repr(d)
    return Fraction(s)

class Module:
    def __init__(self):
        self.types = {}; self.funcs = {}; self.globals = {}; self.aliases = {}
        self.ctors = []
    def named(self, n):
        if n not in self.types: self.types[n] = Ty('struct', name=n)
        return self.types[n]

    # ------------------------------------------------------------ layout
    def size(self, t):
        if t._size is None: self._layout(t)
        return t._size
    def align(self, t):
        if t._align is None: self._layout(t)
        return t._align
    def offsets(self, t):
        if t._offs is None: self._layout(t)
        return t._offs
    def _layout(self, t):
        k = t.k
        if k == 'i':
            b = 1
            while b * 8 < t.n: b *= 2
            t._size = b; t._align = min(b, 16)
        elif k == 'ptr': t._size = 8; t._align = 8
        elif k == 'double': t._size = 8; t._align = 8
        elif k == 'float': t._size = 4; t._align = 4
        elif k == 'x86_fp80': t._size = 16; t._align = 16
        elif k == 'arr':
            t._size = t.n * self.size(t.el); t._align = self.align(t.el)
        elif k == 'vec':
            t._size = t.n * self.size(t.el); t._align = t._size
        elif k == 'struct':
            if t.fields is None: raise IRError('opaque struct %s' % t.name)
            o = 0; al = 1; offs = []
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                o = (o + a - 1) // a * a
                offs.append(o); o += self.size(f); al = max(al, a)
            o = (o + al - 1) // al * al
            t._size = o; t._align = al; t._offs = offs
        else:
            raise IRError('size of %r' % t)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            return self.func(self.aliases[name])
        if f is not None and not f.decl and not f.blocks:
            self._parse_body(f)
        return f

    # ------------------------------------------------------------ text
    @staticmethod
    def parse(text):
        m = Module()
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] in ';!$' or ln.startswith(('source_filename', 'target ', 'attributes ', 'module asm', ' ')):
                i += 1; continue
            if ln[0] == '%':
                nm, rest = ln.split(' = type ', 1)
                t = m.named(nm.strip())
                if rest.strip() != 'opaque':
                    x = P(tokenize(rest), m).type()
                    t.fields = x.fields; t.packed = x.packed
                i += 1; continue
            if ln[0] == '@':
                m._parse_global(ln); i += 1; continue
            if ln.startswith('declare'):
                m._parse_header(ln, True); i += 1; continue
            if ln.startswith('define'):
                f = m._parse_header(ln, False); i += 1; body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.lines = body; i += 1; continue
            i += 1
        return m

    def _parse_global(self, ln):
        nm, rest = ln.split(' = ', 1)
        toks = tokenize(rest); p = P(toks, self)
        ext = False; const = False
        while True:
            t = p.peek()
            if t in ('private', 'internal', 'external', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'common', 'appending', 'extern_weak', 'available_externally',
                     'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'thread_local', 'unnamed_addr', 'local_unnamed_addr', 'externally_initialized'):
                if t in ('external', 'extern_weak'): ext = True
                p.next()
                if t == 'thread_local' and p.peek() == '(':
                    while p.next() != ')': pass
            else: break
        t = p.next()
        if t == 'alias' or t == 'ifunc':
            p.type(); p.expect(','); p.type(); v = p.next()
            self.aliases[nm] = v
            return
        if t not in ('global', 'constant'): raise IRError('global? ' + ln[:200])
        const = t == 'constant'
        ty = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            try:
                init = p.value(ty)
            except IRError as e:
                init = Value('unsupported', str(e), ty)
        self.globals[nm] = (ty, init, const)
        if nm == '@llvm.global_ctors' and init is not None and init.k == 'agg':
            for a in init.v:
                self.ctors.append((a.v[0].v, a.v[1].v))

    def _parse_header(self, ln, decl):
        toks = tokenize(ln); p = P(toks, self); p.next()
        while p.peek() in ('private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden',
                           'protected', 'default', 'fastcc', 'ccc', 'coldcc', 'extern_weak') or p.peek() in ATTRS:
            p.next()
        ratt = p.skip_attrs()
        rty = p.type()
        if rty.k == 'fn': raise IRError('fn type header')
        name = p.next()
        if name in self.funcs and decl: return self.funcs[name]
        f = Func(name); f.rty = rty; f.decl = decl
        p.expect('(')
        idx = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')'); break
                t = p.type(); at = p.skip_attrs(); nm = None
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                if nm is None: nm = '%%%d' % idx
                idx += 1
                f.params.append((t, nm, at))
                if p.accept(')'): break
                p.expect(',')
        self.funcs[name] = f
        return f

    def _parse_body(self, f):
        lines = f.lines; f.lines = None
        # implicit entry label number = number of unnamed params
        k = sum(1 for (_, nm, _) in f.params if nm[1:].isdigit())
        cur = Block('%%%d' % k)
        first = True
        i = 0
        def add(b):
            f.blocks[b.name] = b; f.order.append(b.name)
        while i < len(lines):
            ln = lines[i].strip(); i += 1
            if not ln or ln[0] == ';': continue
            mm = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if mm and not lines[i-1].startswith(' '):
                nm = mm.group(1)
                if first and not cur.ins:
                    cur = Block('%' + nm); first = False
                else:
                    add(cur); cur = Block('%' + nm); first = False
                continue
            first = False
            # join multi line (switch, invoke, landingpad)
            if ln.startswith('switch') or ' = switch' in ln:
                while ']' not in ln:
                    ln += ' ' + lines[i].strip(); i += 1
            elif 'invoke ' in ln and ' unwind label' not in ln:
                ln += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in ln:
                while i < len(lines) and lines[i].strip().startswith(('catch', 'cleanup', 'filter')):
                    i += 1
            try:
                cur.ins.append(self._instr(ln))
            except IRError as e:
                cur.ins.append(Instr('unsupported', None, None, (), '%s: %s' % (e, ln[:160])))
        add(cur)
        for b in f.blocks.values():
            t = b.ins[-1] if b.ins else None
            if t is None: continue
            if t.op == 'br': b.succ = list(t.x)
            elif t.op == 'switch': b.succ = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['normal']]

    BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

    def _instr(self, ln):
        c = ln.find(', !')
        if c >= 0: ln = ln[:c]
        toks = tokenize(ln); p = P(toks, self)
        dst = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in self.BIN:
            while p.peek() in FMF: p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, dst, t, (a, b))
        if op == 'fneg':
            while p.peek() in FMF: p.next()
            t = p.type(); return Instr(op, dst, t, (p.value(t),))
        if op in self.CAST:
            while p.peek() in FMF: p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Instr(op, dst, t2, (a,), t)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF: p.next()
            pred = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, dst, t, (a, b), pred)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type(); n = None
            if p.accept(','):
                if p.peek() != 'align': n = p.tv()
            return Instr(op, dst, t, (), n)
        if op == 'load':
            p.accept('atomic'); p.accept('volatile')
            t = p.type(); p.expect(','); a = p.tv(); return Instr('load', dst, t, (a,))
        if op == 'store':
            p.accept('atomic'); p.accept('volatile')
            v = p.tv(); p.expect(','); a = p.tv(); return Instr('store', None, v.ty, (v, a))
        if op == 'getelementptr':
            while p.peek() in FMF: p.next()
            t = p.type(); p.expect(','); b = p.tv(); idx = []
            while p.accept(','): idx.append(p.tv())
            return Instr('gep', dst, t, (b,) + tuple(idx))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Instr('br', None, None, (), [p.next()])
            c = p.tv(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Instr('br', None, None, (c,), [a, b])
        if op == 'switch':
            v = p.tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('['); cs = []
            while not p.accept(']'):
                cv = p.tv(); p.expect(','); p.expect('label'); cs.append((cv.v, p.next()))
            return Instr('switch', None, None, (v,), (d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Instr('ret', None, None, ())
            return Instr('ret', None, t, (p.value(t),))
        if op == 'unreachable': return Instr('unreachable')
        if op == 'resume': return Instr('resume')
        if op == 'landingpad': return Instr('landingpad', dst)
        if op == 'phi':
            while p.peek() in FMF: p.next()
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']'); inc.append((l, v))
                if not p.accept(','): break
            return Instr('phi', dst, t, (), inc)
        if op == 'select':
            while p.peek() in FMF: p.next()
            c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
            return Instr('select', dst, a.ty, (c, a, b))
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
            p.skip_attrs(); t = p.type()
            if t.k == 'fn': t = t.el
            if p.peek() == 'asm': return Instr('asm', dst, t)
            if p.peek()[0] in '%@':
                callee = Value('glob' if p.peek()[0] == '@' else 'reg', p.next(), PTR)
            else:
                callee = p.value(PTR)
            p.expect('('); args = []
            if not p.accept(')'):
                while True:
                    at = p.type(); aa = p.skip_attrs()
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(': d += 1
                            if x == ')': d -= 1
                        args.append((Value('undef', None, at), aa))
                    else:
                        args.append((p.value(at), aa))
                    if p.accept(')'): break
                    p.expect(',')
            x = {'callee': callee}
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.expect('label'); x['normal'] = p.next(); p.expect('unwind'); p.expect('label'); x['unwind'] = p.next()
            return Instr(op, dst, t, tuple(args), x)
        if op == 'extractvalue':
            a = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, dst, None, (a,), idx)
        if op == 'insertvalue':
            a = p.tv(); p.expect(','); b = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, dst, a.ty, (a, b), idx)
        if op == 'extractelement':
            a = p.tv(); p.expect(','); b = p.tv(); return Instr(op, dst, None, (a, b))
        if op == 'insertelement':
            a = p.tv(); p.expect(','); b = p.tv(); p.expect(','); c = p.tv(); return Instr(op, dst, a.ty, (a, b, c))
        if op == 'shufflevector':
            a = p.tv(); p.expect(','); b = p.tv(); p.expect(','); c = p.tv(); return Instr(op, dst, None, (a, b, c))
        if op == 'freeze':
            a = p.tv(); return Instr(op, dst, a.ty, (a,))
        if op == 'fence': return Instr('nop')
        if op == 'atomicrmw':
            p.accept('volatile'); k = p.next(); a = p.tv(); p.expect(','); b = p.tv()
            return Instr('atomicrmw', dst, b.ty, (a, b), k)
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile'); a = p.tv(); p.expect(','); b = p.tv(); p.expect(','); c = p.tv()
            return Instr('cmpxchg', dst, b.ty, (a, b, c))
        raise IRError('instr? ' + op)

# ---------------------------------------------------------------- weak topological order
def wto(f):
    """Bourdoncle weak topological order; returns {block: (path)} where path is a tuple
    (pos0, head0, pos1, head1, ..., pos) used to schedule merging execution."""
    if f._wto is not None: return f._wto
    import sys
    sys.setrecursionlimit(100000)
    succ = {b: [s for s in bl.succ] for b, bl in f.blocks.items()}
    dfn = {b: 0 for b in f.blocks}; num = [0]; stack = []
    def visit(v, part):
        stack.append(v); num[0] += 1; head = dfn[v] = num[0]; loop = False
        for s in succ[v]:
            if dfn[s] == 0: mn = visit(s, part)
            else: mn = dfn[s]
            if mn <= head: head = mn; loop = True
        if head == dfn[v]:
            dfn[v] = float('inf')
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0; e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head
    def component(v):
        part = []
        for s in succ[v]:
            if dfn[s] == 0: visit(s, part)
        return [v] + [('sub', part)]
    top = []
    if f.order:
        visit(f.order[0], top)
    res = {}
    def number(lst, prefix):
        for pos, e in enumerate(lst):
            if isinstance(e, list):
                hd = e[0]; sub = e[1][1]
                pfx = prefix + ((pos, hd),)
                res[hd] = (pfx, -1)
                number(sub, pfx)
            else:
                res[e] = (prefix, pos)
    number(top, ())
    f._wto = res
    return res
