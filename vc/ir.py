"""Reader for LLVM 18 textual IR (opaque pointers).  Function bodies are parsed lazily."""
import re, struct

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "_size", "_al", "_offs", "packed")
    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.name = name; self._size = None; self._al = None; self._offs = None; self.packed = packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('array', 'vec'): return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.el)) if self.name is None else '%' + self.name
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float'); LABEL = Ty('label'); META = Ty('metadata'); X86FP = Ty('x86_fp80'); TOKEN = Ty('token')
_INTS = {}
def INT(n):
    if n not in _INTS: _INTS[n] = Ty('int', n)
    return _INTS[n]

class IRError(Exception): pass

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9\\]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9a-fA-F]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*|])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if c == ';': break
        m = TOK.match(s, i)
        if not m: raise IRError("token: %r" % s[i:i+60])
        i = m.end(); k = m.lastgroup
        if k == 'ws': continue
        out.append((k, m.group()))
    return out

def unq(s):
    if s.startswith('"') and s.endswith('"'):
        return re.sub(r'\\([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s[1:-1])
    return s

# constants / operands: tuples
#  ('c', int) ('f', float) ('null',) ('undef',) ('zero',) ('l', name) ('g', name) ('agg', [ (ty,op)... ]) ('str', bytes) ('ce', opcode, ty, operands...)
PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext','inreg','returned','immarg','nofree','nest','swiftself','swifterror','writable','dead_on_unwind','allocptr','noreturn','nounwind','nobuiltin','builtin','cold','allocsize','memory','inrange','uwtable'}
PARAM_ATTRS_TY = {'sret','byval','byref','inalloca','preallocated','elementtype'}
PARAM_ATTRS_N = {'align','dereferenceable','dereferenceable_or_null','nofpclass','range'}
LINKAGE = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external'}
SKIPW = LINKAGE | {'dso_local','dso_preemptable','default','hidden','protected','dllimport','dllexport','unnamed_addr','local_unnamed_addr','fastcc','ccc','coldcc','tail','musttail','notail','thread_local','externally_initialized'}
FASTM = {'nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','nuw','nsw','exact','disjoint','nneg','inbounds','samesign','volatile','atomic','weak'}

class P:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def pk(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None
    def pkk(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None
    def nx(self):
        v = self.t[self.i]; self.i += 1; return v
    def acc(self, s):
        if self.pk() == s: self.i += 1; return True
        return False
    def exp(self, s):
        if not self.acc(s): raise IRError("expected %r at %r" % (s, [x[1] for x in self.t[self.i:self.i+8]]))
    def skip_words(self, ws):
        while self.pkk() == 'word' and self.pk() in ws: self.i += 1
    # types
    def ty(self):
        k, v = self.nx()
        if k == 'word':
            if v == 'ptr':
                if self.pk() == 'addrspace': self.i += 4
                t = PTR
            elif v[0] == 'i' and v[1:].isdigit(): t = INT(int(v[1:]))
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'void': t = VOID
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'x86_fp80': t = X86FP
            elif v == 'token': t = TOKEN
            elif v == 'opaque': t = Ty('struct', el=[])
            elif v == 'target': raise IRError('target ty')
            else: raise IRError("type %r" % v)
        elif k == 'lid':
            t = self.m.named(unq(v[1:]))
        elif v == '[':
            n = int(self.nx()[1]); self.exp('x'); e = self.ty(); self.exp(']'); t = Ty('array', n, e)
        elif v == '<':
            if self.pk() == '{':
                self.nx(); t = self._struct(True); self.exp('>')
            else:
                n = int(self.nx()[1]); self.exp('x'); e = self.ty(); self.exp('>'); t = Ty('vec', n, e)
        elif v == '{': t = self._struct(False)
        else: raise IRError("type tok %r" % v)
        # function type?
        if self.pk() == '(' and getattr(self, 'allow_fn', False):
            d = 0
            while True:
                x = self.nx()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            f = Ty('fn'); f.el = t; return f
        return t
    def _struct(self, packed):
        el = []
        if not self.acc('}'):
            while True:
                el.append(self.ty())
                if self.acc('}'): break
                self.exp(',')
        return Ty('struct', el=el, packed=packed)
    def pattrs(self):
        """skip parameter attributes; returns byval type or None"""
        bv = None
        while True:
            k = self.pkk(); v = self.pk()
            if k == 'word' and v in PARAM_ATTRS_TY:
                self.i += 1
                if self.acc('('):
                    t = self.ty(); self.exp(')')
                    if v == 'byval': bv = t
            elif k == 'word' and v in PARAM_ATTRS_N:
                self.i += 1
                if self.acc('('):
                    while not self.acc(')'): self.i += 1
                elif self.pkk() == 'num': self.i += 1
            elif k == 'word' and v in PARAM_ATTRS:
                self.i += 1
                if self.pk() == '(' :
                    d = 0
                    while True:
                        x = self.nx()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
            elif k == 'attr': self.i += 1
            elif k == 'str':
                self.i += 1
                if self.acc('='): self.i += 1
            else: return bv
    def val(self, ty):
        k, v = self.nx()
        if k == 'lid': return ('l', unq(v[1:]))
        if k == 'gid': return ('g', unq(v[1:]))
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'):
                    return ('f', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
                return ('f', float(v))
            if ty.k == 'x86_fp80': 
                return ('f', _fp80(v))
            return ('c', int(v, 0) & ((1 << ty.n) - 1))
        if k == 'str':
            assert v[0] == 'c'
            b = bytearray(); s = v[2:-1]; i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('str', bytes(b))
        if k == 'word':
            if v in ('true',): return ('c', 1)
            if v in ('false',): return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v in ('zeroinitializer', 'none'): return ('zero',)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.val(ty)
            # constant expressions
            op = v
            self.skip_words(FASTM)
            if op == 'getelementptr':
                while self.pk() in ('inbounds', 'nuw', 'nusw'): self.i += 1
                self.exp('('); sty = self.ty(); ops = []
                while self.acc(','):
                    self.skip_words({'inrange'})
                    t = self.ty(); ops.append((t, self.val(t)))
                self.exp(')'); return ('ce', 'gep', sty, ops)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); t = self.ty(); x = self.val(t); self.exp('to'); t2 = self.ty(); self.exp(')')
                return ('ce', op, t2, [(t, x)])
            if op in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                self.exp('('); t = self.ty(); a = self.val(t); self.exp(','); t2 = self.ty(); b = self.val(t2); self.exp(')')
                return ('ce', op, t, [(t, a), (t2, b)])
            if op == 'icmp':
                pr = self.nx()[1]; self.exp('('); t = self.ty(); a = self.val(t); self.exp(','); t2 = self.ty(); b = self.val(t2); self.exp(')')
                return ('ce', 'icmp ' + pr, t, [(t, a), (t2, b)])
            raise IRError("const %r" % v)
        if v in ('[', '{', '<'):
            if v == '<' and self.pk() == '{':
                self.nx(); close = '}'; packed = True
            else: close = {'[': ']', '{': '}', '<': '>'}[v]; packed = False
            el = []
            if not self.acc(close):
                while True:
                    t = self.ty(); el.append((t, self.val(t)))
                    if self.acc(close): break
                    self.exp(',')
            if packed: self.exp('>')
            return ('agg', el)
        if k == 'meta':
            # metadata operand; skip
            if self.pk() == '(':
                d = 0
                while True:
                    x = self.nx()[1]
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            return ('meta', v)
        raise IRError("value %r %r" % (k, v))
    def tval(self):
        t = self.ty()
        self.pattrs()
        if t.k == 'metadata':
            # could be "metadata ptr %x"
            if self.pkk() == 'meta': return (t, self.val(t))
            if self.pkk() == 'word':
                t2 = self.ty(); return (t, self.val(t2))
        return (t, self.val(t))

def _fp80(v):
    h = v[3:] if v.startswith('0xK') else v[2:]
    h = h.rjust(20, '0'); se = int(h[:4], 16); man = int(h[4:], 16)
    s = -1 if se & 0x8000 else 1; e = se & 0x7fff
    if e == 0 and man == 0: return 0.0
    return s * man * 2.0 ** (e - 16383 - 63)

class Inst:
    __slots__ = ("op", "res", "ty", "a", "b", "c", "dbg", "x")
    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, x=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.b = b; self.c = c; self.x = x; self.dbg = None

class Block:
    __slots__ = ("name", "phis", "ins", "idx")
    def __init__(self, name): self.name = name; self.phis = []; self.ins = []

class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod; self.name = name; self.header = header; self.lines = lines; self.parsed = False
    def parse(self):
        if self.parsed: return self
        p = P(self.mod, tokenize(self.header))
        p.exp('define')
        while True:
            k = p.pkk(); v = p.pk()
            if k == 'word' and v in SKIPW: p.i += 1
            elif k == 'word' and v in ('cc',): p.i += 2
            else:
                a = p.i; p.pattrs()
                if p.i == a: break
        self.ret = p.ty()
        p.nx()  # name
        p.exp('('); self.params = []
        n = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'): p.exp(')'); break
                t = p.ty(); bv = p.pattrs()
                nm = str(n)
                if p.pkk() == 'lid': nm = unq(p.nx()[1][1:])
                else: pass
                n += 1
                self.params.append((t, nm, bv))
                if p.acc(')'): break
                p.exp(',')
        # implicit numbering of unnamed args is sequential; entry block gets next number when unlabeled
        self.blocks = {}
        cur = None
        lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        lines = self.lines; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            m = lab.match(ln)
            if m:
                cur = Block(unq(m.group(1))); self.blocks[cur.name] = cur; continue
            if cur is None:
                cur = Block(str(sum(1 for _, nm, _2 in self.params if nm.isdigit()))); self.blocks[cur.name] = cur
            # join continued lines (switch, invoke, landingpad)
            if s.startswith('switch') or ' switch ' in s[:12]:
                while ']' not in s: s += ' ' + lines[i].strip(); i += 1
            if re.match(r'(%\S+ = )?(?:tail |musttail |notail )?invoke ', s) and ' unwind label ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            if ' landingpad ' in s or s.startswith('landingpad'):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            ins = self.inst(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        self.entry = next(iter(self.blocks.values()))
        self.parsed = True
        self.lines = None
        self._analyse()
        return self
    def inst(self, s):
        if s.startswith('#dbg'): return None
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m: dbg = int(m.group(1))
        # strip trailing metadata attachments
        s = re.sub(r'(, ![a-zA-Z._]+ !\d+)+$', '', s)
        s = re.sub(r'(, ![a-zA-Z._]+ !\{\})+$', '', s)
        s = re.sub(r'(, ![a-zA-Z._]+ !\d+)+$', '', s)
        p = P(self.mod, tokenize(s))
        res = None
        if p.pkk() == 'lid' and p.pk(1) == '=':
            res = unq(p.nx()[1][1:]); p.nx()
        op = p.nx()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.nx()[1]
        r = self._inst(p, op, res)
        r.dbg = dbg
        return r
    def _inst(self, p, op, res):
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            p.skip_words(FASTM); t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
            return Inst(op, res, t, a, b)
        if op == 'fneg':
            p.skip_words(FASTM); t = p.ty(); return Inst(op, res, t, p.val(t))
        if op in ('icmp', 'fcmp'):
            p.skip_words(FASTM); pr = p.nx()[1]; t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
            return Inst(op, res, t, a, b, pr)
        if op == 'load':
            at = False
            while p.pk() in ('atomic', 'volatile'): p.i += 1
            t = p.ty(); p.exp(','); pt, a = p.tval(); return Inst(op, res, t, a)
        if op == 'store':
            while p.pk() in ('atomic', 'volatile'): p.i += 1
            t, v = p.tval(); p.exp(','); pt, a = p.tval(); return Inst(op, None, t, v, a)
        if op == 'getelementptr':
            while p.pk() in ('inbounds', 'nuw', 'nusw'): p.i += 1
            sty = p.ty(); p.exp(','); _, base = p.tval(); idx = []
            while p.acc(','): idx.append(p.tval())
            return Inst('gep', res, sty, base, idx)
        if op == 'alloca':
            p.skip_words({'inalloca'}); t = p.ty(); n = ('c', 1)
            if p.acc(','):
                if p.pk() not in ('align', 'addrspace'):
                    _, n = p.tval()
            return Inst(op, res, t, n)
        if op == 'br':
            if p.pk() == 'label':
                p.nx(); return Inst('br', None, None, unq(p.nx()[1][1:]))
            t, c = p.tval(); p.exp(','); p.exp('label'); a = unq(p.nx()[1][1:]); p.exp(','); p.exp('label'); b = unq(p.nx()[1][1:])
            return Inst('cbr', None, None, c, a, b)
        if op == 'switch':
            t, v = p.tval(); p.exp(','); p.exp('label'); d = unq(p.nx()[1][1:]); p.exp('['); cs = []
            while not p.acc(']'):
                ct, c = p.tval(); p.exp(','); p.exp('label'); cs.append((c[1], unq(p.nx()[1][1:])))
            return Inst('switch', None, t, v, d, cs)
        if op == 'ret':
            if p.pk() == 'void': return Inst('ret')
            t, v = p.tval(); return Inst('ret', None, t, v)
        if op in ('call', 'invoke'):
            while True:
                k = p.pkk(); v = p.pk()
                if k == 'word' and (v in SKIPW or v in FASTM): p.i += 1
                elif k == 'word' and v == 'cc': p.i += 2
                else:
                    a = p.i; p.pattrs()
                    if p.i == a: break
            p.allow_fn = True; t = p.ty(); p.allow_fn = False
            if t.k == 'fn': t = t.el
            if p.pk() == 'asm': raise IRError('inline asm')
            callee = p.val(PTR)
            p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    ty = p.ty(); bv = p.pattrs()
                    if ty.k == 'metadata':
                        if p.pkk() == 'meta': v = p.val(ty)
                        else:
                            t2 = p.ty(); v = p.val(t2)
                    else: v = p.val(ty)
                    args.append((ty, v, bv))
                    if p.acc(')'): break
                    p.exp(',')
            ins = Inst(op, res, t, callee, args)
            if op == 'invoke':
                while p.pk() != 'to': p.i += 1
                p.nx(); p.exp('label'); n = unq(p.nx()[1][1:]); p.exp('unwind'); p.exp('label'); u = unq(p.nx()[1][1:])
                ins.c = (n, u)
            return ins
        if op == 'phi':
            p.skip_words(FASTM); t = p.ty(); inc = []
            while True:
                p.exp('['); v = p.val(t); p.exp(','); b = unq(p.nx()[1][1:]); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            return Inst('phi', res, t, inc)
        if op == 'select':
            p.skip_words(FASTM); ct, c = p.tval(); p.exp(','); t, a = p.tval(); p.exp(','); t2, b = p.tval()
            i = Inst('select', res, t, c, a, b); i.x = ct; return i
        if op in ('trunc','zext','sext','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','bitcast','ptrtoint','inttoptr','addrspacecast'):
            p.skip_words(FASTM); t, v = p.tval(); p.exp('to'); t2 = p.ty(); return Inst(op, res, t2, v, t)
        if op == 'freeze':
            t, v = p.tval(); return Inst(op, res, t, v)
        if op == 'extractvalue':
            t, v = p.tval(); ix = []
            while p.acc(','): ix.append(int(p.nx()[1]))
            return Inst(op, res, t, v, ix)
        if op == 'insertvalue':
            t, v = p.tval(); p.exp(','); t2, e = p.tval(); ix = []
            while p.acc(','): ix.append(int(p.nx()[1]))
            i = Inst(op, res, t, v, e, ix); i.x = t2; return i
        if op == 'extractelement':
            t, v = p.tval(); p.exp(','); t2, ix = p.tval(); return Inst(op, res, t, v, ix)
        if op == 'insertelement':
            t, v = p.tval(); p.exp(','); t2, e = p.tval(); p.exp(','); t3, ix = p.tval(); return Inst(op, res, t, v, e, ix)
        if op == 'shufflevector':
            t, v = p.tval(); p.exp(','); t2, w = p.tval(); p.exp(','); t3, m = p.tval(); i = Inst(op, res, t, v, w, m); i.x = t3; return i
        if op == 'landingpad':
            t = p.ty(); cl = []; cleanup = False
            while p.i < len(p.t):
                if p.acc('cleanup'): cleanup = True
                elif p.acc('catch'): cl.append(('catch',) + p.tval())
                elif p.acc('filter'): cl.append(('filter',) + p.tval())
                else: break
            return Inst(op, res, t, cl, cleanup)
        if op == 'resume':
            t, v = p.tval(); return Inst(op, None, t, v)
        if op == 'unreachable': return Inst(op)
        if op == 'fence': return Inst('nop')
        if op == 'atomicrmw':
            p.skip_words({'volatile'}); o = p.nx()[1]; pt, a = p.tval(); p.exp(','); t, v = p.tval()
            return Inst(op, res, t, a, v, o)
        if op == 'cmpxchg':
            p.skip_words({'volatile', 'weak'}); pt, a = p.tval(); p.exp(','); t, c = p.tval(); p.exp(','); t2, n = p.tval()
            return Inst(op, res, t, a, c, n)
        raise IRError("instruction %s" % op)
    def _analyse(self):
        """natural loops: header -> set of blocks"""
        succ = {}
        for n, b in self.blocks.items():
            t = b.ins[-1]
            if t.op == 'br': succ[n] = [t.a]
            elif t.op == 'cbr': succ[n] = [t.b, t.c]
            elif t.op == 'switch': succ[n] = [t.b] + [x[1] for x in t.c]
            elif t.op == 'invoke': succ[n] = list(t.c)
            else: succ[n] = []
        self.succ = succ
        pred = {n: [] for n in self.blocks}
        for n, ss in succ.items():
            for s in ss: pred[s].append(n)
        self.pred = pred
        # rpo
        order = []; seen = set(); st = [(self.entry.name, iter(succ[self.entry.name]))]; seen.add(self.entry.name)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(n); st.pop()
        order.reverse(); num = {n: i for i, n in enumerate(order)}
        idom = {self.entry.name: self.entry.name}; ch = True
        while ch:
            ch = False
            for n in order[1:]:
                ps = [p for p in pred[n] if p in idom]
                if not ps: continue
                d = ps[0]
                for q in ps[1:]:
                    a, b = d, q
                    while a != b:
                        while num[a] > num[b]: a = idom[a]
                        while num[b] > num[a]: b = idom[b]
                    d = a
                if idom.get(n) != d: idom[n] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == idom[b]: return False
                b = idom[b]
        self.loops = {}
        for n in order:
            for s in succ[n]:
                if s in num and dom(s, n):
                    body = self.loops.setdefault(s, {s}); st2 = [n]
                    while st2:
                        x = st2.pop()
                        if x not in body:
                            body.add(x); st2.extend(p for p in pred[x] if p in num)

class Module:
    def __init__(self, text):
        self.types = {}; self.typetext = {}; self.globals = {}; self.functions = {}; self.declares = {}; self.aliases = {}; self.meta = {}
        self._load(text)
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = Ty('struct', name=n); self.types[n] = t
            tx = self.typetext.get(n)
            if tx is None or tx.strip() == 'opaque': t.el = []
            else:
                u = P(self, tokenize(tx)).ty(); t.el = u.el; t.packed = u.packed
        return t
    def _load(self, text):
        lines = text.split('\n'); i = 0; N = len(lines)
        gre = re.compile(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = ')
        fre = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
        while i < N:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                nm = unq(fre.search(ln).group(1))
                self.functions[nm] = Function(self, nm, ln, lines[i+1:j]); i = j + 1; continue
            if ln.startswith('declare '):
                nm = unq(fre.search(ln).group(1)); self.declares[nm] = ln
            elif ln.startswith('%'):
                k = ln.index(' = type '); self.typetext[unq(ln[1:k])] = ln[k+8:]
            elif ln.startswith('@'):
                m = gre.match(ln); nm = unq(m.group(1)); self.globals[nm] = ln[m.end():]
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?(!DILocation|!DISubprogram|!DILexicalBlock|!DIFile|!DILexicalBlockFile)\((.*)\)', ln)
                if m: self.meta[int(m.group(1))] = (m.group(2), m.group(3))
            i += 1
        self._g = {}
    def gdef(self, n):
        """-> ('var', type, init or None, isconst) | ('alias', name) | None"""
        if n in self._g: return self._g[n]
        tx = self.globals.get(n); r = None
        if tx is not None:
            p = P(self, tokenize(tx))
            ext = False
            while p.pkk() == 'word' and p.pk() in SKIPW:
                if p.pk() in ('external', 'extern_weak'): ext = True
                if p.pk() == 'thread_local':
                    p.i += 1
                    if p.acc('('):
                        p.i += 1; p.exp(')')
                    continue
                p.i += 1
            k = p.nx()[1]
            if k == 'addrspace': p.i += 3; k = p.nx()[1]
            if k == 'alias':
                p.allow_fn = True; t = p.ty(); p.allow_fn = False; p.exp(','); t2 = p.ty(); v = p.val(t2); r = ('alias', v)
            else:
                t = p.ty(); init = None
                if not ext and p.i < len(p.t) and p.pk() != ',': init = p.val(t)
                r = ('var', t, init, k == 'constant')
        self._g[n] = r
        return r
    def loc(self, d):
        """!dbg number -> 'file:line' """
        seen = 0
        if d is None or d not in self.meta: return None
        k, b = self.meta[d]
        m = re.search(r'line: (\d+)', b); line = m.group(1) if m else '?'
        m = re.search(r'scope: !(\d+)', b); sc = int(m.group(1)) if m else None
        f = None
        while sc in self.meta and seen < 20:
            k, bb = self.meta[sc]; m = re.search(r'file: !(\d+)', bb)
            if m and int(m.group(1)) in self.meta:
                fm = re.search(r'filename: "([^"]*)"', self.meta[int(m.group(1))][1]); f = fm.group(1) if fm else None; break
            m = re.search(r'scope: !(\d+)', bb); sc = int(m.group(1)) if m else None; seen += 1
        return "%s:%s" % (f, line)

# ----------------------------------------------------------------- layout
def align_of(t):
    if t._al is not None: return t._al
    k = t.k
    if k == 'int': a = 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
    elif k in ('ptr', 'double'): a = 8
    elif k == 'float': a = 4
    elif k == 'x86_fp80': a = 16
    elif k == 'array': a = align_of(t.el)
    elif k == 'vec': a = size_of(t)
    elif k == 'struct': a = 1 if t.packed else max([align_of(e) for e in t.el] or [1])
    else: a = 1
    t._al = a; return a
def offsets(t):
    if t._offs is None:
        o = 0; r = []
        for e in t.el:
            if not t.packed:
                a = align_of(e); o = (o + a - 1) // a * a
            r.append(o); o += size_of(e)
        t._offs = r
    return t._offs
def size_of(t):
    """alloc size"""
    if t._size is not None: return t._size
    k = t.k
    if k == 'int':
        b = (t.n + 7) // 8; a = align_of(t); s = (b + a - 1) // a * a
    elif k in ('ptr', 'double'): s = 8
    elif k == 'float': s = 4
    elif k == 'x86_fp80': s = 16
    elif k in ('array', 'vec'): s = t.n * size_of(t.el)
    elif k == 'struct':
        if not t.el: s = 0
        else:
            o = offsets(t); s = o[-1] + size_of(t.el[-1])
            if not t.packed:
                a = align_of(t); s = (s + a - 1) // a * a
    else: raise IRError('size of %r' % t)
    t._size = s; return s
def store_size(t):
    if t.k == 'int': return (t.n + 7) // 8
    if t.k == 'x86_fp80': return 10
    return size_of(t)
