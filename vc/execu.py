"""Symbolic executor for LLVM IR: doubles are mathematical reals extended with tracked nan/inf, symbolic integers are mathematical integers."""
import struct, time, math, zlib
import ir, sym, solve
from ir import PTR, size_of, store_size, offsets, align_of
from sym import *
from solve import mksqrt, mkexp, mklog, mksin, mkcos

class OutOfReach(Exception): pass
class Infeasible(Exception): pass
class PathEnd(Exception):
    def __init__(self, kind, msg=''): self.kind = kind; self.msg = msg

class SF:
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __repr__(self): return 'SF(%s)' % self.k
NAN = SF('nan'); PINF = SF('inf'); NINF = SF('-inf')

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off     # off: int or T(Int)
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)
class Fn:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Fn(%s)' % self.n
NULL = Ptr(None, 0)
class PDiff:
    """pointer reinterpreted with integer offset outside object arithmetic (ptrtoint of pointer)"""

class PB:
    """a machine word of which only some bits are initialised (vector<bool> storage)"""
    __slots__ = ('m', 'v')
    def __init__(self, m, v): self.m = m; self.v = v & m
    def __repr__(self): return 'PB(%x,%x)' % (self.m, self.v)
def pb(m, v, n):
    M = (1 << n) - 1; m &= M
    return v & M if m == M else UNDEF if m == 0 else PB(m, v)
class Cat:
    """an integer load spanning several cells (block copies of small fields): parts [(size, value)]"""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
    def sub(self, off, n):
        o = 0; out = []
        for sz, v in self.parts:
            if o >= off and o + sz <= off + n: out.append((sz, v))
            elif o < off + n and o + sz > off: raise OutOfReach('part of a symbolic cell')
            o += sz
        if len(out) == 1: return out[0][1]
        if all(v is UNDEF for _, v in out): return UNDEF
        if all(isinstance(v, int) for _, v in out): return int.from_bytes(b''.join(v.to_bytes(z, 'little') for z, v in out), 'little')
        return Cat(out)
    def hole(self): return any(v is UNDEF for _, v in self.parts)

class Obj:
    __slots__ = ('size', 'cells', 'owner', 'kind', 'name', 'freed', 'arr')
    def __init__(self, size, kind, name='', owner=None):
        self.size = size; self.cells = {}; self.owner = owner; self.kind = kind; self.name = name; self.freed = False; self.arr = None
    def copy(self, owner):
        o = Obj(self.size, self.kind, self.name, owner); o.cells = dict(self.cells); o.freed = self.freed; o.arr = self.arr; return o

class Arr:
    """unbounded array of 8-byte (or es-byte) scalars: contents uf name(i), overridden by a write list"""
    __slots__ = ('name', 'es', 'sort', 'n', 'writes')
    def __init__(self, name, es, sort, n, writes=()): self.name = name; self.es = es; self.sort = sort; self.n = n; self.writes = writes

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'ret', 'allocas', 'visits', 'loops', 'exc')
    def __init__(self, fn): self.fn = fn; self.regs = {}; self.allocas = []; self.visits = {}; self.prev = None; self.ip = 0; self.ret = None; self.loops = {}; self.exc = None
    def clone(self):
        f = Frame(self.fn); f.blk = self.blk; f.prev = self.prev; f.ip = self.ip; f.regs = dict(self.regs); f.ret = self.ret
        f.allocas = list(self.allocas); f.visits = dict(self.visits); f.loops = dict(self.loops); return f

def sgn(v, n):
    if isinstance(v, Ptr) and v.o is None: v = v.off      # a null slot of a vtable read as an integer
    return v - (1 << n) if v >> (n - 1) & 1 else v

def int_atom(t):
    """the only integer atom below lin/idiv/imod, or None"""
    found = None; todo = [t]
    while todo:
        x = todo.pop()
        if x.op == 'const': continue
        if x.op in ('idiv', 'imod', 'lin'): todo.extend(sym._lin(x)[0] if x.op == 'lin' else x.a); continue
        if found is not None and found is not x: return None
        found = x
    return found if found is not None and found.op in ('floor', 'r2i') else None
def int_value(t, base, v):
    if t is base: return v
    if t.op == 'const': return t.v
    if t.op == 'idiv': return int_value(t.a[0], base, v) // t.v
    if t.op == 'imod': return int_value(t.a[0], base, v) % t.v
    d, c = sym._lin(t); return c + sum(k * int_value(x, base, v) for x, k in d.items())
class State:
    def __init__(self, ex):
        self.ex = ex; self.mem = {}; self.frames = []; self.pc = []; self.pcs = set(); self.names = {}; self.inputs = []; self.tok = object()
        self.exc = []; self.nobj = [0]; self.steps = 0; self.notes = set(); self.ghost = {}; self.caught = []; self.model_ufs = False; self.ints = {}
    def clone(self):
        s = State.__new__(State); s.ex = self.ex; s.mem = dict(self.mem); s.frames = [f.clone() for f in self.frames]; s.pc = list(self.pc); s.pcs = set(self.pcs)
        s.names = dict(self.names); s.inputs = list(self.inputs); s.exc = list(self.exc); s.nobj = list(self.nobj); s.steps = self.steps; s.notes = set(self.notes)
        s.ghost = dict(self.ghost); s.caught = list(self.caught); s.model_ufs = self.model_ufs; s.ints = self.ints
        self.tok = object(); s.tok = object()
        return s
    def assume(self, c):
        if c is TRUE: return
        if c is FALSE: raise Infeasible()
        if c.op == 'and':
            self.assume(c.a[0]); self.assume(c.a[1]); return
        if c.id not in self.pcs:
            self.pcs.add(c.id); self.pc.append(c)
    def known(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c.id in self.pcs: return True
        n = not_(c)
        if n.id in self.pcs: return False
        if c.op == 'le' or c.op == 'lt':
            # a<b known -> a<=b ; eq
            e = eq(c.a[0], c.a[1])
            if c.op == 'le':
                if lt(*c.a).id in self.pcs or e.id in self.pcs: return True
                if lt(c.a[1], c.a[0]).id in self.pcs: return False
            else:
                if e.id in self.pcs: return False
        if c.op == 'eq':
            a, b = c.a
            if lt(a, b).id in self.pcs or lt(b, a).id in self.pcs: return False
            if a.s == 'R' and c.id not in self.ex.nosimp:
                pass
        return None
    def decide(self, c):
        """fork on Bool term c; returns Python bool. Must be called before side effects of the current instruction."""
        k = self.known(c)
        if k is not None: return k
        ex = self.ex
        n = not_(c)
        if c.op == 'eq' and c.a[0].s == 'R':
            # algebraic decision of (dis)equalities avoids forks on identities
            if solve.alg_zero(sub(c.a[0], c.a[1]), self.pc): self.assume(c); return True
        b = solve.by_sign(c, solve.facts(self.pc))
        if b is not None:
            self.assume(c if b else n); return b
        rel = solve.relevant(self.pc, [c])
        ft = solve.check(rel + [c], ex.feas_ms)[0]
        if ft == 'unsat': self.assume(n); return False
        ff = solve.check(rel + [n], ex.feas_ms)[0]
        if ff == 'unsat': self.assume(c); return True
        if ft == 'unknown' and solve.lin_unsat(rel + [c], 1.0): self.assume(n); return False
        if ff == 'unknown' and solve.lin_unsat(rel + [n], 1.0): self.assume(c); return True
        o = self.clone(); o.assume(n); ex.work.append(o); ex.nforks += 1
        self.assume(c)
        return True
    # ------------------------------------------------ memory
    def alloc(self, size, kind, name=''):
        self.nobj[0] += 1; i = self.nobj[0]
        self.mem[i] = Obj(size, kind, name, self.tok); return i
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.copy(self.tok); self.mem[oid] = o
        return o
    def getobj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            self.ex.materialise(self, oid); o = self.mem[oid]
        return o
    def concretize(self, t, why=''):
        if isinstance(t, int): return t
        if t.op == 'const': return t.v
        for p in self.pc:
            if p.op == 'eq' and p.a[0].s == 'I':
                if p.a[0] is t and p.a[1].op == 'const': return p.a[1].v
                if p.a[1] is t and p.a[0].op == 'const': return p.a[0].v
        if t.op == 'b2i': return int(self.decide(t.a[0]))
        if t.op == 'lin' and len(t.a) == 1 and t.a[0].op == 'b2i': return t.v[0] + t.v[1] * int(self.decide(t.a[0].a[0]))
        base = int_atom(t)
        if base is not None and base is not t:
            v = int_value(t, base, self.concretize(base, why))
            self.assume(eq(t, iconst(v))); return v
        bd = self.bounded_int(t) if t.op in ('floor', 'r2i') else None
        if bd is not None:
            for v in range(bd[0], bd[1] + 1):
                if v == bd[1]: self.assume(eq(t, iconst(v)))
                elif not self.decide(eq(t, iconst(v))): continue
                self.ints = dict(self.ints); self.ints[t.id] = v
                return v
            raise Infeasible()
        x = sym.var('conc!', 'I')
        r, m, cv = solve.check(solve.relevant(self.pc, [eq(t, I0)]) + [eq(x, t)], 3000, True)
        if r == 'unsat': raise Infeasible()
        if r != 'sat': raise OutOfReach('concretize ' + why)
        v = m.eval(cv.c(x), model_completion=True).as_long()
        if self.decide(eq(t, iconst(v))):
            if t.op in ('floor', 'r2i'): self.ints = dict(self.ints); self.ints[t.id] = v
            return v
        raise OutOfReach('concretize')
    def bounded_int(self, b):
        """constant lower and upper bounds of a rounded real that are on the path"""
        lo = hi = None
        for p in self.pc:
            if p.op not in ('le', 'lt') or p.a[0].s != 'I': continue
            x, y = p.a
            if x.op == 'const' and int_atom(y) is b: t, k, up = y, x.v, False
            elif y.op == 'const' and int_atom(x) is b: t, k, up = x, y.v, True
            else: continue
            d, c = sym._lin(t)
            if d.get(b) not in (1, -1) or len(d) != 1: continue
            k -= c                                     # up: d*b <= k (or <), else d*b >= k
            if p.op == 'lt': k += -1 if up else 1
            if d[b] == -1: k = -k; up = not up
            if up: hi = k if hi is None else min(hi, k)
            else: lo = k if lo is None else max(lo, k)
        return (lo, hi) if lo is not None and hi is not None and hi - lo < 8 else None
    def ptr_check(self, p, size, what):
        ex = self.ex
        if isinstance(p, Undef): self.fail('memory', 'use of an uninitialised pointer (%s)' % what)
        if isinstance(p, int): self.fail('memory', '%s through integer address %#x' % (what, p))
        if not isinstance(p, Ptr): raise OutOfReach('%s through %r' % (what, p))
        if p.o is None: self.fail('memory', '%s through a null pointer' % what)
        o = self.getobj(p.o)
        if o.freed: self.fail('memory', '%s after free' % what)
        return o
    def fail(self, kind, msg):
        self.ex.path_violation(self, kind, msg)
        raise PathEnd('violation', msg)
    def off_of(self, p, o, size, what):
        """bounds-checked offset"""
        if isinstance(p.off, T) and p.off.op == 'const': p = Ptr(p.o, p.off.v)
        if o.arr is not None: return p.off
        if isinstance(p.off, T):
            off = self.concretize(p.off, what)
        else: off = p.off
        if o.size is not None and (off < 0 or off + size > o.size):
            self.fail('memory', '%s out of bounds (offset %d size %d of object %s size %d)' % (what, off, size, o.name or p.o, o.size))
        return off
    def load(self, p, ty):
        k = ty.k
        if k in ('struct', 'array', 'vec'):
            if k == 'struct':
                return [self.load(self.padd(p, o), e) for o, e in zip(offsets(ty), ty.el)]
            return [self.load(self.padd(p, i * size_of(ty.el)), ty.el) for i in range(ty.n)]
        n = store_size(ty)
        o = self.ptr_check(p, n, 'load')
        off = self.off_of(p, o, n, 'load')
        if o.arr is not None: return self.arr_load(o, p, off, ty, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return self.retype(c[1], ty)
        return self.retype(self.gather(o, off, n, ty), ty)
    def gather(self, o, off, n, ty):
        if o.kind == 'extern':
            if o.name.startswith(('_ZTT', '_ZTV')): return Ptr(('g', o.name), 64) if ty is not None and ty.k == 'ptr' else 0     # tables of library stream classes
            return UNDEF
        # compose from bytes
        i = off; parts = []; symb = False
        while i < off + n:
            c = o.cells.get(i)
            if c is None or i + c[0] > off + n:
                parts = None; break
            parts.append(c); i += c[0]
            if not isinstance(c[1], int) and not (isinstance(c[1], T) and c[1].op == 'const') and c[1] is not UNDEF and not (isinstance(c[1], Ptr) and c[1].o is None): symb = True
        if parts and symb and len(parts) > 1 and ty is not None and ty.k == 'int': return Cat([(z, UNDEF if v is UNDEF else fbits(v, z) if isinstance(v, T) and v.op == 'const' and v.s == 'R' else v) for z, v in parts])
        if parts is None and n == 8 and ty is not None and ty.k == 'int':        # block copy of a struct with padding
            i = off; parts = []; ok = True
            while i < off + n and ok:
                c = o.cells.get(i)
                if c is not None and i + c[0] <= off + n: parts.append((c[0], fbits(c[1], c[0]) if isinstance(c[1], T) and c[1].op == 'const' and c[1].s == 'R' else c[1])); i += c[0]
                elif c is None and not any(o.cells.get(i - k, (0,))[0] > k for k in range(1, 16)): parts.append((1, UNDEF)); i += 1
                else: ok = False
            if ok and any(v is not UNDEF for _, v in parts): return Cat(parts)
        bs = []
        i = off
        while i < off + n:
            c = o.cells.get(i)
            if c is not None and c[0] <= off + n - i:
                v = c[1]
                if isinstance(v, T) and v.op == 'const' and v.s == 'R': v = fbits(v, c[0])
                if isinstance(v, int): bs.extend(v.to_bytes(c[0], 'little'))
                elif v is UNDEF: return UNDEF
                elif isinstance(v, Ptr) and v.o is None and isinstance(v.off, int): bs.extend(v.off.to_bytes(c[0], 'little'))
                else: raise OutOfReach('partial load of symbolic cell in %s+%d size %d cell %r' % (o.name, off, n, v))
                i += c[0]; continue
            # find covering cell
            found = None
            for back in range(1, 16):
                c2 = o.cells.get(i - back)
                if c2 is not None:
                    if c2[0] > back: found = (i - back, c2)
                    break
            if found is None and c is not None: found = (i, c)
            if found is None:
                return UNDEF
            b0, c2 = found; v = c2[1]
            if isinstance(v, T) and v.op == 'const' and v.s == 'R': v = fbits(v, c2[0])
            if isinstance(v, Ptr) and v.o is None and isinstance(v.off, int): v = v.off
            if v is UNDEF: return UNDEF
            if not isinstance(v, int): raise OutOfReach('partial load of symbolic cell %s+%d %r' % (o.name, off, v))
            by = v.to_bytes(c2[0], 'little'); take = by[i - b0: min(c2[0], off + n - b0)]
            bs.extend(take); i += len(take)
        return int.from_bytes(bytes(bs), 'little')
    def retype(self, v, ty):
        k = ty.k
        if v is UNDEF: return UNDEF
        if k in ('double', 'float', 'x86_fp80'):
            if isinstance(v, int):
                if v == 0: return R0
                return self.ex.fconst(bits_f(v, k))
            if isinstance(v, T) and v.s == 'I':
                raise OutOfReach('int cell read as double')
            return v
        if k == 'int':
            if isinstance(v, T) and v.op == 'const' and v.s == 'R':
                if v.v == 0: return 0
                return fbits(v, 8)
            if ty.n == 1 and isinstance(v, T) and v.s == 'I': return ne0(v)
            if ty.n == 1 and isinstance(v, int): return v & 1
            if ty.n == 8 and isinstance(v, T) and v.s == 'B': return b2i(v)
            return v
        if k == 'ptr':
            if isinstance(v, int):
                if v == 0: return NULL
                return Ptr(None, v)
            return v
        return v
    def store(self, p, v, ty):
        k = ty.k
        if k in ('struct', 'array', 'vec'):
            if v is UNDEF: v = [UNDEF] * (len(ty.el) if k == 'struct' else ty.n)
            if k == 'struct':
                for x, o, e in zip(v, offsets(ty), ty.el): self.store(self.padd(p, o), x, e)
            else:
                for i, x in enumerate(v): self.store(self.padd(p, i * size_of(ty.el)), x, ty.el)
            return
        n = store_size(ty)
        o = self.ptr_check(p, n, 'store')
        if o.kind == 'const': self.fail('memory', 'store to constant object %s' % o.name)
        off = self.off_of(p, o, n, 'store')
        if o.arr is not None: return self.arr_store(o, p, off, v, n)
        if isinstance(v, T) and v.s == 'B': v = b2i(v)
        if isinstance(v, T) and v.op == 'const' and v.s == 'I': v = v.v & ((1 << (8 * n)) - 1)
        o = self.wobj(p.o)
        if isinstance(v, Cat):
            for z, w in v.parts:
                if w is UNDEF:
                    self.put(o, off, z, 0); del o.cells[off]
                else: self.put(o, off, z, w)
                off += z
            return
        self.put(o, off, n, v)
    def put(self, o, off, n, v):
        c = o.cells
        x = c.get(off)
        if x is not None and x[0] == n:
            c[off] = (n, v); return
        # remove overlaps
        for b in range(max(0, off - 15), off + n):
            x = c.get(b)
            if x is None or b + x[0] <= off: continue
            # split
            del c[b]
            w = x[1]
            if isinstance(w, T) and w.op == 'const' and w.s == 'R': w = fbits(w, x[0])
            if isinstance(w, int):
                by = w.to_bytes(x[0], 'little')
                for j in range(x[0]):
                    if not (off <= b + j < off + n): c[b + j] = (1, by[j])
        c[off] = (n, v)
    def padd(self, p, d):
        if isinstance(d, int) and d == 0: return p
        if isinstance(p, int): return (p + d)
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise OutOfReach('gep on %r' % (p,))
        if isinstance(p.off, int) and isinstance(d, int): return Ptr(p.o, p.off + d)
        a = p.off if isinstance(p.off, T) else iconst(p.off)
        b = d if isinstance(d, T) else iconst(d)
        r = iadd(a, b)
        return Ptr(p.o, r.v if r.op == 'const' else r)
    # unbounded arrays
    def arr_idx(self, o, off, n):
        es = o.arr.es
        t = off if isinstance(off, T) else iconst(off)
        if n != es: raise OutOfReach('array access width')
        if imodc(t, es) is not I0: raise OutOfReach('array access alignment')
        return idivc(t, es)
    def arr_bounds(self, o, i, what):
        inb = and_(le(I0, i), lt(i, o.arr.n))
        r = solve.prove(self.pc, inb, 3000)
        if r[0] == 'proved': self.ex.count('bounds', r[1]); return
        if self.decide(inb): return
        self.fail('memory', '%s out of bounds of array %s' % (what, o.arr.name))
    def arr_load(self, o, p, off, ty, n):
        i = self.arr_idx(o, off, n); self.arr_bounds(o, i, 'load')
        for (j, v) in reversed(o.arr.writes):
            if self.decide(eq(i, j)): return v
        return uf(o.arr.name, (i,), o.arr.sort)
    def arr_store(self, o, p, off, v, n):
        i = self.arr_idx(o, off, n); self.arr_bounds(o, i, 'store')
        o = self.wobj(p.o); a = o.arr
        o.arr = Arr(a.name, a.es, a.sort, a.n, a.writes + ((i, v),))
    def memcpy(self, d, s, n):
        if n == 0: return
        so = self.ptr_check(s, n, 'memcpy source'); do = self.ptr_check(d, n, 'memcpy destination')
        if so.arr is not None or do.arr is not None: raise OutOfReach('memcpy of unbounded array')
        n = self.concretize(n) if isinstance(n, T) else n
        soff = self.off_of(s, so, n, 'memcpy load'); doff = self.off_of(d, do, n, 'memcpy store')
        if do.kind == 'const': self.fail('memory', 'memcpy to constant')
        items = []
        covered = [False] * n
        for b in (range(soff, soff + n) if n < 4 * len(so.cells) + 64 else sorted(x for x in so.cells if soff <= x < soff + n)):
            c = so.cells.get(b)
            if c is not None and b + c[0] <= soff + n:
                items.append((b - soff, c[0], c[1]))
                for j in range(b - soff, b - soff + c[0]): covered[j] = True
        # bytes covered by cells straddling the ends
        part = []
        for j in range(n):
            if not covered[j]:
                v = self.gather(so, soff + j, 1, None)
                part.append((j, 1, v))
        o = self.wobj(d.o)
        for b in range(max(0, doff - 15), doff + n):
            x = o.cells.get(b)
            if x is None or b + x[0] <= doff: continue
            if b >= doff and b + x[0] <= doff + n: del o.cells[b]
        for (j, sz, v) in items: self.put(o, doff + j, sz, v)
        for (j, sz, v) in part:
            if v is not UNDEF or o.cells.get(doff + j): 
                if v is UNDEF: o.cells.pop(doff + j, None)
                else: self.put(o, doff + j, 1, v)
    def memset(self, d, b, n):
        n = self.concretize(n) if isinstance(n, T) else n
        if n == 0: return
        o = self.ptr_check(d, n, 'memset'); off = self.off_of(d, o, n, 'memset'); o = self.wobj(d.o)
        if not isinstance(b, int): raise OutOfReach('symbolic memset')
        i = 0
        while i < n:
            w = 8 if (off + i) % 8 == 0 and n - i >= 8 else 4 if (off + i) % 4 == 0 and n - i >= 4 else 1
            self.put(o, off + i, w, int.from_bytes(bytes([b & 255] * w), 'little')); i += w
    def cstr(self, p, maxn=4096):
        o = self.getobj(p.o); r = bytearray(); i = self.concretize(p.off)
        while True:
            c = self.gather(o, i, 1, None)
            if not isinstance(c, int): raise OutOfReach('symbolic string')
            if c == 0: break
            r.append(c); i += 1
            if len(r) > maxn: raise OutOfReach('long string')
        return r.decode('latin1')

def ne0(v):
    if isinstance(v, int): return v != 0
    if v.op == 'b2i': return v.a[0]
    return not_(eq(v, I0))
def fbits(t, n):
    """bits of an (idealised) real constant"""
    x = float(t.v)
    return int.from_bytes(struct.pack('<d', x) if n == 8 else struct.pack('<f', x), 'little')
def bits_f(v, k):
    if k == 'float': return struct.unpack('<f', (v & 0xffffffff).to_bytes(4, 'little'))[0]
    return struct.unpack('<d', v.to_bytes(8, 'little'))[0]

class Obligation:
    __slots__ = ('label', 'verdict', 'backend', 'info', 'dt')
    def __init__(self, label, verdict, backend, info=None, dt=0): self.label = label; self.verdict = verdict; self.backend = backend; self.info = info; self.dt = dt

import models, loopinv

class Executor(loopinv.LoopInv, models.Models):
    def __init__(self, mod, replace=None, opts=None):
        self.mod = mod; self.replace = replace or {}; self.opts = opts or {}
        self.feas_ms = self.opts.get('feas_ms', 400); self.loop_bound = self.opts.get('loop_bound', 70); self.obl_ms = self.opts.get('obl_ms', 15000)
        self.deadline = None; self.nosimp = set()
        self.work = []; self.nforks = 0; self.obls = {}; self.covers = {}; self.paths = 0; self.done_paths = 0; self.reach = None; self.called = set(); self.uninit = False
        self.typeids = {}; self.counts = {}; self.instr = 0; self.bounded = []; self.replaced_used = set(); self.dischargedby = {}; self.maxpaths = self.opts.get('max_paths', 6000)
        self.stop_first = self.opts.get('stop_first', True); self.violations = []
        self.loopinv = []; self.lidir = []; self.dm = {}; self.li_fail = set(); self.li_why = []; self.li_n = 0; self.mute = 0
    def count(self, what, be): self.dischargedby[be] = self.dischargedby.get(be, 0) + 1; self.counts[what] = self.counts.get(what, 0) + 1
    def fconst(self, x):
        if x != x: return NAN
        if x == math.inf: return PINF
        if x == -math.inf: return NINF
        if abs(x) == 1.7976931348623157e308: return self.dblmax(x)
        return real_of_float(x)
    def dblmax(self, x):
        return rconst(int(x))
    # ------------------------------------------------ obligations
    def loc(self, st):
        for f in reversed(st.frames):
            ins = f.blk.ins[f.ip] if f.ip < len(f.blk.ins) else None
            if ins is not None and ins.dbg is not None:
                l = self.mod.loc(ins.dbg)
                if l and 'repo' in l: return l
        return st.frames[-1].fn.name if st.frames else '?'
    def path_violation(self, st, kind, msg):
        """the path itself is an error (memory safety, uncaught exception, ...): violation if the path is feasible"""
        if self.mute: return
        r, m, cv = solve.check(list(st.pc), 10000, True, ('smt', 'nra', 'simpl'))
        label = '%s: %s' % (kind, msg)
        if r == 'unsat': self.record(label, 'proved', 'z3', st, None); return
        self.record(label, 'refuted' if r == 'sat' else 'unknown', 'z3', st, (m, cv) if r == 'sat' else None)
    def obligation(self, st, goal, label):
        if self.mute: return
        t0 = time.time()
        v, be, mc = solve.prove(st.pc, goal, self.obl_ms)
        self.record(label, v, be, st, mc, time.time() - t0, goal)
    def record(self, label, v, be, st, mc, dt=0.0, goal=None):
        e = self.obls.setdefault(label, {'n': 0, 'proved': 0, 'be': {}, 'fail': None, 't': 0.0})
        e['n'] += 1; e['t'] += dt
        if v == 'proved': e['proved'] += 1; e['be'][be] = e['be'].get(be, 0) + 1; return
        vals = None
        if mc is not None and mc[0] is not None: vals = self.model_values(st, mc)
        info = {'label': label, 'verdict': v, 'backend': be, 'where': self.loc(st), 'values': vals, 'goal': show(goal)[:600] if goal is not None else '', 'notes': sorted(st.notes),
                'pc': [show(p)[:200] for p in st.pc[-12:]]}
        self.violations.append(info)
        if e['fail'] is None: e['fail'] = info
    def model_values(self, st, mc):
        m, cv = mc; out = {}
        for (nm, kind, t) in st.inputs:
            z = cv.vars.get(t.v) if t.op == 'var' else None
            if t.op == 'const': out[nm] = str(t.v); continue
            if z is None: continue
            val = m.eval(z, model_completion=True)
            out[nm] = zval(val)
        return out
    # ------------------------------------------------ run
    def run(self, fname, deadline=None):
        self.deadline = deadline
        st = State(self); fn = self.mod.functions[fname].parse()
        fr = Frame(fn); fr.blk = fn.entry; st.frames.append(fr)
        self.work.append(st)
        while self.work:
            s = self.work.pop(); self.paths += 1
            if self.paths > self.maxpaths: raise OutOfReach('path limit')
            if self.stop_first and self.violations: return
            try: self.run_state(s)
            except Infeasible: pass
            except PathEnd as e:
                if e.kind in ('done',): self.done_paths += 1
    def run_state(self, s):
        while True:
            fr = s.frames[-1]; ins = fr.blk.ins[fr.ip]
            s.steps += 1; self.instr += 1
            if (self.instr & 255) == 0 and self.deadline and time.time() > self.deadline: raise OutOfReach('time limit')
            h = DISP.get(ins.op)
            if h is None: raise OutOfReach('instruction ' + ins.op)
            h(self, s, fr, ins)
    # ------------------------------------------------ operands
    def val(self, s, fr, op, ty):
        k = op[0]
        if k == 'l':
            v = fr.regs[op[1]]
            if s.ints and type(v) is T and v.s == 'I':
                b = int_atom(v)
                if b is not None and b.id in s.ints:
                    v = int_value(v, b, s.ints[b.id])
                    if ty is not None and ty.k == 'int': v &= (1 << ty.n) - 1
            return v
        if k == 'c':
            return op[1]
        if k == 'f': return self.fconst(op[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(ty)
        if k == 'g': return self.gptr(op[1])
        if k == 'agg': return [self.val(s, fr, o, t) for t, o in op[1]]
        if k == 'str': return list(op[1])
        if k == 'ce': return self.constexpr(s, fr, op)
        raise OutOfReach('operand %r' % (op,))
    def zero(self, ty):
        k = ty.k
        if k == 'int': return 0
        if k == 'ptr': return NULL
        if k in ('double', 'float', 'x86_fp80'): return R0
        if k == 'struct': return [self.zero(e) for e in ty.el]
        if k in ('array', 'vec'): return [self.zero(ty.el) for _ in range(ty.n)]
        raise OutOfReach('zero %r' % ty)
    def gptr(self, n):
        if n in self.mod.functions or n in self.mod.declares: return Fn(n)
        g = self.mod.gdef(n)
        if g is not None and g[0] == 'alias': return self.val(None, None, g[1], PTR)
        return Ptr(('g', n), 0)
    def constexpr(self, s, fr, op):
        o = op[1]
        if o == 'gep':
            _, _, sty, ops = op
            b = self.val(s, fr, ops[0][1], PTR)
            return self.gep(s, sty, b, [(t, self.val(s, fr, v, t)) for t, v in ops[1:]])
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): return self.val(s, fr, op[3][0][1], op[3][0][0])
        if o == 'sub':
            a, b = [self.val(s, fr, v, t) for t, v in op[3]]
            return self.isub(s, a, b, 64)
        if o == 'trunc':
            v = self.val(s, fr, op[3][0][1], op[3][0][0]); return v & ((1 << op[2].n) - 1) if isinstance(v, int) else v
        raise OutOfReach('constexpr %s' % o)
    def materialise(self, st, oid):
        assert oid[0] == 'g', oid
        g = self.mod.gdef(oid[1])
        if g is None or g[2] is None:
            o = Obj(1 << 20, 'extern', oid[1], st.tok); st.mem[oid] = o
            if oid[1] == '__libc_single_threaded': o.kind = 'global'; o.cells[0] = (1, 1)     # sequential executions
            return
        _, ty, init, const = g
        o = Obj(size_of(ty), 'global', oid[1], st.tok); st.mem[oid] = o
        self.init(st, o, 0, ty, init)
        if const: o.kind = 'const'
    def init(self, st, o, off, ty, v):
        k = v[0]
        if k == 'undef': return
        if k == 'zero':
            n = size_of(ty); i = 0
            while i < n:
                w = 8 if (off + i) % 8 == 0 and n - i >= 8 else 1
                o.cells[off + i] = (w, 0); i += w
            return
        if k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty.k == 'struct':
                for (t, x), oo in zip(v[1], offsets(ty)): self.init(st, o, off + oo, t, x)
            else:
                es = size_of(ty.el)
                for i, (t, x) in enumerate(v[1]): self.init(st, o, off + i * es, t, x)
            return
        o.cells[off] = (store_size(ty), self.val(None, None, v, ty))
    def gep(self, s, sty, base, idx):
        off = 0; sy = None; t = sty
        for n, (ity, iv) in enumerate(idx):
            if n == 0: sz = size_of(t)
            elif t.k == 'struct':
                off += offsets(t)[iv]; t = t.el[iv]; continue
            else:
                sz = size_of(t.el); t = t.el
            if isinstance(iv, int): off += sz * sgn(iv, ity.n)
            elif isinstance(iv, Ptr) and iv.o is None and isinstance(iv.off, int): off += sz * sgn(iv.off, 64)
            elif iv is UNDEF: return UNDEF
            elif isinstance(iv, T):
                if iv.s == 'B': iv = b2i(iv)
                x = imul(iv, iconst(sz)); sy = x if sy is None else iadd(sy, x)
            else: raise OutOfReach('gep index %r' % (iv,))
        d = off if sy is None else iadd(sy, iconst(off))
        if isinstance(d, T) and d.op == 'const': d = d.v
        if isinstance(base, Ptr) and base.o is None and isinstance(base.off, int) and isinstance(d, int): return Ptr(None, (base.off + d) & (2**64 - 1)) 
        return s.padd(base, d) if s is not None else (Ptr(base.o, base.off + d) if isinstance(base, Ptr) else base)
    # ------------------------------------------------ control
    def advance(self, fr): fr.ip += 1
    def jump(self, s, fr, target):
        src = fr.blk.name; fn = fr.fn
        if fr.loops: self.loop_leave(s, fr, target)
        blk = fn.blocks[target]
        vals = []
        for ph in blk.phis:
            for v, b in ph.a:
                if b == src: vals.append((ph.res, self.val(s, fr, v, ph.ty))); break
            else: raise OutOfReach('phi')
        if target in fn.loops:
            inl = src in fn.loops[target]
            if self.loop_hook(s, fr, target, blk, vals, inl): return
            c = fr.visits.get(target, 0) + 1 if inl else 1
            fr.visits[target] = c
            if c > self.loop_bound: raise OutOfReach('loop bound %d exceeded in %s' % (self.loop_bound, fn.name))
        for r, v in vals: fr.regs[r] = v
        fr.prev = src; fr.blk = blk; fr.ip = 0
    def ret(self, s, v):
        if s.frames[-1].loops and self.li_probing(s.frames[-1]): raise PathEnd('exit')
        fr = s.frames.pop()
        for a in fr.allocas:
            if a in s.mem: del s.mem[a]
        if not s.frames:
            raise PathEnd('done')
        c = s.frames[-1]; ins = c.blk.ins[c.ip]
        if fr.ret is not None:
            fr.ret(self, s, v); return
        if ins.res is not None: c.regs[ins.res] = v
        if ins.op == 'invoke': self.jump(s, c, ins.c[0])
        else: c.ip += 1
    def finish(self, s, v):
        """complete a call instruction executed as a built-in"""
        c = s.frames[-1]; ins = c.blk.ins[c.ip]
        if ins.res is not None: c.regs[ins.res] = v
        if ins.op == 'invoke': self.jump(s, c, ins.c[0])
        else: c.ip += 1
    def call(self, s, fr, ins):
        cal = ins.a
        if cal[0] == 'g':
            n = cal[1]
            g = self.mod.gdef(n) if n in self.mod.globals else None
            if g is not None and g[0] == 'alias': n = g[1][1]
        else:
            f = self.val(s, fr, cal, PTR)
            if isinstance(f, Ptr) and f.o is None: s.fail('memory', 'call through a null function pointer')
            if not isinstance(f, Fn): raise OutOfReach('indirect call %r' % (f,))
            n = f.n
            g = self.mod.gdef(n) if n in self.mod.globals else None
            if g is not None and g[0] == 'alias': n = g[1][1]
        args = []
        for (t, v, bv) in ins.b:
            if t.k == 'metadata': args.append(None); continue
            x = self.val(s, fr, v, t)
            args.append(x)
        self.invoke(s, n, args, ins)
    def invoke(self, s, n, args, ins):
        r = self.replace.get(n)
        if r is not None and not any(f.fn.name == r for f in s.frames):
            self.replaced_used.add(n); n = r
        m = self.builtin(n)
        if m is not None:
            r = m(s, args, ins)
            if r is not models.NOFINISH: self.finish(s, r)
            return
        fn = self.mod.functions.get(n)
        if fn is None: raise OutOfReach('external function ' + n)
        if not fn.parsed: fn.parse()
        self.called.add(n)
        if len(s.frames) > 200: raise OutOfReach('recursion depth')
        nf = Frame(fn); nf.blk = fn.entry
        for (t, nm, bv), a in zip(fn.params, args):
            if bv is not None:
                o = s.alloc(size_of(bv), 'stack', 'byval'); s.memcpy(Ptr(o, 0), a, size_of(bv)); nf.allocas.append(o); a = Ptr(o, 0)
            nf.regs[nm] = a
        s.frames.append(nf)
    def unwind(self, s):
        """propagate s.exc[-1] = (ptr, typeinfo name)"""
        exp, ti = s.exc[-1]
        while True:
            # top frame: if current instruction is an invoke, examine its landing pad
            fr = s.frames[-1]; ins = fr.blk.ins[fr.ip]
            if ins.op == 'invoke':
                lb = fr.fn.blocks[ins.c[1]]; lp = None
                for i2 in lb.ins:
                    if i2.op == 'landingpad': lp = i2; break
                sel = None
                for cl in lp.a:
                    if cl[0] == 'catch':
                        if cl[2][0] == 'null': sel = self.typeid(None); break
                        nm = cl[2][1]
                        if self.derives(s, ti, nm): sel = self.typeid(nm); break
                    else: raise OutOfReach('exception filter')
                if sel is None and lp.b: sel = 0
                if sel is not None:
                    self.jump(s, fr, ins.c[1])
                    fr.exc = (exp, sel); s.ghost['lp'] = (exp, sel)
                    return
            if s.frames[-1].loops and self.li_probing(s.frames[-1]): raise PathEnd('exit')
            f = s.frames.pop()
            for a in f.allocas:
                if a in s.mem: del s.mem[a]
            if not s.frames:
                s.frames.append(f)
                s.fail('exception', 'uncaught exception %s' % ti)
    def typeid(self, n):
        if n not in self.typeids: self.typeids[n] = len(self.typeids) + 1
        return self.typeids[n]
    # ------------------------------------------------ arithmetic
    def rterm(self, s, v, ty=None):
        if isinstance(v, T):
            if v.s == 'R': return v
            raise OutOfReach('int as real')
        if v is UNDEF: return self.havoc_undef(s, 'R')
        if isinstance(v, int): return self.fconst(bits_f(v, 'double'))
        return v
    def havoc_undef(self, s, sort):
        self.nund = getattr(self, 'nund', 0) + 1
        s.notes.add('an uninitialised value is read at ' + self.loc(s))
        return var('undef!%d' % self.nund, sort)
    def iterm(self, v, n):
        if isinstance(v, int): return iconst(sgn(v, n)) if n > 1 else iconst(v)
        if v.s == 'B': return b2i(v)
        return v
    def bterm(self, s, v):
        if isinstance(v, int): return bconst(v & 1)
        if v is UNDEF: return self.havoc_undef(s, 'B')
        if v.s == 'I': return ne0(v)
        return v
    def fix(self, t, n):
        """Int term -> concrete int when constant"""
        if t.op == 'const': return t.v & ((1 << n) - 1)
        return t
    def isub(self, s, a, b, n):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & ((1 << n) - 1)
                return self.fix(iadd(self.iterm(a.off, 64) if isinstance(a.off, int) else a.off, self.iterm(b.off, 64) if isinstance(b.off, int) else b.off, -1), n)
            if b.o is None and b.off == 0: return a
            raise OutOfReach('pointer difference across objects')
        if isinstance(a, Ptr) and isinstance(b, (int, T)):
            if isinstance(b, int): return s.padd(a, -sgn(b, n))
            return s.padd(a, imul(b, iconst(-1)))
        if isinstance(a, int) and isinstance(b, Ptr):
            if b.o is None and isinstance(b.off, int): return (a - b.off) & ((1 << n) - 1)
            raise OutOfReach('int - ptr')
        return self.fix(iadd(self.iterm(a, n), self.iterm(b, n), -1), n)

def zval(v):
    import z3
    if z3.is_rational_value(v): 
        return '%s/%s' % (v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v): return str(v.as_long())
    if z3.is_true(v): return '1'
    if z3.is_false(v): return '0'
    if z3.is_algebraic_value(v):
        a = v.approx(20); return '%s/%s' % (a.numerator_as_long(), a.denominator_as_long())
    return str(v)

# ---------------------------------------------------------------- instruction handlers
DISP = {}
def op(*names):
    def d(f):
        for n in names: DISP[n] = f
        return f
    return d

@op('nop')
def _(ex, s, fr, i): fr.ip += 1

@op('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')
def _(ex, s, fr, i):
    ty = i.ty; a = ex.val(s, fr, i.a, ty); b = ex.val(s, fr, i.b, ty)
    if ty.k == 'vec':
        fr.regs[i.res] = [ibin(ex, s, i.op, x, y, ty.el.n) for x, y in zip(a, b)]
    else: fr.regs[i.res] = ibin(ex, s, i.op, a, b, ty.n)
    fr.ip += 1

def address(p): return (zlib.crc32(str(p.o).encode()) << 16) + p.off if not isinstance(p.o, int) else 0x10000000 + p.o * 0x1000 + p.off
def ibin(ex, s, o, a, b, n):
    if isinstance(a, Cat):
        if o == 'lshr' and isinstance(b, int) and b % 8 == 0: return a.sub(b // 8, n // 8 - b // 8)
        if o == 'and' and isinstance(b, int) and b in (0xff, 0xffff, 0xffffffff): return a.sub(0, b.bit_length() // 8)
        if not a.hole(): raise OutOfReach('arithmetic on a block copy (%s)' % o)
        a = UNDEF
    if isinstance(b, Cat) and b.hole(): b = UNDEF
    if n >= 8 and (type(a) is PB or type(b) is PB or ((a is UNDEF or b is UNDEF) and o in ('and', 'or', 'xor') and (type(a) is int or type(b) is int))):
        M = (1 << n) - 1
        def kb(x): return (M, x) if type(x) is int else (x.m, x.v) if type(x) is PB else (0, 0) if x is UNDEF else (None, None)
        (ma, va), (mb, vb) = kb(a), kb(b)
        if ma is not None and mb is not None:
            if o == 'and': return pb((ma & mb) | (ma & ~va) | (mb & ~vb), va & vb, n)
            if o == 'or': return pb((ma & mb) | va | vb, va | vb, n)
            if o == 'xor': return pb(ma & mb, va ^ vb, n)
            if mb == M and o == 'shl': return pb((ma << vb) | ((1 << vb) - 1), va << vb, n)
            if mb == M and o == 'lshr': return pb((ma >> vb) | (M & ~(M >> vb)), va >> vb, n)
        raise OutOfReach('%s on a partly initialised word' % o)
    if type(a) is int and type(b) is int:
        M = (1 << n) - 1
        if o == 'add': return (a + b) & M
        if o == 'sub': return (a - b) & M
        if o == 'mul': return (a * b) & M
        if o == 'and': return a & b
        if o == 'or': return a | b
        if o == 'xor': return a ^ b
        if o == 'shl': return (a << b) & M if b < n else 0
        if o == 'lshr': return a >> b if b < n else 0
        if o == 'ashr': return (sgn(a, n) >> b) & M
        if b == 0: s.fail('arith', 'integer division by zero')
        if o == 'udiv': return a // b
        if o == 'urem': return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
        return (q if o == 'sdiv' else x - q * y) & M
    if a is UNDEF or b is UNDEF:
        if a is UNDEF: a = ex.havoc_undef(s, 'B' if n == 1 else 'I')
        if b is UNDEF: b = ex.havoc_undef(s, 'B' if n == 1 else 'I')
    if n == 1 or (isinstance(a, T) and a.s == 'B') or (isinstance(b, T) and b.s == 'B'):
        if n == 1:
            x, y = ex.bterm(s, a), ex.bterm(s, b)
            r = and_(x, y) if o in ('and', 'mul') else or_(x, y) if o == 'or' else xor_(x, y) if o in ('xor', 'add', 'sub') else None
            if r is None: raise OutOfReach('i1 ' + o)
            return 1 if r is TRUE else 0 if r is FALSE else r
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        if o == 'sub': return ex.isub(s, a, b, n)
        if o == 'add':
            if isinstance(b, Ptr): a, b = b, a
            if isinstance(b, int): return s.padd(a, sgn(b, n))
            if isinstance(b, T): return s.padd(a, b)
        if o == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            if a.o is None and isinstance(a.off, int): return a.off & b
            if isinstance(a.off, int) and b <= 15: return a.off & b      # objects are 16-byte aligned
        if o == 'and' and isinstance(a, Fn) and isinstance(b, int) and b <= 15: return 0
        if o == 'or' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is None and a.off == 0: return b
        if o == 'or' and isinstance(a, Ptr) and isinstance(b, Ptr) and b.o is None and b.off == 0: return a
        if isinstance(a, Ptr) and a.o is None and isinstance(a.off, int): return ibin(ex, s, o, a.off, b, n)
        if isinstance(b, Ptr) and b.o is None and isinstance(b.off, int): return ibin(ex, s, o, a, b.off, n)
        if isinstance(a, Ptr) and isinstance(b, int) and a.o is not None and isinstance(a.off, int) and o in ('urem', 'lshr', 'xor', 'mul', 'udiv', 'and'):
            return ibin(ex, s, o, address(a), b, n)      # hashing of an address: one representative layout
        raise OutOfReach('pointer op ' + o)
    if isinstance(a, SF) or isinstance(b, SF) or (isinstance(a, T) and a.s == 'R') or (isinstance(b, T) and b.s == 'R'):
        # sign-bit tricks on doubles
        if o == 'and' and b == (1 << 63) - 1: return a if isinstance(a, SF) else ex.m_fabs(s, a)
        if o == 'lshr' and b == 63 and isinstance(a, T): return 0 if s.decide(le(R0, a)) else 1
        raise OutOfReach('bit operation on double')
    x, y = ex.iterm(a, n), ex.iterm(b, n)
    if o == 'add': return ex.fix(iadd(x, y), n)
    if o == 'sub': return ex.fix(iadd(x, y, -1), n)
    if o == 'mul': return ex.fix(imul(x, y), n)
    if o == 'shl' and isinstance(b, int): return ex.fix(imul(x, iconst(1 << b)), n)
    if o in ('lshr', 'ashr') and isinstance(b, int):
        if o == 'lshr' and not s.decide(le(I0, x)):
            if b == n - 1: return 1
            raise OutOfReach('lshr negative')
        return ex.fix(idivc(x, 1 << b), n)
    if o in ('udiv', 'sdiv', 'urem', 'srem') and isinstance(b, int):
        k = sgn(b, n)
        if k > 0:
            if s.decide(le(I0, x)): return ex.fix(idivc(x, k) if 'div' in o else imodc(x, k), n)
            if o == 'sdiv': return ex.fix(imul(idivc(imul(x, iconst(-1)), k), iconst(-1)), n)
            if o == 'srem': return ex.fix(imul(imodc(imul(x, iconst(-1)), k), iconst(-1)), n)
        raise OutOfReach(o)
    if o == 'and':
        if isinstance(a, int): x, y, a, b = y, x, b, a
        if isinstance(b, int):
            if b & (b + 1) == 0: return ex.fix(imodc(x, b + 1), n)
            m = ((~b) & ((1 << n) - 1))
            if m & (m + 1) == 0: return ex.fix(iadd(x, imodc(x, m + 1), -1), n)
        if x.op == 'b2i' and y.op == 'b2i': return ex.fix(b2i(and_(x.a[0], y.a[0])), n)
    if o == 'or' and x.op == 'b2i' and y.op == 'b2i': return ex.fix(b2i(or_(x.a[0], y.a[0])), n)
    if o == 'xor':
        if isinstance(b, int) and b == (1 << n) - 1: return ex.fix(iadd(iconst(-1), x, -1), n)
        if isinstance(b, int) and b == 1 and x.op == 'b2i': return ex.fix(b2i(not_(x.a[0])), n)
        if x.op == 'b2i' and y.op == 'b2i': return ex.fix(b2i(xor_(x.a[0], y.a[0])), n)
    # last resort: concretise
    xc = s.concretize(x, o); yc = s.concretize(y, o)
    M = (1 << n) - 1
    return ibin(ex, s, o, xc & M, yc & M, n)

@op('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
def _(ex, s, fr, i):
    a = ex.val(s, fr, i.a, i.ty); b = ex.val(s, fr, i.b, i.ty)
    if i.ty.k == 'vec': fr.regs[i.res] = [fbin(ex, s, i.op, x, y) for x, y in zip(a, b)]
    else: fr.regs[i.res] = fbin(ex, s, i.op, a, b)
    fr.ip += 1
def sign(s, t):
    """-1,0,1 by forking"""
    if s.decide(lt(R0, t)): return 1
    if s.decide(eq(t, R0)): return 0
    return -1
def fbin(ex, s, o, a, b):
    a = ex.rterm(s, a); b = ex.rterm(s, b)
    if isinstance(a, SF) or isinstance(b, SF):
        if a is NAN or b is NAN: return NAN
        if o == 'fsub': b = neg_sf(b); o = 'fadd'
        if o == 'fadd':
            if isinstance(a, SF) and isinstance(b, SF): return a if a.k == b.k else NAN
            return a if isinstance(a, SF) else b
        sa = (1 if a is PINF else -1) if isinstance(a, SF) else None
        sb = (1 if b is PINF else -1) if isinstance(b, SF) else None
        if o == 'fmul':
            if sa is None: sa = sign(s, a)
            if sb is None: sb = sign(s, b)
            k = sa * sb
            return NAN if k == 0 else PINF if k > 0 else NINF
        if o == 'fdiv':
            if sa is not None and sb is not None: return NAN
            if sb is not None: return R0
            k = sign(s, b)
            if k == 0: k = 1
            return PINF if sa * k > 0 else NINF
        raise OutOfReach('frem special')
    if o == 'fadd': return add(a, b)
    if o == 'fsub': return sub(a, b)
    if o == 'fmul': return mul(a, b)
    if o == 'fdiv':
        if s.decide(eq(b, R0)):
            s.notes.add('division by zero at ' + ex.loc(s))
            k = sign(s, a)
            return NAN if k == 0 else PINF if k > 0 else NINF
        return div(a, b)
    raise OutOfReach('frem')
def neg_sf(v):
    if isinstance(v, SF): return v if v is NAN else NINF if v is PINF else PINF
    return neg_(v)

@op('fneg')
def _(ex, s, fr, i):
    a = ex.rterm(s, ex.val(s, fr, i.a, i.ty)); fr.regs[i.res] = neg_sf(a); fr.ip += 1

def sbv(r): return 1 if r is TRUE else 0 if r is FALSE else r

@op('icmp')
def _(ex, s, fr, i):
    a = ex.val(s, fr, i.a, i.ty); b = ex.val(s, fr, i.b, i.ty)
    fr.regs[i.res] = icmp(ex, s, i.c, a, b, i.ty); fr.ip += 1
def icmp(ex, s, pr, a, b, ty):
    n = ty.n if ty.k == 'int' else 64
    if type(a) is PB or type(b) is PB:
        if pr in ('eq', 'ne'):
            x, y = (a, b) if type(a) is PB else (b, a)
            my, vy = (y.m, y.v) if type(y) is PB else ((1 << n) - 1, y) if type(y) is int else (0, 0)
            if (x.v ^ vy) & x.m & my: return int(pr == 'ne')
        raise OutOfReach('comparison of a partly initialised word')
    if isinstance(a, Cat) and a.hole(): a = UNDEF
    if isinstance(b, Cat) and b.hole(): b = UNDEF
    if a is UNDEF: a = ex.havoc_undef(s, 'B' if n == 1 else 'I')
    if b is UNDEF: b = ex.havoc_undef(s, 'B' if n == 1 else 'I')
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        if isinstance(a, Ptr) and a.o is None and isinstance(a.off, int) and not isinstance(b, (Ptr, Fn)): a = a.off
        elif isinstance(b, Ptr) and b.o is None and isinstance(b.off, int) and not isinstance(a, (Ptr, Fn)): b = b.off
        else:
            if isinstance(a, int): a = Ptr(None, a)
            if isinstance(b, int): b = Ptr(None, b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = isinstance(a, Fn) and isinstance(b, Fn) and a.n == b.n
                if pr == 'eq': return int(e)
                if pr == 'ne': return int(not e)
                raise OutOfReach('fn compare')
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise OutOfReach('ptr/int compare %r %r' % (a, b))
            if a.o == b.o:
                x = a.off; y = b.off
                if isinstance(x, int) and isinstance(y, int):
                    d = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}
                    return int(d[pr])
                x = iconst(x) if isinstance(x, int) else x; y = iconst(y) if isinstance(y, int) else y
                pr = pr.replace('u', 's') if pr[0] == 'u' else pr
                return icmp_t(pr, x, y)
            if pr == 'eq': return 0
            if pr == 'ne': return 1
            # ordering of distinct objects: arbitrary but consistent (allocation order)
            def key(p): return (0,) if p.o is None else (1, str(p.o).rjust(12, '0')) 
            ka, kb = key(a), key(b)
            d = {'ult': ka < kb, 'ule': ka <= kb, 'ugt': ka > kb, 'uge': ka >= kb, 'slt': ka < kb, 'sgt': ka > kb}
            return int(d[pr])
    if isinstance(a, int) and isinstance(b, int):
        if pr[0] == 's': a, b = sgn(a, n), sgn(b, n)
        k = pr[-2:]
        return int(a == b if pr == 'eq' else a != b if pr == 'ne' else a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
    if n == 1:
        x, y = ex.bterm(s, a), ex.bterm(s, b)
        if pr == 'eq': return sbv(eq(x, y))
        if pr == 'ne': return sbv(xor_(x, y))
        if pr == 'ult': return sbv(and_(not_(x), y))
        if pr == 'ugt': return sbv(and_(not_(y), x))
        raise OutOfReach('i1 cmp')
    if isinstance(a, SF) or isinstance(b, SF) or (isinstance(a, T) and a.s == 'R') or (isinstance(b, T) and b.s == 'R'):
        # comparison of raw bits of doubles
        x = ex.rterm(s, a); y = ex.rterm(s, b)
        if isinstance(a, T) and a.s == 'R' and isinstance(b, int) and pr in ('slt', 'sgt'):
            if pr == 'slt' and b == 0: return sbv(lt(a, R0))
            if pr == 'sgt' and b == (1 << 64) - 1: return sbv(le(R0, a))
        raise OutOfReach('bit comparison of doubles')
    x, y = ex.iterm(a, n), ex.iterm(b, n)
    if pr[0] == 'u':
        r = {'ult': lt, 'ule': le, 'ugt': lambda p, q: lt(q, p), 'uge': lambda p, q: le(q, p)}[pr]
        nx = x.op == 'const' and x.v >= 0 or s.known(le(I0, x)) is True; ny = y.op == 'const' and y.v >= 0 or s.known(le(I0, y)) is True
        if nx and ny: return sbv(r(x, y))
        zx, zy = le(I0, x), le(I0, y)
        both = r(x, y)
        # mixed signs: the negative one is the larger unsigned value
        mixed = bconst(False)
        lessab = and_(zx, not_(zy)); lessba = and_(zy, not_(zx))
        return sbv(or_(and_(eq(zx, zy), both), lessab if pr in ('ult', 'ule') else lessba))
    return icmp_t(pr, x, y)
def icmp_t(pr, x, y):
    if pr == 'eq': return sbv(eq(x, y))
    if pr == 'ne': return sbv(not_(eq(x, y)))
    if pr == 'slt': return sbv(lt(x, y))
    if pr == 'sle': return sbv(le(x, y))
    if pr == 'sgt': return sbv(lt(y, x))
    if pr == 'sge': return sbv(le(y, x))
    raise OutOfReach(pr)

@op('fcmp')
def _(ex, s, fr, i):
    a = ex.val(s, fr, i.a, i.ty); b = ex.val(s, fr, i.b, i.ty)
    fr.regs[i.res] = fcmp(ex, s, i.c, a, b); fr.ip += 1
def fcmp(ex, s, pr, a, b):
    a = ex.rterm(s, a); b = ex.rterm(s, b)
    if pr == 'true': return 1
    if pr == 'false': return 0
    if a is NAN or b is NAN: return 1 if pr[0] == 'u' and pr != 'ueq' or pr == 'ueq' or pr == 'uno' else 0
    if pr == 'uno': return 0
    if pr == 'ord': return 1
    k = pr[1:]
    if isinstance(a, SF) or isinstance(b, SF):
        x = a.k if isinstance(a, SF) else 'r'; y = b.k if isinstance(b, SF) else 'r'
        rk = {'-inf': -1, 'r': 0, 'inf': 1}; x, y = rk[x], rk[y]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
    if k == 'eq': return sbv(eq(a, b))
    if k == 'ne': return sbv(not_(eq(a, b)))
    if k == 'lt': return sbv(lt(a, b))
    if k == 'le': return sbv(le(a, b))
    if k == 'gt': return sbv(lt(b, a))
    return sbv(le(b, a))

@op('select')
def _(ex, s, fr, i):
    c = ex.val(s, fr, i.a, i.x)
    if isinstance(c, list):
        a = ex.val(s, fr, i.b, i.ty); b = ex.val(s, fr, i.c, i.ty)
        fr.regs[i.res] = [x if s.decide(ex.bterm(s, cc)) else y for cc, x, y in zip(c, a, b)]; fr.ip += 1; return
    c = ex.bterm(s, c)
    a = ex.val(s, fr, i.b, i.ty); b = ex.val(s, fr, i.c, i.ty)
    if c is TRUE: r = a
    elif c is FALSE: r = b
    elif i.ty.k == 'int' and i.ty.n == 1:
        r = sbv(ite(c, ex.bterm(s, a), ex.bterm(s, b)))
    else:
        r = a if s.decide(c) else b
    fr.regs[i.res] = r; fr.ip += 1

@op('alloca')
def _(ex, s, fr, i):
    n = ex.val(s, fr, i.a, ir.INT(64)); n = n if isinstance(n, int) else s.concretize(n)
    o = s.alloc(size_of(i.ty) * n, 'stack', '%s:%s' % (fr.fn.name, i.res)); fr.allocas.append(o)
    fr.regs[i.res] = Ptr(o, 0); fr.ip += 1

@op('load')
def _(ex, s, fr, i):
    fr.regs[i.res] = s.load(ex.val(s, fr, i.a, PTR), i.ty); fr.ip += 1
@op('store')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty); p = ex.val(s, fr, i.b, PTR)
    s.store(p, v, i.ty); fr.ip += 1
@op('gep')
def _(ex, s, fr, i):
    b = ex.val(s, fr, i.a, PTR)
    fr.regs[i.res] = ex.gep(s, i.ty, b, [(t, ex.val(s, fr, v, t)) for t, v in i.b]); fr.ip += 1

@op('br')
def _(ex, s, fr, i): ex.jump(s, fr, i.a)
@op('cbr')
def _(ex, s, fr, i):
    c = ex.val(s, fr, i.a, ir.INT(1))
    if isinstance(c, int): ex.jump(s, fr, i.b if c else i.c); return
    c = ex.bterm(s, c)
    ex.jump(s, fr, i.b if s.decide(c) else i.c)
@op('switch')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty)
    if isinstance(v, Ptr) and v.o is None: v = v.off
    if isinstance(v, int):
        for c, l in i.c:
            if c == v: ex.jump(s, fr, l); return
        ex.jump(s, fr, i.b); return
    if v is UNDEF: v = ex.havoc_undef(s, 'I')
    t = ex.iterm(v, i.ty.n)
    for c, l in i.c:
        if s.decide(eq(t, iconst(sgn(c, i.ty.n)))): ex.jump(s, fr, l); return
    ex.jump(s, fr, i.b)
@op('ret')
def _(ex, s, fr, i):
    ex.ret(s, ex.val(s, fr, i.a, i.ty) if i.ty is not None else None)
@op('call', 'invoke')
def _(ex, s, fr, i): ex.call(s, fr, i)
@op('unreachable')
def _(ex, s, fr, i): s.fail('ub', 'control reaches an unreachable point')

@op('trunc')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.b); n = i.ty.n
    if isinstance(v, int): v &= (1 << n) - 1
    elif isinstance(v, Cat): v = v.sub(0, n // 8)
    elif type(v) is PB: v = pb(v.m, v.v, n)
    elif isinstance(v, T) and v.s == 'I':
        if n == 1: v = sbv(v.a[0] if v.op == 'b2i' else eq(imodc(v, 2), I1))
    elif isinstance(v, Ptr) and v.o is None and isinstance(v.off, int): v = v.off & ((1 << n) - 1)
    elif isinstance(v, T) and v.s == 'B': pass
    elif v is UNDEF: pass
    else: raise OutOfReach('trunc %r' % (v,))
    fr.regs[i.res] = v; fr.ip += 1
@op('zext')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.b)
    if isinstance(v, list): raise OutOfReach('vec zext')
    if type(v) is PB: v = pb(v.m | ((1 << i.ty.n) - (1 << i.b.n)), v.v, i.ty.n)
    if isinstance(v, T):
        if v.s == 'B': v = b2i(v)
        elif v.op == 'b2i' or s.known(le(I0, v)): pass
        elif not s.decide(le(I0, v)): v = iadd(v, iconst(1 << i.b.n))
    fr.regs[i.res] = v; fr.ip += 1
@op('sext')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.b)
    if isinstance(v, int): v = sgn(v, i.b.n) & ((1 << i.ty.n) - 1)
    elif isinstance(v, T) and v.s == 'B': v = imul(b2i(v), iconst(-1))
    fr.regs[i.res] = v; fr.ip += 1
@op('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.b if i.op != 'freeze' else i.ty)
    if i.op == 'freeze' and v is UNDEF and i.ty.k in ('int', 'double'):
        v = ex.havoc_undef(s, 'R' if i.ty.k == 'double' else 'B' if i.ty.n == 1 else 'I')
    if i.op == 'bitcast':
        if i.b.k == 'int' and i.ty.k == 'double' and isinstance(v, int): v = ex.fconst(bits_f(v, 'double'))
        elif i.b.k == 'int' and i.ty.k == 'float' and isinstance(v, int): v = ex.fconst(bits_f(v, 'float'))
        elif i.b.k == 'double' and i.ty.k == 'int' and isinstance(v, T) and v.op == 'const': v = fbits(v, 8)
        elif i.b.k == 'vec' or i.ty.k == 'vec':
            raise OutOfReach('vector bitcast')
    if i.op == 'inttoptr' and isinstance(v, int): v = NULL if v == 0 else Ptr(None, v)
    if i.op == 'ptrtoint' and isinstance(v, Ptr) and v.o is None and isinstance(v.off, int): v = v.off & (2**64 - 1)
    fr.regs[i.res] = v; fr.ip += 1
@op('fptosi', 'fptoui')
def _(ex, s, fr, i):
    v = ex.rterm(s, ex.val(s, fr, i.a, i.b))
    if isinstance(v, SF): s.fail('ub', 'conversion of %s to integer' % v.k)
    fr.regs[i.res] = ex.fix(r2i(v), i.ty.n); fr.ip += 1
@op('sitofp', 'uitofp')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.b); n = i.b.n
    if isinstance(v, int): r = rconst(sgn(v, n) if i.op == 'sitofp' and n > 1 else v)
    elif v is UNDEF: r = ex.havoc_undef(s, 'R')
    else: 
        t = ex.iterm(v, n)
        b = int_atom(t)
        if b is not None and s.bounded_int(b) is not None: t = iconst(int_value(t, b, s.concretize(b)))
        if i.op == 'uitofp' and t.op != 'b2i' and not s.known(le(I0, t)) and not s.decide(le(I0, t)): t = iadd(t, iconst(1 << n))
        r = i2r(t)
    fr.regs[i.res] = r; fr.ip += 1
@op('fpext', 'fptrunc')
def _(ex, s, fr, i): fr.regs[i.res] = ex.rterm(s, ex.val(s, fr, i.a, i.b)); fr.ip += 1
@op('extractvalue')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty)
    for k in i.b: v = UNDEF if v is UNDEF else v[k]
    fr.regs[i.res] = v; fr.ip += 1
@op('insertvalue')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty); e = ex.val(s, fr, i.b, i.x)
    def ins(v, ty, ix):
        el = ty.el if ty.k == 'struct' else [ty.el] * ty.n
        v = [UNDEF] * len(el) if v is UNDEF else list(v)
        v[ix[0]] = e if len(ix) == 1 else ins(v[ix[0]], el[ix[0]], ix[1:])
        return v
    fr.regs[i.res] = ins(v, i.ty, i.c); fr.ip += 1
@op('extractelement')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty); k = ex.val(s, fr, i.b, ir.INT(64)); k = k if isinstance(k, int) else s.concretize(k)
    fr.regs[i.res] = UNDEF if v is UNDEF else v[k]; fr.ip += 1
@op('insertelement')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty); e = ex.val(s, fr, i.b, i.ty.el); k = ex.val(s, fr, i.c, ir.INT(64)); k = k if isinstance(k, int) else s.concretize(k)
    v = [UNDEF] * i.ty.n if v is UNDEF else list(v); v[k] = e
    fr.regs[i.res] = v; fr.ip += 1
@op('shufflevector')
def _(ex, s, fr, i):
    v = ex.val(s, fr, i.a, i.ty); w = ex.val(s, fr, i.b, i.ty); m = ex.val(s, fr, i.c, i.x)
    n = i.ty.n; v = [UNDEF] * n if v is UNDEF else v; w = [UNDEF] * n if w is UNDEF else w
    c = list(v) + list(w)
    if m is UNDEF: m = [UNDEF] * i.x.n
    fr.regs[i.res] = [UNDEF if k is UNDEF else c[k] for k in m]; fr.ip += 1
@op('landingpad')
def _(ex, s, fr, i):
    e, sel = s.ghost['lp']; fr.regs[i.res] = [e, sel]; fr.ip += 1
@op('resume')
def _(ex, s, fr, i):
    f = s.frames.pop()
    for a in f.allocas: s.mem.pop(a, None)
    if not s.frames:
        s.frames.append(f); s.fail('exception', 'uncaught exception %s' % s.exc[-1][1])
    ex.unwind(s)
@op('atomicrmw')
def _(ex, s, fr, i):
    p = ex.val(s, fr, i.a, PTR); v = ex.val(s, fr, i.b, i.ty); old = s.load(p, i.ty)
    if i.c in ('add', 'sub', 'and', 'or', 'xor'): new = ibin(ex, s, i.c, old, v, i.ty.n)
    elif i.c == 'xchg': new = v
    else: raise OutOfReach('atomicrmw ' + i.c)
    s.store(p, new, i.ty); fr.regs[i.res] = old; fr.ip += 1
@op('cmpxchg')
def _(ex, s, fr, i):
    p = ex.val(s, fr, i.a, PTR); c = ex.val(s, fr, i.b, i.ty); n = ex.val(s, fr, i.c, i.ty); old = s.load(p, i.ty)
    e = icmp(ex, s, 'eq', old, c, i.ty)
    ok = e == 1 if isinstance(e, int) else s.decide(e)
    if ok: s.store(p, n, i.ty)
    fr.regs[i.res] = [old, 1 if ok else 0]; fr.ip += 1
