"""Models (trusted contracts) of harness intrinsics, LLVM intrinsics, libc/libm, the C++ runtime."""
import re, math
import ir, sym, solve
from ir import PTR
from sym import *
from solve import mksqrt, mkexp, mklog, mksin, mkcos
NOFINISH = object()

STD_BASES = {
 '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
 '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
 '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
 '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
}
THROWERS = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
 '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
 '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast', '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt20__throw_domain_errorPKc':'_ZTISt12domain_error', '_ZSt20__throw_system_errori': '_ZTISt12system_error'}

NOOP_RE = re.compile(r'^(llvm\.(lifetime|dbg|invariant|experimental\.noalias|assume|donothing|stackrestore|prefetch|va_start|va_end)|'
    r'_ZNSt(13runtime_error|11logic_error|16invalid_argument|12out_of_range|12length_error|12domain_error|9exception|11range_error|12system_error|14overflow_error|8bad_cast)[CD]|_ZNSt8ios_base4Init[CD]|__cxa_free_exception|__cxa_end_catch|__cxa_guard_abort|__cxa_atexit|_ZNSt6locale[CD]|_ZNSt8ios_base[CD]|'
    r'_ZNSt7__cxx11\d+basic_(stringstream|ostringstream|istringstream|stringbuf)|_ZNSt9basic_ios|_ZNSt14basic_(i|o)fstream|_ZNSt13basic_filebuf)')
STREAM_RE = re.compile(r'^(_ZNSo|_ZSt4endl|_ZStlsI|_ZSt16__ostream_insert|_ZNSt9basic_ios.*|_ZStlsISt11char_traits)')

class Models:
    def builtin(self, n):
        c = self.__dict__.setdefault('_bc', {})
        if n in c: return c[n]
        m = self._builtin(n); c[n] = m
        return m
    def _builtin(self, n):
        k = BUILT.get(n)
        if k is not None: return getattr(self, k)
        if re.match(r'_ZNSt7__cxx111[89]basic_[io]?stringstreamI.*C[12]E', n): return self.m_sstream
        if re.match(r'_ZNKSt7__cxx111[89]basic_[io]?stringstreamI.*3strEv$', n) and n not in self.mod.functions: return self.m_sstr
        if n in THROWERS: return lambda s, a, i: self.do_throw(s, NULLP(), THROWERS[n])
        if n.startswith('llvm.'):
            b = n.split('.')
            k = LLVM.get(b[1])
            if k is not None: return getattr(self, k)
        if n in self.mod.functions: return None
        if NOOP_RE.match(n): return self.m_noop
        if STREAM_RE.match(n): return self.m_stream
        return None
    # ---- generic
    def m_noop(self, s, a, i):
        import execu
        if i.ty.k == 'void': return None
        if i.ty.k == 'ptr': return a[0] if a else execu.NULL
        return self.zero(i.ty)
    def m_sstream(self, s, a, i):
        """a fresh string stream holds the empty text (stream output is a no-op)"""
        p = a[0]; o = s.getobj(p.o); n = (o.size or 392) - p.off; s.memset(p, 0, min(n, 392)); return None
    def m_sstr(self, s, a, i):
        """text of a stream: the empty string"""
        import ir
        p = a[0]; b = s.padd(p, 16); s.store(p, b, ir.PTR); s.store(s.padd(p, 8), 0, ir.INT(64)); s.store(b, 0, ir.INT(8)); return None
    def m_stream(self, s, a, i):
        return a[0]
    # ---- harness intrinsics
    def fresh(self, s, name, sort, kind):
        k = s.names.get(name, 0); s.names[name] = k + 1
        nm = name if k == 0 else '%s#%d' % (name, k)
        t = var('in:' + nm, sort); s.inputs.append((nm, kind, t)); return t
    def m_vc_real(self, s, a, i): return self.fresh(s, s.cstr(a[0]), 'R', 'real')
    def m_vc_bool(self, s, a, i): return self.fresh(s, s.cstr(a[0]), 'B', 'bool')
    def m_vc_int(self, s, a, i): return self.fresh(s, s.cstr(a[0]), 'I', 'int')
    def m_vc_choice(self, s, a, i):
        """concrete fork over 0..n-1"""
        name = s.cstr(a[0]); n = a[1]
        k = s.names.get(name, 0); nm = name if k == 0 else '%s#%d' % (name, k)
        t = var('in:' + nm, 'I')
        for v in range(n - 1):
            c = eq(t, iconst(v)); kn = s.known(c)
            if kn is True: r = v; break
            if kn is False: continue
            o = s.clone(); o.assume(not_(c)); self.work.append(o); s.assume(c); r = v; break
        else: r = n - 1; s.assume(eq(t, iconst(r)))
        s.names[name] = k + 1; s.inputs.append((nm, 'int', t))
        return r
    def m_vc_assume(self, s, a, i):
        c = self.bterm(s, a[0])
        if c is FALSE: raise_infeasible()
        if c is TRUE: return None
        k = s.known(c)
        if k is True: return None
        if k is False: raise_infeasible()
        s.assume(c)
        if solve.check(solve.relevant(s.pc, [c]), self.feas_ms)[0] == 'unsat': raise_infeasible()
        return None
    def m_vc_assert(self, s, a, i):
        c = self.bterm(s, a[0]); lb = s.cstr(a[1])
        self.obligation(s, c, lb)
        if c is FALSE: raise_infeasible()
        if c is not TRUE: s.assume(c)
        return None
    def m_vc_eq(self, s, a, i):
        import execu
        x = self.rterm(s, a[0]); y = self.rterm(s, a[1]); lb = s.cstr(a[2])
        if isinstance(x, execu.SF) or isinstance(y, execu.SF):
            ok = isinstance(x, execu.SF) and isinstance(y, execu.SF) and x.k == y.k and x.k != 'nan'
            self.obligation(s, bconst(ok), lb)
            if not ok: raise execu.PathEnd('violation')
            return None
        c = eq(x, y); self.obligation(s, c, lb)
        if c is FALSE: raise_infeasible()
        s.assume(c); return None
    def m_vc_le(self, s, a, i):
        import execu
        x = self.rterm(s, a[0]); y = self.rterm(s, a[1]); lb = s.cstr(a[2])
        c = execu.fcmp(self, s, 'ole', x, y)
        if isinstance(c, int): c = bconst(c)
        self.obligation(s, c, lb)
        if c is FALSE: raise execu.PathEnd('violation')
        s.assume(c); return None
    def m_vc_real_in(self, s, a, i):
        import execu
        lo = self.rterm(s, a[1]); hi = self.rterm(s, a[2])
        c = execu.fcmp(self, s, 'ole', lo, hi); c = c if isinstance(c, T) else bconst(c)
        if c is FALSE or s.known(c) is False: raise_infeasible()
        s.assume(c)
        x = self.fresh(s, s.cstr(a[0]), 'R', 'real')
        if isinstance(lo, T): s.assume(le(lo, x))
        if isinstance(hi, T): s.assume(le(x, hi))
        return x
    def m_vc_int_in(self, s, a, i):
        x = self.fresh(s, s.cstr(a[0]), 'I', 'int'); s.assume(le(self.iterm(a[1], 64), x)); s.assume(le(x, self.iterm(a[2], 64))); return x
    def m_vc_finite(self, s, a, i):
        import execu
        x = self.rterm(s, a[0]); return 0 if isinstance(x, execu.SF) else 1
    def m_vc_cover(self, s, a, i):
        lb = s.cstr(a[0])
        if not self.mute and self.covers.get(lb) != 'sat':
            r = solve.check(list(s.pc), 3000, False, ('smt', 'nra'))[0]
            if r == 'sat' or lb not in self.covers: self.covers[lb] = r
        return None
    def m_vc_note(self, s, a, i): return None
    def m_vc_stop(self, s, a, i):
        import execu
        raise execu.PathEnd('done')
    def m_vc_trig_add(self, s, a, i):
        """lemma: addition theorem for sin/cos of a+b (a, b reals)"""
        x, y = self.rterm(s, a[0]), self.rterm(s, a[1]); z = add(x, y)
        sx, cx, sy, cy = mksin(x), mkcos(x), mksin(y), mkcos(y)
        s.assume(eq(mksin(z), add(mul(sx, cy), mul(cx, sy)))); s.assume(eq(mkcos(z), sub(mul(cx, cy), mul(sx, sy))))
        return None
    def m_vc_trig_half(self, s, a, i):
        """lemma: double angle, sin x = 2 sin(x/2)cos(x/2), cos x = 1-2 sin^2(x/2)"""
        x = self.rterm(s, a[0]); h = mul(x, rconst(Fraction(1, 2)))
        sh, ch = mksin(h), mkcos(h)
        s.assume(eq(mksin(x), mul(rconst(2), mul(sh, ch)))); s.assume(eq(mkcos(x), sub(R1, mul(rconst(2), mul(sh, sh)))))
        return None
    def m_vc_uf1(self, s, a, i):
        """uninterpreted real function of one real: vc_fun(name, x)"""
        import execu
        nm = s.cstr(a[0]); x = self.rterm(s, a[1])
        return execu.NAN if isinstance(x, execu.SF) else uf('fun:' + nm, (x,))
    def m_vc_uf2(self, s, a, i):
        import execu
        nm = s.cstr(a[0]); x, y = self.rterm(s, a[1]), self.rterm(s, a[2])
        return execu.NAN if isinstance(x, execu.SF) or isinstance(y, execu.SF) else uf('fun:' + nm, (x, y))
    def m_vc_ufi(self, s, a, i):
        nm = s.cstr(a[0]); return uf('fun:' + nm, (self.iterm(a[1], 64),))
    def m_vc_array(self, s, a, i):
        """double* vc_array(name, n): unbounded symbolic array of n reals"""
        import execu
        nm = s.cstr(a[0]); n = self.iterm(a[1], 64)
        k = s.names.get('arr:' + nm, 0); s.names['arr:' + nm] = k + 1
        nm = nm if k == 0 else '%s#%d' % (nm, k)
        o = s.alloc(None, 'heap', nm); s.mem[o].arr = execu.Arr('arr:' + nm, 8, 'R', n)
        return execu.Ptr(o, 0)
    # ---- C++ runtime
    def m_new(self, s, a, i):
        import execu
        n = a[0] if isinstance(a[0], int) else s.concretize(a[0], 'new size')
        f = i.a[1] if isinstance(i.a, tuple) and len(i.a) > 1 else ''
        return execu.Ptr(s.alloc(n, 'heap', ('array-new%d' if f == '_Znam' else 'malloc%d' if f == 'malloc' else 'new%d') % n), 0)
    def m_calloc(self, s, a, i):
        import execu
        n = a[0] * a[1]; p = execu.Ptr(s.alloc(n, 'heap', 'calloc'), 0); s.memset(p, 0, n); return p
    def m_delete(self, s, a, i):
        p = a[0]
        import execu
        if p is execu.UNDEF: s.fail('memory', 'delete of an uninitialised pointer')
        if isinstance(p, execu.Ptr) and p.o is not None:
            o = s.getobj(p.o)
            if o.freed: s.fail('memory', 'double free')
            if o.kind != 'heap' or p.off != 0: s.fail('memory', 'free of a non-heap pointer')
            f = i.a[1] if isinstance(i.a, tuple) and len(i.a) > 1 else ''
            if isinstance(f, str) and (f.startswith('_Zdl') and o.name.startswith(('array-new', 'malloc')) or f.startswith('_Zda') and o.name.startswith(('new', 'malloc')) or f == 'free' and o.name.startswith(('array-new', 'new'))):
                s.fail('memory', 'deallocation does not match the allocation (new/delete/new[]/delete[]/malloc/free)')
            o = s.wobj(p.o); o.freed = True
        return None
    def m_memcpy(self, s, a, i):
        s.memcpy(a[0], a[1], a[2]); return a[0] if i.ty.k == 'ptr' else None
    def m_memset(self, s, a, i):
        s.memset(a[0], a[1], a[2]); return a[0] if i.ty.k == 'ptr' else None
    def m_memcmp(self, s, a, i):
        n = a[2] if isinstance(a[2], int) else s.concretize(a[2])
        if n == 0: return 0
        xo = s.ptr_check(a[0], n, 'memcmp'); yo = s.ptr_check(a[1], n, 'memcmp')
        x0 = s.off_of(a[0], xo, n, 'memcmp'); y0 = s.off_of(a[1], yo, n, 'memcmp')
        k = 0
        while k < n:
            c, d = xo.cells.get(x0 + k), yo.cells.get(y0 + k)
            if c is not None and d is not None and c[0] == d[0] and k + c[0] <= n and (isinstance(c[1], T) or isinstance(d[1], T)):
                w = c[0]; c, d = c[1], d[1]
                if isinstance(c, T) and isinstance(d, T) and c.s != d.s or (isinstance(c, T) and c.s == 'R') != (isinstance(d, T) and d.s == 'R'):
                    import execu
                    raise execu.OutOfReach('memcmp of different kinds')
                if not isinstance(c, T): c = self.iterm(c, 8 * w)
                if not isinstance(d, T): d = self.iterm(d, 8 * w)
                if not s.decide(eq(c, d)): return 1
                k += w; continue
            c = s.gather(xo, x0 + k, 1, None); d = s.gather(yo, y0 + k, 1, None); k += 1
            if not isinstance(c, int) or not isinstance(d, int):
                import execu
                raise execu.OutOfReach('memcmp symbolic')
            if c != d: return (1 if c > d else -1) & 0xffffffff
        return 0
    def m_snprintf(self, s, a, i):
        import execu, re as _re
        fmt = s.cstr(a[2]); n = a[1]; args = list(a[3:]); out = ''; k = 0
        while k < len(fmt):
            if fmt[k] != '%': out += fmt[k]; k += 1; continue
            m = _re.match(r'%(l?)([du])', fmt[k:])
            if not m: raise execu.OutOfReach('snprintf format ' + fmt)
            v = args.pop(0); v = v if isinstance(v, int) else s.concretize(v)
            w = 64 if m.group(1) else 32
            out += str(execu.sgn(v & ((1 << w) - 1), w) if m.group(2) == 'd' else v); k += m.end()
        for j, c in enumerate(out[:max(0, n - 1)] + '\0'): s.store(s.padd(a[0], j), ord(c), ir.INT(8))
        return len(out)
    def m_sscanf(self, s, a, i):
        import execu, re as _re
        txt = s.cstr(a[0]); fmt = s.cstr(a[1]); args = list(a[2:]); pos = 0; n = 0
        if not _re.fullmatch(r'(%\d*d)+', fmt): raise execu.OutOfReach('sscanf format ' + fmt)
        for w in _re.findall(r'%(\d*)d', fmt):
            while pos < len(txt) and txt[pos].isspace(): pos += 1
            if pos >= len(txt): return n if n else 0xffffffff
            m = _re.match(r'[+-]?\d+', txt[pos:pos + int(w)] if w else txt[pos:])
            if not m: return n
            s.store(args.pop(0), int(m.group(0)) & 0xffffffff, ir.INT(32)); pos += m.end(); n += 1
        return n
    def m_strlen(self, s, a, i): return len(s.cstr(a[0]))
    def m_strcmp(self, s, a, i):
        x, y = s.cstr(a[0]), s.cstr(a[1]); return (0 if x == y else 1 if x > y else -1) & 0xffffffff
    def m_alloc_exc(self, s, a, i):
        import execu
        return execu.Ptr(s.alloc(max(a[0], 16), 'heap', 'exception'), 0)
    def m_throw(self, s, a, i): return self.do_throw(s, a[0], a[1].o[1])
    def do_throw(self, s, p, ti):
        s.exc.append((p, ti)); self.unwind(s); return NOFINISH
    def m_begin_catch(self, s, a, i):
        s.caught.append(s.exc[-1] if s.exc else None); return a[0]
    def m_pid(self, s, a, i): return 4242
    def m_exc_ptr(self, s, a, i): return a[0]
    def m_rethrow(self, s, a, i):
        s.exc.append(s.caught[-1]); self.unwind(s); return NOFINISH
    def m_terminate(self, s, a, i): s.fail('exception', 'std::terminate is called (exception %s)' % (s.exc[-1][1] if s.exc else '?'))
    def m_abort(self, s, a, i): s.fail('abort', 'abort/assert is called')
    def m_typeid_for(self, s, a, i):
        import execu
        p = a[0]
        return self.typeid(p.o[1] if isinstance(p, execu.Ptr) and p.o is not None else None)
    def m_guard_acquire(self, s, a, i):
        import execu
        v = s.load(a[0], ir.INT(8)); return 1 if v == 0 else 0
    def m_guard_release(self, s, a, i): s.store(a[0], 1, ir.INT(8)); return None
    def bases(self, s, ti):
        """[(base typeinfo, offset, virtual)]"""
        import execu
        if ti in STD_BASES: return [(b, 0, False) for b in STD_BASES[ti]]
        g = self.mod.gdef(ti)
        if g is None or g[2] is None: return []
        o = s.getobj(('g', ti)); vt = o.cells[0][1].o[1]
        if 'si_class' in vt: return [(o.cells[16][1].o[1], 0, False)]
        if 'vmi_class' in vt:
            n = s.load(execu.Ptr(('g', ti), 20), ir.INT(32)); r = []
            for k in range(n):
                b = s.load(execu.Ptr(('g', ti), 24 + 16 * k), PTR); f = s.load(execu.Ptr(('g', ti), 32 + 16 * k), ir.INT(64)); f = execu.sgn(f, 64)
                r.append((b.o[1], f >> 8, bool(f & 1)))
            return r
        return []
    def derives(self, s, t, base):
        if t == base: return True
        return any(self.derives(s, b, base) for b, _, _ in self.bases(s, t))
    def m_dyncast(self, s, a, i):
        import execu
        src, dst = a[0], a[2].o[1]
        if src.o is None: return execu.NULL
        vp = s.load(src, PTR)
        if not isinstance(vp, execu.Ptr) or vp.o is None: s.fail('memory', 'dynamic_cast on a dead object')
        top = execu.sgn(s.load(s.padd(vp, -16), ir.INT(64)), 64); ti = s.load(s.padd(vp, -8), PTR).o[1]
        full = s.padd(src, top)
        found = []
        def walk(t, p):
            if t == dst: found.append(p); return
            for b, off, virt in self.bases(s, t):
                if virt:
                    v = s.load(p, PTR); d = execu.sgn(s.load(s.padd(v, off), ir.INT(64)), 64); walk(b, s.padd(p, d))
                else: walk(b, s.padd(p, off))
        walk(ti, full)
        if not found: return execu.NULL
        return found[0]
    def m_zero(self, s, a, i): return 0
    def m_one(self, s, a, i): return 1
    # ---- libm
    def sfarg(self, v):
        import execu
        return isinstance(v, execu.SF)
    def m_fmuladd(self, s, a, i):
        import execu
        return execu.fbin(self, s, 'fadd', execu.fbin(self, s, 'fmul', a[0], a[1]), a[2])
    def m_fabs(self, s, v):
        import execu
        v = self.rterm(s, v)
        if isinstance(v, execu.SF): return v if v is execu.NAN else execu.PINF
        if v.op == 'const': return rconst(abs(v.v))
        return v if s.decide(le(R0, v)) else neg_(v)
    def l_fabs(self, s, a, i): return self.m_fabs(s, a[0])
    def l_copysign(self, s, a, i):
        import execu
        x = self.rterm(s, a[0]); y = self.rterm(s, a[1])
        if isinstance(x, execu.SF) or isinstance(y, execu.SF): raise execu.OutOfReach('copysign special')
        pos = s.decide(le(R0, y)); m = self.m_fabs(s, x)
        return m if pos else neg_(m)
    def l_sqrt(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.PINF if v is execu.PINF else execu.NAN
        if v.op != 'const' and v.op != 'var':
            r = sym.root_of(v)
            if r is not None: return self.m_fabs(s, r)
        if not s.decide(le(R0, v)):
            s.notes.add('sqrt of a negative number at ' + self.loc(s)); return execu.NAN
        return mksqrt(v)
    def l_exp(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.PINF if v is execu.PINF else R0 if v is execu.NINF else v
        return mkexp(v)
    def l_expm1(self, s, a, i): 
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.PINF if v is execu.PINF else rconst(-1) if v is execu.NINF else v
        return sub(mkexp(v), R1)
    def l_exp10(self, s, a, i): return self.l_pow(s, [rconst(10), a[0]], i)
    def l_exp2(self, s, a, i): return self.l_pow(s, [rconst(2), a[0]], i)
    def l_log(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.PINF if v is execu.PINF else execu.NAN
        if s.decide(lt(R0, v)): return mklog(v)
        if s.decide(eq(v, R0)): return execu.NINF
        s.notes.add('log of a negative number'); return execu.NAN
    def l_log1p(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return self.l_log(s, a, i)
        return self.l_log(s, [add(R1, v)], i)
    def l_log10(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if v is not None and not isinstance(v, execu.SF) and v.op == 'const' and v.v > 0:
            q = v.v; k = 0
            while q >= 10: q /= 10; k += 1
            while q < 1: q *= 10; k -= 1
            if q == 1: return rconst(k)
        r = self.l_log(s, [v], i)
        if isinstance(r, execu.SF): return r
        return div(r, uf('log', (rconst(10),)))
    def l_pow(self, s, a, i):
        import execu
        x = self.rterm(s, a[0]); y = self.rterm(s, a[1])
        if isinstance(x, execu.SF) or isinstance(y, execu.SF): 
            if y is execu.NAN or x is execu.NAN: return execu.NAN
            raise execu.OutOfReach('pow special')
        if y.op == 'const' and y.v.denominator == 1 and abs(y.v) <= 16:
            n = int(y.v); r = R1
            for _ in range(abs(n)): r = mul(r, x)
            if n < 0: return execu.fbin(self, s, 'fdiv', R1, r)
            return r
        if y.op == 'const' and y.v == Fraction(1, 2): return self.l_sqrt(s, [x], i)
        if y.op == 'const' and y.v.denominator == 2 and abs(y.v) < 16:
            r = self.l_sqrt(s, [x], i)
            if isinstance(r, execu.SF): return r
            n = y.v.numerator; p = R1
            for _ in range(abs(n)): p = mul(p, r)
            return execu.fbin(self, s, 'fdiv', R1, p) if n < 0 else p
        if s.decide(lt(R0, x)): return mkexp(mul(y, mklog(x)))
        if s.decide(eq(x, R0)):
            if s.decide(lt(R0, y)): return R0
            if s.decide(eq(y, R0)): return R1
            return execu.PINF
        if s.decide(eq(y, R0)): return R1
        s.notes.add('pow of a negative base'); return execu.NAN
    def l_powi(self, s, a, i):
        import execu
        n = a[1] if isinstance(a[1], int) else s.concretize(a[1]); n = execu.sgn(n, 32)
        return self.l_pow(s, [a[0], rconst(n)], i)
    def l_sin(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.NAN
        if v.op == 'uf' and v.v == 'atan2' and s.decide(and_(eq(v.a[0], R0), eq(v.a[1], R0))): return R0
        return mksin(v)
    def l_cos(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.NAN
        if v.op == 'uf' and v.v == 'atan2' and s.decide(and_(eq(v.a[0], R0), eq(v.a[1], R0))): return R1
        return mkcos(v)
    def l_tan(self, s, a, i):
        import execu
        x = self.l_sin(s, a, i); y = self.l_cos(s, a, i)
        return execu.fbin(self, s, 'fdiv', x, y)
    def l_acos(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.NAN
        if not s.decide(and_(le(rconst(-1), v), le(v, R1))):
            s.notes.add('acos outside [-1,1] at ' + self.loc(s)); return execu.NAN
        if v.op == 'const':
            t = {1: R0, -1: PI, 0: mul(rconst(Fraction(1, 2)), PI)}
            if v.v in t: return t[v.v]
        return uf('acos', (v,))
    def l_asin(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): return execu.NAN
        if not s.decide(and_(le(rconst(-1), v), le(v, R1))):
            s.notes.add('asin outside [-1,1]'); return execu.NAN
        if v is R0: return R0
        return uf('asin', (v,))
    def l_atan(self, s, a, i):
        import execu
        v = self.rterm(s, a[0])
        if isinstance(v, execu.SF): raise execu.OutOfReach('atan inf')
        if v is R0: return R0
        return uf('atan', (v,))
    def l_atan2(self, s, a, i):
        import execu
        y, x = self.rterm(s, a[0]), self.rterm(s, a[1])
        if isinstance(x, execu.SF) or isinstance(y, execu.SF): return execu.NAN
        if y is R0:
            if s.decide(le(R0, x)): return R0
            return PI
        return uf('atan2', (y, x))
    def l_uf(self, s, a, i):
        import execu
        n = i.a[1]
        v = [self.rterm(s, x) for x in a]
        if any(isinstance(x, execu.SF) for x in v): raise execu.OutOfReach(n + ' special')
        return uf(n, tuple(v))
    def l_floor(self, s, a, i): return i2r(floor_(self.rterm(s, a[0])))
    def l_ceil(self, s, a, i): return neg_(i2r(floor_(neg_(self.rterm(s, a[0])))))
    def l_min(self, s, a, i):
        import execu
        x, y = self.rterm(s, a[0]), self.rterm(s, a[1])
        if x is execu.NAN: return y
        if y is execu.NAN: return x
        c = execu.fcmp(self, s, 'ole', x, y)
        return x if (c == 1 if isinstance(c, int) else s.decide(c)) else y
    def l_max(self, s, a, i):
        import execu
        x, y = self.rterm(s, a[0]), self.rterm(s, a[1])
        if x is execu.NAN: return y
        if y is execu.NAN: return x
        c = execu.fcmp(self, s, 'ole', x, y)
        return y if (c == 1 if isinstance(c, int) else s.decide(c)) else x
    def l_isfpclass(self, s, a, i):
        import execu
        v = self.rterm(s, a[0]); m = a[1]
        if isinstance(v, execu.SF): return 1 if m & ({'nan': 3, '-inf': 4, 'inf': 512}[v.k]) else 0
        if m & 0x1f8 == 0x1f8: return 1
        if m & 0x1f8 == 0: return 0
        raise execu.OutOfReach('is.fpclass')
    def l_imm(self, s, a, i):
        """smax/smin/umax/umin"""
        import execu
        k = i.a[1].split('.')[1]; pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
        c = execu.icmp(self, s, pr, a[0], a[1], i.ty)
        return a[0] if (c == 1 if isinstance(c, int) else s.decide(c)) else a[1]
    def l_iabs(self, s, a, i):
        import execu
        n = i.ty.n
        if isinstance(a[0], int): return abs(execu.sgn(a[0], n))
        return a[0] if s.decide(le(I0, a[0])) else imul(a[0], iconst(-1))
    def l_ovf(self, s, a, i):
        import execu
        k = i.a[1].split('.'); o = k[1][1:]; n = int(k[-1][1:]); sg = k[1][0] == 's'
        if all(isinstance(x, int) for x in a):
            x, y = (execu.sgn(a[0], n), execu.sgn(a[1], n)) if sg else a[:2]
            r = x + y if o == 'add' else x - y if o == 'sub' else x * y
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
            return [r & ((1 << n) - 1), 0 if lo <= r <= hi else 1]
        return [execu.ibin(self, s, o, a[0], a[1], n), 0]
    def l_cttz(self, s, a, i):
        v = a[0] if isinstance(a[0], int) else s.concretize(a[0]); n = i.ty.n
        if v == 0: return n
        k = 0
        while not v >> k & 1: k += 1
        return k
    def l_ctlz(self, s, a, i):
        v = a[0] if isinstance(a[0], int) else s.concretize(a[0]); return i.ty.n - v.bit_length()
    def l_ctpop(self, s, a, i):
        v = a[0] if isinstance(a[0], int) else s.concretize(a[0]); return bin(v).count('1')
    def l_trap(self, s, a, i): s.fail('ub', 'trap')
    def l_expect(self, s, a, i): return a[0]
    def l_fshl(self, s, a, i):
        n = i.ty.n
        if not all(isinstance(x, int) for x in a):
            import execu
            raise execu.OutOfReach('fshl')
        k = a[2] % n; return ((a[0] << k) | (a[1] >> (n - k))) & ((1 << n) - 1) if k else a[0]
    def l_sat(self, s, a, i):
        import execu
        k = i.a[1].split('.')[1]
        if all(isinstance(x, int) for x in a):
            n = i.ty.n
            if k == 'usub': return max(0, a[0] - a[1])
            if k == 'uadd': return min((1 << n) - 1, a[0] + a[1])
        raise execu.OutOfReach('sat')
    def m_canonical(self, s, a, i):
        """std::generate_canonical: any real in [0,1)"""
        u = self.fresh(s, 'rng', 'R', 'real'); s.assume(le(R0, u)); s.assume(lt(u, R1)); return u
    def m_clock(self, s, a, i): return self.fresh(s, 'clock', 'I', 'int')

def NULLP():
    import execu
    return execu.NULL
def raise_infeasible():
    import execu
    raise execu.Infeasible()

BUILT = {
 'vc_real': 'm_vc_real', 'vc_bool': 'm_vc_bool', 'vc_int': 'm_vc_int', 'vc_choice': 'm_vc_choice', 'vc_assume': 'm_vc_assume', 'vc_assert': 'm_vc_assert', 'vc_eq': 'm_vc_eq', 'vc_finite': 'm_vc_finite', 'vc_le': 'm_vc_le', 'vc_real_in': 'm_vc_real_in', 'vc_int_in': 'm_vc_int_in',
 'vc_cover': 'm_vc_cover', 'vc_stop': 'm_vc_stop', 'vc_trig_add': 'm_vc_trig_add', 'vc_trig_half': 'm_vc_trig_half', 'vc_fun1': 'm_vc_uf1', 'vc_fun2': 'm_vc_uf2', 'vc_funi': 'm_vc_ufi', 'vc_array': 'm_vc_array',
 '_Znwm': 'm_new', '_Znam': 'm_new', 'malloc': 'm_new', '_ZnwmSt11align_val_t': 'm_new', 'calloc': 'm_calloc', '_ZnwmRKSt9nothrow_t': 'm_new',
 '_ZdlPv': 'm_delete', '_ZdlPvm': 'm_delete', '_ZdaPv': 'm_delete', '_ZdaPvm': 'm_delete', 'free': 'm_delete', '_ZdlPvSt11align_val_t': 'm_delete', '_ZdlPvmSt11align_val_t': 'm_delete', '_ZdlPvRKSt9nothrow_t': 'm_delete',
 'memcpy': 'm_memcpy', 'memmove': 'm_memcpy', 'memset': 'm_memset', 'memcmp': 'm_memcmp', 'bcmp': 'm_memcmp', 'strlen': 'm_strlen', 'snprintf': 'm_snprintf', 'sscanf': 'm_sscanf', '__isoc99_sscanf': 'm_sscanf', '__isoc23_sscanf': 'm_sscanf', 'strcmp': 'm_strcmp',
 '__cxa_allocate_exception': 'm_alloc_exc', '__cxa_throw': 'm_throw', '__cxa_begin_catch': 'm_begin_catch', '__cxa_get_exception_ptr': 'm_exc_ptr', 'getpid': 'm_pid', 'time': 'm_clock', 'gethostid': 'm_clock', '__cxa_rethrow': 'm_rethrow', '_ZSt9terminatev': 'm_terminate', '__clang_call_terminate': 'm_terminate',
 'abort': 'm_abort', '__assert_fail': 'm_abort', '__cxa_pure_virtual': 'm_abort', '__cxa_guard_acquire': 'm_guard_acquire', '__cxa_guard_release': 'm_guard_release', '__dynamic_cast': 'm_dyncast',
 '__gthread_active_p': 'm_zero', 'pthread_mutex_lock': 'm_zero', 'pthread_mutex_unlock': 'm_zero',
 'sqrt': 'l_sqrt', 'exp': 'l_exp', 'expm1': 'l_expm1', 'exp10': 'l_exp10', 'exp2': 'l_exp2', 'log': 'l_log', 'log1p': 'l_log1p', 'log10': 'l_log10', 'pow': 'l_pow', 'sin': 'l_sin', 'cos': 'l_cos', 'tan': 'l_tan', 'acos': 'l_acos', 'asin': 'l_asin', 'atan': 'l_atan',
 'atan2': 'l_atan2', 'fabs': 'l_fabs', 'tanh': 'l_uf', 'cosh': 'l_uf', 'sinh': 'l_uf', 'atanh': 'l_uf', 'erf': 'l_uf', 'cbrt': 'l_uf', 'floor': 'l_floor', 'ceil': 'l_ceil', 'fmin': 'l_min', 'fmax': 'l_max', 'tgamma': 'l_uf', 'lgamma': 'l_uf',
 '_ZNSt6chrono3_V212system_clock3nowEv': 'm_clock',
}
LLVM = {'fmuladd': 'm_fmuladd', 'fma': 'm_fmuladd', 'fabs': 'l_fabs', 'sqrt': 'l_sqrt', 'pow': 'l_pow', 'powi': 'l_powi', 'sin': 'l_sin', 'cos': 'l_cos', 'exp': 'l_exp', 'exp2': 'l_exp2', 'exp10': 'l_exp10', 'log': 'l_log', 'log10': 'l_log10', 'log2': 'l_uf', 'floor': 'l_floor', 'ceil': 'l_ceil',
 'minnum': 'l_min', 'maxnum': 'l_max', 'memcpy': 'm_memcpy', 'memmove': 'm_memcpy', 'memset': 'm_memset', 'copysign': 'l_copysign', 'is': 'l_isfpclass', 'smax': 'l_imm', 'smin': 'l_imm', 'umax': 'l_imm', 'umin': 'l_imm', 'abs': 'l_iabs',
 'sadd': 'l_ovf', 'uadd': 'l_ovf', 'ssub': 'l_ovf', 'usub': 'l_ovf', 'smul': 'l_ovf', 'umul': 'l_ovf', 'eh': 'm_typeid_for', 'trap': 'l_trap', 'expect': 'l_expect', 'cttz': 'l_cttz', 'ctlz': 'l_ctlz', 'ctpop': 'l_ctpop', 'fshl': 'l_fshl', 'stacksave': 'm_noop', 'threadlocal': 'l_expect', 'launder': 'l_expect', 'strip': 'l_expect'}
