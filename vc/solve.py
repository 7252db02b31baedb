"""Back ends: rational-function normaliser (sym.Norm), z3, cvc5."""
import z3, time, subprocess, os, tempfile
from fractions import Fraction
import sym
from sym import *

class Stats:
    def __init__(self): self.n = {}; self.t = {}
    def add(self, be, dt): self.n[be] = self.n.get(be, 0) + 1; self.t[be] = self.t.get(be, 0.0) + dt
STATS = Stats()

class Conv:
    def __init__(self):
        self.memo = {}; self.ax = []; self.ufs = {}; self.vars = {}; self.divs = {}; self.done = set(); self.ints = False
        self.nf = 0; self.depth = 0
    def fresh(self, p, s='R'):
        self.nf += 1
        return z3.Real('%s!%d' % (p, self.nf)) if s == 'R' else z3.Int('%s!%d' % (p, self.nf))
    def c(self, t):
        m = self.memo
        st = [t]
        while st:
            u = st[-1]
            if u.id in m: st.pop(); continue
            need = [x for x in u.a if x.id not in m]
            if need: st.extend(need); continue
            m[u.id] = self.c1(u); st.pop()
        return m[t.id]
    def c1(self, t):
        op = t.op; a = [self.memo[x.id] for x in t.a]
        if op == 'const':
            if t.s == 'R': return z3.RealVal(t.v.numerator) / z3.RealVal(t.v.denominator) if t.v.denominator != 1 else z3.RealVal(t.v.numerator)
            self.ints = True
            return z3.IntVal(t.v)
        if op == 'var':
            if t.s == 'R': v = z3.Real(t.v)
            elif t.s == 'I': v = z3.Int(t.v); self.ints = True
            else: v = z3.Bool(t.v)
            self.vars[t.v] = v; return v
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'pi':
            p = z3.Real('pi!'); self.ax.append(p > z3.Q(314159265358979, 10**14)); self.ax.append(p < z3.Q(31415926535898, 10**13)); return p
        if op == 'add': return a[0] + a[1]
        if op == 'neg': return -a[0]
        if op == 'mul': return a[0] * a[1]
        if op == 'div':
            d = self.fresh('d'); self.ax.append(d * a[1] == a[0]); return d
        if op == 'lin':
            e = z3.IntVal(t.v[0])
            for k, x in zip(t.v[1:], a): e = e + k * x
            return e
        if op == 'imul': return a[0] * a[1]
        if op == 'i2r': return z3.ToReal(a[0])
        if op == 'r2i': self.ints = True; return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if op == 'floor': self.ints = True; return z3.ToInt(a[0])
        if op == 'idiv': return a[0] / t.v
        if op == 'imod': return a[0] % t.v
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'b2i': self.ints = True; return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(a[0], a[1])
        if op == 'or': return z3.Or(a[0], a[1])
        if op == 'le': return a[0] <= a[1]
        if op == 'lt': return a[0] < a[1]
        if op == 'eq': return a[0] == a[1]
        if op == 'uf': return self.cuf(t, a)
        raise Exception('conv %s' % op)
    def cuf(self, t, a):
        f = t.v
        if f in BUILTIN:
            v = self.fresh(f)
            self.ufs.setdefault(f, []).append((t, a, v))
            self.axiom(f, t, a, v)
            return v
        dom = [z3.RealSort() if x.s == 'R' else z3.IntSort() if x.s == 'I' else z3.BoolSort() for x in t.a]
        rng = z3.RealSort() if t.s == 'R' else z3.IntSort() if t.s == 'I' else z3.BoolSort()
        if t.s == 'I' or any(x.s == 'I' for x in t.a): self.ints = True
        fn = z3.Function(f, *(dom + [rng]))
        self.hasuf = True
        return fn(*a)
    def axiom(self, f, t, a, v):
        ax = self.ax.append; x = a[0]
        if f == 'sqrt': ax(v >= 0); ax(v * v == x); return
        if f in ('sin', 'cos'):
            g = 'cos' if f == 'sin' else 'sin'
            other = sym.uf(g, t.a)
            if other.id not in self.memo and (t.a[0].id, 'sc') not in self.done:
                self.done.add((t.a[0].id, 'sc'))
                self.memo[t.id] = v
                o = self.c(other)
                ax(v * v + o * o == 1); ax(v <= 1); ax(v >= -1); ax(o <= 1); ax(o >= -1)
                s, c = (v, o) if f == 'sin' else (o, v)
                p = self.c(PI)
                ax(z3.Implies(z3.And(x >= 0, x <= p), s >= 0)); ax(z3.Implies(z3.And(x > 0, x < p), s > 0))
                ax(z3.Implies(z3.And(x <= 0, x >= -p), s <= 0))
                ax(z3.Implies(z3.And(x >= -p / 2, x <= p / 2), c >= 0)); ax(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
                ax(z3.Implies(x == p, z3.And(s == 0, c == -1)))
                ax(z3.Implies(z3.And(x >= p / 2, x <= p), c <= 0))
                # relation to other angles: equal / opposite arguments, acos injectivity
                for (t2, a2, v2) in self.ufs.get('acos', []):
                    ax(z3.Implies(z3.And(x >= 0, x <= p, c == a2[0]), x == v2))
                    ax(z3.Implies(z3.And(x >= 0, x <= p, a2[0] >= -1, a2[0] <= 1), (c < a2[0]) == (v2 < x)))
                for (t2, a2, v2) in self.ufs.get('asin', []):
                    ax(z3.Implies(z3.And(x >= -p / 2, x <= p / 2, s == a2[0]), x == v2))
            return
        if f == 'acos':
            p = self.c(PI); ax(v >= 0); ax(v <= p)
            ax(z3.Implies(x == 1, v == 0)); ax(z3.Implies(x == -1, v == p)); ax(z3.Implies(v == 0, x == 1)); ax(z3.Implies(v == p, x == -1)); ax(z3.Implies(x == 0, v == p / 2))
            for (t2, a2, v2) in self.ufs.get('acos', []):
                if t2 is not t: ax((x < a2[0]) == (v > v2)); ax((x == a2[0]) == (v == v2))
            for (t2, a2, v2) in self.ufs.get('cos', []):
                ax(z3.Implies(z3.And(a2[0] >= 0, a2[0] <= p, v2 == x), a2[0] == v))
                ax(z3.Implies(z3.And(a2[0] >= 0, a2[0] <= p, x >= -1, x <= 1), (v2 < x) == (v < a2[0])))
            return
        if f == 'asin':
            p = self.c(PI); ax(v >= -p / 2); ax(v <= p / 2); ax(z3.Implies(x == 0, v == 0)); ax((x >= 0) == (v >= 0))
            ax(z3.Implies(x == 1, v == p / 2)); ax(z3.Implies(x == -1, v == -p / 2))
            for (t2, a2, v2) in self.ufs.get('asin', []):
                if t2 is not t: ax((x < a2[0]) == (v < v2)); ax((x == a2[0]) == (v == v2))
            for (t2, a2, v2) in self.ufs.get('sin', []):
                ax(z3.Implies(z3.And(a2[0] >= -p / 2, a2[0] <= p / 2, v2 == x), a2[0] == v))
            return
        if f == 'atan':
            p = self.c(PI); ax(v > -p / 2); ax(v < p / 2); ax((x > 0) == (v > 0)); ax((x == 0) == (v == 0))
            for (t2, a2, v2) in self.ufs.get('atan', []):
                if t2 is not t: ax((x < a2[0]) == (v < v2)); ax((x == a2[0]) == (v == v2))
            return
        if f == 'atan2':
            p = self.c(PI); y, x = a
            ax(v > -p); ax(v <= p); ax((y > 0) == z3.And(v > 0, v < p)); ax(z3.Implies(y < 0, z3.And(v < 0, v > -p)))
            ax(z3.Implies(z3.And(y == 0, x >= 0), v == 0)); ax(z3.Implies(z3.And(y == 0, x < 0), v == p))
            return
        if f == 'exp':
            ax(v > 0); ax((x > 0) == (v > 1)); ax((x == 0) == (v == 1)); ax(v >= 1 + x)
            for (t2, a2, v2) in self.ufs.get('exp', []):
                if t2 is not t: ax((x < a2[0]) == (v < v2)); ax((x == a2[0]) == (v == v2))
            for (t2, a2, v2) in self.ufs.get('log', []): ax(z3.Implies(a2[0] > 0, z3.And((x < v2) == (v < a2[0]), (x == v2) == (v == a2[0]))))
            u = t.a[0]
            if self.depth < 6:
                self.depth += 1
                self.memo[t.id] = v
                if u.op == 'add': ax(v == self.c(mkexp(u.a[0])) * self.c(mkexp(u.a[1])))
                elif u.op == 'neg': ax(v * self.c(mkexp(u.a[0])) == 1)
                elif u.op == 'mul' and u.a[0].op == 'const' and u.a[0].v < 0: ax(v * self.c(mkexp(neg_(u))) == 1)
                elif u.op == 'mul' and u.a[1].op == 'const' and u.a[1].v < 0: ax(v * self.c(mkexp(neg_(u))) == 1)
                self.depth -= 1
            return
        if f == 'log':
            ax((x > 1) == (v > 0)); ax((x == 1) == (v == 0)); ax(v <= x - 1)
            for (t2, a2, v2) in self.ufs.get('log', []):
                if t2 is not t: ax((x < a2[0]) == (v < v2)); ax((x == a2[0]) == (v == v2))
            for (t2, a2, v2) in self.ufs.get('exp', []): ax(z3.Implies(x > 0, z3.And((a2[0] < v) == (v2 < x), (a2[0] == v) == (v2 == x))))
            u = t.a[0]
            if self.depth < 3 and u.op in ('mul', 'div'):
                self.depth += 1; self.memo[t.id] = v
                p, q = self.c(mklog(u.a[0])), self.c(mklog(u.a[1]))
                ax(z3.Implies(z3.And(self.c(u.a[0]) > 0, self.c(u.a[1]) > 0), v == (p + q if u.op == 'mul' else p - q)))
                self.depth -= 1
            if self.depth < 6 and u.op == 'uf' and u.v == 'exp': ax(v == self.memo[u.a[0].id])
            return
        if f in ('tanh', 'erf'):
            ax(v < 1); ax(v > -1); ax((x > 0) == (v > 0)); ax((x == 0) == (v == 0)); return
        if f == 'cbrt': ax(v * v * v == x); return

BUILTIN = {'sqrt', 'sin', 'cos', 'acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'tanh', 'erf', 'cbrt'}

# --- smart constructors for the libm functions (identities valid over the reals)
def mksqrt(x):
    if x.op == 'const':
        import math
        q = x.v; a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if a * a == q.numerator and b * b == q.denominator: return rconst(Fraction(a, b))
    return uf('sqrt', (x,))
def mkexp(x):
    if x is R0: return R1
    if x.op == 'uf' and x.v == 'log': return x.a[0]
    if x.op == 'neg' and x.a[0].op == 'uf' and x.a[0].v == 'log': return div(R1, x.a[0].a[0])
    return uf('exp', (x,))
def mklog(x):
    if x.op == 'const' and x.v == 1: return R0
    if x.op == 'uf' and x.v == 'exp': return x.a[0]
    return uf('log', (x,))
def _pim(x):
    """x = q*pi ? -> Fraction or None"""
    if x is PI: return Fraction(1)
    if x is R0: return Fraction(0)
    if x.op == 'neg':
        q = _pim(x.a[0]); return None if q is None else -q
    if x.op == 'mul':
        for i in (0, 1):
            if x.a[i].op == 'const':
                q = _pim(x.a[1 - i])
                if q is not None: return q * x.a[i].v
    return None
def mksin(x):
    q = _pim(x)
    if q is not None:
        r = q % 2
        tab = {0: 0, Fraction(1, 2): 1, 1: 0, Fraction(3, 2): -1, Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}
        if r in tab: return rconst(tab[r])
        t2 = {Fraction(1, 4): 1, Fraction(3, 4): 1, Fraction(5, 4): -1, Fraction(7, 4): -1}
        if r in t2: return mul(rconst(Fraction(t2[r], 2)), mksqrt(rconst(2)))
    if x.op == 'neg': return neg_(mksin(x.a[0]))
    if x.op == 'mul' and x.a[0].op == 'const' and x.a[0].v < 0: return neg_(mksin(neg_(x)))
    if x.op == 'mul' and x.a[1].op == 'const' and x.a[1].v < 0: return neg_(mksin(neg_(x)))
    if x.op == 'uf':
        if x.v == 'acos': return mksqrt(sub(R1, mul(x.a[0], x.a[0])))
        if x.v == 'asin': return x.a[0]
        if x.v == 'atan2': # caller guarantees (y,x)!=(0,0) by fork
            y, xx = x.a; return div(y, mksqrt(add(mul(y, y), mul(xx, xx))))
    return uf('sin', (x,))
def mkcos(x):
    q = _pim(x)
    if q is not None: return mksin(mul(rconst(q + Fraction(1, 2)), PI)) if (q * 2).denominator in (1, 2, 3) else uf('cos', (x,))
    if x.op == 'neg': return mkcos(x.a[0])
    if x.op == 'mul' and x.a[0].op == 'const' and x.a[0].v < 0: return mkcos(neg_(x))
    if x.op == 'mul' and x.a[1].op == 'const' and x.a[1].v < 0: return mkcos(neg_(x))
    if x.op == 'uf':
        if x.v == 'acos': return x.a[0]
        if x.v == 'asin': return mksqrt(sub(R1, mul(x.a[0], x.a[0])))
        if x.v == 'atan2':
            y, xx = x.a; return div(xx, mksqrt(add(mul(y, y), mul(xx, xx))))
    return uf('cos', (x,))

# ---------------------------------------------------------------- relevance
_fa = {}
def atoms_of(t):
    r = _fa.get(t.id)
    if r is None:
        r = frozenset(x.id for x in free_atoms([t]) if x.op != 'pi'); _fa[t.id] = r
    return r
def relevant(pc, goal):
    want = set()
    for g in goal: want |= atoms_of(g)
    rest = list(pc); out = []; ch = True
    while ch:
        ch = False; nr = []
        for p in rest:
            a = atoms_of(p)
            if not a or a & want:
                out.append(p)
                if not a <= want: want |= a; ch = True
            else: nr.append(p)
        rest = nr
    return out

_cache = {}
def check(assertions, timeout_ms, want_model=False, strategies=('smt',)):
    """-> ('sat'|'unsat'|'unknown', model or None, conv)"""
    key = frozenset(a.id for a in assertions)
    if not want_model:
        r = _cache.get(key)
        if r is not None and (r[0] != 'unknown' or r[1] >= timeout_ms): return r[0], None, None
    cv = Conv(); fs = [cv.c(a) for a in assertions]
    res = 'unknown'; model = None
    for strat in strategies:
        t0 = time.time()
        if strat == 'smt': s = z3.Solver()
        elif strat == 'nra':
            if cv.ints or getattr(cv, 'hasuf', False): continue
            s = z3.SolverFor('QF_NRA')
        elif strat == 'simpl': s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        elif strat == 'cvc5':
            r = cvc5(cv, fs, timeout_ms); STATS.add('cvc5', time.time() - t0)
            if r in ('unsat', 'sat'): res = r; break
            continue
        s.set('timeout', int(timeout_ms))
        for f in cv.ax: s.add(f)
        for f in fs: s.add(f)
        try: r = str(s.check())
        except z3.Z3Exception: r = 'unknown'
        STATS.add('z3-' + strat, time.time() - t0)
        if r in ('sat', 'unsat'):
            res = r
            if r == 'sat' and want_model: model = s.model()
            break
    _cache[key] = (res, timeout_ms)
    return res, model, cv

def cvc5(cv, fs, timeout_ms):
    s = z3.Solver()
    for f in cv.ax: s.add(f)
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(txt)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fh.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout.strip().split('\n')[0]
    except Exception: o = 'unknown'
    os.unlink(fh.name)
    return o

# ---------------------------------------------------------------- algebra with hypotheses
def alg_zero(t, pc, budget=4.0):
    """is t == 0 by normalisation, using equational hypotheses of pc as rewrite rules?"""
    t0 = time.time()
    try:
        N = Norm(); N.deadline = t0 + budget
        if N.zero(t): return True
        eqs = [p for p in pc if p.op == 'eq' and p.a[0].s == 'R']
        if not eqs: return False
        for p in eqs: add_rule(N, p)
        N.memo = {}
        n, d = N.norm(t)
        n = N.reduce_poly(n)
        return not n
    except (TooBig, RecursionError, MemoryError):
        return False
    finally:
        STATS.add('alg', time.time() - t0)
# ---------------------------------------------------------------- sign analysis (sound syntactic rules; used before the solvers)
def facts(pc):
    f = {}
    for p in pc:
        if p.op in ('le', 'lt') and p.a[0].s == 'R':
            a, b = p.a
            if a.op == 'const' and (a.v > 0 or (a.v == 0)): f[b.id] = max(f.get(b.id, 0), 2 if (p.op == 'lt' or a.v > 0) else 1)
            if b.op == 'const' and (b.v < 0 or (b.v == 0)): f[-1 - a.id] = max(f.get(-1 - a.id, 0), 2 if (p.op == 'lt' or b.v < 0) else 1)
        elif p.op == 'not' and p.a[0].op == 'eq' and p.a[0].a[0].s == 'R':
            a, b = p.a[0].a
            if a.op == 'const' and a.v == 0: f[('ne', b.id)] = 1
            elif b.op == 'const' and b.v == 0: f[('ne', a.id)] = 1
    return f
def nonneg(t, f, depth=0):
    """0 unknown, 1: t >= 0, 2: t > 0"""
    if depth > 40: return 0
    k = f.get(t.id, 0)
    if k == 2: return 2
    r = _nn(t, f, depth)
    r = max(r, k)
    if r == 1 and ('ne', t.id) in f: r = 2
    return r
def nonpos(t, f, depth=0):
    k = f.get(-1 - t.id, 0)
    if k == 2: return 2
    if t.op == 'const': return 2 if t.v < 0 else 1 if t.v == 0 else 0
    if t.op == 'neg': return max(k, nonneg(t.a[0], f, depth + 1))
    if t.op == 'add':
        a = nonpos(t.a[0], f, depth + 1)
        if a:
            b = nonpos(t.a[1], f, depth + 1)
            if b: return max(a, b)
    if t.op in ('mul', 'div'):
        a, b = nonneg(t.a[0], f, depth + 1), nonpos(t.a[1], f, depth + 1)
        if a and b: return 2 if a == b == 2 else max(k, 1)
        a, b = nonpos(t.a[0], f, depth + 1), nonneg(t.a[1], f, depth + 1)
        if a and b: return 2 if a == b == 2 else max(k, 1)
    return k
def _nn(t, f, depth):
    op = t.op
    if op == 'const': return 2 if t.v > 0 else 1 if t.v == 0 else 0
    if op == 'pi': return 2
    if op == 'add':
        a = nonneg(t.a[0], f, depth + 1)
        if not a: return 0
        b = nonneg(t.a[1], f, depth + 1)
        if not b: return 0
        return max(a, b)
    if op == 'mul':
        if t.a[0] is t.a[1]:
            x = t.a[0]
            return 2 if ('ne', x.id) in f or nonneg(x, f, depth + 1) == 2 or nonpos(x, f, depth + 1) == 2 else 1
        a = nonneg(t.a[0], f, depth + 1)
        if a:
            b = nonneg(t.a[1], f, depth + 1)
            if b: return 2 if a == b == 2 else 1
        a = nonpos(t.a[0], f, depth + 1)
        if a:
            b = nonpos(t.a[1], f, depth + 1)
            if b: return 2 if a == b == 2 else 1
        return 0
    if op == 'div':
        a = nonneg(t.a[0], f, depth + 1)
        if a:
            b = nonneg(t.a[1], f, depth + 1)
            if b: return 2 if a == 2 else 1          # the denominator is non-zero (forked before)
        a = nonpos(t.a[0], f, depth + 1)
        if a:
            b = nonpos(t.a[1], f, depth + 1)
            if b: return 2 if a == 2 else 1
        return 0
    if op == 'neg': return nonpos(t.a[0], f, depth + 1)
    if op == 'ite':
        a = nonneg(t.a[1], f, depth + 1)
        return min(a, nonneg(t.a[2], f, depth + 1)) if a else 0
    if op == 'i2r': return 0
    if op == 'uf':
        if t.v == 'exp': return 2
        if t.v == 'sqrt': return 2 if nonneg(t.a[0], f, depth + 1) == 2 else 1
        if t.v == 'acos': return 1
    return 0
def by_sign(c, f):
    """decide an order atom by sign rules: True / False / None"""
    if c.op == 'not':
        r = by_sign(c.a[0], f); return None if r is None else not r
    if c.op not in ('le', 'lt', 'eq') or c.a[0].s != 'R': return None
    a, b = c.a
    if a.op == 'const' and a.v == 0: d = b
    elif b.op == 'const' and b.v == 0: d = neg_(a)
    else: d = sub(b, a)
    p = nonneg(d, f); n = nonpos(d, f)
    if c.op == 'le':
        if p: return True
        if n == 2: return False
    elif c.op == 'lt':
        if p == 2: return True
        if n: return False
    else:
        if p == 2 or n == 2: return False
    return None

class _Alarm(Exception): pass
def alg_gb(t, pc, secs=12):
    """is t == 0 in the ideal generated by the equational hypotheses and the defining equations of sqrt/sin atoms?  (Groebner basis)"""
    import signal
    t0 = time.time()
    def onalarm(*a): raise _Alarm()
    try: old = signal.signal(signal.SIGALRM, onalarm)
    except ValueError: return False
    signal.alarm(secs)
    try:
        import sympy
        N = Norm()
        n, d = N.norm(t); n = N.reduce_poly(n)
        if not n: return True
        gens = []
        for p in pc:
            if p.op == 'eq' and p.a[0].s == 'R':
                a, b = N.norm(sub(p.a[0], p.a[1])); a = N.reduce_poly(a)
                if a and len(a) <= 300: gens.append(a)
        if not gens: return False
        # atoms connected with the goal
        want = set(x for m in n for x, e in m); out = []; ch = True
        rulep = {}
        while ch:
            ch = False
            for x in list(want):
                if x in N.rules and x not in rulep:
                    k, rp = N.rules[x]; q = {m: -c for m, c in rp.items()}; q[((x, k),)] = q.get(((x, k),), 0) + 1; rulep[x] = q
                    w = set(y for m in q for y, e in m)
                    if not w <= want: want |= w; ch = True
            for g in gens:
                if any(g is o for o in out): continue
                w = set(y for m in g for y, e in m)
                if w & want: out.append(g); want |= w; ch = True
        if not out: return False
        V = {x: sympy.Symbol('x%d' % x) for x in want}
        # eliminate sqrt/sin atoms first: they come first in the order
        order = sorted(want, key=lambda x: (0 if x in N.rules else 1, x))
        syms = [V[x] for x in order]
        def P(q):
            dct = {}
            for m, c in q.items():
                e = dict(m); dct[tuple(e.get(x, 0) for x in order)] = sympy.Rational(c.numerator, c.denominator)
            return sympy.Poly.from_dict(dct, *syms, domain='QQ')
        basis = [P(q) for q in out] + [P(q) for q in rulep.values()]
        goal = P(n)
        _, r = sympy.reduced(goal, basis, *syms, order='grevlex', domain='QQ')
        if r == 0: return True
        G = sympy.groebner(basis, *syms, order='grevlex', domain='QQ')
        return G.contains(goal)
    except (_Alarm, TooBig, RecursionError, MemoryError): return False
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
        STATS.add('groebner', time.time() - t0)
def add_rule(N, p):
    n, d = N.norm(sub(p.a[0], p.a[1]))
    n = N.reduce_poly(n)
    if not n or len(n) > 400: return
    best = None
    for m, c in n.items():
        if len(m) == 1:
            x, e = m[0]
            if x in N.rules: continue
            k = N.rev[x]
            if any(mm != m and dict(mm).get(x, 0) >= e for mm in n): continue
            if e == 1 and any(mm != m and dict(mm).get(x, 0) for mm in n): continue
            # do not rewrite an atom occurring inside another atom's key would be incomplete, not unsound
            sc = (0 if k[0] == 't' else 1, e)
            if best is None or sc < best[0]: best = (sc, x, e, m, c)
    if best:
        _, x, e, m, c = best
        N.rules[x] = (e, {mm: -v / c for mm, v in n.items() if mm != m})

class LinConv(Conv):
    """products and quotients as linear combinations of the monomials of the rational normal form"""
    def __init__(self, budget):
        Conv.__init__(self); self.N = sym.Norm(); self.N.deadline = time.time() + budget; self.mono = {}
    def mvar(self, m):
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.N.termof:
            t = self.N.termof[m[0][0]]
            if t.op not in ('mul', 'div', 'add', 'neg'): return self.c(t)
        v = self.mono.get(m)
        if v is None:
            v = self.mono[m] = self.fresh('m')
            if all(x[1] % 2 == 0 for x in m): self.ax.append(v >= 0)
        return v
    def c1(self, t):
        if t.op in ('mul', 'div') and t.s == 'R' and not (t.a[0].op == 'const' or t.a[1].op == 'const' and t.op == 'mul'):
            try: n, d = self.N.norm(t)
            except sym.TooBig: return self.fresh('big')
            if d != {(): Fraction(1)}:
                k = ('q',) + self.N.key((n, d))
                if k not in self.mono: self.mono[k] = self.fresh('q')
                return self.mono[k]
            e = z3.RealVal(0)
            for m, c in n.items(): e = e + (z3.RealVal(str(c)) if not m else z3.RealVal(str(c)) * self.mvar(m))
            return e
        return Conv.c1(self, t)
def _nonlinear(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_MUL) and sum(not z3.is_rational_value(y) and not z3.is_int_value(y) for y in x.children()) > 1: return True
        st.extend(x.children())
    return False
def lin_unsat(assertions, budget=3.0):
    """linear arithmetic (with the linear part of the axioms) over the monomials of the rational normal form; only derives unsat"""
    t0 = time.time()
    try:
        cv = LinConv(budget); fs = []
        for a in assertions:
            if time.time() - t0 > budget: return False
            fs.append(cv.c(a))
        S = z3.Solver(); S.set('timeout', int(1000 * budget))
        for f in fs + cv.ax:
            if not _nonlinear(f): S.add(f)
        return S.check() == z3.unsat
    except (sym.TooBig, RecursionError, z3.Z3Exception): return False
    finally: STATS.add('linear', time.time() - t0)
def abstracted(fs):
    """the formulas with every repeated nonlinear sum, and every function value, replaced by a variable (weaker, so unsat carries over)"""
    cnt = {}; seen = set(); st = list(fs)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        for x in t.a:
            if x.op == 'add' and x.s == 'R': cnt[x.id] = cnt.get(x.id, 0) + 1
            st.append(x)
    nl = {}; memo = {}
    def nonlin(t):
        r = nl.get(t.id)
        if r is None:
            r = (t.op in ('mul', 'div') and not any(x.op == 'const' for x in t.a)) or any(nonlin(x) for x in t.a); nl[t.id] = r
        return r
    KEEP = ('add', 'mul', 'div', 'neg', 'eq', 'le', 'lt', 'not', 'and', 'or')
    def go(t):
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == 'add' and t.s == 'R' and cnt.get(t.id, 0) >= 2 and nonlin(t) and not (t.a[0].op == 'neg' or t.a[1].op == 'neg'): r = var('abs!%d' % t.id, 'R')
        elif t.s == 'R' and t.a and t.op not in KEEP: r = var('abs!%d' % t.id, 'R')
        elif t.a and t.op in KEEP: r = sym._mk(t.op, t.s, tuple(go(x) for x in t.a), t.v)
        else: r = t
        memo[t.id] = r; return r
    return [go(t) for t in fs]
def prove(pc, goal, timeout_ms=20000):
    """-> (verdict, backend, model_conv)  verdict in proved / refuted / unknown"""
    if goal is TRUE: return 'proved', 'simplify', None
    if goal in pc: return 'proved', 'simplify', None
    if goal.op in ('eq', 'le') and goal.a[0].s == 'R':
        if goal.op == 'le' and by_sign(goal, facts(pc)) is True: return 'proved', 'sign', None
        want = atoms_of(goal); near = [p for p in pc if atoms_of(p) <= want]       # hypotheses that speak about nothing else
        if len(near) < len(pc):
            if near and lin_unsat(near + [not_(goal)], 0.5): return 'proved', 'linear', None
            if goal.op == 'eq' and alg_zero(sub(goal.a[0], goal.a[1]), near, 0.5): return 'proved', 'alg', None
            if goal.op == 'le' and near and check(near + [not_(goal)], 300, True, ('smt',))[0] == 'unsat': return 'proved', 'z3-smt', None
            if goal.op == 'eq':
                f = facts(pc); a, b = goal.a
                if ((nonneg(a, f) and nonneg(b, f)) or (nonpos(a, f) and nonpos(b, f))) and alg_zero(sub(mul(a, a), mul(b, b)), near, 0.5): return 'proved', 'alg-squares', None
        t0 = time.time()
        if alg_zero(sub(goal.a[0], goal.a[1]), pc, 0.5): return 'proved', 'alg', None
        if time.time() - t0 > 0.4:          # only then is it worth trying something else before the long attempt
            rel = relevant(pc, [goal]) + [not_(goal)]
            if lin_unsat(rel, 1.0): return 'proved', 'linear', None
            if check(rel, 700, True, ('smt',))[0] == 'unsat': return 'proved', 'z3-smt', None
            if goal.op == 'eq':
                f = facts(pc); a, b = goal.a
                if ((nonneg(a, f) and nonneg(b, f)) or (nonpos(a, f) and nonpos(b, f))) and alg_zero(sub(mul(a, a), mul(b, b)), pc, 1.0): return 'proved', 'alg-squares', None
            if alg_zero(sub(goal.a[0], goal.a[1]), pc): return 'proved', 'alg', None
    if goal.op == 'and':
        r = None
        rs = [prove(pc, g, timeout_ms) for g in goal.a]
        if all(x[0] == 'proved' for x in rs): return 'proved', rs[0][1], None
        for x in rs:
            if x[0] == 'refuted': return x
        return [x for x in rs if x[0] != 'proved'][0]
    f = facts(pc)
    if by_sign(goal, f) is True: return 'proved', 'sign', None
    if goal.op == 'eq' and goal.a[0].s == 'R':          # equal squares of numbers of the same sign
        a, b = goal.a
        if (nonneg(a, f) and nonneg(b, f)) or (nonpos(a, f) and nonpos(b, f)):
            if alg_zero(sub(mul(a, a), mul(b, b)), pc): return 'proved', 'alg-squares', None
    rel = relevant(pc, [goal]) if goal is not FALSE else list(pc)
    neg = not_(goal)
    if goal is FALSE:
        for p in pc:
            g = facts([q for q in pc if q is not p])
            if by_sign(p, g) is False: return 'proved', 'sign', None
    if lin_unsat(rel + ([neg] if goal is not FALSE else [])): return 'proved', 'linear', None
    isq = goal.op == 'eq' and goal.a[0].s == 'R'
    ab = abstracted(rel + [neg])
    if any(x is not y for x, y in zip(ab, rel + [neg])) and check(ab, min(2000, timeout_ms), True, ('smt', 'nra'))[0] == 'unsat': return 'proved', 'z3-abstract', None
    for strat, tmo in (('smt', min(3000, timeout_ms)), ('gb', 0), ('nra', timeout_ms), ('simpl', timeout_ms), ('cvc5', timeout_ms)):
        if strat == 'gb':
            if isq and alg_gb(sub(goal.a[0], goal.a[1]), rel): return 'proved', 'groebner', None
            continue
        r, m, cv = check(rel + [neg], tmo, True, (strat,))
        if r == 'unsat': return 'proved', 'z3-' + strat if strat != 'cvc5' else 'cvc5', None
        if r == 'sat':
            # full pc model (other components must be satisfied as well for replay)
            r2, m2, cv2 = check(list(pc) + [neg], 3000, True, ('smt', 'nra'))
            if r2 == 'sat' and m2 is not None: return 'refuted', 'z3', (m2, cv2)
            return 'refuted', 'z3' if strat != 'cvc5' else 'cvc5', (m, cv)
    return 'unknown', 'none', None
