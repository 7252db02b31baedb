"""Hash-consed terms over Real / Int / Bool, constant idealisation, rational-function normal form."""
from fractions import Fraction
import math, time, struct

class T:
    __slots__ = ("op", "a", "s", "id", "v")
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]
def _mk(op, s, a=(), v=None):
    k = (op, s, v) + tuple([x.id for x in a])
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.s = s; t.a = a; t.v = v; _cnt[0] += 1; t.id = _cnt[0]; _tab[k] = t
    return t

TRUE = _mk('true', 'B'); FALSE = _mk('false', 'B')
PI = _mk('pi', 'R')
def rconst(q): return _mk('const', 'R', (), Fraction(q))
def iconst(n): return _mk('const', 'I', (), int(n))
def bconst(b): return TRUE if b else FALSE
def var(name, s): return _mk('var', s, (), name)
R0 = rconst(0); R1 = rconst(1); I0 = iconst(0); I1 = iconst(1)
def isc(t): return t.op == 'const'

def show(t, d=0):
    if t.op == 'const': return str(t.v)
    if t.op in ('var',): return str(t.v)
    if t.op in ('true', 'false', 'pi'): return t.op
    if d > 6: return '...'
    if t.op == 'uf': return '%s(%s)' % (t.v, ', '.join(show(x, d+1) for x in t.a))
    return '(%s %s)' % (t.op, ' '.join(show(x, d+1) for x in t.a))

# ------------------------------------------------------- idealised constants
_pi_tab = {}
def _init_pi():
    for m in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 24, 32, 48, 64, 90, 96, 180, 192, 360):
        for k in range(1, 33):
            for e in (1, 2, 3, -1, -2, -3):
                q = Fraction(k, m)
                if q.denominator != m and m != 1: continue
                x = float(q) * math.pi ** e
                for y in (x, math.nextafter(x, 0), math.nextafter(x, 1e9)):
                    _pi_tab.setdefault(y, (q, e))
_init_pi()
_fc = {}
def real_of_float(x):
    """idealisation of a double literal: multiples of pi become symbolic, otherwise the simplest rational / shortest decimal"""
    t = _fc.get(x)
    if t is not None: return t
    neg = x < 0; y = -x if neg else x
    if y == int(y) if y < 1e300 else True: t = rconst(Fraction(y))
    elif y in _pi_tab:
        q, e = _pi_tab[y]; t = rconst(q)
        for _ in range(abs(e)): t = mul(t, PI) if e > 0 else div(t, PI)
    else:
        q = Fraction(y).limit_denominator(1000)
        if q != 0 and float(q) == y: t = rconst(q)
        else: t = rconst(Fraction(repr(y)))
    if neg: t = neg_(t)
    _fc[x] = t
    return t

# ------------------------------------------------------- arithmetic
def _lin(t):
    """Int term -> (dict atom->coef, const)"""
    if t.op == 'const': return {}, t.v
    if t.op == 'lin': return {a: c for a, c in zip(t.a, t.v[1:])}, t.v[0]
    return {t: 1}, 0
def _unlin(d, c):
    it = sorted(((a, k) for a, k in d.items() if k != 0), key=lambda p: p[0].id)
    if not it: return iconst(c)
    if len(it) == 1 and c == 0 and it[0][1] == 1: return it[0][0]
    return _mk('lin', 'I', tuple(a for a, _ in it), (c,) + tuple(k for _, k in it))
def iadd(a, b, k=1):
    da, ca = _lin(a); db, cb = _lin(b); d = dict(da)
    for x, c in db.items(): d[x] = d.get(x, 0) + k * c
    return _unlin(d, ca + k * cb)
def imul(a, b):
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        d, c = _lin(a); return _unlin({x: k * b.v for x, k in d.items()}, c * b.v)
    if a.id > b.id: a, b = b, a
    return _mk('imul', 'I', (a, b))

def add(a, b):
    if a.op == 'const':
        if b.op == 'const': return rconst(a.v + b.v)
        if a.v == 0: return b
    if b.op == 'const' and b.v == 0: return a
    if b.op == 'neg' and b.a[0] is a: return R0
    if a.op == 'neg' and a.a[0] is b: return R0
    if a.id > b.id: a, b = b, a
    return _mk('add', 'R', (a, b))
def neg_(a):
    if a.op == 'const': return rconst(-a.v)
    if a.op == 'neg': return a.a[0]
    return _mk('neg', 'R', (a,))
def sub(a, b):
    if a is b: return R0
    return add(a, neg_(b))
def mul(a, b):
    if a.op == 'const':
        if b.op == 'const': return rconst(a.v * b.v)
        if a.v == 0: return R0
        if a.v == 1: return b
        if a.v == -1: return neg_(b)
    if b.op == 'const':
        if b.v == 0: return R0
        if b.v == 1: return a
        if b.v == -1: return neg_(a)
    if a.op == 'neg' and b.op == 'neg': return mul(a.a[0], b.a[0])
    if a.op == 'neg': return neg_(mul(a.a[0], b))
    if b.op == 'neg': return neg_(mul(a, b.a[0]))
    if b.op == 'const': a, b = b, a
    if a.op == 'const':
        if b.op == 'mul' and b.a[0].op == 'const': return mul(rconst(a.v * b.a[0].v), b.a[1])
        return _mk('mul', 'R', (a, b))
    if a.id > b.id: a, b = b, a
    return _mk('mul', 'R', (a, b))
def div(a, b):
    if b.op == 'const' and b.v != 0: return mul(a, rconst(1 / b.v))
    if a.op == 'const' and a.v == 0: return R0
    if a is b: return R1
    if a.op == 'neg': return neg_(div(a.a[0], b))
    if b.op == 'neg': return neg_(div(a, b.a[0]))
    if a.op == 'mul':
        r = _strip(a, b, 4)
        if r is not None: return r
    return _mk('div', 'R', (a, b))
def _strip(a, b, depth):
    """a / b when b (non-zero: division by zero is decided before a quotient is formed) is a factor of the product a"""
    if a is b: return R1
    if a.op != 'mul' or depth == 0: return None
    x, y = a.a
    r = _strip(x, b, depth - 1)
    if r is not None: return mul(r, y)
    r = _strip(y, b, depth - 1)
    if r is not None: return mul(x, r)
    return None
def i2r(t):
    if t.op == 'const': return rconst(t.v)
    if t.op == 'r2i' and False: pass
    return _mk('i2r', 'R', (t,))
def r2i(t):   # truncation toward zero
    if t.op == 'const':
        q = t.v; return iconst(int(q))
    if t.op == 'i2r': return t.a[0]
    return _mk('r2i', 'I', (t,))
def floor_(t):
    if t.op == 'const': return iconst(math.floor(t.v))
    if t.op == 'i2r': return t.a[0]
    return _mk('floor', 'I', (t,))
def idivc(a, k):     # floor division by positive constant
    if a.op == 'const': return iconst(a.v // k)
    d, c = _lin(a)
    if all(x % k == 0 for x in d.values()):
        return _unlin({x: y // k for x, y in d.items()}, c // k)
    return _mk('idiv', 'I', (a,), k)
def imodc(a, k):
    if a.op == 'const': return iconst(a.v % k)
    d, c = _lin(a)
    if all(x % k == 0 for x in d.values()): return iconst(c % k)
    return _mk('imod', 'I', (a,), k)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    return _mk('ite', a.s, (c, a, b))
def uf(name, args, s='R'): return _mk('uf', s, tuple(args), name)
def b2i(b):
    if b is TRUE: return I1
    if b is FALSE: return I0
    return _mk('b2i', 'I', (b,))

# ------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    if a.op == 'le': return lt(a.a[1], a.a[0])
    if a.op == 'lt': return le(a.a[1], a.a[0])
    return _mk('not', 'B', (a,))
def and_(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE or a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk('and', 'B', (a, b))
def or_(a, b): 
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE or a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk('or', 'B', (a, b))
def xor_(a, b):
    if a is b: return FALSE
    if a is TRUE: return not_(b)
    if b is TRUE: return not_(a)
    if a is FALSE: return b
    if b is FALSE: return a
    return not_(eq(a, b))
def le(a, b):
    if a is b: return TRUE
    if a.op == 'const' and b.op == 'const': return bconst(a.v <= b.v)
    if a.s == 'I':
        d = iadd(a, b, -1)
        if d.op == 'const': return bconst(d.v <= 0)
    return _mk('le', 'B', (a, b))
def lt(a, b):
    if a is b: return FALSE
    if a.op == 'const' and b.op == 'const': return bconst(a.v < b.v)
    if a.s == 'I':
        d = iadd(a, b, -1)
        if d.op == 'const': return bconst(d.v < 0)
    return _mk('lt', 'B', (a, b))
def eq(a, b):
    if a is b: return TRUE
    if a.op == 'const' and b.op == 'const': return bconst(a.v == b.v)
    if a.s == 'I':
        d = iadd(a, b, -1)
        if d.op == 'const': return bconst(d.v == 0)
        if a.op == 'b2i' and b.op == 'const':
            return a.a[0] if b.v == 1 else not_(a.a[0]) if b.v == 0 else FALSE
        if b.op == 'b2i' and a.op == 'const': return eq(b, a)
        if a.op == 'ite' and b.op == 'const': return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if b.op == 'ite' and a.op == 'const': return eq(b, a)
    if a.s == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    if a.id > b.id: a, b = b, a
    return _mk('eq', 'B', (a, b))

def free_atoms(ts):
    """set of var/uf/pi/array atoms below the given terms (deep)"""
    seen = set(); out = set(); st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('var', 'uf', 'pi'): out.add(t)
        st.extend(t.a)
    return out

# ======================================================= rational normal form
class TooBig(Exception): pass
LIMIT = 60000

class Norm:
    """polynomials: dict {mono: Fraction}; mono: tuple of (atomkey, exp) sorted; atomkey: int index in self.atoms.
       Rational functions: (num, den).  rules: sqrt atom^2 -> (num,den); sin^2 -> 1-cos^2; user rules atom^k -> poly."""
    def __init__(self, hyps=()):
        self.atoms = {}; self.rev = []; self.sq = {}; self.memo = {}; self.sincos = {}
        self.rules = {}      # atom -> (k, poly)   atom^k = poly
        self.exparg = {}; self.logarg = {}; self.termof = {}; self.deadline = None; self.flip = False
        self.subst = {}      # term id -> rational function (equational hypotheses on variables)
    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.rev); self.atoms[key] = i; self.rev.append(key)
        return i
    # --- polynomial ops
    @staticmethod
    def padd(p, q, k=1):
        if len(p) < len(q) and k == 1: p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v == 0: r.pop(m, None)
            else: r[m] = v
        return r
    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT * 4: raise TooBig()
        if self.deadline is not None and time.time() > self.deadline: raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mm(m1, m2); v = r.get(m, 0) + c1 * c2
                if v == 0: r.pop(m, None)
                else: r[m] = v
        if len(r) > LIMIT: raise TooBig()
        return self.reduce_poly(r)
    @staticmethod
    def mm(a, b):
        if not a: return b
        if not b: return a
        i = j = 0; o = []
        while i < len(a) and j < len(b):
            if a[i][0] == b[j][0]:
                e = a[i][1] + b[j][1]
                o.append((a[i][0], e)); i += 1; j += 1
            elif a[i][0] < b[j][0]: o.append(a[i]); i += 1
            else: o.append(b[j]); j += 1
        o.extend(a[i:]); o.extend(b[j:])
        return tuple(o)
    def reduce_poly(self, p):
        """apply polynomial rules (sqrt with polynomial radicand, sin^2, user rules) until none applies"""
        if not self.rules: return p
        while True:
            hit = None
            for m in p:
                for (x, e) in m:
                    r = self.rules.get(x)
                    if r is not None and e >= r[0]: hit = (m, x, e, r); break
                if hit: break
            if not hit: return p
            if self.deadline is not None and time.time() > self.deadline: raise TooBig()
            out = {}; todo = {}
            m0, x, e0, (k, rp) = hit
            for m, c in p.items():
                for (y, e) in m:
                    if y == x and e >= k:
                        todo[m] = c; break
                else: out[m] = c
            # powers of rp
            pw = {0: {(): Fraction(1)}}
            def power(n):
                if n not in pw:
                    a = power(n - 1)
                    r = {}
                    for m1, c1 in a.items():
                        for m2, c2 in rp.items():
                            mm = self.mm(m1, m2); v = r.get(mm, 0) + c1 * c2
                            if v == 0: r.pop(mm, None)
                            else: r[mm] = v
                    pw[n] = r
                return pw[n]
            for m, c in todo.items():
                e = dict(m)[x]; n, rem = divmod(e, k)
                base = tuple((y, z) if y != x else (y, rem) for y, z in m if y != x or rem)
                for m2, c2 in power(n).items():
                    mm = self.mm(base, m2); v = out.get(mm, 0) + c * c2
                    if v == 0: out.pop(mm, None)
                    else: out[mm] = v
            if len(out) > LIMIT: raise TooBig()
            p = out
    # --- rational functions, den kept as monic-ish polynomial; no gcd except monomial content & equality
    def radd(self, x, y):
        (a, b), (c, d) = x, y
        if b == d: return self.rs(self.padd(a, c), b)
        # try divisibility
        if b == {(): Fraction(1)}: return self.rs(self.padd(self.pmul(a, d), c), d)
        if d == {(): Fraction(1)}: return self.rs(self.padd(a, self.pmul(c, b)), b)
        return self.rs(self.padd(self.pmul(a, d), self.pmul(c, b)), self.pmul(b, d))
    def rmul(self, x, y):
        (a, b), (c, d) = x, y
        if a == d: return self.rs(c, b)
        if b == c: return self.rs(a, d)
        return self.rs(self.pmul(a, c), self.pmul(b, d))
    @staticmethod
    def pdiv(n, d):
        """q with n == q*d (free polynomial ring), or None"""
        order = lambda m: tuple((-a, e) for a, e in m)
        ld = max(d, key=order); cd = d[ld]; ldd = dict(ld); q = {}; r = dict(n)
        while r:
            if len(q) > 200: return None
            lr = max(r, key=order); m = dict(lr)
            for a, e in ldd.items():
                k = m.get(a, 0) - e
                if k < 0: return None
                if k: m[a] = k
                else: m.pop(a, None)
            qm = tuple(sorted(m.items())); c = r[lr] / cd; q[qm] = c
            for md, c2 in d.items():
                mm = Norm.mm(qm, md); v = r.get(mm, 0) - c * c2
                if v == 0: r.pop(mm, None)
                else: r[mm] = v
        return q
    def rs(self, n, d):
        if not n: return ({}, {(): Fraction(1)})
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1: n = {k: v / c for k, v in n.items()}
            if m:
                # cancel common monomial
                dm = dict(m); com = {}
                for x, e in dm.items():
                    k = e
                    for mm in n:
                        k = min(k, dict(mm).get(x, 0))
                        if k == 0: break
                    if k > 0: com[x] = k
                if com:
                    def red(mm): return tuple((x, e - com.get(x, 0)) for x, e in mm if e - com.get(x, 0) > 0)
                    n = {red(mm): v for mm, v in n.items()}; m = red(m)
            return (n, {m: Fraction(1)})
        # proportional?
        if len(n) == len(d) and set(n) == set(d):
            it = iter(d); m0 = next(it); r = n[m0] / d[m0]
            if all(n[m] == r * d[m] for m in d): return ({(): r}, {(): Fraction(1)})
        if len(d) <= 8 and len(d) <= len(n) <= 400:
            q = self.pdiv(n, d)
            if q is not None: return (q, {(): Fraction(1)})
        # monic by smallest monomial for canonicity
        m0 = min(d); c = d[m0]
        if c != 1:
            n = {k: v / c for k, v in n.items()}; d = {k: v / c for k, v in d.items()}
        return (n, d)
    def key(self, rf):
        n, d = rf
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))
    ONE = ({(): Fraction(1)}, {(): Fraction(1)})
    def const(self, q):
        return ({(): Fraction(q)} if q else {}, {(): Fraction(1)})
    def at(self, key):
        return ({((self.atom(key), 1),): Fraction(1)}, {(): Fraction(1)})
    def norm(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._norm(t); self.memo[t.id] = r
        return r
    def _norm(self, t):
        # iterative for deep trees
        st = [t]
        while st:
            u = st[-1]
            if u.id in self.memo: st.pop(); continue
            if u.op in ('add', 'mul', 'neg', 'div', 'uf'):
                need = [x for x in u.a if x.s == 'R' and x.id not in self.memo]
                if need: st.extend(need); continue
            self.memo[u.id] = self._n1(u); st.pop()
        return self.memo[t.id]
    def _n1(self, t):
        s = self.subst.get(t.id)
        if s is not None: return s
        op = t.op
        if op == 'const': return self.const(t.v)
        if op == 'add': return self.radd(self.memo[t.a[0].id], self.memo[t.a[1].id])
        if op == 'neg':
            n, d = self.memo[t.a[0].id]; return ({m: -c for m, c in n.items()}, d)
        if op == 'mul': return self.rmul(self.memo[t.a[0].id], self.memo[t.a[1].id])
        if op == 'div':
            n, d = self.memo[t.a[1].id]
            if not n: return self.at(('div0', t.id))
            return self.rmul(self.memo[t.a[0].id], self.rs(d, n))
        if op == 'uf':
            f = t.v
            if all(x.s == 'R' for x in t.a):
                args = [self.memo[x.id] for x in t.a]
                r = self.ufn(f, args)
                if len(r[0]) == 1 and len(r[1]) == 1:
                    (m, c), = r[0].items()
                    if len(m) == 1 and m[0][1] == 1 and c == 1 and () in r[1]: self.termof.setdefault(m[0][0], t)
                return r
            k = ('uf', f, tuple(self.key(self.norm(x)) if x.s == 'R' else x.id for x in t.a))
            return self.at(k)
        self.termof[self.atom(('t', t.id))] = t
        return self.at(('t', t.id))
    def isconst(self, rf):
        n, d = rf
        if d == {(): Fraction(1)}:
            if not n: return Fraction(0)
            if len(n) == 1 and () in n: return n[()]
        return None
    def lead_neg(self, rf):
        n, _ = rf
        return n[min(n)] < 0 if n else False
    def neg(self, rf): return ({m: -c for m, c in rf[0].items()}, rf[1])
    def ufn(self, f, args):
        if f == 'sqrt':
            x = args[0]; c = self.isconst(x)
            if c is not None and c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator: return self.const(Fraction(a, b))
            # sqrt(n/d) = sqrt(n d)/d  is only valid for d>0: keep as atom with s^2 = n/d
            k = ('sqrt', self.key(x)); new = k not in self.atoms
            at = self.atom(k)
            if new:
                n, d = x
                if d == {(): Fraction(1)}: self.rules[at] = (2, n)
                else:
                    self.sq[at] = x
                    # s = r / d0 with r^2 = n*d when den is square-free: represent through rule on numerator form
                    r = self.atom(('sqrtnd', self.key(x)))
                    self.rules[r] = (2, self.pmul(n, d))
                    self.subst[('sq', at)] = self.rs({((r, 1),): Fraction(1)}, d)   # |d| sign handled: s = r/d if d>0 (r := s*d)
            if ('sq', at) in self.subst: return self.subst[('sq', at)]
            return ({((at, 1),): Fraction(1)}, {(): Fraction(1)})
        if f in ('sin', 'cos'):
            x = args[0]; sg = 1
            if self.lead_neg(x):
                x = self.neg(x)
                if f == 'sin': sg = -1
            k = self.key(x)
            c = self.isconst(x)
            if c == 0: return self.const(0 if f == 'sin' else 1)
            ca = self.atom(('cos', k)); sa = self.atom(('sin', k))
            if self.flip:
                if ca not in self.rules: self.rules[ca] = (2, {(): Fraction(1), ((sa, 2),): Fraction(-1)})
            elif sa not in self.rules: self.rules[sa] = (2, {(): Fraction(1), ((ca, 2),): Fraction(-1)})
            a = sa if f == 'sin' else ca
            return ({((a, 1),): Fraction(sg)}, {(): Fraction(1)})
        if f == 'exp':
            n, d = args[0]
            if not n: return self.const(1)
            num = []; den = []
            acc = self.ONE
            for m, c in sorted(n.items()):
                # exp(c*m/d) : integer multiples become powers
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.logarg and len(d) == 1 and () in d and (c / d[()]).denominator == 1 and abs(c / d[()]) <= 8:
                    e = int(c / d[()]); ln, ld = self.logarg[m[0][0]]
                    if e < 0: ln, ld = ld, ln
                    for _ in range(abs(e)): acc = self.rmul(acc, (ln, ld))
                    continue
                k = c.numerator if abs(c.numerator) <= 8 else 1
                unit = c / k
                if k < 0: pass
                ea = self.rs({m: unit if unit > 0 else -unit}, d)
                a = self.atom(('exp', self.key(ea))); self.exparg[a] = ea
                e = k if unit > 0 else -k
                mono = {((a, abs(e)),): Fraction(1)}
                acc = self.rmul(acc, (mono, {(): Fraction(1)}) if e > 0 else ({(): Fraction(1)}, mono))
            return acc
        if f == 'log':
            c = self.isconst(args[0])
            if c == 1: return self.const(0)
            n, d = args[0]; out = self.const(0); hit = False
            if len(n) == 1 and len(d) == 1:
                (mn, cn), = n.items(); (md, cd), = d.items()
                for mm, sg in ((mn, 1), (md, -1)):
                    for (a, e) in mm:
                        if a in self.exparg: out = self.radd(out, self.rmul(self.const(sg * e), self.exparg[a])); hit = True
                if hit:
                    n2 = {tuple(x for x in mn if x[0] not in self.exparg): cn}; d2 = {tuple(x for x in md if x[0] not in self.exparg): cd}
                    args = [self.rs(n2, d2)]
                    if self.isconst(args[0]) == 1: return out
            r = self.at(('uf', 'log', (self.key(args[0]),)))
            (m0, _), = r[0].items(); self.logarg[m0[0][0]] = args[0]
            return self.radd(out, r) if hit else r
        return self.at(('uf', f, tuple(self.key(x) for x in args)))
    # --- hypotheses
    def zero(self, t):
        n, d = self.norm(t)
        return not self.reduce_poly(n)

def deep_subst_eqs(pc):
    """from a list of true Bool terms extract var = term equations usable as substitutions: returns {term: term}"""
    out = {}
    for p in pc:
        if p.op == 'eq' and p.a[0].s == 'R':
            a, b = p.a
            if a.op == 'var' and b.op == 'const': out[a] = b
            elif b.op == 'var' and a.op == 'const': out[b] = a
            elif a.op == 'var' and b.op == 'var': out[b] = a
    return out

def root_of(t, budget=2.0):
    r = _root_of(t, budget, False)
    return r if r is not None else _root_of(t, budget, True)
def _root_of(t, budget, flip):
    """a term r with r*r == t by normalisation (t a perfect square of a monomial), or None"""
    try:
        N = Norm(); N.deadline = time.time() + budget; N.flip = flip
        n, d = N.norm(t); n = N.reduce_poly(n)
        if not n: return R0
        if len(n) != 1 or len(d) != 1: return None
        def half(p):
            (m, c), = p.items()
            a, b = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
            if c < 0 or a * a != c.numerator or b * b != c.denominator: return None
            r = rconst(Fraction(a, b))
            for x, e in m:
                if e % 2 or x not in N.termof: return None
                for _ in range(e // 2): r = mul(r, N.termof[x])
            return r
        a, b = half(n), half(d)
        if a is None or b is None: return None
        return a if b is R1 else div(a, b)
    except (TooBig, RecursionError): return None
