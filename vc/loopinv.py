# Loop invariants by candidate elimination (Houdini): the locations a loop changes (header phis and memory cells) are havocked, candidate
# predicates - simple relations built in, and predicates given by the specification, tried on every location - are kept only when they hold
# on entry and are preserved by one arbitrary iteration.  The code after the loop is then verified for any number of iterations (partial correctness).
import sym, solve
from sym import *
import execu
class Fallback(Exception): pass
class LoopInv:
    def li_preds(self, s):
        for rx, preds in self.lidir:
            if any(rx.search(self.dm.get(f.fn.name, f.fn.name)) for f in s.frames): return preds
        return None
    def loop_leave(self, s, fr, target):
        for h in list(fr.loops):
            if target not in fr.fn.loops[h]:
                if fr.loops[h][0] == 'probe': raise execu.PathEnd('exit')
                del fr.loops[h]
    def li_probing(self, fr): return any(k[0] == 'probe' for k in fr.loops.values())
    def loop_hook(self, s, fr, target, blk, vals, inl):
        if not self.lidir: return False
        if inl:
            mark = fr.loops.get(target)
            if mark is None: return False
            if mark[0] == 'probe': mark[1].append((s, dict(vals))); raise execu.PathEnd('backedge')
            raise execu.PathEnd('loop')
        fr.loops.pop(target, None)
        if 'siren' not in fr.fn.name: return False
        if (fr.fn.name, target) in self.li_fail: return False
        preds = self.li_preds(s)
        if preds is None: return False
        if self.li_exits(s, fr, target, blk, vals): return False
        try: return self.li_summarise(s, fr, target, blk, vals, preds)
        except Fallback as e:
            self.li_fail.add((fr.fn.name, target)); self.li_why.append('%s: %s' % (fr.fn.name, e)); return False
    def li_exits(self, s, fr, target, blk, vals):
        """no path comes back to the loop header: nothing to summarise"""
        base = s.clone(); f = base.frames[-1]; box = []
        for r, v in vals: f.regs[r] = v
        f.loops[target] = ('probe', box); f.prev = fr.blk.name; f.blk = blk; f.ip = 0
        try: self.li_run(base)
        except Fallback: return False
        return all(solve.prove(x[0].pc, FALSE, 3000)[0] == 'proved' for x in box)
    # ------------------------------------------------
    def li_sort(self, v, ty):
        if isinstance(v, T): return v.s
        if isinstance(v, int): return 'B' if ty is not None and ty.k == 'int' and ty.n == 1 else 'I'
        if v is execu.UNDEF and ty is not None and ty.k == 'int': return 'B' if ty.n == 1 else 'I'
        if v is execu.UNDEF: return 'R'
        return None
    def li_term(self, v, sort, n):
        """value as a term of the location's sort, or None"""
        if isinstance(v, T):
            if v.s == sort: return v
            if sort == 'I' and v.s == 'B': return b2i(v)
            if sort == 'B' and v.s == 'I': return execu.ne0(v)
            return None
        if isinstance(v, int):
            if sort == 'I': return iconst(execu.sgn(v, n)) if n > 1 else iconst(v)
            if sort == 'B': return bconst(v & 1)
            if sort == 'R' and n == 64: return self.rterm(None, v)if isinstance(self.rterm(None, v), T) else None
        return None
    def li_summarise(self, s, fr, target, blk, vals, preds):
        tys = {ph.res: ph.ty for ph in blk.phis}
        locs = []     # (kind, id, sort, bits, entry value)
        for r, v in vals:
            so = self.li_sort(v, tys[r])
            if so is None:
                if isinstance(v, (execu.Ptr, execu.Fn)): continue          # must stay the same (checked)
                raise Fallback('phi %s = %r' % (r, v))
            locs.append(('phi', r, so, tys[r].n if tys[r].k == 'int' else 64, v))
        keep = {r: v for r, v in vals if r not in [l[1] for l in locs]}
        mem = []; cands = None; fresh = {}
        ev = dict(vals); rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise Fallback('no fixpoint')
            allocs = locs + mem
            if cands is None: cands = self.li_candidates(s, fr, target, allocs, ev, preds)
            base = s.clone(); f = base.frames[-1]
            box = []
            hv, hm = self.li_havoc(base, f, vals, locs, mem, cands, fresh)
            f.loops[target] = ('probe', box)
            f.prev = fr.blk.name; f.blk = blk; f.ip = 0
            head = base.clone()
            self.li_run(base)
            box = [x for x in box if not (any(isinstance(v, execu.SF) for v in x[1].values()) and solve.prove(x[0].pc, FALSE, 8000)[0] == 'proved')]
            # frame: what did an iteration change?
            new = []
            for (b, bv) in box:
                for r, v in keep.items():
                    if not self.li_same(v, bv[r]): raise Fallback('pointer %s changes' % r)
                for oid, o in head.mem.items():
                    o2 = b.mem.get(oid)
                    if o2 is o: continue
                    if o2 is None or o2.freed != o.freed: raise Fallback('an object is released in the loop')
                    if o.arr is not o2.arr: raise Fallback('array object changes')
                    for off in set(o.cells) | set(o2.cells):
                        c1 = o.cells.get(off); c2 = o2.cells.get(off)
                        if c1 is not None and c2 is not None and c1[0] == c2[0] and self.li_same(c1[1], c2[1]): continue
                        if any(m[1] == (oid, off) for m in mem): 
                            if c2 is None or c2[0] != [m for m in mem if m[1] == (oid, off)][0][5]: raise Fallback('cell layout changes')
                            continue
                        if any(n[1] == (oid, off) for n in new): continue
                        if c2 is None: raise Fallback('cell layout changes')
                        e = s.mem[oid].cells.get(off) if oid in s.mem else None
                        v = c2[1]; so = self.li_sort(v, None)
                        if so is None and (e is None or e[1] is execu.UNDEF) and (c1 is None or c1[1] is execu.UNDEF): continue     # undefined at the head: stays so (reading it is an error)
                        if so is None: raise Fallback('a loop changes a pointer in memory (%r, object %s)' % (v, o.name))
                        if so == 'I' and isinstance(v, int) and c2[0] == 8 and e is not None and isinstance(e[1], T): so = e[1].s
                        if e is not None and e[0] != c2[0]: raise Fallback('cell layout changes')
                        new.append(('mem', (oid, off), so, 8 * c2[0], e[1] if e is not None else execu.UNDEF, c2[0]))
            if new: mem = mem + new; cands = None; continue
            drop = []
            for c in cands:
                for (b, bv) in box:
                    t = self.li_eval(b, c, [self.li_val(b, bv, l) for l in allocs])
                    if t is None or not self.li_entails(b, t): drop.append(c); break
            if not drop: break
            cands = [c for c in cands if c not in drop]
        self.li_havoc(s, fr, vals, locs, mem, cands, fresh)
        fr.loops[target] = ('inv',)
        fr.visits[target] = 1
        fr.prev = fr.blk.name; fr.blk = blk; fr.ip = 0
        where = self.dm.get(fr.fn.name, fr.fn.name).split('(')[0]
        for c in cands:
            if c[0] in ('user', 'user2', 'user3'):
                self.record('loop invariant %s of %s' % (c[1], where), 'proved', 'z3', s, None)
        self.loopinv.append({'function': where, 'kept': sorted(set(c[1] for c in cands if c[0] in ('user', 'user2', 'user3'))) + ['%d built-in relations' % sum(c[0] == 'term' for c in cands)], 'rounds': rounds})
        return True
    def li_same(self, a, b):
        if a is b: return True
        if isinstance(a, execu.Ptr) and isinstance(b, execu.Ptr): return a.o == b.o and (a.off is b.off or a.off == b.off if isinstance(a.off, int) and isinstance(b.off, int) else a.off is b.off)
        if isinstance(a, execu.Fn) and isinstance(b, execu.Fn): return a.n == b.n
        if isinstance(a, int) and isinstance(b, int): return a == b
        return False
    def li_val(self, b, bv, l):
        v = bv[l[1]] if l[0] == 'phi' else b.mem[l[1][0]].cells[l[1][1]][1]
        if isinstance(v, execu.SF): raise Fallback('special floating point value in a loop variable')
        if v is execu.UNDEF: return None
        return self.li_term(v, l[2], l[3])
    def li_havoc(self, st, f, vals, locs, mem, cands, fresh):
        cur = []
        for l in locs + mem:
            self.li_n += 1
            x = var('loop!%d' % self.li_n, l[2])
            if l[2] == 'I':
                st.assume(le(iconst(-(1 << (l[3] - 1))), x)); st.assume(lt(x, iconst(1 << (l[3] - 1))))
            cur.append(x)
        for r, v in vals: f.regs[r] = v
        for l, x in zip(locs + mem, cur):
            if l[0] == 'phi': f.regs[l[1]] = x
            else:
                o = st.wobj(l[1][0]); o.cells[l[1][1]] = (l[5], x)
        for c in cands:
            t = self.li_eval(st, c, cur)
            if t is not None: st.assume(t)
        return cur, None
    def li_candidates(self, s, fr, target, locs, ev, preds):
        ent = []
        for l in locs:
            v = l[4]
            if isinstance(v, execu.SF): raise Fallback('special floating point value in a loop variable')
            ent.append(None if v is execu.UNDEF else self.li_term(v, l[2], l[3]))
        cs = []
        R = [i for i, l in enumerate(locs) if l[2] == 'R']; I = [i for i, l in enumerate(locs) if l[2] == 'I']; B = [i for i, l in enumerate(locs) if l[2] == 'B']
        for p in preds:
            fn = self.mod.functions.get(p)
            if fn is None: continue
            if not fn.parsed: fn.parse()
            k = len(fn.params)
            if k == 1: cs += [('user', p, i) for i in R]
            elif k == 2: cs += [('user2', p, i, j) for i in R for j in R if i != j]
            else: cs += [('user3', p, i, j, m) for i in R for j in R for m in R if len({i, j, m}) == 3]
        for i in R:
            cs += [('term', 'ge0', i), ('term', 'gt0', i), ('term', 'ne0', i)]
            cs += [('term', 'le', i, j) for j in R if i != j]
            if ent[i] is not None: cs += [('term', 'eqe', i, ent[i]), ('term', 'gee', i, ent[i]), ('term', 'lee', i, ent[i])]
        for i in I + B:
            if ent[i] is not None: cs.append(('term', 'eqe', i, ent[i]))
        for i in I:
            cs.append(('term', 'ige0', i))
            if ent[i] is not None: cs += [('term', 'gee', i, ent[i]), ('term', 'lee', i, ent[i])]
            for bn in fr.fn.loops[target]:
                for ins in fr.fn.blocks[bn].ins:
                    if ins.op == 'icmp':
                        for o in (ins.b, ins.c):
                            if isinstance(o, tuple) and o[0] == 'c' and isinstance(o[1], int): cs.append(('term', 'lee', i, iconst(execu.sgn(o[1], locs[i][3]) if o[1] >= 0 else o[1])))
        out = []
        for c in cs:
            t = self.li_eval(s, c, ent)
            if t is not None and self.li_entails(s, t): out.append(c)
        return out
    def li_eval(self, st, c, v):
        if c[0] == 'term':
            x = v[c[2]]
            if x is None: return None
            k = c[1]
            if k == 'ge0': return le(R0, x)
            if k == 'gt0': return lt(R0, x)
            if k == 'ne0': return not_(eq(x, R0))
            if k == 'ige0': return le(I0, x)
            if k == 'le': return None if v[c[3]] is None else le(x, v[c[3]])
            if k == 'eqe': return eq(x, c[3]) if x.s != 'B' else (x if c[3] is TRUE else not_(x) if c[3] is FALSE else None)
            if k == 'gee': return le(c[3], x)
            if k == 'lee': return le(x, c[3])
        args = [v[i] for i in c[2:]]
        if any(a is None for a in args): return None
        return self.li_pred(st, c[1], args)
    def li_pred(self, st, name, args):
        b = st.clone(); fn = self.mod.functions[name]
        nf = execu.Frame(fn); nf.blk = fn.entry
        for (t, nm, bv), a in zip(fn.params, args): nf.regs[nm] = a
        res = []
        def done(ex, s, v): res.append((s, v)); raise execu.PathEnd('pred')
        nf.ret = done; b.frames.append(nf); n0 = len(b.pc)
        self.li_run(b)
        out = FALSE
        for (s, v) in res:
            t = bconst(v & 1) if isinstance(v, int) else self.bterm(s, v)
            for p in s.pc[n0:]: t = and_(p, t)
            out = or_(out, t)
        return out
    def li_entails(self, st, t):
        k = st.known(t)
        if k is not None: return k
        v = solve.prove(st.pc, t, 3000)[0]
        return v == 'proved'
    def li_run(self, base):
        saved = self.work; self.work = [base]; self.mute += 1; n = 0
        try:
            while self.work:
                x = self.work.pop(); n += 1
                if n > 400: raise Fallback('too many paths in one iteration')
                try: self.run_state(x)
                except execu.Infeasible: pass
                except execu.PathEnd: pass
                except execu.OutOfReach as e:
                    if 'time limit' in str(e): raise
                    raise Fallback(str(e))
        finally: self.work = saved; self.mute -= 1
