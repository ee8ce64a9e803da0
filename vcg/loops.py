"""Loop invariants: synthesised as closed forms of a ghost iteration counter, then checked.

For a loop whose exit is not decided by concrete values, the state at the header after t
iterations is hypothesised in closed form (registers, fixed-address cells and strided array
writes as functions of t, every other cell as an arbitrary function of t constrained by its
recurrence).  The hypothesis is an invariant: it holds trivially for t = 0, and executing the
body once from the state for an arbitrary t must give the state for t+1 - which is discharged
by the solver as the obligations "loop invariant preserved".  No bound on t.
"""
import math
from . import terms as tm
from .terms import const, add, sub, mulc, eq, ult, ule, ite, band, bor, bnot, TRUE, FALSE
from .mem import Base, Cells, SymW, Bulk, Copy, Fill, Unsupported, store, load, c64, ZERO, subst_mem


class LoopRec:
    __slots__ = ('snap', 'mode', 'dead', 'n', 'first', 'grp')

    def __init__(self, snap, mode):
        # shared by all executions of this loop: [all handled, do not start at first, forks inside]
        self.grp = [False, False, 0]
        self.first = snap       # the state at the first arrival at the header
        self.snap, self.mode, self.dead, self.n = snap, mode, False, 0


class Boundary:
    __slots__ = ('depth', 'header', 'body', 'conts', 'exits')

    def __init__(self, depth, header, body):
        self.depth, self.header, self.body = depth, header, body
        self.conts, self.exits = [], []


class Redo(Exception):
    pass


class Spec:
    def __init__(self):
        self.phis = {}      # inst id -> form
        self.cells = {}     # (obj id, off term, n) -> form
        self.bulks = {}     # obj id -> list of (off(t), stride, n, val(t))
        self.havoc = set()  # obj ids with arbitrary contents at every iteration
        self.stay = TRUE    # facts about an iteration s that went round (term over t)

    def key(self):
        return (tuple(sorted(self.phis.items())), tuple(sorted(
            ((k[0], k[1].id, k[2]), v) for k, v in self.cells.items())),
            tuple(sorted((o, tuple(b)) for o, b in self.bulks.items())),
            frozenset(self.havoc))


class LoopMixin:
    def loop_again(self, st, rec):
        """Back edge taken outside summarisation."""
        fr = st.top
        if rec.mode == 'concrete':
            n = rec.n + 1
            if n > self.opts.get('max_concrete', 3000):
                raise Unsupported('loop does not end in %s' % fr.fn.name)
            rec2 = LoopRec(None, 'concrete')
            fr.loops.pop(fr.blk, None)
            rec2.snap = st.copy()
            rec2.first, rec2.grp = rec.first, rec.grp
            rec2.n = n
            if n >= 2 and rec.grp[2] and self.from_first(rec):
                return False
            fr.loops[fr.blk] = rec2
            return True
        n = rec.n + 1
        if n > self.opts['unroll']:
            # complete if no further iteration is possible
            r, _ = self.solver.check(st.pc, [])
            if r == 'unsat':
                return False
            self.bounded.add((fr.fn.name, fr.blk))
            return False
        rec2 = LoopRec(None, 'unroll')
        rec2.n = n
        fr.loops[fr.blk] = rec2
        return True

    def from_first(self, rec):
        """Summarise the loop from its first iteration on, for all executions of it."""
        if not self.opts['summarise'] or not self.opts.get('nopeel') or not rec.first or \
                rec.grp[1]:
            return False
        try:
            exits = self.summarise(rec.first)
        except Unsupported:
            rec.grp[1] = True
            return False
        rec.grp[0] = True
        for e in exits:
            self.push(e)
        return True

    def summarise_or_unroll(self, st, rec, header):
        snap = rec.snap
        loc = (snap.top.fn.name, header)
        reason = None
        if rec.n <= 4 and self.from_first(rec):
            return
        if self.opts['summarise']:
            try:
                exits = self.summarise(snap)
                for e in exits:
                    self.push(e)
                return
            except Unsupported as e:
                reason = str(e)
        self.loops_ok.setdefault(loc, 'unrolled: %s' % reason)
        s = snap.copy()
        fr = s.top
        r = LoopRec(None, 'unroll')
        r.n = 0
        fr.loops[header] = r
        # enter the block directly (phis from the recorded predecessor)
        self.eval_phis(s)
        self.push(s)

    # ------------------------------------------------------------------
    def summarise(self, S):
        fr = S.top
        fn, H = fr.fn, fr.blk
        phis = fn.blocks[H].phis
        v0 = {}
        for I in phis:
            for b, op in I.x:
                if b == fr.prev:
                    v0[I.id] = self.value(S, op)
        for v in v0.values():
            if isinstance(v, list):
                raise Unsupported('aggregate phi')
        narrow = any(v.w in (8, 16, 32) for v in v0.values())
        ubs = [(1 << 31) - 1, (1 << 32) - 1, 1 << 46] if narrow else [1 << 46, (1 << 32) - 1]
        # counters that start at a symbolic value: they reach the end of their range at most once
        sym = []
        for v in v0.values():
            if v.w in (8, 16, 32) and v.op != 'c':
                z = tm.zext(v, 64)
                sym.append(sub(c64((1 << v.w) - 1), z))
                sym.append(z)
        last = None
        for ub in sym[:6] + ubs:
            try:
                if not isinstance(ub, int):
                    return self.summarise1(S, phis, v0, (1 << 32) - 1, True, ub)
                return self.summarise1(S, phis, v0, ub, ub != (1 << 46))
            except Unsupported as e:
                last = e
        raise last

    def summarise1(self, S, phis, v0, ub, check_ub, ubt=None):
        S = S.copy()
        fr = S.top
        fn, H = fr.fn, fr.blk
        loc = (fn.name, H)
        t = S.fresh('it', 64, 0, ub)
        nf0 = S.nf
        # seal memory so that the writes of one iteration can be told apart
        for o, m in list(S.mem.items()):
            if isinstance(m, Cells) and not m.sealed:
                c = Cells(m.prev, m.d)
                c.sealed = True
                S.mem[o] = c
        spec = Spec()
        # iteration 0 gives the first guess
        T = S.copy()
        for I in phis:
            T.top.regs[I.id] = v0[I.id]
        conts, exits = self.body_run(T, False)
        if not conts:
            # never goes round: a single pass is exact
            T = S.copy()
            for I in phis:
                T.top.regs[I.id] = v0[I.id]
            conts, exits = self.body_run(T, True)
            if conts:
                raise Unsupported('loop form: unstable')
            self.loops_ok[loc] = 'no second iteration'
            return exits
        for I in phis:
            nx = self.merge(conts, T, lambda c: self.next_phi(c, I))
            spec.phis[I.id] = self.guess(S, v0[I.id], nx, t, nf0)
        prev = None
        for rnd in range(9):
            T = self.build(S, spec, phis, v0, t, ubt)
            conts, exits = self.body_run(T, False)
            if not conts:
                # under the current hypotheses there is no further iteration
                new_stay = FALSE
                new = spec
                changed = new_stay is not spec.stay
                spec.stay = new_stay
                if not changed:
                    break
                continue
            new = self.analyse(S, T, spec, phis, v0, conts, t, nf0)
            if new.key() == spec.key() and new.stay is spec.stay:
                break
            spec = new
        else:
            raise Unsupported('loop form: no fixpoint')
        # final, recorded run: obligations are checked from the state for arbitrary t
        T = self.build(S, spec, phis, v0, t, ubt)
        conts, exits = self.body_run(T, True)
        self.verify(S, T, spec, phis, v0, conts, t, nf0, check_ub, ub, loc, ubt)
        for e in exits:
            e.foralls.append((t, t, spec.stay))
            for k in e.watch:
                self.instantiate(e, k, (t, t, spec.stay))
            self.zero_sums(e, t, spec.stay)
            self.pin(e, t, len(T.pc), len(S.pc))
        self.loops_ok[loc] = 'invariant'
        return exits

    def zero_sums(self, e, t, stay):
        """S(t) is 0 unless some summand before t is not (used after a search for one)."""
        for nm, g in list(tm.SUMS.items()):
            z = eq(tm.sum_at(nm, t), c64(0))
            if z.op == 'b' or not tm.occurs(z, stay):
                continue
            w = tm.uf('sk:' + nm, (t,), 64)
            self.assume(e, bor(eq(tm.uf(nm, (t,), 64), c64(0)),
                               band(ult(w, t), bnot(eq(tm.sum_at(nm, w), c64(0))))))
            self.instantiate(e, w, (t, t, stay))

    def pin(self, e, t, n0, npre):
        """Where the exit fixes the number of iterations, use that number everywhere."""
        cand = self.eq_points(band(*e.pc[n0:]), t)[:2]
        for p in e.pc[n0:]:
            x = p.a[0] if p.op == 'bnot' else p
            if x.op in ('ult', 'ule') and x.a[0].w == 64 and t in tm.fvs(x):
                d = sub(x.a[0], x.a[1])
                for y, k in tm._parts(d)[1]:
                    if y is t and tm.sgn(k, 64) in (1, -1):
                        r = mulc(sub(d, mulc(t, k)), -tm.sgn(k, 64))
                        cand += [r, add(r, c64(1)), sub(r, c64(1))]
        for X in list(dict.fromkeys(cand))[:6]:
            if t in tm.fvs(X) or not self.must(e, eq(t, X)):
                continue
            m = {t: X}
            S = lambda v: [S(x) for x in v] if isinstance(v, list) else tm.subst(v, m)
            for f in e.frames:
                f.regs = {k: S(v) if isinstance(v, (list, tm.T)) else v for k, v in f.regs.items()}
            memo = {}
            e.mem = {o: subst_mem(v, m, memo) for o, v in e.mem.items()}
            pc, soft, e.pc, e.soft = e.pc, e.soft, [], set()
            seen = set()
            for i, p in enumerate(pc):
                q = S(p)
                if i >= npre and (q is TRUE or q in seen):
                    continue
                seen.add(q)
                if i in soft:
                    e.soft.add(len(e.pc))
                e.pc.append(q)
            e.pc.append(eq(t, X))
            e.foralls = [(a, S(b), c if a is t else S(c)) for a, b, c in e.foralls]
            return

    # ------------------------------------------------------------------
    def body_run(self, T, record):
        T = T.copy()
        fr = T.top
        fr.ip = 0
        b = Boundary(len(T.frames), fr.blk, fr.fn.loops[fr.blk])
        T.bounds = T.bounds + (b,)
        saved, self.recording = self.recording, self.recording and record
        work, self.work = self.work, []
        try:
            self.push(T)
            while self.work:
                s = self.work.pop()
                self.run_path_inner(s)
        finally:
            self.work = work
            self.recording = saved
        return b.conts, b.exits

    def run_path_inner(self, st):
        from .exec import PathEnd
        try:
            while True:
                if not self.pre_step(st):
                    return
                self.step(st)
        except PathEnd:
            self.paths += 1

    def next_phi(self, c, I):
        fr = c.top
        for b, op in I.x:
            if b == fr.prev:
                return self.value(c, op)
        raise Unsupported('phi edge')

    def delta(self, c, T):
        """Path condition of one iteration (without assumed obligations)."""
        n = len(T.pc)
        return band(*[p for i, p in enumerate(c.pc[n:], n) if i not in c.soft])

    def merge(self, conts, T, f):
        r = None
        for c in reversed(conts):
            v = f(c)
            if isinstance(v, list):
                raise Unsupported('aggregate phi')
            r = v if r is None else (r if r is v else ite(self.delta(c, T), v, r))
        return r

    def body_vars(self, term, S, t):
        """Variables of the term that do not exist before the loop (other than t)."""
        return [v for v in tm.fvs(term) if v is not t and self.is_body_var(v, S)]

    def is_body_var(self, v, S):
        n = v.a
        i = n.rfind('!')
        if i < 0:
            i = n.find('@')
            if i <= 0:
                return False
            try:
                k = int(n[i + 1:].split('.')[0])
            except ValueError:
                return False
            return k > S.nf
        try:
            k = int(n[i + 1:].split('.')[0])
        except ValueError:
            return False
        return k > S.nf

    def skolem(self, term, S, t):
        """Fresh variables of one iteration become functions of the iteration number."""
        vs = self.body_vars(term, S, t)
        if not vs:
            return term
        m = {}
        for v in vs:
            u = tm.uf('@' + v.a, (t,), v.w)
            if v.w and (v.lb > 0 or v.ub < (1 << v.w) - 1):
                u = self.clamp(u, v)
            m[v] = u
        return tm.subst(term, m)

    def clamp(self, u, v):
        # keep the static bounds of the original variable
        if v.lb == 0 and (v.ub & (v.ub + 1)) == 0:
            return tm.and_(u, const(v.ub, v.w))
        return ite(band(ule(const(v.lb, v.w), u), ule(u, const(v.ub, v.w))), u,
                   const(v.lb, v.w))

    def guess(self, S, init, nx, t, nf0):
        if nx is init:
            return ('inv',)
        if init.w:
            c = sub(nx, init)
            if not self.body_vars(c, S, t) and t not in tm.fvs(c) and \
                    not any(x.op == 'ite' for x, _ in tm._parts(c)[1]) and \
                    sum(x.op == 'uf' and x.a[0].startswith('fn:')
                        for x, _ in tm._parts(c)[1]) < 2:
                return ('aff', c)
        return ('rec', None)

    def tw(self, t, w):
        return tm.ext(t, 0, w) if w < 64 else t

    def closed(self, form, init, t, name):
        """Value at the header after t iterations."""
        k = form[0]
        if k == 'inv':
            return init
        if k == 'aff':
            return add(init, tm.mul(self.tw(t, init.w), form[1]))
        if k == 'rec':
            return tm.uf(name, (t,), init.w)
        if k == 'sum':
            return init if t is ZERO else add(form[3], mulc(tm.uf(form[1], (add(t, form[2]),), 64), form[4]))
        if k == 'last':           # ('last', g, tvar): init if t = 0 else g(t-1)
            return ite(eq(t, ZERO), init, tm.subst(form[1], {form[2]: sub(t, c64(1))}))
        if k == 'latch':          # ('latch', kterm, val): init until iteration k has run
            return ite(ult(form[1], t), form[2], init)
        raise KeyError(k)

    def name_of(self, S, kind, key):
        return 'rec:%s:%s:%d' % (kind, key, S.nf)

    def init_cell(self, S, key):
        o, off, n = key
        return load(S.mem[o], off, n, self.mustfn(S))

    def build(self, S, spec, phis, v0, t, ubt=None):
        """State at the header after t iterations, for arbitrary t."""
        T = S.copy()
        recs = []
        sums = [f for f in list(spec.phis.values()) + list(spec.cells.values())
                if f[0] == 'sum']
        for I in phis:
            f = spec.phis[I.id]
            nm = self.name_of(S, 'p', '%s.%d' % (S.top.fn.name[:40], I.id))
            T.top.regs[I.id] = self.closed(f, v0[I.id], t, nm)
            if f[0] == 'rec':
                recs.append(eq(tm.uf(nm, (ZERO,), v0[I.id].w), v0[I.id]))
        for o in spec.havoc:
            if o in T.mem:
                b = T.mem[o]
                T.mem[o] = Base('uf', 'hv:%d:%d' % (o, S.nf), 1, (t,))
        for o, bl in spec.bulks.items():
            m = T.mem[o]
            for off, stride, n, val in bl:
                if stride > 0:
                    lo = tm.subst(off, {t: ZERO})
                    jv = tm.var('jv', 64, 0, 1 << 46)
                    m = Bulk(m, lo, stride, t, n, jv, tm.subst(val, {t: jv}))
                else:
                    lo = add(tm.subst(off, {t: ZERO}), mulc(sub(t, c64(1)), stride))
                    jv = tm.var('jv', 64, 0, 1 << 46)
                    m = Bulk(m, lo, -stride, t, n, jv,
                             tm.subst(val, {t: sub(sub(t, c64(1)), jv)}))
            T.mem[o] = m
        for key, f in spec.cells.items():
            o, off, n = key
            if o in spec.havoc:
                continue
            init = self.init_cell(S, key)
            nm = self.name_of(S, 'c', '%d.%d.%d' % (o, off.id, n))
            T.mem[o] = store(T.mem[o], off, n, self.closed(f, init, t, nm))
            if f[0] == 'rec':
                recs.append(eq(tm.uf(nm, (ZERO,), init.w), init))
        for o, m in list(T.mem.items()):
            if isinstance(m, Cells) and not m.sealed:
                c = Cells(m.prev, m.d)
                c.sealed = True
                T.mem[o] = c
            elif isinstance(m, SymW) and not m.sealed:
                c = SymW(m.prev, m.off, m.n, m.val)
                c.sealed = True
                T.mem[o] = c
        for f in sums:
            # the closed form at t = 0 is the initial value (one step of the definition)
            v = ZERO
            for m in range(f[2].a):
                v = add(v, tm.sum_at(f[1], c64(m)))
                if m == f[2].a - 1:
                    recs.append(eq(tm.uf(f[1], (f[2],), 64), v))
        for r in recs:
            self.assume(T, r)
        if ubt is not None:
            self.assume(T, ule(t, ubt))
        for f in list(spec.phis.values()) + list(spec.cells.values()):
            if f[0] == 'sum':
                for k in T.watch:
                    for ax in tm.sum_pair(tm.uf(f[1], (k,), 64), tm.uf(f[1], (add(t, f[2]),), 64)):
                        self.assume_new(T, ax)
        st = spec.stay
        if st is not TRUE:
            fa = (t, t, st)
            one = c64(1)
            self.assume_new(T, bor(eq(t, ZERO), tm.subst(st, {t: sub(t, one)})))
            self.assume_new(T, bor(eq(t, ZERO), tm.subst(st, {t: ZERO})))
            for k in self.eq_points(st, t):
                self.instantiate(T, k, fa)
            for k in T.watch:
                self.instantiate(T, k, fa)
        return T

    def eq_points(self, st, t):
        """Solutions for t of the linear equations occurring in the stay condition."""
        out, seen, work = [], set(), [st]
        while work:
            x = work.pop()
            if x in seen or t not in tm.fvs(x):
                continue
            seen.add(x)
            if x.op == 'eq' and x.a[0].w:
                d = sub(x.a[0], x.a[1])
                if d.w < 64:
                    # (t0 + ext t) style narrow counters
                    c, ts = tm._parts(d)
                    et = tm.ext(t, 0, d.w)
                    for y, k in ts:
                        if y is et and tm.sgn(k, d.w) in (1, -1):
                            r = mulc(sub(d, mulc(y, k)), -tm.sgn(k, d.w))
                            out.append(tm.zext(r, 64))
                else:
                    c, ts = tm._parts(d)
                    for y, k in ts:
                        if y is t and k & 1:
                            inv = pow(k, -1, 1 << 64)
                            r = mulc(sub(d, mulc(y, k)), -inv)
                            if t not in tm.fvs(r):
                                out.append(r)
            if x.op == 'eq' and x.a[0].w == 64:
                # c*t = e with even coefficient: t = e / c
                c, ts = tm._parts(sub(x.a[0], x.a[1]))
                for y, k in ts:
                    if y is t and not k & 1:
                        k = tm.sgn(k, 64)
                        e = sub(sub(x.a[0], x.a[1]), mulc(t, k))
                        e = mulc(e, -1) if k > 0 else e
                        out.append(tm.udiv(e, c64(abs(k))))
            work.extend(tm.children(x))
        return [k for k in dict.fromkeys(out) if t not in tm.fvs(k)][:8]

    def instantiate(self, st, k, fa):
        tv, bound, body = fa
        self.assume_new(st, bor(ule(bound, k), tm.subst(body, {tv: k})))

    def assume_new(self, st, f):
        """Assume what the path condition does not already contain."""
        known = set(st.pc)
        if f in known:
            return
        if f.op == 'bor':
            if any(x in known for x in f.a):
                return
            f = bor(*[x for x in f.a if bnot(x) not in known])
        if f.op == 'bor':
            f = bor(*[band(*[y for y in x.a if y not in known]) if x.op == 'band' else x
                      for x in f.a if not (x.op == 'band' and
                                           any(bnot(y) in known for y in x.a))])
        self.assume(st, f)

    # ------------------------------------------------------------------
    def writes(self, c, T):
        """(obj id, off, n) locations written in one iteration, in program order."""
        locs = []
        for o, m in c.mem.items():
            if o not in T.mem:
                if o in c.dead or o not in c.objs:
                    continue
                if c.objs[o].kind in ('heap',) and o not in T.objs:
                    raise Unsupported('allocation inside the loop')
                continue
            old = T.mem[o]
            if m is old:
                continue
            lst = []
            while m is not old:
                if m is None:
                    raise Unsupported('loop form: log mismatch')
                if isinstance(m, Cells):
                    lst.append([(o, c64(k), w) for k, (w, v) in sorted(m.d.items())])
                elif isinstance(m, SymW):
                    lst.append([(o, m.off, m.n)])
                else:
                    lst.append([(o, None, m)])
                m = m.prev
            for l in reversed(lst):
                locs.extend(l)
        for o in T.mem:
            if o not in c.mem and T.objs[o].kind == 'heap':
                raise Unsupported('deallocation inside the loop')
        return locs

    def analyse(self, S, T, spec, phis, v0, conts, t, nf0):
        new = Spec()
        new.havoc = set(spec.havoc)
        facts = []
        t1 = add(t, c64(1))
        # registers
        for I in phis:
            nx = self.merge(conts, T, lambda c: self.next_phi(c, I))
            f = self.refine(S, T, spec.phis[I.id], v0[I.id], T.top.regs[I.id], nx, t, conts,
                            lambda c: self.next_phi(c, I),
                            self.name_of(S, 'p', '%s.%d' % (S.top.fn.name[:40], I.id)), facts)
            new.phis[I.id] = f
        # memory
        allw = {}
        for c in conts:
            for o, off, n in self.writes(c, T):
                if off is None:
                    allw[(o, None, id(n))] = 1
                    continue
                allw[(o, off, n)] = 1
        # (a hypothesised cell that this round does not write keeps its value: no form needed)
        bulk = {}
        for (o, off, n) in allw:
            if off is None:
                new.havoc.add(o)
                continue
            if o in new.havoc:
                continue
            if self.body_vars(off, S, t):
                new.havoc.add(o)
                continue
            if t not in tm.fvs(off) and not self.has_rec(off):
                # fixed address
                key = (o, off, n)
                init = self.init_cell(S, key)
                cur = load(T.mem[o], off, n, self.mustfn(T))
                get = lambda c: load(c.mem[o], off, n, self.mustfn(c))
                nx = self.merge(conts, T, get)
                old = spec.cells.get(key)
                nm = self.name_of(S, 'c', '%d.%d.%d' % (o, off.id, n))
                if old is None:
                    f = self.guess(S, init, nx, t, nf0)
                    if f[0] == 'rec':
                        f = self.refine(S, T, f, init, cur, nx, t, conts, get, nm, facts)
                    new.cells[key] = f
                else:
                    new.cells[key] = self.refine(S, T, old, init, cur, nx, t, conts, get, nm,
                                                 facts)
                continue
            d = sub(tm.subst(off, {t: t1}), off)
            woff = off
            if d.op != 'c' and not self.has_rec(off):
                off, d = self.linear_off(conts, off, t, t1)
            if d.op != 'c' or d.a == 0 or self.has_rec(off):
                new.havoc.add(o)
                continue
            stride = tm.sgn(d.a, 64)
            if abs(stride) < n:
                new.havoc.add(o)
                continue
            val = self.merge(conts, T, lambda c: load(c.mem[o], woff, n, self.mustfn(c)))
            val = self.skolem(val, S, t)
            bulk.setdefault(o, []).append((off, stride, n, val))
        for o, bl in bulk.items():
            if o in new.havoc:
                continue
            if not self.bulk_ok(S, T, o, bl, new, t):
                new.havoc.add(o)
                continue
            new.bulks[o] = bl
        for o in new.havoc:
            if S.objs[o].kind == 'stack' or True:
                for k in [k for k in new.cells if k[0] == o]:
                    del new.cells[k]
        stay = bor(*[self.delta(c, T) for c in conts])
        new.stay = self.skolem(band(stay, *facts), S, t)
        return new

    def linear_off(self, conts, off, t, t1):
        """An offset that equals off(0) + s*t under the path conditions of the iteration."""
        c = conts[0]
        r, m = self.solver.check(c.pc, [])
        if r != 'sat':
            return off, off
        s = (m.val(tm.subst(off, {t: t1})) - m.val(off)) & ((1 << 64) - 1)
        if s == 0 or 4096 < s < (1 << 64) - 4096:
            return off, off
        lin = add(tm.subst(off, {t: ZERO}), mulc(t, s))
        for c in conts:
            if not self.must(c, eq(off, lin)):
                return off, off
        return lin, c64(s)

    def has_rec(self, term):
        seen, work = set(), [term]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'uf' and x.a[0].startswith('rec:'):
                return True
            work.extend(tm.children(x))
        return False

    def bulk_ok(self, S, T, o, bl, new, t):
        """Elements written in different iterations, and fixed cells, do not overlap."""
        for i, (off, s, n, v) in enumerate(bl):
            for off2, s2, n2, v2 in bl[i + 1:]:
                if s != s2:
                    return False
                d = sub(off2, off)
                if d.op != 'c':
                    return False
                d = tm.sgn(d.a, 64)
                if not (-abs(s) + n2 <= d <= abs(s) - n):
                    return False
            for (oo, coff, cn) in new.cells:
                if oo != o:
                    continue
                T2 = T
                dis = bor(ule(add(off, c64(n)), coff), ule(add(coff, c64(cn)), off))
                if not self.must(T2, dis):
                    return False
        return True

    def refine(self, S, T, form, init, cur, nx, t, conts, get, name, facts):
        """Confirm or replace the closed form of a register/cell."""
        t1 = add(t, c64(1))
        k = form[0]
        if k != 'rec':
            exp = self.closed(form, init, t1, name)
            ok = nx is exp or all(
                get(c) is exp or self.must(c, eq(get(c), exp)) for c in conts)
            if ok:
                if k == 'sum':
                    # the summand may have become simpler now that more is known
                    d = sub(nx, cur)
                    f = None if self.depends(d, cur, init, t) else self.sum_form(S, d, init, t)
                    if f is not None and f[1] != form[1] and \
                            tm.size(tm.SUMS[f[1]]) < tm.size(tm.SUMS[form[1]]):
                        return f
                return form
        # last: the new value does not depend on the old one
        g = self.skolem(nx, S, t)
        if not self.has_rec(g) and not self.depends(g, cur, init, t):
            f = ('last', g, t)
            if self.consistent_last(f, g, init, t):
                return f
        # sum: grows by an amount that depends on the iteration only
        if init.w == 64 and k != 'sum':
            d = sub(nx, cur)
            if not self.depends(d, cur, init, t):
                f = self.sum_form(S, d, init, t)
                if f is not None:
                    return f
        # latch: changed only in iteration k
        f = self.latch(S, nx, cur, t)
        if f is not None and form[0] != 'rec':
            return f
        # the same, recognised semantically for the watched iterations
        if form[0] != 'rec' or True:
            for w in T.watch:
                if form[0] == 'latch' and form[1] is w:
                    continue
                if w.w != 64 or t in tm.fvs(w):
                    continue
                if all(get(c) is cur or self.must(c, bor(eq(t, w), eq(get(c), cur)))
                       for c in conts):
                    val = tm.subst(nx, {t: w})
                    if not self.body_vars(val, S, t) and not self.depends(val, cur, init, t):
                        return ('latch', w, val)
        # conditional latch
        facts.append(eq(tm.uf(name, (t1,), init.w), self.skolem(nx, S, t))
                     if k == 'rec' else TRUE)
        return ('rec', None)

    def sum_form(self, S, d, init, t):
        """init + k * (g(0) + ... + g(t-1)), with the sum shared between loops with the same g."""
        g = self.skolem(d, S, t)
        c, ts = tm._parts(g)
        ks = [tm.sgn(x, 64) for _, x in ts] + ([tm.sgn(c, 64)] if c else [])
        k = 0
        for x in ks:
            k = math.gcd(k, abs(x))
        if k and ks[0] < 0:
            k = -k
        if not k or self.has_rec(g):
            return None
        if k != 1:
            n = const((tm.sgn(c, 64) // k) & ((1 << 64) - 1), 64)
            for x, m in ts:
                n = add(n, mulc(x, tm.sgn(m, 64) // k))
            g = n
        if g.ub >= 1 << 48:
            return None
        # peeled first iterations: init = base + k * (g(-1) + ... + g(-j))
        base = init
        for j in range(1, 5):
            if init.op == 'c':
                break
            g1 = tm.subst(g, {t: c64(-j)})
            if mulc(g1, k) is ZERO:
                break
            base = sub(base, mulc(g1, k))
            left = base
            if base.op == 'lin' and g1.op != 'c':
                # what is left does not mention the summands any more
                left = TRUE if self.mentions(base, g, t) else ZERO
            if base.op != 'c' and left is not ZERO and self.must(S, eq(base, ZERO)):
                base = left = ZERO
            if base.op == 'c' or left is ZERO:
                return ('sum', tm.prefix_sum(tm.subst(g, {t: sub(t, c64(j))}), t), c64(j), base, k)
        return ('sum', tm.prefix_sum(g, t), ZERO, init, k)

    def mentions(self, base, g, t):
        """Does the sum still contain a summand of the shape of g?"""
        shape = lambda x: (x.op, x.w, x.a[0] if x.op == 'uf' else None,
                           tuple(shape(c) for c in tm.children(x)) if x.op in ('zext', 'sext', 'ite')
                           else None)
        want = {shape(x) for x, _ in tm._parts(g)[1]}
        return any(shape(x) in want for x, _ in tm._parts(base)[1])

    def consistent_last(self, f, g, init, t):
        return True

    def depends(self, g, cur, init, t):
        """Does g mention the current value of the cell (other than through t)?"""
        if cur.op in ('c', 'b'):
            # a concrete current value may have been folded in; only trust pure functions of t
            return True if (g.op in ('c', 'b') and g is not cur) and False else False
        seen, work = set(), [g]
        while work:
            x = work.pop()
            if x is cur:
                return True
            if x in seen:
                continue
            seen.add(x)
            work.extend(tm.children(x))
        return False

    def latch(self, S, nx, cur, t):
        if nx.op != 'ite':
            return None
        c, a, b = nx.a
        neg = False
        if b is not cur:
            if a is cur:
                a, b, neg = b, a, True
            else:
                return None
        if neg or c.op != 'eq':
            return None
        pts = self.eq_points(c, t)
        if len(pts) != 1:
            return None
        val = tm.subst(a, {t: pts[0]})
        if self.body_vars(val, S, t):
            return None
        return ('latch', pts[0], val)

    def verify(self, S, T, spec, phis, v0, conts, t, nf0, check_ub, ub, loc, ubt=None):
        """The recorded inductive step: body maps the state for t to the state for t+1."""
        t1 = add(t, c64(1))
        where = 'loop %s#%d' % loc
        new = self.analyse(S, T, spec, phis, v0, conts, t, nf0) if conts else spec
        if conts and (new.key() != spec.key() or new.stay is not spec.stay):
            raise Unsupported('loop form: invariant not preserved')
        for c in conts:
            if check_ub:
                if not self.must(c, ule(t1, c64(ub))) or \
                        ubt is not None and not self.must(c, ule(t1, ubt)):
                    raise Unsupported('iteration bound')
        n = len(spec.phis) + len(spec.cells) + sum(len(b) for b in spec.bulks.values())
        if self.recording:
            self.n_proved += max(n, 1)
            self.note_ok(S, 'loop invariant', where)
