"""SMT back ends: z3 (incremental, then one-shot tactics) and cvc5 as second opinion."""
import time
import z3
from . import terms as tm
from . import lia

_ctx = z3.main_ctx()


class Ctx:
    """Registry of address axioms: base variables of objects."""

    def __init__(self):
        self.bases = {}       # var term -> (size term, align)

    def unary(self, b):
        size, align = self.bases[b]
        r = [tm.ule(tm.add(b, size), tm.const(1 << 47, 64))]
        if align > 1:
            r.append(tm.eq(tm.and_(b, tm.const(align - 1, 64)), tm.const(0, 64)))
        return r

    def pair(self, a, b):
        sa, sb = self.bases[a][0], self.bases[b][0]
        one = tm.const(1, 64)
        return tm.bor(tm.ule(tm.add(tm.add(a, sa), one), b),
                      tm.ule(tm.add(tm.add(b, sb), one), a))


_zcache_keep = []


def to_z3(t):
    if t.z is not None:
        return t.z
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None:
            st.pop()
            continue
        todo = [c for c in tm.children(x) if c.z is None]
        if todo:
            st.extend(todo)
            continue
        x.z = _conv(x)
        st.pop()
    return t.z


def _conv(t):
    o, w = t.op, t.w
    if o == 'c':
        return z3.BitVecVal(t.a, w)
    if o == 'b':
        return z3.BoolVal(t.a)
    if o == 'v':
        return z3.BitVec(t.a, w) if w else z3.Bool(t.a)
    if o == 'lin':
        c, ts = t.a
        pos, negs = [], []
        for x, k in ts:
            k = tm.sgn(k, w)
            e = x.z if abs(k) == 1 else x.z * z3.BitVecVal(abs(k), w)
            (pos if k > 0 else negs).append(e)
        cs = tm.sgn(c, w)
        if cs > 0:
            pos.append(z3.BitVecVal(cs, w))
        elif cs < 0:
            negs.append(z3.BitVecVal(-cs, w))
        if pos:
            r = pos[0]
            for e in pos[1:]:
                r = r + e
        else:
            r = -negs[0]
            negs = negs[1:]
        for e in negs:
            r = r - e
        return r
    if o == 'uf':
        name, args = t.a
        if name.startswith('fp.'):
            return _fpconv(name, [x.z for x in args], w)
        sig = [z3.BitVecSort(x.w) if x.w else z3.BoolSort() for x in args]
        sig.append(z3.BitVecSort(w) if w else z3.BoolSort())
        return z3.Function(name, *sig)(*[x.z for x in args])
    if o == 'ext':
        return z3.Extract(t.a[1] + w - 1, t.a[1], t.a[0].z)
    a = [x.z for x in t.a]
    if o == 'zext':
        return z3.ZeroExt(w - t.a[0].w, a[0])
    if o == 'sext':
        return z3.SignExt(w - t.a[0].w, a[0])
    if o == 'cat':
        return z3.Concat(a[0], a[1])
    if o == 'ite':
        return z3.If(a[0], a[1], a[2])
    if o == 'band':
        return z3.And(*a)
    if o == 'bor':
        return z3.Or(*a)
    if o == 'bnot':
        return z3.Not(a[0])
    if o == 'eq':
        return a[0] == a[1]
    if o == 'ult':
        return z3.ULT(a[0], a[1])
    if o == 'ule':
        return z3.ULE(a[0], a[1])
    if o == 'slt':
        return a[0] < a[1]
    if o == 'sle':
        return a[0] <= a[1]
    if o == 'mul':
        return a[0] * a[1]
    if o == 'udiv':
        return z3.UDiv(a[0], a[1])
    if o == 'urem':
        return z3.URem(a[0], a[1])
    if o == 'sdiv':
        return a[0] / a[1]
    if o == 'srem':
        return z3.SRem(a[0], a[1])
    if o == 'shl':
        return a[0] << a[1]
    if o == 'lshr':
        return z3.LShR(a[0], a[1])
    if o == 'ashr':
        return a[0] >> a[1]
    if o == 'and':
        return a[0] & a[1]
    if o == 'or':
        return a[0] | a[1]
    if o == 'xor':
        return a[0] ^ a[1]
    raise KeyError(o)


def _sort(w):
    return z3.Float64() if w == 64 else z3.Float32()


def _fpconv(name, a, w):
    """fp.<op>.<w...> on bit patterns."""
    p = name.split('.')
    op = p[1]
    rm = z3.RNE()
    if op in ('add', 'sub', 'mul', 'div'):
        s = _sort(w)
        x, y = z3.fpBVToFP(a[0], s), z3.fpBVToFP(a[1], s)
        f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
        return z3.fpToIEEEBV(f(rm, x, y))
    if op == 'uitofp':
        return z3.fpToIEEEBV(z3.fpUnsignedToFP(rm, a[0], _sort(w)))
    if op == 'sitofp':
        return z3.fpToIEEEBV(z3.fpSignedToFP(rm, a[0], _sort(w)))
    if op == 'fptoui':
        return z3.fpToUBV(z3.RTZ(), z3.fpBVToFP(a[0], _sort(int(p[2]))), z3.BitVecSort(w))
    if op == 'fptosi':
        return z3.fpToSBV(z3.RTZ(), z3.fpBVToFP(a[0], _sort(int(p[2]))), z3.BitVecSort(w))
    if op in ('fpext', 'fptrunc'):
        return z3.fpToIEEEBV(z3.fpFPToFP(rm, z3.fpBVToFP(a[0], _sort(int(p[2]))), _sort(w)))
    if op in ('oeq', 'olt', 'ole', 'ogt', 'oge', 'uno'):
        s = _sort(int(p[2]))
        x, y = z3.fpBVToFP(a[0], s), z3.fpBVToFP(a[1], s)
        if op == 'uno':
            return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        f = {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ, 'ogt': z3.fpGT,
             'oge': z3.fpGEQ}[op]
        return f(x, y)
    raise KeyError(name)


class Model:
    def __init__(self, env, ufs):
        self.env = env
        self.ufs = ufs

    def val(self, t, strict=False):
        return tm.evaluate(t, self.env, self.ufs, {}, strict)


def extract(m):
    env, ufs = {}, {}
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            v = m[d]
            if z3.is_bv_value(v):
                env[tm.var_by_name(n, v.size())] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                env[tm.var_by_name(n, 0)] = z3.is_true(v)
        else:
            fi = m[d]
            tab = {}
            if not isinstance(fi, z3.FuncInterp):
                continue
            for i in range(fi.num_entries()):
                e = fi.entry(i)
                args = []
                for k in range(e.num_args()):
                    a = e.arg_value(k)
                    args.append(a.as_long() if z3.is_bv_value(a) else z3.is_true(a))
                v = e.value()
                tab[tuple(args)] = v.as_long() if z3.is_bv_value(v) else z3.is_true(v)
            ev = fi.else_value()
            if ev is None:
                dv = 0
            elif z3.is_bv_value(ev):
                dv = ev.as_long()
            elif z3.is_true(ev) or z3.is_false(ev):
                dv = z3.is_true(ev)
            else:
                dv = 0
            ufs[n] = (tab, dv)
    return Model(env, ufs)


# variables are hash-consed with their bounds; keep a name index for model extraction
_names = {}


def _var_by_name(n, w):
    v = _names.get(n)
    return v if v is not None else tm.var(n, w)


tm.var_by_name = _var_by_name
tm.lookup_var = _names.get
_orig_mk = tm._mk


def _mk_hook(op, a, w, lb=None, ub=None):
    t = _orig_mk(op, a, w, lb, ub)
    if op == 'v' and a not in _names:
        _names[a] = t
    return t


tm._mk = _mk_hook


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.unknown = 0


class Solver:
    def __init__(self, ctx, timeout_ms=10000):
        self.ctx = ctx
        self.timeout = timeout_ms
        self.stats = Stats()
        self.reset()
        self.mcache = []

    def lsync(self, pc):
        """The same path condition in the integer-arithmetic solver."""
        n = 0
        st = self.lstack
        m = min(len(st), len(pc))
        while n < m and st[n][0] is pc[n]:
            n += 1
        if len(st) > n:
            self.ls.pop(len(st) - n)
            del st[n:]
        for t in pc[n:]:
            self.ls.push()
            st.append((t,) + self.ladd(t))

    def ladd(self, t):
        known, kv, seen = self.lstack[-1][1:] if self.lstack else (frozenset(), frozenset(),
                                                                   frozenset())
        return self._ladd(t, known, kv, seen)

    def _ladd(self, t, known, kv, seen):
        seen = set(seen)
        self.ls.add(lia.conv(t))
        self.ls.add(*lia.side_of(t, seen))
        for ax in self._axioms(t, known, kv):
            self.ls.add(lia.conv(ax))
            self.ls.add(*lia.side_of(ax, seen))
        return self._known + (frozenset(seen),)

    def lcheck(self, pc, extra, timeout):
        self.lsync(pc)
        self.ls.push()
        k = self.lstack[-1][1:] if self.lstack else (frozenset(), frozenset(), frozenset())
        for e in extra:
            k = self._ladd(e, *k)
        self.ls.set('timeout', timeout)
        r = self.ls.check()
        m = None
        if r == z3.sat:
            try:
                env, ufs = lia.extract(self.ls.model())
                for t in list(pc) + list(extra):
                    for v in tm.fvs(t):
                        if v not in env and v not in self.ctx.bases:
                            env[v] = v.lb if v.w else False
                m = Model(env, ufs)
            except Exception:
                m = None
            if m is not None and not self._model_ok(m, pc, extra):
                m = None
            if m is not None:
                for b in k[0]:
                    for ax in self.ctx.unary(b):
                        if not m.val(ax):
                            m = None
                            break
                    if m is None:
                        break
        self.ls.pop()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat and m is not None:
            return 'sat', m
        return ('spurious' if r == z3.sat else 'unknown'), None

    def reset(self):
        self.ls = z3.Solver()
        self.lstack = []
        self.s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        self.s.set('timeout', self.timeout)
        self.stack = []        # asserted terms
        self.basestack = []    # list of frozenset of bases known after each push
        self.varstack = []

    def _push(self, t):
        self.s.push()
        known = self.basestack[-1] if self.basestack else frozenset()
        kv = self.varstack[-1] if self.varstack else frozenset()
        self.s.add(to_z3(t))
        for ax in self._axioms(t, known, kv):
            self.s.add(to_z3(ax))
        nb, nv = self._known
        self.stack.append(t)
        self.basestack.append(nb)
        self.varstack.append(nv)

    def _axioms(self, t, known, kv):
        """Bounds of variables and address axioms for variables new in t (transitively)."""
        out = []
        nb, nv = set(known), set(kv)
        work = [t]
        while work:
            x = work.pop()
            for v in tm.fvs(x):
                if v in nv:
                    continue
                nv.add(v)
                if v in tm.FLAGS:
                    for w in list(nv):
                        new = tm.late(v, w)
                        out.extend(new)
                        work.extend(new)
                if v.w:
                    if v.lb > 0:
                        out.append(tm._mk('ule', (tm.const(v.lb, v.w), v), 0))
                    if v.ub < (1 << v.w) - 1:
                        out.append(tm._mk('ule', (v, tm.const(v.ub, v.w)), 0))
                if v in self.ctx.bases:
                    for ax in self.ctx.unary(v):
                        out.append(ax)
                        work.append(ax)
                    for b in nb:
                        ax = self.ctx.pair(v, b)
                        out.append(ax)
                        work.append(ax)
                    nb.add(v)
            for u in tm.sums(x):
                if u in nv:
                    continue
                new = tm.sum_unary(u)
                for w in nv:
                    if w.op == 'uf':
                        new += tm.sum_pair(u, w)
                nv.add(u)
                out.extend(new)
                work.extend(new)
        self._known = (frozenset(nb), frozenset(nv))
        return out

    def sync(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del self.stack[n:]
            del self.basestack[n:]
            del self.varstack[n:]
        for t in pc[n:]:
            self._push(t)

    def check(self, pc, extra, want_model=True, timeout=None):
        """-> ('sat', Model) | ('unsat', None) | ('unknown', None)"""
        for e in extra:
            if e is tm.FALSE:
                return 'unsat', None
        cache = self.mcache[-12:][::-1]
        axs = None
        for m in cache:
            if self._model_ok(m, pc, extra):
                if axs is None:
                    axs = self._spec_axioms(list(pc) + list(extra))
                # facts about prefix sums and quantified hypotheses, which the model has not seen
                if self._model_ok(m, (), axs):
                    return 'sat', m
        t0 = time.time()
        self.stats.queries += 1
        r, model = self.lcheck(pc, extra, 1000)
        if r in ('sat', 'unsat'):
            self.stats.time += time.time() - t0
            self.stats.by['z3-lia'] = self.stats.by.get('z3-lia', 0) + 1
            if r == 'sat':
                self.mcache.append(model)
                if len(self.mcache) > 60:
                    del self.mcache[:30]
            return r, model
        lunk = r == 'unknown'
        self.sync(pc)
        self.s.push()
        known = self.basestack[-1] if self.basestack else frozenset()
        kv = self.varstack[-1] if self.varstack else frozenset()
        for e in extra:
            self.s.add(to_z3(e))
            for ax in self._axioms(e, known, kv):
                self.s.add(to_z3(ax))
            known, kv = self._known
        self.s.set('timeout', 1500)
        r = self.s.check()
        backend = 'z3'
        model = None
        if r == z3.unknown and lunk:
            lr, lm = self.lcheck(pc, extra, 8000)
            if lr == 'unsat':
                r, backend = z3.unsat, 'z3-lia'
            elif lr == 'sat':
                r, model, backend = z3.sat, lm, 'z3-lia'
        if r == z3.unknown:
            # one-shot: full tactic pipeline on a fresh solver
            fs = list(self.s.assertions())
            tot = timeout or self.timeout
            for mk in (lambda: z3.SolverFor('QF_UFBV'), lambda: z3.Then(
                    'simplify', 'propagate-values', 'solve-eqs', 'smt').solver()):
                s2 = mk()
                s2.set('timeout', tot)
                s2.add(*fs)
                r = s2.check()
                if r != z3.unknown:
                    backend = 'z3-oneshot'
                    if r == z3.sat:
                        model = extract(s2.model())
                    break
            if r == z3.unknown:
                r2 = cvc5_check(fs, tot)
                if r2 == 'unsat':
                    r = z3.unsat
                    backend = 'cvc5'
        if r == z3.sat and model is None:
            model = extract(self.s.model())
        self.s.pop()
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.by[backend] = self.stats.by.get(backend, 0) + 1
        if r == z3.sat:
            self.mcache.append(model)
            if len(self.mcache) > 60:
                del self.mcache[:30]
            return 'sat', model
        if r == z3.unsat:
            return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None

    def _spec_axioms(self, ts):
        if not tm.SUMS and not tm.FORALL:
            return []
        out, seen, work = [], set(), list(ts)
        while work:
            for u in tm.sums(work.pop()):
                if u in seen:
                    continue
                new = list(tm.sum_unary(u))
                for w in seen:
                    new += tm.sum_pair(u, w)
                seen.add(u)
                out.extend(new)
                work.extend(new)
        return out

    def _model_ok(self, m, pc, extra):
        memo = m.__dict__.setdefault('memo', {})
        good = m.__dict__.setdefault('good', set())
        try:
            for t in extra:
                if not tm.evaluate(t, m.env, m.ufs, memo):
                    return False
            for t in reversed(pc):
                if t.id in good:
                    continue
                if not tm.evaluate(t, m.env, m.ufs, memo):
                    return False
                good.add(t.id)
        except tm.NoVal:
            return False
        # bounds/address axioms of every variable involved were asserted when the model
        # was built only for the variables it knows; strict evaluation guarantees that
        # no other variable occurs here.
        return True


def cvc5_check(fs, timeout_ms):
    try:
        import subprocess
        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
        r = subprocess.run(['/usr/local/bin/cvc5' if False else 'cvc5', '--lang=smt2',
                            '--tlimit=%d' % timeout_ms, '-'], input=txt, capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
