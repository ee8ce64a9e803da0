"""Forward symbolic execution of LLVM IR with obligations, contracts and loop invariants."""
import sys
import time
from . import terms as tm
from .terms import (const, add, sub, mulc, eq, ne, ult, ule, slt, ite, band, bor, bnot, TRUE,
                    FALSE)
from .mem import (Obj, Base, Cells, SymW, Bulk, Copy, Fill, Unsupported, store, load, ZERO, c64)
from . import fp
from . import solver as sv
from .loops import LoopMixin, LoopRec
from .models import MODELS, model_for, STD_BASES

sys.setrecursionlimit(20000)
MAXADDR = 1 << 46


class PathEnd(Exception):
    """This path is finished (normally, infeasible, or abandoned)."""


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'call', 'allocas', 'loops', 'tag')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.call = self.fn, self.blk, self.ip, self.prev, self.call
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        f.tag = self.tag
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.dead = {}          # obj id -> reason
        self.objs = {}          # obj id -> Obj
        self.bybase = {}        # base var -> obj id
        self.pc = []
        self.soft = set()       # indices of pc that are unproved obligations assumed
        self.inputs = []        # (kind, name, idx, term/…)
        self.cnt = {}
        self.nf = 0
        self.bounds = ()
        self.foralls = []
        self.watch = []
        self.exc = None         # in-flight exception (addr term, typeinfo name)
        self.caught = []        # stack of caught exceptions
        self.excinfo = {}       # exception object base var -> typeinfo name
        self.covers = set()
        self.trace = ()
        self.atoms = ()         # log of atomic operations
        self.locks = ()         # locks held
        self.depth_sym = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.dead = dict(self.dead)
        s.objs = dict(self.objs)
        s.bybase = dict(self.bybase)
        s.pc = list(self.pc)
        s.soft = set(self.soft)
        s.inputs = list(self.inputs)
        s.cnt = dict(self.cnt)
        s.nf = self.nf
        s.bounds = self.bounds
        s.foralls = list(self.foralls)
        s.watch = list(self.watch)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.excinfo = dict(self.excinfo)
        s.covers = self.covers
        s.trace = self.trace
        s.atoms = self.atoms
        s.locks = self.locks
        return s

    @property
    def top(self):
        return self.frames[-1]

    def fresh(self, hint, w, lb=None, ub=None):
        self.nf += 1
        n = '%s!%d.%d' % (hint, self.nf, w)
        if lb is not None or ub is not None:
            n += '.%x.%x' % (lb or 0, ub if ub is not None else (1 << w) - 1)
        return tm.var(n, w, lb, ub)


class Obligation:
    def __init__(self, label, kind, where, status, model=None, state=None, cond=None):
        self.label, self.kind, self.where, self.status = label, kind, where, status
        self.model, self.inputs = model, (list(state.inputs) if state else None)
        self.cond = cond
        self.trace = state.trace if state else ()
        self.pc = list(state.pc) if state else []
        self.bounded = False


class Executor(LoopMixin):
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = dict(unroll=6, max_states=4000, max_steps=4000000, time=600, new_fail=False,
                         shared=False, summarise=True)
        self.opts.update(opts or {})
        self.ctx = sv.Ctx()
        self.solver = sv.Solver(self.ctx, timeout_ms=self.opts.get('timeout', 20000))
        self.work = []
        self.obl = []
        self.obl_ok = {}          # (label/kind, where) -> count proved
        self.n_trivial = 0
        self.n_proved = 0
        self.covers = set()
        self.cover_labels = set()
        self.functions = {}       # executed functions -> steps
        self.replaced = {}        # function name -> stub name
        self.assumed = set()      # external functions modelled
        self.recording = True
        self.bounded = set()      # locations of bounded loops
        self.loops_ok = {}        # location -> summary kind
        self.unsupported = []
        self.globals = {}
        self.gdeps = {}
        self.gstack = []         # name -> Obj
        self.gmem = {}
        self.steps = 0
        self.paths = 0
        self.t0 = time.time()
        self.tids = {}
        self.nobj = 0
        self.assume_count = 0
        self.max_caller = 60

    # ------------------------------------------------------------- objects
    def new_obj(self, st, name, size, align=16, kind='heap', content=None, ro=False):
        if isinstance(size, int):
            size = c64(size)
        st.nf += 1
        key = '%s@%d.s%d.a%d' % (name, st.nf, size.id, align)
        base = tm.var(key, 64, 0x10000, MAXADDR)
        o = Obj()
        self.nobj += 1
        o.id = self.nobj
        o.name, o.base, o.size, o.align, o.kind, o.ro, o.api = name, base, size, align, kind, ro, None
        o.data = None
        o.shared = False
        self.ctx.bases[base] = (size, align)
        st.objs[o.id] = o
        st.bybase[base] = o.id
        st.mem[o.id] = content if content is not None else Base('uf', 'm:' + key, 1)
        return o

    def global_obj(self, st, kind, name):
        k = (kind, name)
        o = self.globals.get(k)
        if self.gstack:
            self.gdeps.setdefault(self.gstack[-1], set()).add(k)
        if o is None:
            o = Obj()
            self.nobj += 1
            o.id = self.nobj
            o.name = name
            o.api = None
            o.data = None
            o.shared = False
            base = tm.var('@%s' % name, 64, 0x10000, MAXADDR)
            o.base = base
            if kind == 'f':
                o.kind, o.size, o.align, o.ro = 'fn', c64(1), 16, True
                content = Base('uf', 'm:@' + name)
            else:
                g = self.mod.globals[name]
                o.kind = 'global'
                o.size = c64(max(g.ty.size, 1))
                o.align = max(16, g.ty.align or 1)
                o.ro = g.const
                content = None
            self.ctx.bases[base] = (o.size, o.align)
            self.globals[k] = o
            if content is None:
                g = self.mod.globals[name]
                if g.decl:
                    content = Base('uf', 'm:@' + name)
                else:
                    from .ir import GetInit
                    init = self.mod._operand(GetInit(g.ptr), {})
                    cells = {}
                    st.objs[o.id] = o
                    st.bybase[base] = o.id
                    self.gstack.append(k)
                    try:
                        self.init_cells(st, init, g.ty, 0, cells)
                    finally:
                        self.gstack.pop()
                    content = Cells(Base('zero'), cells)
            self.gmem[o.id] = content
        if o.id not in st.objs:
            st.objs[o.id] = o
            st.bybase[o.base] = o.id
        if o.id not in st.mem:
            st.mem[o.id] = self.gmem[o.id]
            for d in self.gdeps.get(k, ()):      # objects its initialiser refers to
                self.global_obj(st, *d)
        return o

    def init_cells(self, st, op, ty, off, cells):
        k = op[0]
        if k in ('zero', 'z', 'u'):
            if k == 'z':
                cells[off] = (8, c64(0))
            return
        if k == 'str':
            for i, b in enumerate(op[2]):
                if b:
                    cells[off + i] = (1, const(b, 8))
            return
        if k == 'agg':
            if ty.kind == 'struct':
                for e, t, o in zip(op[2], ty.elems, ty.offs):
                    self.init_cells(st, e, t, off + o, cells)
            else:
                for i, e in enumerate(op[2]):
                    self.init_cells(st, e, ty.elem, off + i * ty.elem.size, cells)
            return
        v = self.value(st, op, ty)
        v = self.tobv(v, ty)
        cells[off] = (v.w // 8, v)

    def tobv(self, v, ty):
        """Scalar register value -> memory representation (whole bytes)."""
        if v.w == 0:
            return ite(v, const(1, 8), const(0, 8))
        if v.w % 8:
            return tm.zext(v, (v.w + 7) // 8 * 8)
        return v

    # ------------------------------------------------------------- values
    def value(self, st, op, ty=None):
        k = op[0]
        if k == 'r':
            return st.top.regs[op[1]]
        if k == 'i':
            return const(op[2], op[1]) if op[1] > 1 else tm.boolc(op[2])
        if k == 'z':
            return ZERO
        if k == 'g':
            return self.global_obj(st, 'g', op[1]).base
        if k == 'f':
            return self.global_obj(st, 'f', op[1]).base
        if k in ('u', 'zero'):
            return self.undef(st, op[1], k == 'zero')
        if k == 'fp':
            return const(op[2], op[1])
        if k == 'agg':
            t = op[1]
            return [self.value(st, e) for e in op[2]]
        if k == 'str':
            return [const(b, 8) for b in op[2]]
        if k == 'ce':
            return self.constexpr(st, op)
        raise Unsupported('operand %r' % (op,))

    def undef(self, st, ty, zero=False):
        if ty.kind == 'struct':
            return [self.undef(st, e, zero) for e in ty.elems]
        if ty.kind in ('array', 'vector'):
            return [self.undef(st, ty.elem, zero) for _ in range(ty.n)]
        w = ty.bits()
        if zero:
            return const(0, w) if w > 1 else FALSE
        return st.fresh('undef', w) if w > 1 else st.fresh('undef', 0)

    def constexpr(self, st, op):
        _, o, ty, ops, x = op
        if o == 'getelementptr':
            r = add(self.value(st, ops[0]), c64(x[0]))
            for v, s in x[1]:
                r = add(r, mulc(tm.sext(self.value(st, v), 64), s))
            return r
        a = [self.value(st, q) for q in ops]
        if o in ('bitcast', 'addrspacecast'):
            return a[0]
        if o == 'ptrtoint' or o == 'inttoptr':
            return self.castw(a[0], ty.bits())
        if o in tm.BIN:
            return tm.BIN[o](a[0], a[1])
        if o == 'trunc':
            return tm.ext(a[0], 0, ty.bits())
        if o == 'icmp':
            return self.icmp(st, x, a[0], a[1])
        raise Unsupported('constexpr ' + o)

    def castw(self, v, w):
        if v.w > w:
            return tm.ext(v, 0, w)
        if v.w < w:
            return tm.zext(v, w)
        return v

    # ------------------------------------------------------------- solver access
    def must(self, st, cond, assume=()):
        if cond is TRUE:
            return True
        if cond is FALSE and not assume:
            pass
        r, _ = self.solver.check(st.pc, [bnot(cond)] + list(assume))
        return r == 'unsat'

    def mustfn(self, st):
        memo = {}

        def f(cond, assume=()):
            if cond is TRUE:
                return True
            key = (cond, tuple(assume))
            r = memo.get(key)
            if r is None:
                r = memo[key] = self.must(st, cond, assume)
            return r
        return f

    def feasible(self, st, cond):
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        r, _ = self.solver.check(st.pc, [cond])
        return r != 'unsat'

    def assume(self, st, cond, soft=False):
        if cond is TRUE:
            return
        if cond.op == 'band':
            for c in cond.a:
                self.assume(st, c, soft)
            return
        if soft:
            st.soft.add(len(st.pc))
        st.pc.append(cond)

    def where(self, st):
        f = st.top
        return f.fn.name

    def oblige(self, st, cond, kind, label):
        """Proof obligation: pc => cond."""
        if cond is TRUE:
            if self.recording:
                self.n_trivial += 1
                self.note_ok(st, kind, label)
            return True
        r, m = self.solver.check(st.pc, [bnot(cond)], timeout=self.opts.get('ob_timeout', 30000))
        if r == 'unsat':
            if self.recording:
                self.n_proved += 1
                self.note_ok(st, kind, label)
            return True
        if self.recording:
            self.obl.append(Obligation(label, kind, self.stack_names(st),
                                       'failed' if r == 'sat' else 'unknown', m, st, cond))
            if len(self.obl) >= self.opts.get('max_fail', 12):
                raise Budget('too many failures')
        if cond is FALSE or not self.feasible(st, cond):
            raise PathEnd()
        self.assume(st, cond, soft=True)
        return False

    def note_ok(self, st, kind, label):
        k = (kind, label)
        self.obl_ok[k] = self.obl_ok.get(k, 0) + 1

    def stack_names(self, st):
        return [f.fn.name for f in st.frames]

    # ------------------------------------------------------------- pointers
    def split_ite(self, st, t):
        """If t contains an ite at linear level, fork on its condition; returns resolved term."""
        for _ in range(64):
            sub_ = None
            if t.op == 'ite':
                sub_ = t
            elif t.op == 'lin':
                for x, k in t.a[1]:
                    if x.op == 'ite' and self.has_base(st, x):
                        sub_ = x
                        break
            if sub_ is None:
                return t
            c = sub_.a[0]
            v = self.branch(st, c)
            t = tm.subst(t, {sub_: sub_.a[1] if v else sub_.a[2]})
        return t

    def has_base(self, st, t):
        return any(v in st.bybase for v in tm.fvs(t))

    def branch(self, st, c):
        """Decide a condition on this path, forking the other side.  Only used at points where
        the current instruction can be re-executed from scratch."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        a = self.feasible(st, c)
        b = self.feasible(st, bnot(c))
        if a and b:
            other = self.resume_point.copy()
            self.sync_pc(other, st)
            self.assume(other, bnot(c))
            self.push(other)
            self.assume(st, c)
            return True
        if not a and not b:
            raise PathEnd()
        self.assume(st, c if a else bnot(c))
        return a

    def sync_pc(self, other, st):
        # everything assumed on st since the resume point also holds on the other side
        n = len(other.pc)
        for i in range(n, len(st.pc)):
            if i in st.soft:
                other.soft.add(i)
            other.pc.append(st.pc[i])

    def resolve(self, st, addr, what):
        """-> (obj, offset).  May fork."""
        addr = self.split_ite(st, addr)
        if addr.op == 'c':
            self.oblige(st, FALSE, 'memory', 'invalid pointer %#x in %s' % (addr.a, what))
            raise PathEnd()
        c, ts = tm._parts(addr)
        bases = [(x, k) for x, k in ts if x in st.bybase]
        if len(bases) == 1 and bases[0][1] == 1:
            o = st.objs[st.bybase[bases[0][0]]]
            return o, sub(addr, bases[0][0])
        # semantic resolution
        r, m = self.solver.check(st.pc, [])
        if r == 'unsat':
            raise PathEnd()
        if r == 'unknown':
            raise Unsupported('pointer resolution')
        cands = [o for o in st.objs.values() if o.id not in st.dead and o.kind != 'fn' and
                 o.kind != 'global']
        # prefer bases occurring in the term
        fv = tm.fvs(addr)
        cands.sort(key=lambda o: (o.base not in fv, -o.id))
        for o in cands:
            inside = band(ule(o.base, addr), ult(addr, add(o.base, o.size)))
            r, m = self.solver.check(st.pc, [inside])
            if r == 'unsat':
                continue
            if self.must(st, inside):
                return o, sub(addr, o.base)
            if self.branch(st, inside):
                return o, sub(addr, o.base)
        self.oblige(st, FALSE, 'memory', 'unresolved pointer in %s' % what)
        raise PathEnd()

    def check_access(self, st, o, off, n, write, what):
        if o.id in st.dead:
            self.oblige(st, FALSE, 'memory', 'use of dead object (%s) in %s' % (o.name, what))
            raise PathEnd()
        if o.kind == 'fn':
            self.oblige(st, FALSE, 'memory', 'data access to function')
            raise PathEnd()
        if write and o.ro:
            self.oblige(st, FALSE, 'memory', 'write to constant object in ' + what)
            raise PathEnd()
        if isinstance(n, int):
            n = c64(n)
        if off.op == 'c' and o.size.op == 'c' and n.op == 'c':
            ok = tm.boolc(off.a + n.a <= o.size.a)
        else:
            ok = band(ule(off, o.size), ule(n, sub(o.size, off)))
        self.oblige(st, ok, 'memory', 'bounds of %s in %s' % ('write' if write else 'read', what))

    def load_bytes(self, st, o, off, n):
        return load(st.mem[o.id], off, n, self.mustfn(st))

    def store_bytes(self, st, o, off, n, val):
        st.mem[o.id] = store(st.mem[o.id], off, n, val)

    def load_ty(self, st, addr, ty, what):
        if ty.kind in ('struct', 'array', 'vector'):
            if ty.kind == 'struct':
                return [self.load_ty(st, add(addr, c64(o)), e, what)
                        for e, o in zip(ty.elems, ty.offs)]
            return [self.load_ty(st, add(addr, c64(i * ty.elem.size)), ty.elem, what)
                    for i in range(ty.n)]
        w = ty.bits()
        n = (w + 7) // 8
        o, off = self.resolve(st, addr, what)
        self.check_access(st, o, off, n, False, what)
        v = self.load_bytes(st, o, off, n)
        if w == 1:
            return ne(tm.and_(v, const(1, 8)), const(0, 8))
        if w < v.w:
            v = tm.ext(v, 0, w)
        return v

    def store_ty(self, st, addr, v, ty, what):
        if ty.kind in ('struct', 'array', 'vector'):
            if ty.kind == 'struct':
                for x, e, o in zip(v, ty.elems, ty.offs):
                    self.store_ty(st, add(addr, c64(o)), x, e, what)
            else:
                for i, x in enumerate(v):
                    self.store_ty(st, add(addr, c64(i * ty.elem.size)), x, ty.elem, what)
            return
        v = self.tobv(v, ty)
        n = v.w // 8
        o, off = self.resolve(st, addr, what)
        self.check_access(st, o, off, n, True, what)
        self.store_bytes(st, o, off, n, v)

    # convenience for models: 64-bit / 8-bit memory access
    def ld(self, st, addr, n):
        o, off = self.resolve(st, addr, 'model')
        self.check_access(st, o, off, n, False, 'model')
        return self.load_bytes(st, o, off, n)

    def stv(self, st, addr, n, v):
        o, off = self.resolve(st, addr, 'model')
        self.check_access(st, o, off, n, True, 'model')
        self.store_bytes(st, o, off, n, v)

    def cstring(self, st, addr):
        o, off = self.resolve(st, addr, 'string')
        if off.op != 'c':
            raise Unsupported('symbolic string')
        r = b''
        i = off.a
        while True:
            v = load(st.mem[o.id], c64(i), 1, lambda *a: False)
            if v.op != 'c':
                raise Unsupported('symbolic string')
            if v.a == 0:
                return r.decode(errors='replace')
            r += bytes([v.a])
            i += 1

    # ------------------------------------------------------------- compare
    def icmp(self, st, pred, x, y):
        if isinstance(x, list):
            raise Unsupported('vector icmp')
        if x.w == 0:
            if pred == 'eq':
                return eq(x, y)
            if pred == 'ne':
                return bnot(eq(x, y))
            x, y = tm.zext(x, 8), tm.zext(y, 8)
            if pred in ('sgt', 'sge', 'slt', 'sle'):
                x, y = mulc(x, -1), mulc(y, -1)
        if pred == 'eq' or pred == 'ne':
            r = self.ptr_eq(st, x, y)
            if r is None:
                r = eq(x, y)
            return r if pred == 'eq' else bnot(r)
        if pred == 'ult':
            return ult(x, y)
        if pred == 'ule':
            return ule(x, y)
        if pred == 'ugt':
            return ult(y, x)
        if pred == 'uge':
            return ule(y, x)
        if pred == 'slt':
            return slt(x, y)
        if pred == 'sle':
            return tm.sle(x, y)
        if pred == 'sgt':
            return slt(y, x)
        return tm.sle(y, x)

    def ptr_eq(self, st, x, y):
        """Addresses of two different live objects at constant in-bounds offsets differ."""
        if x.w != 64:
            return None
        a, b = self.base_off(st, x), self.base_off(st, y)
        if a and b and a[0] is not b[0] and a[1].op == 'c' and b[1].op == 'c' and \
                a[0].size.op == 'c' and b[0].size.op == 'c' and \
                a[1].a <= a[0].size.a and b[1].a <= b[0].size.a and \
                a[0].id not in st.dead and b[0].id not in st.dead:
            return FALSE
        return None

    def base_off(self, st, x):
        c, ts = tm._parts(x)
        bs = [(t, k) for t, k in ts if t in st.bybase]
        if len(bs) == 1 and bs[0][1] == 1:
            return st.objs[st.bybase[bs[0][0]]], sub(x, bs[0][0])
        return None

    # ------------------------------------------------------------- main loop
    def push(self, st):
        self.work.append(st)
        if len(self.work) > self.opts['max_states']:
            raise Budget('too many states')

    def start(self, fname, args=()):
        st = State()
        fn = self.mod.functions[fname].build()
        self.enter(st, fn, list(args), None)
        return st

    def enter(self, st, fn, args, call):
        if len(st.frames) > 150:
            raise Unsupported('recursion depth in ' + fn.name)
        fn.build()
        f = Frame()
        f.fn = fn
        f.regs = {}
        f.blk, f.ip, f.prev = 0, -1, None
        f.call = call
        f.allocas = []
        f.loops = {}
        f.tag = None
        for (i, ty), a in zip(fn.args, args):
            f.regs[i] = a
        st.frames.append(f)
        self.functions[fn.name] = self.functions.get(fn.name, 0) + 1

    def run(self, init):
        self.push(init)
        self.drain()

    def drain(self, base=0):
        while len(self.work) > base:
            st = self.work.pop()
            self.run_path(st)

    def run_path(self, st):
        try:
            while True:
                if not self.pre_step(st):
                    return
                self.step(st)
        except PathEnd:
            self.paths += 1
        except Unsupported as e:
            if self.recording:
                self.unsupported.append((str(e), self.stack_names(st)))
            else:
                raise

    def any_dead_rec(self, st):
        for f in st.frames:
            for r in f.loops.values():
                if r.dead or r.grp[0]:
                    return True
        return False

    def pre_step(self, st):
        """Boundary handling; returns False when the state has been handed over."""
        if not st.frames:
            raise PathEnd()
        fr = st.frames[-1]
        if st.bounds:
            b = st.bounds[-1]
            d = len(st.frames)
            if d < b.depth or (d == b.depth and fr.ip == -1 and
                               (fr.blk not in b.body)):
                st.bounds = st.bounds[:-1]
                b.exits.append(st)
                return False
            if d == b.depth and fr.ip == -1 and fr.blk == b.header and fr.prev in b.body:
                st.bounds = st.bounds[:-1]
                b.conts.append(st)
                return False
        if fr.ip == -1:
            if self.any_dead_rec(st):
                return False
            if not self.enter_block(st):
                return False
        return True

    def eval_phis(self, st):
        fr = st.top
        B = fr.fn.blocks[fr.blk]
        vals = []
        for I in B.phis:
            for b, op in I.x:
                if b == fr.prev:
                    vals.append((I.id, self.value(st, op)))
                    break
        for i, v in vals:
            fr.regs[i] = v
        fr.ip = 0

    def enter_block(self, st):
        fr = st.top
        fn = fr.fn
        body = fn.loops.get(fr.blk)
        # leaving loops: forget their records
        if fr.loops:
            for h in list(fr.loops):
                if fr.blk not in fn.loops[h]:
                    del fr.loops[h]
        if body is not None:
            if fr.prev in body:
                rec = fr.loops.get(fr.blk)
                if rec is None:
                    rec = LoopRec(None, 'unroll')
                if not self.loop_again(st, rec):
                    return False
            else:
                rec = LoopRec(st.copy(), 'concrete')
                fr.loops[fr.blk] = rec
        self.eval_phis(st)
        return True

    def step(self, st):
        self.steps += 1
        if self.steps % 256 == 0:
            if self.steps > self.opts['max_steps']:
                raise Budget('steps')
            if time.time() - self.t0 > self.opts['time']:
                raise Budget('time')
        fr = st.top
        I = fr.fn.blocks[fr.blk].insts[fr.ip]
        op = I.op
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instruction ' + op)
        h(st, fr, I)

    def jump(self, st, fr, tgt):
        fr.prev = fr.blk
        fr.blk = tgt
        fr.ip = -1

    # ------------------------------------------------------------- instructions
    def i_br(self, st, fr, I):
        if len(I.x) == 1:
            self.jump(st, fr, I.x[0])
            return
        c = self.value(st, I.ops[0])
        if c is TRUE or c is FALSE or I.x[0] == I.x[1]:
            self.jump(st, fr, I.x[0] if c is TRUE else I.x[1])
            return
        self.fork(st, fr, [(c, I.x[0]), (bnot(c), I.x[1])])

    def i_switch(self, st, fr, I):
        v = self.value(st, I.ops[0])
        d, cases = I.x
        alts = {}
        rest = TRUE
        for k, b in cases:
            c = eq(v, const(k, v.w)) if v.w else (v if k else bnot(v))
            alts[b] = bor(alts.get(b, FALSE), c)
            rest = band(rest, bnot(c))
        alts[d] = bor(alts.get(d, FALSE), rest)
        self.fork(st, fr, [(c, b) for b, c in alts.items()])

    def fork(self, st, fr, alts):
        live = []
        for i, (c, b) in enumerate(alts):
            if c is FALSE:
                continue
            if i == len(alts) - 1 and not live:
                live.append((c, b))      # at least one side is feasible
                continue
            if self.feasible(st, c):
                live.append((c, b))
        if not live:
            raise PathEnd()
        if len(live) == 1:
            self.assume(st, live[0][0])
            self.jump(st, fr, live[0][1])
            return
        # does this decide leaving a loop that is being executed concretely?
        if fr.loops:
            recs = [(h, r) for h, r in fr.loops.items() if fr.blk in fr.fn.loops[h] and
                    any(b not in fr.fn.loops[h] for _, b in live)]
            if recs:
                h, r = min(recs, key=lambda x: len(fr.fn.loops[x[0]]))
                if r.mode == 'concrete':
                    r.dead = True
                    self.summarise_or_unroll(st, r, h)
                    raise PathEnd()
            for h, r in fr.loops.items():
                if fr.blk in fr.fn.loops[h] and all(b in fr.fn.loops[h] for _, b in live):
                    r.grp[2] += 1
        for f in st.frames[:-1]:
            for r in f.loops.values():
                r.grp[2] += 1
        for c, b in live[1:]:
            s2 = st.copy()
            self.assume(s2, c)
            self.jump(s2, s2.top, b)
            self.push(s2)
        self.assume(st, live[0][0])
        self.jump(st, fr, live[0][1])

    def i_unreachable(self, st, fr, I):
        self.oblige(st, FALSE, 'control', 'unreachable instruction reached')
        raise PathEnd()

    def i_ret(self, st, fr, I):
        v = self.value(st, I.ops[0]) if I.ops else None
        self.leave(st)
        if not st.frames:
            st.retval = v
            raise PathEnd()
        call = fr.call
        self.ret_to(st, call, v)

    def leave(self, st):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.dead[o] = 'stack'
            st.mem.pop(o, None)

    def ret_to(self, st, call, v):
        """Deliver the result of a call instruction in the (now) top frame and advance."""
        fr = st.top
        if isinstance(call, tuple):      # hook after return: (inst, fn)
            hook = call[1]
            call = call[0]
            v = hook(st, v)
        if call is None:
            return
        if v is not None and call.ty.kind != 'void':
            fr.regs[call.id] = v
        if call.op == 'invoke':
            self.jump(st, fr, call.x['normal'])
        else:
            fr.ip = call.pos[1] + 1

    def i_alloca(self, st, fr, I):
        ty, al = I.x
        n = self.value(st, I.ops[0])
        size = tm.mulc(tm.zext(n, 64), ty.size)
        o = self.new_obj(st, 'stk.%s.%d' % (fr.fn.name[:60], I.id), size, max(al, 1), 'stack')
        fr.allocas.append(o.id)
        fr.regs[I.id] = o.base
        fr.ip += 1

    def i_load(self, st, fr, I):
        ty, order, vol, al = I.x
        addr = self.value(st, I.ops[0])
        self.resume_point = st
        rp = st
        if self.may_fork_ptr(st, addr):
            self.resume_point = st.copy()
        if order != 'na':
            self.atomic_event(st, 'load', addr, order, None)
        elif self.opts['shared']:
            self.plain_event(st, addr, False)
        v = fr.regs[I.id] = self.load_ty(st, addr, ty, fr.fn.name)
        if order != 'na':
            st.atoms = st.atoms[:-1] + (st.atoms[-1][:3] + (v, v, v),)
        fr.ip += 1

    def may_fork_ptr(self, st, addr):
        if addr.op == 'ite':
            return True
        c, ts = tm._parts(addr)
        n = 0
        for x, k in ts:
            if x in st.bybase:
                n += 1
            elif x.op == 'ite':
                return True
        return n != 1

    def i_store(self, st, fr, I):
        ty, order, vol, al = I.x
        v = self.value(st, I.ops[0])
        addr = self.value(st, I.ops[1])
        self.resume_point = st
        if self.may_fork_ptr(st, addr):
            self.resume_point = st.copy()
        if order != 'na':
            self.atomic_event(st, 'store', addr, order, v)
            self.atomic_effect(st, self.load_ty(st, addr, ty, fr.fn.name), v)
        elif self.opts['shared']:
            self.plain_event(st, addr, True)
        self.store_ty(st, addr, v, ty, fr.fn.name)
        fr.ip += 1

    def i_getelementptr(self, st, fr, I):
        off, var = I.x
        r = add(self.value(st, I.ops[0]), c64(off))
        for v, s in var:
            x = self.value(st, v)
            r = add(r, mulc(tm.sext(x, 64) if x.w < 64 else x, s))
        fr.regs[I.id] = r
        fr.ip += 1

    def binop(self, st, fr, I):
        x, y = self.value(st, I.ops[0]), self.value(st, I.ops[1])
        o = I.op
        if isinstance(x, list):
            fr.regs[I.id] = [self.bin1(st, o, a, b, I) for a, b in zip(x, y)]
        else:
            fr.regs[I.id] = self.bin1(st, o, x, y, I)
        fr.ip += 1

    def bin1(self, st, o, x, y, I):
        if x.w == 0:
            if o == 'and':
                return band(x, y)
            if o == 'or':
                return bor(x, y)
            if o in ('xor', 'add', 'sub'):
                return tm.bxor(x, y)
            if o == 'mul':
                return band(x, y)
            raise Unsupported('i1 ' + o)
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, ne(y, const(0, y.w)), 'arith', 'division by zero in ' + I.fn.name)
        elif o in ('shl', 'lshr', 'ashr') and y.op != 'c':
            self.oblige(st, ult(y, const(y.w, y.w)), 'arith', 'shift amount in ' + I.fn.name)
        r = tm.BIN[o](x, y)
        if I.x is True and o in ('ashr', 'lshr', 'sdiv', 'udiv') and y.op == 'c' and \
                r.op == o:
            # "exact": poison unless divisible; try to divide the linear form
            k = (1 << y.a) if o in ('ashr', 'lshr') else y.a
            q = self.exact_div(st, x, k, o in ('ashr', 'sdiv'))
            if q is not None:
                return q
        return r

    def exact_div(self, st, x, k, signed):
        from .mem import _exact
        if x.w != 64:
            return None
        q = _exact(x, k, 0)
        if q is None:
            return None
        lim = (1 << 63) // k
        if signed:
            c = bor(ult(q, c64(lim)), ule(c64((1 << 64) - lim), q))
        else:
            c = ule(q, c64(((1 << 64) - 1) // k))
        if self.must(st, c):
            return q
        return None

    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = binop
    i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = binop

    def fbin(self, st, fr, I):
        x, y = self.value(st, I.ops[0]), self.value(st, I.ops[1])
        fr.regs[I.id] = fp.binary(I.op[1:], x, y)
        fr.ip += 1

    i_fadd = i_fsub = i_fmul = i_fdiv = fbin

    def i_fneg(self, st, fr, I):
        x = self.value(st, I.ops[0])
        fr.regs[I.id] = tm.xor_(x, const(1 << (x.w - 1), x.w))
        fr.ip += 1

    def i_fcmp(self, st, fr, I):
        p, ty = I.x
        x, y = self.value(st, I.ops[0]), self.value(st, I.ops[1])
        F = lambda n: fp.compare(n, x, y)
        uno = F('uno')
        tab = {1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole'}
        if p == 0:
            r = FALSE
        elif p == 15:
            r = TRUE
        elif p in tab:
            r = F(tab[p])
        elif p == 6:
            r = band(bnot(uno), bnot(F('oeq')))
        elif p == 7:
            r = bnot(uno)
        elif p == 8:
            r = uno
        elif p == 14:
            r = bnot(F('oeq'))
        else:
            r = bor(uno, F(tab[p - 8]))
        fr.regs[I.id] = r
        fr.ip += 1

    def i_icmp(self, st, fr, I):
        x, y = self.value(st, I.ops[0]), self.value(st, I.ops[1])
        fr.regs[I.id] = self.icmp(st, I.x[0], x, y)
        fr.ip += 1

    def i_select(self, st, fr, I):
        c = self.value(st, I.ops[0])
        x, y = self.value(st, I.ops[1]), self.value(st, I.ops[2])
        fr.regs[I.id] = self.ite_val(c, x, y)
        fr.ip += 1

    def ite_val(self, c, x, y):
        if isinstance(x, list):
            return [self.ite_val(c, a, b) for a, b in zip(x, y)]
        return ite(c, x, y)

    def i_zext(self, st, fr, I):
        fr.regs[I.id] = tm.zext(self.value(st, I.ops[0]), I.ty.bits())
        fr.ip += 1

    def i_sext(self, st, fr, I):
        fr.regs[I.id] = tm.sext(self.value(st, I.ops[0]), I.ty.bits())
        fr.ip += 1

    def i_trunc(self, st, fr, I):
        x = self.value(st, I.ops[0])
        w = I.ty.bits()
        if w == 1:
            fr.regs[I.id] = eq(tm.ext(x, 0, 1), const(1, 1)) if x.op != 'ite' else \
                ne(tm.and_(x, const(1, x.w)), const(0, x.w))
        else:
            fr.regs[I.id] = tm.ext(x, 0, w)
        fr.ip += 1

    def i_ptrtoint(self, st, fr, I):
        fr.regs[I.id] = self.castw(self.value(st, I.ops[0]), I.ty.bits())
        fr.ip += 1

    i_inttoptr = i_ptrtoint

    def i_bitcast(self, st, fr, I):
        fr.regs[I.id] = self.value(st, I.ops[0])
        fr.ip += 1

    i_addrspacecast = i_freeze = i_bitcast

    def fconv(self, st, fr, I):
        x = self.value(st, I.ops[0])
        w = I.ty.bits()
        if I.op in ('uitofp', 'sitofp') and x.w == 0:
            x = tm.zext(x, 32)
        r, valid = fp.convert(I.op, x, w)
        if not valid:
            self.oblige(st, FALSE, 'arith', 'floating point value out of integer range in '
                        + fr.fn.name)
        fr.regs[I.id] = r
        fr.ip += 1

    i_fptoui = i_fptosi = i_uitofp = i_sitofp = i_fptrunc = i_fpext = fconv

    def i_extractvalue(self, st, fr, I):
        v = self.value(st, I.ops[0])
        for i in I.x[0]:
            v = v[i]
        fr.regs[I.id] = v
        fr.ip += 1

    def i_insertvalue(self, st, fr, I):
        v = self.value(st, I.ops[0])
        e = self.value(st, I.ops[1])

        def ins(v, ix):
            if not ix:
                return e
            v = list(v)
            v[ix[0]] = ins(v[ix[0]], ix[1:])
            return v
        fr.regs[I.id] = ins(v, I.x[0])
        fr.ip += 1

    # ------------------------------------------------------------- atomics
    def atomic_event(self, st, kind, addr, order, val):
        b = self.base_off(st, addr)
        st.atoms = st.atoms + ((kind, order, addr, val, None, None),)
        if self.opts['shared'] and b and b[0].shared:
            self.interfere(st, b[0])

    def atomic_effect(self, st, old, new):
        st.atoms = st.atoms[:-1] + (st.atoms[-1][:4] + (old, new),)

    def interfere(self, st, o):
        """Other threads may change a shared object between any two of our atomic accesses,
        subject to the rely condition installed by the harness (value only grows)."""
        sh = o.shared
        if not sh:
            return
        old = self.load_bytes(st, o, c64(sh['off']), sh['n'])
        new = st.fresh('env', 8 * sh['n'])
        if sh.get('rely') == 'grow':
            self.assume(st, ule(old, new))
        if sh.get('rng'):
            lo, hi = sh['rng']
            w = new.w
            self.assume(st, band(ule(tm.ext(lo, 0, w), new), ule(new, tm.ext(hi, 0, w))))
        self.store_bytes(st, o, c64(sh['off']), sh['n'], new)

    def plain_event(self, st, addr, write):
        b = self.base_off(st, addr)
        if b and b[0].shared:
            sh = b[0].shared
            if b[1].op == 'c' and sh['off'] <= b[1].a < sh['off'] + sh['n'] and \
                    not sh.get('quiet'):
                self.oblige(st, FALSE, 'race', 'plain %s of the shared location in %s' %
                            ('write' if write else 'read', st.top.fn.name))

    def i_atomicrmw(self, st, fr, I):
        op, order, ty = I.x
        addr = self.value(st, I.ops[0])
        v = self.value(st, I.ops[1])
        self.resume_point = st
        self.atomic_event(st, 'rmw.' + op, addr, order, v)
        old = self.load_ty(st, addr, ty, fr.fn.name)
        if op == 'xchg':
            new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = tm.BIN[op](old, v)
        elif op == 'nand':
            new = tm.xor_(tm.and_(old, v), const(-1, v.w))
        elif op == 'umax':
            new = ite(ult(old, v), v, old)
        elif op == 'umin':
            new = ite(ult(v, old), v, old)
        elif op == 'max':
            new = ite(slt(old, v), v, old)
        elif op == 'min':
            new = ite(slt(v, old), v, old)
        else:
            raise Unsupported('atomicrmw ' + op)
        self.atomic_effect(st, old, new)
        self.store_ty(st, addr, new, ty, fr.fn.name)
        fr.regs[I.id] = old
        fr.ip += 1

    def i_cmpxchg(self, st, fr, I):
        so, fo, ty = I.x
        addr = self.value(st, I.ops[0])
        e = self.value(st, I.ops[1])
        n = self.value(st, I.ops[2])
        self.resume_point = st
        self.atomic_event(st, 'cmpxchg', addr, so + '/' + fo, n)
        old = self.load_ty(st, addr, ty, fr.fn.name)
        ok = eq(old, e)
        self.atomic_effect(st, old, ite(ok, n, old))
        self.store_ty(st, addr, ite(ok, n, old), ty, fr.fn.name)
        fr.regs[I.id] = [old, ok]
        fr.ip += 1

    def i_fence(self, st, fr, I):
        st.atoms = st.atoms + (('fence', I.x, None, None, None, None),)
        fr.ip += 1

    # ------------------------------------------------------------- exceptions
    def i_landingpad(self, st, fr, I):
        addr, ti = st.exc
        sel = self.select_clause(I, ti)
        fr.regs[I.id] = [addr, const(sel, 32)]
        fr.ip += 1

    def i_resume(self, st, fr, I):
        v = self.value(st, I.ops[0])
        self.throw(st, v[0], st.exc[1] if st.exc else None)

    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def derives(self, ti, base):
        """Does typeinfo ti derive from (or equal) base?"""
        if ti == base:
            return True
        for b in self.ti_bases(ti):
            if self.derives(b, base):
                return True
        return False

    def ti_bases(self, ti):
        if ti in STD_BASES:
            return STD_BASES[ti]
        g = self.mod.globals.get(ti)
        if g is None or g.decl:
            return []
        from .ir import GetInit
        init = self.mod._operand(GetInit(g.ptr), {})
        r = []
        for e in init[2][2:]:
            if e[0] == 'g' and e[1].startswith('_ZTI'):
                r.append(e[1])
        return r

    def select_clause(self, I, ti):
        """Selector value for thrown type ti at landing pad I; None if no clause applies."""
        for c in I.x[0]:
            if c[0] == 'z':
                return self.tid('...')
            if c[0] == 'g':
                if ti is not None and self.derives(ti, c[1]):
                    return self.tid(c[1])
            elif c[0] in ('agg', 'zero'):     # filter
                names = [e[1] for e in c[2]] if c[0] == 'agg' else []
                if not any(self.derives(ti, n) for n in names):
                    return self.tid('filter')
        return 0 if I.x[1] else None

    def throw(self, st, addr, ti):
        """Unwind from the current top frame."""
        st.exc = (addr, ti)
        first = True
        while st.frames:
            fr = st.top
            if not first or fr.ip >= 0:
                I = fr.fn.blocks[fr.blk].insts[fr.ip] if fr.ip >= 0 else None
                if I is not None and I.op == 'invoke':
                    lp = fr.fn.blocks[I.x['unwind']].insts[0]
                    if lp.op != 'landingpad':
                        raise Unsupported('landing pad expected')
                    if self.select_clause(lp, ti) is not None:
                        self.jump(st, fr, I.x['unwind'])
                        return
            first = False
            self.leave(st)
        self.oblige(st_wrap(st, self), FALSE, 'exception', 'uncaught exception %s' % ti)
        raise PathEnd()

    def new_exception(self, st, ti, size=16):
        o = self.new_obj(st, 'exc', size, 16, 'exc')
        st.excinfo[o.base] = ti
        return o.base

    def throw_std(self, st, ti):
        a = self.new_exception(st, ti)
        self.throw(st, a, ti)

    # ------------------------------------------------------------- calls
    def i_call(self, st, fr, I):
        callee = I.x['callee']
        if callee[0] == 'f':
            name = callee[1]
        elif callee[0] == 'asm':
            fr.ip += 1
            return
        else:
            addr = self.value(st, callee)
            self.resume_point = st.copy() if self.may_fork_ptr(st, addr) else st
            addr = self.split_ite(st, addr)
            bo = self.base_off(st, addr)
            if bo is None or bo[0].kind != 'fn' or bo[1].op != 'c' or bo[1].a != 0:
                # semantic: which functions may this be?
                for o in list(st.objs.values()):
                    if o.kind == 'fn' and self.must(st, eq(addr, o.base)):
                        bo = (o, ZERO)
                        break
                else:
                    self.oblige(st, FALSE, 'memory', 'call through an invalid function pointer in '
                                + fr.fn.name)
                    raise PathEnd()
            name = bo[0].name
        if name in self.mod.aliases:
            t = self.mod.aliases[name]
            if t[0] == 'f':
                name = t[1]
        args = [self.value(st, a) for a in I.ops if a[0] != 'md']
        self.do_call(st, I, name, args)

    i_invoke = i_call

    def do_call(self, st, I, name, args):
        fr = st.top
        name = self.replaced.get(name, name) if fr.fn.name != self.replaced.get(name) else name
        fn = self.mod.functions.get(name)
        for k, ty in I.x['byval'].items():
            o = self.new_obj(st, 'byval', ty.size, max(ty.align, 1), 'stack')
            so, soff = self.resolve(st, args[k], 'byval')
            self.copy_bytes(st, o, ZERO, so, soff, c64(ty.size), 'byval')
            args[k] = o.base
        m = model_for(name)
        if m is not None:
            if not name.startswith(('llvm.', 'vc_')):
                self.assumed.add(name)
            self.resume_point = st.copy() if m.__dict__.get('forks') else st
            r = m(self, st, I, args, name)
            if r is NotImplemented:
                pass
            elif r == 'done':
                return
            else:
                self.ret_to(st, I, r)
                return
        if fn is None or fn.decl:
            raise Unsupported('external function ' + name)
        self.enter(st, fn, args, I)

    # ------------------------------------------------------------- memory intrinsics
    def copy_bytes(self, st, do, doff, so, soff, n, what, move=False):
        if n.op == 'c' and n.a == 0:
            return
        self.check_access(st, do, doff, n, True, what)
        self.check_access(st, so, soff, n, False, what)
        if do is so:
            if doff is soff:
                return
            if not move:
                self.oblige(st, bor(ule(add(doff, n), soff), ule(add(soff, n), doff)),
                            'memory', 'memcpy ranges overlap in ' + what)
        m = st.mem[so.id]
        if n.op == 'c' and n.a <= 256 and (doff.op == 'c' or n.a <= 64 and soff.op == 'c' and
                                           isinstance(m, Cells) and soff.a in m.d):
            vals = []
            k = 0
            N = n.a
            src = st.mem[so.id]
            mf = self.mustfn(st)
            # follow the cell structure of the source where it is concrete
            while k < N:
                step = None
                if soff.op == 'c' and isinstance(src, Cells):
                    c = src.d.get(soff.a + k)
                    if c is not None and k + c[0] <= N and c[0] <= 8:
                        step = c[0]
                    else:
                        nxt = [q - soff.a for q in range(soff.a + k + 1, soff.a + min(k + 8, N))
                               if q in src.d]
                        if nxt:
                            step = nxt[0] - k
                if step is None:
                    step = min(8, N - k)
                    g = 8
                    if soff.op != 'c':
                        b = src
                        while b.prev is not None:
                            b = b.prev
                        if b.kind == 'uf' and b.gran < 8 and b.gran > 1:
                            g = b.gran
                    step = min(step, g)
                while step & (step - 1):
                    step &= step - 1
                vals.append((k, step, load(src, add(soff, c64(k)), step, mf)))
                k += step
            for k, s, v in vals:
                st.mem[do.id] = store(st.mem[do.id], add(doff, c64(k)), s, v)
            return
        st.mem[do.id] = Copy(st.mem[do.id], doff, n, st.mem[so.id], soff)

    def memcpy(self, st, d, s, n, what, move=False):
        n = tm.zext(n, 64)
        if n.op == 'c' and n.a == 0:
            return
        if n.lb == 0 and n.op != 'c':
            if not self.branch(st, ne(n, c64(0))):
                return
        do, doff = self.resolve(st, d, what)
        so, soff = self.resolve(st, s, what)
        if self.opts['shared']:
            self.plain_event(st, d, True)
            self.plain_event(st, s, False)
        self.copy_bytes(st, do, doff, so, soff, n, what, move)

    def memset(self, st, d, v, n, what):
        n = tm.zext(n, 64)
        if n.op == 'c' and n.a == 0:
            return
        if n.lb == 0 and n.op != 'c':
            if not self.branch(st, ne(n, c64(0))):
                return
        do, doff = self.resolve(st, d, what)
        self.check_access(st, do, doff, n, True, what)
        if v.w != 8:
            v = tm.ext(v, 0, 8)
        if n.op == 'c' and n.a <= 64 and (doff.op == 'c' or n.a % 8 == 0):
            k = 0
            while k < n.a:
                s = 8
                while s > n.a - k:
                    s >>= 1
                x = v
                for _ in range(s - 1):
                    x = tm.cat(v, x)
                st.mem[do.id] = store(st.mem[do.id], add(doff, c64(k)), s, x)
                k += s
            return
        st.mem[do.id] = Fill(st.mem[do.id], doff, n, v)


def st_wrap(st, ex):
    """A state without frames can still be reported."""
    class F:
        pass
    f = Frame()
    f.fn = type('X', (), {'name': '<toplevel>'})()
    f.regs, f.blk, f.ip, f.prev, f.call, f.allocas, f.loops, f.tag = {}, 0, 0, None, None, [], {}, None
    st.frames.append(f)
    return st
