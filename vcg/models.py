"""Contracts assumed for functions outside the repository (C runtime, libstdc++ binaries),
LLVM intrinsics, and the vc_* harness interface."""
import re
from . import fp
from . import terms as tm
from .terms import const, add, sub, eq, ne, ult, ule, ite, band, bor, bnot, TRUE, FALSE
from .mem import Base, Cells, Copy, Fill, Unsupported, c64, ZERO, load, store

STD_BASES = {
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt9exception': [],
}
MODELS = {}
RX = []


def model(*names, forks=False):
    def d(f):
        f.forks = forks
        for n in names:
            MODELS[n] = f
        return f
    return d


def rx(pat, forks=False):
    def d(f):
        f.forks = forks
        RX.append((re.compile(pat), f))
        return f
    return d


_cache = {}


def model_for(name):
    if name in _cache:
        return _cache[name]
    m = MODELS.get(name)
    if m is None:
        for p, f in RX:
            if p.match(name):
                m = f
                break
    _cache[name] = m
    return m


# ---------------------------------------------------------------- harness interface
def _nd(ex, st, name, w, lb=None, ub=None):
    k = st.cnt.get(name, 0)
    st.cnt[name] = k + 1
    st.nf += 1
    n = '%s!%d.in%d.%d' % (name, st.nf, k, w)
    if lb is not None:
        n += '.%x.%x' % (lb, ub)
    v = tm.var(n, w, lb, ub)
    st.inputs.append(('val', name, k, v))
    return v


@model('vc_u64')
def _(ex, st, I, a, n):
    return _nd(ex, st, ex.cstring(st, a[0]), 64)


@model('vc_u32')
def _(ex, st, I, a, n):
    return _nd(ex, st, ex.cstring(st, a[0]), 32)


@model('vc_u8')
def _(ex, st, I, a, n):
    return _nd(ex, st, ex.cstring(st, a[0]), 8)


@model('vc_bool')
def _(ex, st, I, a, n):
    return _nd(ex, st, ex.cstring(st, a[0]), 0)


@model('vc_range')
def _(ex, st, I, a, n):
    if a[1].op == 'c' and a[2].op == 'c':
        return _nd(ex, st, ex.cstring(st, a[0]), 64, a[1].a, a[2].a)
    v = _nd(ex, st, ex.cstring(st, a[0]), 64, a[1].lb, a[2].ub)
    ex.assume(st, band(ule(a[1], v), ule(v, a[2])))
    return v


def _assume(ex, st, c):
    from .exec import PathEnd
    if c is FALSE:
        raise PathEnd()
    if not ex.feasible(st, c):
        raise PathEnd()
    ex.assume(st, c)


@model('vc_assume')
def _(ex, st, I, a, n):
    c = a[0]
    if c.w:
        c = ne(c, const(0, c.w))
    ex.assume_count += 1
    _assume(ex, st, c)


@model('vc_check')
def _(ex, st, I, a, n):
    c = a[0]
    if c.w:
        c = ne(c, const(0, c.w))
    ex.oblige(st, c, 'check', ex.cstring(st, a[1]))


@model('vc_cover')
def _(ex, st, I, a, n):
    if not ex.recording:
        return
    l = ex.cstring(st, a[0])
    if l in ex.covers:
        return
    r, m = ex.solver.check(st.pc, [])
    if r != 'unsat' and not st.soft:
        ex.covers.add(l)


@model('vc_object')
def _(ex, st, I, a, n):
    return ex.resolve(st, a[0], 'vc_object')[0].base


@model('vc_head')
def _(ex, st, I, a, n):
    return None


@model('vc_watch')
def _(ex, st, I, a, n):
    k = a[0]
    st.watch.append(k)
    for fa in st.foralls:
        ex.instantiate(st, k, fa)


@model('vc_mem')
def _(ex, st, I, a, n):
    """void* vc_mem(name, bytes, align, granule): fresh object with arbitrary contents"""
    name = ex.cstring(st, a[0])
    al, gr = a[2].a, a[3].a
    k = st.cnt.get('mem:' + name, 0)
    st.cnt['mem:' + name] = k + 1
    o = ex.new_obj(st, name, a[1], al, 'heap')
    o.api = 'vc'
    st.mem[o.id] = Base('uf', 'm:' + o.base.a, gr)
    st.inputs.append(('mem', name, k, (a[1], 'm:' + o.base.a, gr, al, o.base)))
    return o.base


@model('vc_snapshot')
def _(ex, st, I, a, n):
    """void* vc_snapshot(p): a private copy of the object p points into (same offset)"""
    o, off = ex.resolve(st, a[0], 'snapshot')
    s = ex.new_obj(st, 'snap', o.size, max(o.align, 16), 'heap')
    m = st.mem[o.id]
    if isinstance(m, Cells) and not m.sealed:
        c = Cells(m.prev, m.d)
        c.sealed = True
        m = c
        st.mem[o.id] = m
    # a log node whose chain is the old log
    c = Cells(m, {})
    st.mem[s.id] = c
    return add(s.base, off)


@model('vc_havoc')
def _(ex, st, I, a, n):
    """vc_havoc(p, bytes, granule): arbitrary contents"""
    o, off = ex.resolve(st, a[0], 'havoc')
    nb = a[1]
    ex.check_access(st, o, off, nb, True, 'havoc')
    k = st.cnt.get('hv', 0)
    st.cnt['hv'] = k + 1
    st.nf += 1
    nm = 'm:hv@%d' % st.nf
    src = Base('uf', nm, a[2].a)
    st.mem[o.id] = Copy(st.mem[o.id], off, nb, src, ZERO)
    st.inputs.append(('havoc', 'hv', k, (nb, nm, a[2].a)))


@model('vc_shared')
def _(ex, st, I, a, n):
    """vc_shared(p, n, rely): the n bytes at p may be changed by other threads"""
    o, off = ex.resolve(st, a[0], 'shared')
    if off.op != 'c':
        raise Unsupported('shared offset')
    o.shared = dict(off=off.a, n=a[1].a, rely={0: None, 1: 'grow'}[a[2].a])


@model('vc_shared_range')
def _(ex, st, I, a, n):
    """vc_shared_range(p, lo, hi): other threads leave a value in [lo, hi]"""
    o, off = ex.resolve(st, a[0], 'shared')
    s = dict(o.shared)
    s['rng'] = (a[1], a[2])
    o.shared = s


@model('vc_atom_value')
def _(ex, st, I, a, n):
    k = a[0].a
    v = st.atoms[k][3] if k < len(st.atoms) else None
    return tm.zext(v, 64) if v is not None and not isinstance(v, (list, tuple)) else ZERO


@model('vc_quiet')
def _(ex, st, I, a, n):
    """vc_quiet(p, on): switch interference/plain-access checking off or on"""
    o, off = ex.resolve(st, a[0], 'shared')
    if o.shared:
        s = dict(o.shared)
        s['quiet'] = a[1].a != 0 if a[1].w else a[1] is TRUE
        o.shared = s


@model('vc_atom_count')
def _(ex, st, I, a, n):
    return c64(len(st.atoms))


_KIND = {'load': 1, 'store': 2, 'rmw.add': 3, 'rmw.sub': 4, 'rmw.xchg': 5, 'rmw.and': 6,
         'rmw.or': 7, 'rmw.xor': 8, 'cmpxchg': 9, 'fence': 10}
_ORD = {'relaxed': 0, 'unordered': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}


@model('vc_atom_kind')
def _(ex, st, I, a, n):
    k = a[0].a
    return c64(_KIND.get(st.atoms[k][0], 99)) if k < len(st.atoms) else ZERO


@model('vc_atom_order')
def _(ex, st, I, a, n):
    k = a[0].a
    if k >= len(st.atoms):
        return c64(99)
    o = st.atoms[k][1]
    if '/' in o:
        x, y = o.split('/')
        return c64(_ORD.get(x, 98) + 16 * _ORD.get(y, 98))
    return c64(_ORD.get(o, 98))


@model('vc_atom_addr')
def _(ex, st, I, a, n):
    k = a[0].a
    return st.atoms[k][2] if k < len(st.atoms) and st.atoms[k][2] is not None else ZERO


def _scalar64(v):
    return tm.zext(v, 64) if v is not None and not isinstance(v, (list, tuple)) else ZERO


@model('vc_atom_old')
def _(ex, st, I, a, n):
    k = a[0].a
    return _scalar64(st.atoms[k][4]) if k < len(st.atoms) else ZERO


@model('vc_atom_new')
def _(ex, st, I, a, n):
    k = a[0].a
    return _scalar64(st.atoms[k][5]) if k < len(st.atoms) else ZERO


@model('vc_atom_clear')
def _(ex, st, I, a, n):
    st.atoms = ()


@model('vc_live')
def _(ex, st, I, a, n):
    """number of live heap objects allocated through operator new / malloc"""
    c = sum(1 for o in st.objs.values() if o.kind == 'heap' and o.api not in (None, 'vc') and
            o.id not in st.dead)
    return c64(c)


@model('vc_note')
def _(ex, st, I, a, n):
    st.trace = st.trace + ((ex.cstring(st, a[0]), a[1]),)


@model('vc_unreached')
def _(ex, st, I, a, n):
    from .exec import PathEnd
    ex.oblige(st, FALSE, 'check', ex.cstring(st, a[0]))
    raise PathEnd()


@model('vc_end')
def _(ex, st, I, a, n):
    from .exec import PathEnd
    raise PathEnd()


# map of 64-bit keys to 64-bit values with arbitrary initial contents, for container models:
@model('vc_fn')
def _(ex, st, I, a, n):
    """uint64_t vc_fn(name, x, y): an arbitrary (uninterpreted) function"""
    return tm.uf('fn:' + ex.cstring(st, a[0]), (a[1], a[2]), 64)


@model('vc_qvar')
def _(ex, st, I, a, n):
    """a bound variable for vc_forall"""
    tm.FORALL.setdefault(None, []).append(0)
    return tm.var('forallq%d' % len(tm.FORALL[None]), 64)


@model('vc_forall')
def _(ex, st, I, a, n):
    """vc_forall(i, fact): assume fact for every value of the bound variable i (not only in its
    range); used wherever one of the functions vc_fn(.., i, c) in the fact is applied."""
    q, body = a
    body = body if body.w == 0 else bnot(eq(body, const(0, body.w)))
    tm.FORALL.setdefault(None, []).append(0)
    fl = tm.var('forallf%d' % len(tm.FORALL[None]), 0)
    seen, work, names = set(), [body], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'uf' and x.a[0][:3] == 'fn:' and x.a[1][0] is q:
            names.add((x.a[0], x.a[1][1]))
        work.extend(tm.children(x))
    if body is TRUE:
        return
    if not names:
        raise Unsupported('vc_forall without a function of the bound variable')
    for nm, y in names:
        tm.FORALL.setdefault(nm, []).append((fl, q, y, body))
        tm.FLAGS.setdefault(fl, []).append(nm)
    ex.assume(st, fl)


# ---------------------------------------------------------------- heap
def _alloc(ex, st, size, align, api):
    o = ex.new_obj(st, api, tm.zext(size, 64), align, 'heap')
    o.api = api
    return o.base


@model('_Znwm', '_Znam', forks=True)
def _(ex, st, I, a, n):
    lim = c64(1 << 40)
    if not ex.branch(st, ule(a[0], lim)):
        ex.throw_std(st, '_ZTISt9bad_alloc')
        return 'done'
    if ex.opts['new_fail']:
        if not ex.branch(st, _nd(ex, st, 'new_ok', 0)):
            ex.throw_std(st, '_ZTISt9bad_alloc')
            return 'done'
    return _alloc(ex, st, a[0], 16, 'new' if n == '_Znwm' else 'new[]')


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', forks=True)
def _(ex, st, I, a, n):
    if not ex.branch(st, ule(a[0], c64(1 << 40))):
        ex.throw_std(st, '_ZTISt9bad_alloc')
        return 'done'
    if a[1].op != 'c':
        raise Unsupported('symbolic alignment in new')
    return _alloc(ex, st, a[0], a[1].a, 'new' if n.startswith('_Znw') else 'new[]')


@model('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(ex, st, I, a, n):
    return _alloc(ex, st, a[0], 16, 'new')


def _free(ex, st, p, api, size=None):
    if p.op == 'c' and p.a == 0:
        return
    bo = ex.base_off(st, p)
    if bo is None:
        if ex.branch(st, eq(p, ZERO)):
            return
        o, off = ex.resolve(st, p, 'free')
    else:
        o, off = bo
    if o.id in st.dead:
        ex.oblige(st, FALSE, 'memory', 'double free')
        from .exec import PathEnd
        raise PathEnd()
    ok = o.kind == 'heap' and o.api == api
    ex.oblige(st, band(tm.boolc(ok), eq(off, ZERO)), 'memory',
              'release of %s memory through %s' % (o.api, api))
    if size is not None:
        ex.oblige(st, eq(size, o.size), 'memory', 'sized release with the allocated size')
    st.dead[o.id] = 'freed'
    st.mem.pop(o.id, None)


@model('_ZdlPv', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'new')


@model('_ZdlPvm', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'new', a[1])


@model('_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'new')


@model('_ZdaPv', '_ZdaPvm', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'new[]')


@model('malloc', forks=True)
def _(ex, st, I, a, n):
    """null, or a fresh block aligned to 16 (always null beyond 2^46 bytes)"""
    if not ex.branch(st, ule(a[0], c64(1 << 46))):
        return ZERO
    if not ex.branch(st, _nd(ex, st, 'malloc_ok', 0)):
        return ZERO
    return _alloc(ex, st, a[0], 16, 'malloc')


@model('aligned_alloc', forks=True)
def _(ex, st, I, a, n):
    """aligned_alloc(alignment, size): null, or a fresh aligned block"""
    if a[0].op != 'c':
        raise Unsupported('symbolic alignment in aligned_alloc')
    al = a[0].a
    ex.oblige(st, tm.boolc(al > 0 and not al & (al - 1)), 'memory',
              'aligned_alloc with a power-of-two alignment')
    if not ex.branch(st, ule(a[1], c64(1 << 46))):
        return ZERO
    if not ex.branch(st, _nd(ex, st, 'malloc_ok', 0)):
        return ZERO
    return _alloc(ex, st, a[1], max(16, al), 'malloc')


@model('posix_memalign', forks=True)
def _(ex, st, I, a, n):
    if a[1].op != 'c':
        raise Unsupported('symbolic alignment in posix_memalign')
    if not ex.branch(st, ule(a[2], c64(1 << 46))) or \
            not ex.branch(st, _nd(ex, st, 'malloc_ok', 0)):
        return const(12, 32)
    r = _alloc(ex, st, a[2], max(16, a[1].a), 'malloc')
    ex.stv(st, a[0], 8, r)
    return const(0, 32)


@model('free', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'malloc')


# ---------------------------------------------------------------- memory functions
@model('memcpy', forks=True)
def _(ex, st, I, a, n):
    ex.memcpy(st, a[0], a[1], a[2], 'memcpy')
    return a[0]


@model('memmove', forks=True)
def _(ex, st, I, a, n):
    ex.memcpy(st, a[0], a[1], a[2], 'memmove', move=True)
    return a[0]


@model('memset', forks=True)
def _(ex, st, I, a, n):
    ex.memset(st, a[0], a[1], a[2], 'memset')
    return a[0]


@rx(r'llvm\.memcpy\.', forks=True)
def _(ex, st, I, a, n):
    ex.memcpy(st, a[0], a[1], a[2], st.top.fn.name)


@rx(r'llvm\.memmove\.', forks=True)
def _(ex, st, I, a, n):
    ex.memcpy(st, a[0], a[1], a[2], st.top.fn.name, move=True)


@rx(r'llvm\.memset\.', forks=True)
def _(ex, st, I, a, n):
    ex.memset(st, a[0], a[1], a[2], st.top.fn.name)


@model('strlen')
def _(ex, st, I, a, n):
    return c64(len(ex.cstring(st, a[0]).encode()))


@model('memcmp', 'bcmp')
def _(ex, st, I, a, n):
    if a[2].op != 'c' or a[2].a > 64:
        raise Unsupported('symbolic memcmp')
    r = TRUE
    lt = FALSE
    for i in reversed(range(a[2].a)):
        x, y = ex.ld(st, add(a[0], c64(i)), 1), ex.ld(st, add(a[1], c64(i)), 1)
        lt = bor(ult(x, y), band(eq(x, y), lt))
        r = band(r, eq(x, y))
    return ite(r, const(0, 32), ite(lt, const(-1, 32), const(1, 32)))


# ---------------------------------------------------------------- LLVM intrinsics
@model('llvm.assume')
def _(ex, st, I, a, n):
    return None


@rx(r'llvm\.(expect|launder|strip)')
def _(ex, st, I, a, n):
    return a[0]


@rx(r'llvm\.(lifetime|dbg|invariant|prefetch|donothing|sideeffect|stackrestore|'
    r'experimental\.noalias)')
def _(ex, st, I, a, n):
    return None


@rx(r'llvm\.stacksave')
def _(ex, st, I, a, n):
    return ZERO


@rx(r'llvm\.is\.constant')
def _(ex, st, I, a, n):
    return FALSE


@rx(r'llvm\.objectsize')
def _(ex, st, I, a, n):
    return const(-1, I.ty.bits())


@rx(r'llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow')
def _(ex, st, I, a, n):
    op = n.split('.')[1]
    x, y = a
    w = x.w
    f = {'mul': tm.mul, 'add': tm.add, 'sub': tm.sub}[op[1:]]
    if op[0] == 'u':
        if op == 'usub':
            ov = ult(x, y)
        elif op == 'uadd':
            ov = ult(f(x, y), x) if x.ub + y.ub >= 1 << w else FALSE
        else:
            if x.ub * y.ub < 1 << w:
                ov = FALSE
            elif y.op == 'c':
                ov = ult(const(((1 << w) - 1) // y.a, w), x) if y.a else FALSE
            elif x.op == 'c':
                ov = ult(const(((1 << w) - 1) // x.a, w), y) if x.a else FALSE
            else:
                p = tm.mul(tm.zext(x, 2 * w), tm.zext(y, 2 * w))
                ov = ne(tm.ext(p, w, w), const(0, w))
    else:
        p = f(tm.sext(x, 2 * w), tm.sext(y, 2 * w))
        ov = ne(tm.sext(tm.ext(p, 0, w), 2 * w), p)
    return [f(x, y), ov]


@rx(r'llvm\.(umax|umin|smax|smin|abs)\.')
def _(ex, st, I, a, n):
    op = n.split('.')[1]
    x = a[0]
    if op == 'abs':
        return ite(tm.slt(x, const(0, x.w)), tm.neg(x), x)
    y = a[1]
    lt = ult(x, y) if op[0] == 'u' else tm.slt(x, y)
    return ite(lt, y, x) if op.endswith('max') else ite(lt, x, y)


@rx(r'llvm\.(ctlz|cttz|ctpop)\.')
def _(ex, st, I, a, n):
    op = n.split('.')[1]
    x = a[0]
    w = x.w
    if op == 'ctpop':
        r = const(0, w)
        for i in range(w):
            r = add(r, tm.zext(tm.ext(x, i, 1), w))
        return r
    r = const(w, w)
    rng = range(w) if op == 'ctlz' else reversed(range(w))
    for i in rng:
        v = w - 1 - i if op == 'ctlz' else i
        r = ite(eq(tm.ext(x, i, 1), const(1, 1)), const(v, w), r)
    if a[1] is TRUE:
        ex.oblige(st, ne(x, const(0, w)), 'arith', 'count zeros of zero in ' + st.top.fn.name)
    return r


@model('llvm.eh.typeid.for')
def _(ex, st, I, a, n):
    bo = ex.base_off(st, a[0])
    if bo is None:
        return const(ex.tid('...'), 32)
    return const(ex.tid(bo[0].name), 32)


@rx(r'llvm\.eh\.typeid\.for')
def _(ex, st, I, a, n):
    bo = ex.base_off(st, a[0])
    if bo is None:
        return const(ex.tid('...'), 32)
    return const(ex.tid(bo[0].name), 32)


@model('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate',
       '__cxa_pure_virtual', '_ZSt10unexpectedv', 'exit')
def _(ex, st, I, a, n):
    from .exec import PathEnd
    ex.oblige(st, FALSE, 'control', 'program terminated by ' + n)
    raise PathEnd()


@model('__assert_fail')
def _(ex, st, I, a, n):
    from .exec import PathEnd
    ex.oblige(st, FALSE, 'assert', 'assertion ' + ex.cstring(st, a[0]))
    raise PathEnd()


# ---------------------------------------------------------------- exceptions
@model('__cxa_allocate_exception')
def _(ex, st, I, a, n):
    o = ex.new_obj(st, 'exc', a[0], 16, 'exc')
    return o.base


@model('__cxa_free_exception')
def _(ex, st, I, a, n):
    return None


@model('__cxa_throw')
def _(ex, st, I, a, n):
    bo = ex.base_off(st, a[1])
    ti = bo[0].name
    b = ex.base_off(st, a[0])
    st.excinfo[b[0].base] = ti
    ex.throw(st, a[0], ti)
    return 'done'


@model('__cxa_begin_catch')
def _(ex, st, I, a, n):
    st.caught.append((a[0], st.exc[1] if st.exc else None))
    return a[0]


@model('__cxa_get_exception_ptr')
def _(ex, st, I, a, n):
    return a[0]


@model('__cxa_end_catch')
def _(ex, st, I, a, n):
    if st.caught:
        st.caught.pop()
    return None


@model('__cxa_rethrow')
def _(ex, st, I, a, n):
    addr, ti = st.caught[-1]
    ex.throw(st, addr, ti)
    return 'done'


@model('__gxx_personality_v0')
def _(ex, st, I, a, n):
    raise Unsupported('personality')


_THROW = {'_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
          '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
          '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
          '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
          '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
          '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
          '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
          '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
          '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
          '_ZSt20__throw_system_errori': '_ZTISt12system_error',
          '_ZSt27__throw_bad_optional_accessv': '_ZTISt19bad_optional_access'}


@model(*_THROW)
def _(ex, st, I, a, n):
    ex.throw_std(st, _THROW[n])
    return 'done'


# constructors / destructors of standard exceptions: no effect visible to the caller
@rx(r'_ZNSt(9exception|9bad_alloc|11logic_error|12length_error|12out_of_range|16invalid_argument|'
    r'13runtime_error|20bad_array_new_length|12domain_error|14overflow_error)[CD][0-2]E')
def _(ex, st, I, a, n):
    fn = ex.mod.functions.get(n)
    if fn is not None and not fn.decl:
        return NotImplemented
    return None


# std::string based constructors of the same exceptions
@rx(r'_ZNSt(11logic_error|12length_error|12out_of_range|16invalid_argument|13runtime_error|'
    r'12domain_error)C[0-2]ERKNSt7__cxx1112basic_string')
def _(ex, st, I, a, n):
    return None


@rx(r'_ZNKSt\w+4whatEv$')
def _(ex, st, I, a, n):
    raise Unsupported('what()')


# std::pmr::memory_resource: the base class destructor does nothing
@rx(r'_ZNSt3pmr15memory_resourceD[12]Ev')
def _(ex, st, I, a, n):
    return None


@model('_ZNSt3pmr15memory_resourceD0Ev', forks=True)
def _(ex, st, I, a, n):
    _free(ex, st, a[0], 'new')


@model('vc_split', forks=True)
def _(ex, st, I, a, n):
    """vc_split(v, lo, hi): case split on the value of v"""
    v, lo, hi = a
    for k in range(lo.a, hi.a):
        if ex.branch(st, eq(v, c64(k))):
            return c64(k)
    ex.assume(st, eq(v, hi))
    return hi


@model('__cxa_guard_acquire')
def _(ex, st, I, a, n):
    v = ex.ld(st, a[0], 1)
    return ite(eq(v, const(0, 8)), const(1, 32), const(0, 32))


@model('__cxa_guard_release')
def _(ex, st, I, a, n):
    ex.stv(st, a[0], 1, const(1, 8))
    return None


@model('__cxa_guard_abort')
def _(ex, st, I, a, n):
    return None


@model('__cxa_atexit')
def _(ex, st, I, a, n):
    return const(0, 32)


# unordered containers: never rehash (one bucket); the policy only affects performance
@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def _(ex, st, I, a, n):
    return [const(0, e.bits()) if e.bits() > 1 else FALSE for e in I.ty.elems]


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def _(ex, st, I, a, n):
    return c64(1)


# locks: the state of a lock is its first word (0 free, 1 held); st.locks is the held set
@model('pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_spin_lock')
def _(ex, st, I, a, n):
    v = ex.ld(st, a[0], 4)
    ex.oblige(st, eq(v, const(0, 32)), 'control', 'lock taken twice (deadlock)')
    ex.stv(st, a[0], 4, const(1, 32))
    st.locks = st.locks + (a[0],)
    return const(0, 32)


@model('pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock')
def _(ex, st, I, a, n):
    v = ex.ld(st, a[0], 4)
    ex.oblige(st, eq(v, const(1, 32)), 'control', 'unlock of a lock that is not held')
    ex.stv(st, a[0], 4, const(0, 32))
    st.locks = tuple(x for x in st.locks if x is not a[0])
    return const(0, 32)


@model('pthread_mutex_destroy', 'pthread_mutex_init')
def _(ex, st, I, a, n):
    if n.endswith('init'):
        ex.stv(st, a[0], 4, const(0, 32))
    return const(0, 32)


@model('vc_locks')
def _(ex, st, I, a, n):
    """number of locks held"""
    return c64(len(st.locks))


@model('vc_lock_addr')
def _(ex, st, I, a, n):
    """address of the lock taken last"""
    return st.locks[-1] if st.locks else ZERO


@rx(r'_ZNSt6chrono3_V2\d+(system|steady|high_resolution)_clock3nowEv')
def _(ex, st, I, a, n):
    st.nf += 1
    return st.fresh('clock', 64)


@model('__dynamic_cast', forks=True)
def _(ex, st, I, a, n):
    """dynamic_cast within single, non-virtual inheritance"""
    if ex.branch(st, eq(a[0], ZERO)):
        return ZERO
    vp = ex.ld(st, a[0], 8)
    top = ex.ld(st, sub(vp, c64(16)), 8)
    ti = ex.base_off(st, ex.ld(st, sub(vp, c64(8)), 8))
    dst = ex.base_off(st, a[2])
    if ti is None or dst is None or top.op != 'c':
        raise Unsupported('dynamic_cast')
    if top.a != 0:
        raise Unsupported('dynamic_cast with multiple inheritance')
    return a[0] if ex.derives(ti[0].name, dst[0].name) else ZERO


@model('__libc_single_threaded')
def _(ex, st, I, a, n):
    return None


@rx(r'(llvm\.)?(round|floor|ceil|trunc|rint|nearbyint|fabs|sqrt)(f|\.f32|\.f64)?$')
def _(ex, st, I, a, n):
    return fp.unary(re.match(r'(?:llvm\.)?([a-z]+?)f?(\.f\d\d)?$', n).group(1), a[0])
