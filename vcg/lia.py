"""Exact translation of bit-vector terms into linear integer arithmetic (with explicit
wrap-around quotients).  Operators outside it become uninterpreted, so 'unsat' is sound and a
model is only used after it has been evaluated in machine arithmetic."""
import z3
from . import terms as tm

I = z3.IntVal
_cache = {}      # term -> (expr, own side constraints)
_n = [0]


def _fresh():
    _n[0] += 1
    return z3.Int('q~%d' % _n[0])


def bounds(v, lo, hi, side):
    side.append(v >= lo)
    side.append(v <= hi)
    return v


def _mod(x, lo, hi, m, side):
    """x mod m, for an integer expression x in [lo, hi]."""
    q0, q1 = lo // m, hi // m
    if q0 == q1:
        return x if q0 == 0 else x - I(q0 * m)
    q = bounds(_fresh(), q0, q1, side)
    r = _fresh()
    bounds(r, 0, m - 1, side)
    side.append(x == q * I(m) + r)
    return r


def _div(x, hi, m, side):
    if m == 1:
        return x
    if hi < m:
        return I(0)
    q = bounds(_fresh(), 0, hi // m, side)
    r = bounds(_fresh(), 0, m - 1, side)
    side.append(x == q * I(m) + r)
    return q


def _signed(t, side):
    e = _cache[t][0]
    h = 1 << (t.w - 1)
    if t.ub < h:
        return e
    if t.lb >= h:
        return e - I(2 * h)
    return z3.If(e >= I(h), e - I(2 * h), e)


def conv(t):
    r = _cache.get(t)
    if r is not None:
        return r[0]
    st = [t]
    while st:
        x = st[-1]
        if x in _cache:
            st.pop()
            continue
        todo = [c for c in tm.children(x) if c not in _cache]
        if todo:
            st.extend(todo)
            continue
        side = []
        e = _conv(x, side)
        _cache[x] = (e, side)
        st.pop()
    return _cache[t][0]


def side_of(t, seen):
    """Side constraints of t and its subterms not in seen (seen is updated)."""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.extend(_cache[x][1])
        st.extend(tm.children(x))
    return out


def _uf(name, args, w, side, lb=0, ub=None):
    sig = [z3.BoolSort() if a.w == 0 else z3.IntSort() for a in args]
    es = [_cache[a][0] for a in args]
    f = z3.Function(name, *(sig + [z3.BoolSort() if w == 0 else z3.IntSort()]))
    e = f(*es)
    if w:
        side.append(e >= lb)
        side.append(e <= ((1 << w) - 1 if ub is None else ub))
    return e


def _conv(t, side):
    o, w = t.op, t.w
    C = lambda x: _cache[x][0]
    if o == 'c':
        return I(t.a)
    if o == 'b':
        return z3.BoolVal(t.a)
    if o == 'v':
        if w == 0:
            return z3.Bool(t.a)
        return bounds(z3.Int(t.a), t.lb, t.ub, side)
    if o == 'lin':
        c, ts = t.a
        c = tm.sgn(c, w)
        lo = hi = c
        e = []
        for x, k in ts:
            k = tm.sgn(k, w)
            e.append(C(x) if k == 1 else C(x) * I(k))
            if k > 0:
                lo += k * x.lb
                hi += k * x.ub
            else:
                lo += k * x.ub
                hi += k * x.lb
        if c:
            e.append(I(c))
        s = z3.Sum(*e) if len(e) > 1 else e[0]
        r = _mod(s, lo, hi, 1 << w, side)
        if t.lb > 0:
            side.append(r >= t.lb)
        if t.ub < (1 << w) - 1:
            side.append(r <= t.ub)
        return r
    if o == 'uf':
        return _uf(t.a[0], t.a[1], w, side)
    if o == 'ext':
        x, lo = t.a
        q = _div(C(x), x.ub, 1 << lo, side)
        return _mod(q, 0, x.ub >> lo, 1 << w, side)
    if o == 'zext':
        return C(t.a[0])
    if o == 'sext':
        x = t.a[0]
        e = C(x)
        h = 1 << (x.w - 1)
        if x.ub < h:
            return e
        return z3.If(e >= I(h), e + I((1 << w) - 2 * h), e)
    if o == 'cat':
        return C(t.a[0]) * I(1 << t.a[1].w) + C(t.a[1])
    if o == 'ite':
        return z3.If(C(t.a[0]), C(t.a[1]), C(t.a[2]))
    if o == 'band':
        return z3.And(*[C(x) for x in t.a])
    if o == 'bor':
        return z3.Or(*[C(x) for x in t.a])
    if o == 'bnot':
        return z3.Not(C(t.a[0]))
    x, y = t.a
    if o == 'eq':
        return C(x) == C(y)
    if o == 'ult':
        return C(x) < C(y)
    if o == 'ule':
        return C(x) <= C(y)
    if o == 'slt':
        return _signed(x, side) < _signed(y, side)
    if o == 'sle':
        return _signed(x, side) <= _signed(y, side)
    if o == 'and':
        for k, v in ((x, y), (y, x)):
            if k.op == 'c':
                m, e, lo, terms, n = k.a, C(v), 0, [], 0
                while m >> lo and n < 6:
                    if not m >> lo & 1:
                        lo += 1
                        continue
                    hi = lo
                    while m >> hi & 1:
                        hi += 1
                    q = _div(e, v.ub, 1 << lo, side)
                    r = _mod(q, 0, v.ub >> lo, 1 << (hi - lo), side)
                    terms.append(r if lo == 0 else r * I(1 << lo))
                    lo = hi
                    n += 1
                if not m >> lo:
                    return terms[0] if len(terms) == 1 else z3.Sum(*terms)
        e = _uf('bv.and.%d' % w, t.a, w, side)
        side.append(e <= C(x))
        side.append(e <= C(y))
        return e
    if o == 'or':
        e = _uf('bv.or.%d' % w, t.a, w, side)
        side.append(e >= C(x))
        side.append(e >= C(y))
        side.append(e <= C(x) + C(y))
        return e
    if o == 'shl' and y.op == 'c' and y.a < w:
        return _mod(C(x) * I(1 << y.a), x.lb << y.a, x.ub << y.a, 1 << w, side)
    if o == 'lshr' and y.op == 'c':
        return _div(C(x), x.ub, 1 << y.a, side)
    if o in ('udiv', 'urem') and y.op == 'c' and y.a:
        if o == 'udiv':
            return _div(C(x), x.ub, y.a, side)
        return _mod(C(x), 0, x.ub, y.a, side)
    if o in ('udiv', 'urem'):
        e = _uf('bv.%s.%d' % (o, w), t.a, w, side)
        if y.lb > 0:
            side.append(e <= C(x))
            if o == 'urem':
                side.append(e < C(y))
        return e
    if o == 'mul':
        if x.id > y.id:
            x, y = y, x
        return _uf('bv.mul.%d' % w, (x, y), w, side, t.lb, t.ub)
    return _uf('bv.%s.%d' % (o, w), t.a, w, side, t.lb, t.ub)


def extract(m):
    env, ufs = {}, {}
    for d in m.decls():
        n = d.name()
        if n.startswith('q~') or n.startswith('bv.') or n.startswith('fp.') or '/0' in n:
            continue
        if d.arity() == 0:
            t = tm.lookup_var(n)
            if t is None:
                continue
            v = m[d]
            env[t] = v.as_long() if t.w else z3.is_true(v)
        else:
            fi = m[d]
            if not isinstance(fi, z3.FuncInterp):
                continue
            cv = lambda v: v.as_long() if z3.is_int_value(v) else z3.is_true(v)
            tab = {}
            for i in range(fi.num_entries()):
                e = fi.entry(i)
                tab[tuple(cv(e.arg_value(k)) for k in range(e.num_args()))] = cv(e.value())
            ev = fi.else_value()
            dv = 0
            if ev is not None and (z3.is_int_value(ev) or z3.is_true(ev)):
                dv = cv(ev)
            ufs[n] = (tab, dv)
    return env, ufs
