"""Hash-consed bit-vector / Boolean terms with a linear normal form.

Width 0 means Boolean.  All arithmetic is exact machine arithmetic modulo 2^w.
"""

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'a', 'w', 'id', 'lb', 'ub', 'z', 'fv', 'tz')

    def __repr__(self):
        return show(self)


def show(t, depth=6):
    if depth == 0:
        return '..'
    o = t.op
    d = depth - 1
    if o == 'c':
        v = t.a
        if t.w > 8 and v >> (t.w - 1):
            return str(v - (1 << t.w))
        return str(v)
    if o == 'b':
        return str(t.a)
    if o == 'v':
        return t.a
    if o == 'lin':
        c, ts = t.a
        r = []
        for x, k in ts:
            k = sgn(k, t.w)
            r.append(('%d*' % k if k != 1 else '') + show(x, d))
        c = sgn(c, t.w)
        if c:
            r.append(str(c))
        return '(' + ' + '.join(r) + ')'
    if o == 'uf':
        return t.a[0] + '(' + ', '.join(show(x, d) for x in t.a[1]) + ')'
    if o == 'ext':
        return show(t.a[0], d) + '[%d:%d]' % (t.a[1] + t.w, t.a[1])
    return o + (str(t.w) if o in ('zext', 'sext') else '') + '(' + ', '.join(
        show(x, d) for x in t.a) + ')'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _mk(op, a, w, lb=None, ub=None):
    key = (op, a, w)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.w = op, a, w
        _count[0] += 1
        t.id = _count[0]
        t.z = None
        t.fv = None
        t.tz = -1
        t.lb = 0 if lb is None else lb
        t.ub = ((1 << w) - 1 if w else 1) if ub is None else ub
        _table[key] = t
    return t


def const(v, w):
    v &= (1 << w) - 1
    return _mk('c', v, w, v, v)


TRUE = _mk('b', True, 0)
FALSE = _mk('b', False, 0)


def boolc(b):
    return TRUE if b else FALSE


def var(name, w, lb=None, ub=None):
    return _mk('v', name, w, lb, ub)


_fresh = {}


def fresh(name, w, lb=None, ub=None):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var('%s!%d' % (name, n), w, lb, ub)


def fresh_name(name):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return '%s!%d' % (name, n)


def uf(name, args, w):
    return _mk('uf', (name, tuple(args)), w)


def is_c(t):
    return t.op == 'c'


def is_true(t):
    return t is TRUE


def is_false(t):
    return t is FALSE


def _parts(t):
    if t.op == 'c':
        return t.a, ()
    if t.op == 'lin':
        return t.a
    return 0, ((t, 1),)


def interval(c, ts, w):
    """Exact integer interval of the linear form with signed coefficients."""
    lo = hi = sgn(c, w)
    for x, k in ts:
        k = sgn(k, w)
        if k > 0:
            lo += k * x.lb
            hi += k * x.ub
        else:
            lo += k * x.ub
            hi += k * x.lb
    return lo, hi


def _interval2(c, ts, w):
    """As interval(), also trying the unsigned reading of the constant."""
    lo, hi = interval(c, ts, w)
    M = 1 << w
    if lo >= 0 and hi < M:
        return lo, hi, True
    s = sgn(c, w)
    if s < 0:
        lo2, hi2 = lo + M, hi + M
        if lo2 >= 0 and hi2 < M:
            return lo2, hi2, True
    return 0, M - 1, False


def mk_lin(c, d, w):
    m = (1 << w) - 1
    c &= m
    ts = tuple(sorted(((x, k & m) for x, k in d.items() if k & m), key=lambda p: p[0].id))
    if not ts:
        return const(c, w)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    # x - (x & (2^k-1)) etc. stay linear
    lo, hi, ok = _interval2(c, ts, w)
    return _mk('lin', (c, ts), w, lo, hi)


def no_wrap(t):
    """True if the linear form's integer value equals its machine value (coefs read signed)."""
    if t.op == 'lin':
        lo, hi = interval(t.a[0], t.a[1], t.w)
        return lo >= 0 and hi < (1 << t.w)
    return True


def add(x, y):
    w = x.w
    if x.op == 'c' and x.a == 0:
        return y
    if y.op == 'c' and y.a == 0:
        return x
    if x.op == 'c' and y.op == 'c':
        return const(x.a + y.a, w)
    cx, tx = _parts(x)
    cy, ty = _parts(y)
    d = dict(tx)
    for t, k in ty:
        d[t] = d.get(t, 0) + k
    return mk_lin(cx + cy, d, w)


def mulc(x, k):
    w = x.w
    k &= (1 << w) - 1
    if k == 0:
        return const(0, w)
    if k == 1:
        return x
    if x.op == 'c':
        return const(x.a * k, w)
    c, ts = _parts(x)
    return mk_lin(c * k, {t: q * k for t, q in ts}, w)


def neg(x):
    return mulc(x, -1)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x.op == 'c':
        return mulc(y, x.a)
    if y.op == 'c':
        return mulc(x, y.a)
    if x.op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c':
        return ite(x.a[0], mulc(y, x.a[1].a), mulc(y, x.a[2].a))
    if y.op == 'ite' and y.a[1].op == 'c' and y.a[2].op == 'c':
        return ite(y.a[0], mulc(x, y.a[1].a), mulc(x, y.a[2].a))
    # distribute over linear forms, so that products are sums of monomials
    if x.op == 'lin' or y.op == 'lin':
        cx, tx = _parts(x)
        cy, ty = _parts(y)
        if len(tx) * len(ty) <= 8:
            r = const(cx * cy, x.w)
            for t, k in tx:
                r = add(r, mulc(t, k * cy))
            for t, k in ty:
                r = add(r, mulc(t, k * cx))
            for t, k in tx:
                for u, q in ty:
                    r = add(r, mulc(_mono(t, u), k * q))
            return r
    return _mono(x, y)


def _mono(x, y):
    if x.id > y.id:
        x, y = y, x
    hi = x.ub * y.ub
    if hi < (1 << x.w):
        return _mk('mul', (x, y), x.w, x.lb * y.lb, hi)
    return _mk('mul', (x, y), x.w)


def trailz(t):
    """Number of bits known to be zero at the bottom."""
    if t.tz >= 0:
        return t.tz
    o = t.op
    r = 0
    if o == 'c':
        r = t.w if t.a == 0 else (t.a & -t.a).bit_length() - 1
    elif o == 'lin':
        c, ts = t.a
        r = t.w if c == 0 else (c & -c).bit_length() - 1
        for x, k in ts:
            r = min(r, trailz(x) + (k & -k).bit_length() - 1)
        # x - (x & mask) pattern
        if r == 0 or len(ts) == 2:
            for x, k in ts:
                if x.op == 'and' and x.a[1].op == 'c' and (k == (1 << t.w) - 1):
                    m = x.a[1].a
                    if m & (m + 1) == 0:
                        rest = add(t, x)
                        if rest is x.a[0]:
                            r = max(r, m.bit_length())
    elif o == 'mul':
        r = min(t.w, trailz(t.a[0]) + trailz(t.a[1]))
    elif o == 'and':
        r = max(trailz(t.a[0]), trailz(t.a[1]))
    elif o in ('or', 'xor'):
        r = min(trailz(t.a[0]), trailz(t.a[1]))
    elif o == 'ite':
        r = min(trailz(t.a[1]), trailz(t.a[2]))
    elif o in ('zext', 'sext'):
        r = trailz(t.a[0])
        if r >= t.a[0].w:
            r = t.w
    elif o == 'shl' and t.a[1].op == 'c':
        r = min(t.w, t.a[1].a + trailz(t.a[0]))
    t.tz = min(r, t.w)
    return t.tz


def shl(x, y):
    w = x.w
    if y.op == 'c':
        if y.a >= w:
            return const(0, w)
        return mulc(x, 1 << y.a)
    if x.op == 'c' and x.a == 0:
        return x
    if y.op == 'ite' and y.a[1].op == 'c' and y.a[2].op == 'c':
        return ite(y.a[0], shl(x, y.a[1]), shl(x, y.a[2]))
    return _mk('shl', (x, y), w)


def lshr(x, y):
    w = x.w
    if y.op == 'c':
        k = y.a
        if k == 0:
            return x
        if k >= w:
            return const(0, w)
        if x.op == 'c':
            return const(x.a >> k, w)
        if x.op == 'zext':
            return zext(lshr(x.a[0], const(min(k, x.a[0].w), x.a[0].w)), w) \
                if k < x.a[0].w else const(0, w)
        r = _divpow(x, 1 << k)
        if r is not None:
            return r
        return _mk('lshr', (x, y), w, x.lb >> k, x.ub >> k)
    return _mk('lshr', (x, y), w, 0, x.ub)


def _divpow(x, m):
    """x udiv m, when the linear form splits exactly without wrapping."""
    w = x.w
    if x.ub < m:
        return const(0, w)
    if x.op == 'lin':
        c, ts = x.a
        lo, hi = interval(c, ts, w)
        if lo < 0 or hi >= (1 << w):
            return None
        c = sgn(c, w)
        q, r = {}, {}
        for t, k in ts:
            k = sgn(k, w)
            if k % m == 0:
                q[t] = k // m
            else:
                r[t] = k
        cq, cr = c // m, c % m
        if not q and cq == 0:
            return None
        lo2, hi2 = interval(cr, [(t, k & ((1 << w) - 1)) for t, k in r.items()], w)
        if lo2 >= 0 and hi2 < m:
            return mk_lin(cq, q, w)
    if x.op == 'mul':
        for i in (0, 1):
            pass
    return None


def ashr(x, y):
    w = x.w
    if x.op == 'c' and y.op == 'c':
        return const(sgn(x.a, w) >> min(y.a, w - 1), w)
    if x.ub < (1 << (w - 1)):
        if y.op == 'c' and y.a >= w:
            return const(0, w)
        return lshr(x, y)
    if y.op == 'c' and x.op == 'lin':
        # signed interval without wrap
        c, ts = x.a
        lo, hi = interval(c, ts, w)
        h = 1 << (w - 1)
        m = 1 << y.a
        if -h <= lo and hi < h and all(sgn(k, w) % m == 0 for _, k in ts) and sgn(c, w) % m == 0:
            return mk_lin(sgn(c, w) // m, {t: sgn(k, w) // m for t, k in ts}, w)
    return _mk('ashr', (x, y), w)


def udiv(x, y):
    w = x.w
    if y.op == 'c':
        if y.a == 0:
            return const(-1, w)
        if x.op == 'c':
            return const(x.a // y.a, w)
        if y.a & (y.a - 1) == 0:
            return lshr(x, const(y.a.bit_length() - 1, w))
        r = _divpow(x, y.a)
        if r is not None:
            return r
        return _mk('udiv', (x, y), w, x.lb // y.a, x.ub // y.a)
    return _mk('udiv', (x, y), w, 0, None)


def urem(x, y):
    w = x.w
    if y.op == 'c':
        if y.a == 0:
            return x
        if x.op == 'c':
            return const(x.a % y.a, w)
        if y.a & (y.a - 1) == 0:
            return and_(x, const(y.a - 1, w))
        if x.ub < y.a:
            return x
        return _mk('urem', (x, y), w, 0, y.a - 1)
    return _mk('urem', (x, y), w, 0, x.ub)


def sdiv(x, y):
    w = x.w
    if x.ub < 1 << (w - 1) and y.ub < 1 << (w - 1):
        return udiv(x, y)
    if x.op == 'c' and y.op == 'c' and y.a:
        a, b = sgn(x.a, w), sgn(y.a, w)
        q = abs(a) // abs(b)
        return const(q if (a < 0) == (b < 0) else -q, w)
    if y.op == 'c' and x.op == 'lin' and 0 < sgn(y.a, w):
        c, ts = x.a
        lo, hi = interval(c, ts, w)
        h = 1 << (w - 1)
        m = y.a
        if -h <= lo and hi < h and all(sgn(k, w) % m == 0 for _, k in ts) and sgn(c, w) % m == 0:
            return mk_lin(sgn(c, w) // m, {t: sgn(k, w) // m for t, k in ts}, w)
    return _mk('sdiv', (x, y), w)


def srem(x, y):
    w = x.w
    if x.ub < 1 << (w - 1) and y.ub < 1 << (w - 1):
        return urem(x, y)
    if x.op == 'c' and y.op == 'c' and y.a:
        a, b = sgn(x.a, w), sgn(y.a, w)
        r = abs(a) % abs(b)
        return const(-r if a < 0 else r, w)
    return _mk('srem', (x, y), w)


def and_(x, y):
    w = x.w
    if w == 0:
        return band(x, y)
    if x.op == 'c':
        x, y = y, x
    if x.op == 'c':
        return const(x.a & y.a, w)
    if x is y:
        return x
    full = (1 << w) - 1
    if y.op == 'c':
        m = y.a
        if m == 0:
            return y
        if m == full:
            return x
        if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
            t, q = tuple(x.a[1].items() if isinstance(x.a[1], dict) else x.a[1])[0]
            q &= full
            if q > 1 and q & (q - 1) == 0:          # (t << c) & m
                return mulc(and_(t, const(m // q, w)), q)
        if m & (m + 1) == 0:
            if x.ub <= m:
                return x
            k = m.bit_length()
            if trailz(x) >= k:
                return const(0, w)
            if x.op == 'lin':
                c, ts = x.a
                M = 1 << k
                d = {}
                for t, q in ts:
                    if (trailz(t) + (q & -q).bit_length() - 1) >= k:
                        continue
                    q %= M
                    d[t] = q
                nx = mk_lin(c % M, d, w)
                if nx is not x:
                    return and_(nx, y)
            if x.op == 'zext' and x.a[0].w >= k:
                return zext(and_(x.a[0], const(m, x.a[0].w)), w)
            if x.op == 'and' and x.a[1].op == 'c':
                return and_(x.a[0], const(m & x.a[1].a, w))
            if x.op == 'ite':
                if x.a[1].op == 'c' or x.a[2].op == 'c':
                    return ite(x.a[0], and_(x.a[1], y), and_(x.a[2], y))
            return _mk('and', (x, y), w, 0, m)
        inv = full & ~m
        if inv & (inv + 1) == 0:            # clear low bits
            return sub(x, and_(x, const(inv, w)))
        if x.op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c':
            return ite(x.a[0], and_(x.a[1], y), and_(x.a[2], y))
        return _mk('and', (x, y), w, 0, min(m, x.ub))
    if x.id > y.id:
        x, y = y, x
    return _mk('and', (x, y), w, 0, min(x.ub, y.ub))


def _pow2ceil(v):
    return (1 << v.bit_length()) - 1


def or_(x, y):
    w = x.w
    if w == 0:
        return bor(x, y)
    if x.op == 'c' and y.op == 'c':
        return const(x.a | y.a, w)
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c' and y.a == 0:
        return x
    if y.op == 'c' and y.a == (1 << w) - 1:
        return y
    if x is y:
        return x
    if y.ub < (1 << trailz(x)) or x.ub < (1 << trailz(y)):
        return add(x, y)
    if x.op == 'ite' and y.op == 'c' and x.a[1].op == 'c' and x.a[2].op == 'c':
        return ite(x.a[0], or_(x.a[1], y), or_(x.a[2], y))
    if x.id > y.id:
        x, y = y, x
    return _mk('or', (x, y), w, max(x.lb, y.lb), _pow2ceil(x.ub | y.ub))


def xor_(x, y):
    w = x.w
    if w == 0:
        return bxor(x, y)
    if x.op == 'c' and y.op == 'c':
        return const(x.a ^ y.a, w)
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if y.a == 0:
            return x
        if y.a == (1 << w) - 1:
            return sub(const(-1, w), x)
        if x.op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c':
            return ite(x.a[0], xor_(x.a[1], y), xor_(x.a[2], y))
    if x is y:
        return const(0, w)
    if x.id > y.id:
        x, y = y, x
    return _mk('xor', (x, y), w, 0, _pow2ceil(x.ub | y.ub))


def zext(x, w):
    if x.w == 0:
        return ite(x, const(1, w), const(0, w))
    if x.w == w:
        return x
    if x.op == 'c':
        return const(x.a, w)
    if x.op == 'zext':
        return zext(x.a[0], w)
    if x.op == 'ite' and (x.a[1].op == 'c' or x.a[2].op == 'c'):
        return ite(x.a[0], zext(x.a[1], w), zext(x.a[2], w))
    if x.op == 'lin' and no_wrap(x):
        c, ts = x.a
        r = const(sgn(c, x.w), w)
        for t, k in ts:
            r = add(r, mulc(zext(t, w), sgn(k, x.w)))
        return r
    if x.op == 'ext' and x.a[1] == 0 and x.a[0].w == w and x.a[0].ub < (1 << x.w):
        return x.a[0]
    if x.op == 'mul' and x.a[0].ub * x.a[1].ub < (1 << x.w):
        return mul(zext(x.a[0], w), zext(x.a[1], w))
    return _mk('zext', (x,), w, x.lb, x.ub)


def sext(x, w):
    if x.w == 0:
        return ite(x, const(-1, w), const(0, w))
    if x.w == w:
        return x
    if x.op == 'c':
        return const(sgn(x.a, x.w), w)
    if x.ub < 1 << (x.w - 1):
        return zext(x, w)
    if x.op == 'ite' and (x.a[1].op == 'c' or x.a[2].op == 'c'):
        return ite(x.a[0], sext(x.a[1], w), sext(x.a[2], w))
    return _mk('sext', (x,), w)


def ext(x, lo, w):
    """Bits [lo, lo+w) of x."""
    if lo == 0 and w == x.w:
        return x
    o = x.op
    if o == 'c':
        return const(x.a >> lo, w)
    if o == 'ext':
        return ext(x.a[0], x.a[1] + lo, w)
    if o == 'cat':
        h, l = x.a
        if lo >= l.w:
            return ext(h, lo - l.w, w)
        if lo + w <= l.w:
            return ext(l, lo, w)
        return cat(ext(h, 0, lo + w - l.w), ext(l, lo, l.w - lo))
    if o == 'zext':
        y = x.a[0]
        if lo >= y.w:
            return const(0, w)
        if lo + w <= y.w:
            return ext(y, lo, w)
        if lo == 0:
            return zext(y, w)
        return zext(ext(y, lo, y.w - lo), w)
    if o == 'sext':
        y = x.a[0]
        if lo + w <= y.w:
            return ext(y, lo, w)
        if lo == 0:
            return sext(y, w)
    if o == 'ite':
        if x.a[1].op == 'c' or x.a[2].op == 'c':
            return ite(x.a[0], ext(x.a[1], lo, w), ext(x.a[2], lo, w))
    if o == 'lin' and lo == 0:
        c, ts = x.a
        r = const(c, w)
        for t, k in ts:
            r = add(r, mulc(ext(t, 0, w), k))
        return r
    if x.ub < (1 << lo):
        return const(0, w)
    ub = None
    if x.ub < (1 << (lo + w)):
        return _mk('ext', (x, lo), w, x.lb >> lo, x.ub >> lo)
    return _mk('ext', (x, lo), w)


def cat(h, l):
    if h.op == 'c' and l.op == 'c':
        return const((h.a << l.w) | l.a, h.w + l.w)
    if h.op == 'c' and h.a == 0:
        return zext(l, h.w + l.w)
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.a[1] == l.a[1] + l.w:
        return ext(l.a[0], l.a[1], h.w + l.w)
    if h.op == 'ite' and l.op == 'ite' and h.a[0] is l.a[0]:
        return ite(h.a[0], cat(h.a[1], l.a[1]), cat(h.a[2], l.a[2]))
    # (ext of larger cat) handled above
    return _mk('cat', (h, l), h.w + l.w, (h.lb << l.w) + l.lb, (h.ub << l.w) + l.ub)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'bnot':
        return ite(c.a[0], y, x)
    if x.w == 0:
        if x is TRUE:
            return bor(c, y)
        if x is FALSE:
            return band(bnot(c), y)
        if y is TRUE:
            return bor(bnot(c), x)
        if y is FALSE:
            return band(c, x)
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    return _mk('ite', (c, x, y), x.w, min(x.lb, y.lb), max(x.ub, y.ub))


# ---- Booleans ----
def bnot(x):
    if x.op == 'b':
        return boolc(not x.a)
    if x.op == 'bnot':
        return x.a[0]
    if x.op == 'ult':
        return ule(x.a[1], x.a[0])
    if x.op == 'ule':
        return ult(x.a[1], x.a[0])
    if x.op == 'slt':
        return sle(x.a[1], x.a[0])
    if x.op == 'sle':
        return slt(x.a[1], x.a[0])
    return _mk('bnot', (x,), 0)


_NEG = ('bnot', 'ult', 'ule', 'slt', 'sle')


def _nary(op, unit, zero, xs):
    s = {}
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            for y in x.a:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if x.op in _NEG and bnot(x) in s:
            return zero
    # absorption: A | (A & B) = A,  A | (!A & B) = A | B  (and the duals)
    other = 'bor' if op == 'band' else 'band'
    new = []
    for x in s:
        if x.op == other and len(s) > 1:
            if any(y in s for y in x.a):
                continue
            keep = [y for y in x.a if bnot(y) not in s]
            if len(keep) != len(x.a):
                new.append((x, keep))
                continue
        new.append((x, None))
    if len(new) != len(s) or any(k is not None for _, k in new):
        return _nary(op, unit, zero, [x if k is None else _nary(other, zero, unit, k)
                                      for x, k in new])
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return _mk(op, tuple(sorted(s, key=lambda t: t.id)), 0)


def band(*xs):
    return _nary('band', TRUE, FALSE, xs)


def bor(*xs):
    return _nary('bor', FALSE, TRUE, xs)


def implies(x, y):
    return bor(bnot(x), y)


def bxor(x, y):
    if x.op == 'b':
        return bnot(y) if x.a else y
    if y.op == 'b':
        return bnot(x) if y.a else x
    if x is y:
        return FALSE
    return ite(x, bnot(y), y)


def eq(x, y):
    if x is y:
        return TRUE
    if x.w == 0:
        return bnot(bxor(x, y))
    if x.op == 'c' and y.op == 'c':
        return FALSE
    w = x.w
    if x.ub < y.lb or y.ub < x.lb:
        return FALSE
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if x.op == 'ite':
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y)) if (
                x.a[1].op == 'c' or x.a[2].op == 'c') else _mk('eq', (x, y), 0)
        if x.op == 'zext':
            return eq(x.a[0], const(y.a, x.a[0].w)) if y.a < (1 << x.a[0].w) else FALSE
        if x.op == 'sext':
            v = sgn(y.a, w)
            h = 1 << (x.a[0].w - 1)
            return eq(x.a[0], const(v, x.a[0].w)) if -h <= v < h else FALSE
        if x.op == 'cat':
            return band(eq(x.a[0], const(y.a >> x.a[1].w, x.a[0].w)),
                        eq(x.a[1], const(y.a, x.a[1].w)))
    elif x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return eq(x.a[0], y.a[0])
    elif x.op == 'cat' and y.op == 'cat' and x.a[1].w == y.a[1].w:
        return band(eq(x.a[0], y.a[0]), eq(x.a[1], y.a[1]))
    if x.op == 'lin' or y.op == 'lin':
        d = sub(x, y)
        if d.op == 'c':
            return boolc(d.a == 0)
        c, ts = _parts(d)
        if d.op == 'lin':
            lo, hi = interval(c, ts, w)
            if (lo > 0 and hi < (1 << w)) or (hi < 0 and lo > -(1 << w)):
                return FALSE
            # common power of two in all coefficients but not in the constant
            g = w
            for t, k in ts:
                g = min(g, (k & -k).bit_length() - 1 + trailz(t))
            if c and (c & -c).bit_length() - 1 < g:
                return FALSE
            # divide by a common power of two when the value cannot wrap
            g = min((k & -k).bit_length() - 1 for _, k in ts)
            if g and lo > -(1 << w) and hi < (1 << w):
                sc = sgn(c, w)
                if sc % (1 << g) == 0:
                    c = sc >> g
                    ts = tuple((t, sgn(k, w) >> g) for t, k in ts)
                    d = mk_lin(c, dict(ts), w)
                    c, ts = _parts(d)
            if len(ts) == 1 and ts[0][1] & 1:
                inv = pow(ts[0][1], -1, 1 << w)
                return eq(ts[0][0], const(-c * inv, w))
            if len(ts) == 2 and c == 0:
                (t1, k1), (t2, k2) = ts
                if (k1 + k2) & ((1 << w) - 1) == 0 and k1 & 1:
                    return eq(t1, t2)
            if len(ts) and sgn(ts[0][1], w) < 0:
                d = neg(d)
            x, y = d, const(0, w)
        else:
            return eq(d, const(0, w))
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], eq(x.a[1], y.a[1]), eq(x.a[2], y.a[2]))
    if y.op != 'c' and x.id > y.id:
        x, y = y, x
    return _mk('eq', (x, y), 0)


def ne(x, y):
    return bnot(eq(x, y))


def ult(x, y):
    if x is y:
        return FALSE
    if x.ub < y.lb:
        return TRUE
    if x.lb >= y.ub:
        return FALSE
    if y.op == 'c' and y.a == 1:
        return eq(x, const(0, x.w))
    if x.op == 'c' and x.a == 0:
        return ne(y, x)
    r = _cmplin(x, y, True)
    if r is not None:
        return r
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return ult(x.a[0], y.a[0])
    if x.op == 'zext' and y.op == 'c' and y.a < 1 << x.a[0].w:
        return ult(x.a[0], const(y.a, x.a[0].w))
    if y.op == 'zext' and x.op == 'c' and x.a < 1 << y.a[0].w:
        return ult(const(x.a, y.a[0].w), y.a[0])
    if x.op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c' and y.op == 'c':
        return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
    return _mk('ult', (x, y), 0)


def _cmplin(x, y, strict):
    """x < y (or <=) for non-wrapping linear forms: cancel common parts, scale down."""
    if x.op != 'lin' and y.op != 'lin':
        return None
    w = x.w
    cx, tx = _parts(x)
    cy, ty = _parts(y)
    M = 1 << w
    lx, hx = interval(cx, tx, w)
    ly, hy = interval(cy, ty, w)
    if lx < 0 or hx >= M or ly < 0 or hy >= M:
        return None
    d = {}
    for t, k in tx:
        d[t] = sgn(k, w)
    for t, k in ty:
        d[t] = d.get(t, 0) - sgn(k, w)
    d = {t: k for t, k in d.items() if k}
    c = sgn(cx, w) - sgn(cy, w)       # x - y = c + sum
    lo = hi = c
    for t, k in d.items():
        if k > 0:
            lo += k * t.lb
            hi += k * t.ub
        else:
            lo += k * t.ub
            hi += k * t.lb
    if strict:
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
    else:
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
    import math
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        # sum*g < -c  <=>  sum < ceil(-c/g) ;  sum*g <= -c <=> sum <= floor(-c/g)
        if strict:
            c = -((-c + g - 1) // g)
        else:
            c = -((-c) // g)
    l = mk_lin(max(c, 0), {t: k for t, k in d.items() if k > 0}, w)
    r = mk_lin(max(-c, 0), {t: -k for t, k in d.items() if k < 0}, w)
    if l is x and r is y:
        return None
    if not (no_wrap(l) and no_wrap(r)):
        return None
    return ult(l, r) if strict else ule(l, r)


def ule(x, y):
    if x is y:
        return TRUE
    if x.ub <= y.lb:
        return TRUE
    if x.lb > y.ub:
        return FALSE
    if y.op == 'c' and y.a == 0:
        return eq(x, y)
    if x.op == 'c' and x.a == 1:
        return ne(y, const(0, y.w))
    r = _cmplin(x, y, False)
    if r is not None:
        return r
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return ule(x.a[0], y.a[0])
    if x.op == 'zext' and y.op == 'c' and y.a < 1 << x.a[0].w:
        return ule(x.a[0], const(y.a, x.a[0].w))
    if y.op == 'zext' and x.op == 'c' and x.a < 1 << y.a[0].w:
        return ule(const(x.a, y.a[0].w), y.a[0])
    return _mk('ule', (x, y), 0)


def _topbit(x):
    """The sign of t << c as a bit test on t."""
    if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        w = x.w
        q = tuple(x.a[1])[0][1] & ((1 << w) - 1)
        if q > 1 and q & (q - 1) == 0:
            return bnot(eq(and_(x, const(1 << (w - 1), w)), const(0, w)))
    return None


def slt(x, y):
    if x is y:
        return FALSE
    w = x.w
    h = 1 << (w - 1)
    if y.op == 'c' and y.a == 0:
        b = _topbit(x)
        if b is not None:
            return b
    if x.op == 'c' and x.a == (1 << w) - 1:
        b = _topbit(y)
        if b is not None:
            return bnot(b)
    if x.ub < h and y.ub < h:
        return ult(x, y)
    if x.op == 'c' and y.op == 'c':
        return boolc(sgn(x.a, w) < sgn(y.a, w))
    if x.ub < h and y.lb >= h:
        return FALSE
    if x.lb >= h and y.ub < h:
        return TRUE
    return _mk('slt', (x, y), 0)


def sle(x, y):
    if x is y:
        return TRUE
    w = x.w
    h = 1 << (w - 1)
    if x.ub < h and y.ub < h:
        return ule(x, y)
    if x.op == 'c' and y.op == 'c':
        return boolc(sgn(x.a, w) <= sgn(y.a, w))
    if x.ub < h and y.lb >= h:
        return FALSE
    if x.lb >= h and y.ub < h:
        return TRUE
    return _mk('sle', (x, y), 0)


BIN = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv,
       'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'and': and_, 'or': or_,
       'xor': xor_}


def rebuild(t, a):
    """Rebuild t with new children a (tuple in the order of children(t))."""
    o = t.op
    if o == 'lin':
        c, ts = t.a
        r = const(c, t.w)
        for (x, k), y in zip(ts, a):
            r = add(r, mulc(y, k))
        return r
    if o == 'uf':
        return uf(t.a[0], a, t.w)
    if o in BIN:
        return BIN[o](a[0], a[1])
    if o == 'zext':
        return zext(a[0], t.w)
    if o == 'sext':
        return sext(a[0], t.w)
    if o == 'ext':
        return ext(a[0], t.a[1], t.w)
    if o == 'cat':
        return cat(a[0], a[1])
    if o == 'ite':
        return ite(a[0], a[1], a[2])
    if o == 'band':
        return band(*a)
    if o == 'bor':
        return bor(*a)
    if o == 'bnot':
        return bnot(a[0])
    if o == 'eq':
        return eq(a[0], a[1])
    if o == 'ult':
        return ult(a[0], a[1])
    if o == 'ule':
        return ule(a[0], a[1])
    if o == 'slt':
        return slt(a[0], a[1])
    if o == 'sle':
        return sle(a[0], a[1])
    raise KeyError(o)


def children(t):
    o = t.op
    if o in ('c', 'b', 'v'):
        return ()
    if o == 'lin':
        return tuple(x for x, _ in t.a[1])
    if o == 'uf':
        return t.a[1]
    if o == 'ext':
        return (t.a[0],)
    return t.a


def subst(t, m, memo=None):
    """Replace terms (usually variables) by terms; m: {T: T}."""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def rec(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if not (fvs(t) & keys) and all(k.op == 'v' for k in keys):
            memo[t] = t
            return t
        ch = children(t)
        if not ch:
            r = t
        else:
            nc = tuple(rec(x) for x in ch)
            r = t if nc == ch else rebuild(t, nc)
        memo[t] = r
        return r
    return rec(t)


_E = frozenset()


# Prefix sums: 'sum:<k>'(n) stands for g(0)+...+g(n-1) modulo 2^64; name -> (g, index variable).
SUMS = {}
_SUMN = {}
_sums = {}
SUMV = None


def prefix_sum(g, t):
    """Name of the prefix-sum function of g (a 64-bit term over the variable t)."""
    global SUMV
    if SUMV is None:
        SUMV = var('sumidx', 64, 0, 1 << 46)
    g = subst(g, {t: SUMV})
    n = _SUMN.get(g)
    if n is None:
        n = _SUMN[g] = 'sum:%d' % len(SUMS)
        SUMS[n] = g
    return n


# universally quantified hypotheses: name of a specification function -> (flag, variable, second
# argument, body); instantiated wherever the function is applied (see vc_forall)
FORALL = {}
FLAGS = {}         # flag -> names


def sums(t):
    """Applications of prefix-sum functions and of specification functions (fn:) in t."""
    if not SUMS and not FORALL:
        return _E
    r = _sums.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _sums:
            st.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in _sums]
        if todo:
            st.extend(todo)
            continue
        r = frozenset().union(*[_sums[c] for c in ch]) if ch else _E
        if x.op == 'uf' and (x.a[0] in SUMS or x.a[0][:3] == 'fn:'):
            r = r | {x}
        _sums[x] = r
        st.pop()
    return _sums[t]


def size(t):
    """Number of different subterms."""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work.extend(children(x))
    return len(seen)


def occurs(x, t):
    seen, work = set(), [t]
    while work:
        y = work.pop()
        if y is x:
            return True
        if y not in seen:
            seen.add(y)
            work.extend(children(y))
    return False


def sum_at(n, k):
    return subst(SUMS[n], {SUMV: k})


def late(fl, x):
    """The hypothesis with flag fl at the application x."""
    if fl not in FLAGS or x.op != 'uf' or x.a[0] not in FLAGS[fl]:
        return []
    return [bor(bnot(f), subst(body, {q: x.a[1][0]}))
            for f, q, y, body in FORALL[x.a[0]] if f is fl and y is x.a[1][1]]


def sum_unary(x):
    """S(0) = 0;  S(k) <= k * max g  (while that does not wrap)."""
    n = x.a[0]
    if n not in SUMS:
        return [bor(bnot(fl), subst(body, {q: x.a[1][0]}))
                for fl, q, y, body in FORALL.get(n, ()) if y is x.a[1][1]]
    k, = x.a[1]
    z = const(0, 64)
    r = [bor(bnot(eq(k, z)), eq(x, z))]
    ubg = SUMS[n].ub
    lim = min((1 << 63) // max(ubg, 1), 1 << 46)
    if lim > 1:
        r.append(bor(ult(const(lim, 64), k), ule(x, mulc(k, ubg))))
    return r


def sum_pair(x, y):
    """S(a+1) = S(a) + g(a);  a < b implies S(a) + g(a) <= S(b)  (by induction on b)."""
    if x.a[0] != y.a[0] or x.a[0] not in SUMS:
        return []
    n, (a,) = x.a
    m, (b,) = y.a
    ubg = SUMS[n].ub
    lim = min((1 << 63) // max(ubg, 1), 1 << 46)
    r = []
    one = const(1, 64)
    for p, q, sp, sq in ((a, b, x, y), (b, a, y, x)):
        nx = add(sp, sum_at(n, p))
        r.append(bor(bnot(eq(q, add(p, one))), eq(sq, nx)))
        r.append(bor(bnot(eq(p, q)), eq(sp, sq)))
        if lim > 1:
            r.append(bor(ule(q, p), ult(const(lim, 64), q), ule(nx, sq)))
    return r


def fvs(t):
    """Free variables (frozenset of var terms)."""
    if t.fv is not None:
        return t.fv
    st = [t]
    while st:
        x = st[-1]
        if x.fv is not None:
            st.pop()
            continue
        if x.op == 'v':
            x.fv = frozenset((x,))
            st.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c.fv is None]
        if todo:
            st.extend(todo)
            continue
        if not ch:
            x.fv = _E
        elif len(ch) == 1:
            x.fv = ch[0].fv
        else:
            x.fv = frozenset().union(*[c.fv for c in ch])
        st.pop()
    return t.fv


class NoVal(Exception):
    pass


def evaluate(t, env, ufs, memo, strict=True):
    """Value of t under env {var: int/bool}, ufs {name: (dict, default)}."""
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == 'c' or o == 'b':
        return t.a
    if o == 'v':
        r = env.get(t)
        if r is None:
            if strict:
                raise NoVal(t)
            r = False if t.w == 0 else 0
        return r
    w = t.w
    E = lambda x: evaluate(x, env, ufs, memo, strict)
    if o == 'lin':
        c, ts = t.a
        for x, k in ts:
            c += k * E(x)
        r = c & ((1 << w) - 1)
    elif o == 'ite':
        r = E(t.a[1]) if E(t.a[0]) else E(t.a[2])
    elif o == 'band':
        r = all(E(x) for x in t.a)
    elif o == 'bor':
        r = any(E(x) for x in t.a)
    elif o == 'bnot':
        r = not E(t.a[0])
    elif o == 'uf':
        f = ufs.get(t.a[0])
        args = tuple(E(x) for x in t.a[1])
        if f is None:
            if strict:
                raise NoVal(t)
            r = 0 if w else False
        else:
            r = f[0].get(args)
            if r is None:
                r = f[1]
    elif o == 'ext':
        r = (E(t.a[0]) >> t.a[1]) & ((1 << w) - 1)
    elif o == 'zext':
        r = E(t.a[0])
    elif o == 'sext':
        r = sgn(E(t.a[0]), t.a[0].w) & ((1 << w) - 1)
    elif o == 'cat':
        r = (E(t.a[0]) << t.a[1].w) | E(t.a[1])
    else:
        x, y = E(t.a[0]), E(t.a[1])
        sw = t.a[0].w
        m = (1 << w) - 1 if w else 0
        if o == 'eq':
            r = x == y
        elif o == 'ult':
            r = x < y
        elif o == 'ule':
            r = x <= y
        elif o == 'slt':
            r = sgn(x, sw) < sgn(y, sw)
        elif o == 'sle':
            r = sgn(x, sw) <= sgn(y, sw)
        elif o == 'mul':
            r = (x * y) & m
        elif o == 'udiv':
            r = x // y if y else m
        elif o == 'urem':
            r = x % y if y else x
        elif o == 'and':
            r = x & y
        elif o == 'or':
            r = x | y
        elif o == 'xor':
            r = x ^ y
        elif o == 'shl':
            r = (x << y) & m if y < w else 0
        elif o == 'lshr':
            r = x >> y if y < w else 0
        elif o == 'ashr':
            r = (sgn(x, w) >> min(y, w - 1)) & m
        elif o == 'sdiv':
            a, b = sgn(x, w), sgn(y, w)
            if b == 0:
                r = 1 if a < 0 else m
            else:
                q = abs(a) // abs(b)
                r = (q if (a < 0) == (b < 0) else -q) & m
        elif o == 'srem':
            a, b = sgn(x, w), sgn(y, w)
            if b == 0:
                r = x
            else:
                q = abs(a) % abs(b)
                r = (-q if a < 0 else q) & m
        else:
            raise KeyError(o)
    memo[t] = r
    return r
