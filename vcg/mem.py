"""Object memory: per-object immutable write logs over byte offsets."""
from . import terms as tm
from .terms import const, add, sub, ult, ule, eq, ite, band, bor, bnot


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('id', 'name', 'base', 'size', 'align', 'kind', 'ro', 'api', 'data', 'shared')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Base:
    """kind: 'uf' arbitrary contents | 'zero'"""
    __slots__ = ('kind', 'name', 'gran', 'prev', 'extra')

    def __init__(self, kind, name=None, gran=1, extra=()):
        self.kind, self.name, self.gran, self.prev = kind, name, gran, None
        self.extra = tuple(extra)


class Cells:
    __slots__ = ('prev', 'd', 'sealed')

    def __init__(self, prev, d):
        self.prev, self.d, self.sealed = prev, d, False


class SymW:
    __slots__ = ('prev', 'off', 'n', 'val', 'sealed')

    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val
        self.sealed = False


class Bulk:
    """for j in [0,count): n bytes at lo + stride*j hold val[jv := j]"""
    __slots__ = ('prev', 'lo', 'stride', 'count', 'n', 'jv', 'val')

    def __init__(self, prev, lo, stride, count, n, jv, val):
        self.prev, self.lo, self.stride, self.count = prev, lo, stride, count
        self.n, self.jv, self.val = n, jv, val


class Copy:
    """cnt bytes at lo are a copy of src (a log node) at slo"""
    __slots__ = ('prev', 'lo', 'cnt', 'src', 'slo')

    def __init__(self, prev, lo, cnt, src, slo):
        self.prev, self.lo, self.cnt, self.src, self.slo = prev, lo, cnt, src, slo


class Fill:
    __slots__ = ('prev', 'lo', 'cnt', 'val')

    def __init__(self, prev, lo, cnt, val):
        self.prev, self.lo, self.cnt, self.val = prev, lo, cnt, val


def c64(v):
    return const(v, 64)


ZERO = c64(0)


def bytes_of(val, k, n):
    return tm.ext(val, 8 * k, 8 * n)


def store(m, off, n, val):
    assert val.w == 8 * n, (val.w, n)
    if off.op == 'c':
        o = off.a
        if isinstance(m, Cells) and not m.sealed:
            d = dict(m.d)
            prev = m.prev
        else:
            d = {}
            prev = m
        # remove / split overlapped cells
        for k in range(o - 63, o + n):
            c = d.get(k)
            if c is None:
                continue
            w, v = c
            if k + w <= o:
                continue
            del d[k]
            if k < o:
                d[k] = (o - k, bytes_of(v, 0, o - k))
            if k + w > o + n:
                d[o + n] = (k + w - o - n, bytes_of(v, o + n - k, k + w - o - n))
        # very wide cells (aggregates) are never stored, so 63 bytes back is enough
        d[o] = (n, val)
        return Cells(prev, d)
    if isinstance(m, SymW) and m.off is off and m.n == n and not m.sealed:
        return SymW(m.prev, off, n, val)
    return SymW(m, off, n, val)


def pow2(n):
    return n & (n - 1) == 0


def aligned(t, n):
    return pow2(n) and tm.trailz(t) >= n.bit_length() - 1


def load(m, off, n, must, assume=()):
    """must(cond, assume) -> bool: proved under the path condition."""
    w = 8 * n
    while True:
        if isinstance(m, Cells):
            if off.op == 'c':
                o = off.a
                c = m.d.get(o)
                if c is not None:
                    if c[0] == n:
                        return c[1]
                    if c[0] > n:
                        return bytes_of(c[1], 0, n)
                hit = []
                for k in range(o - 63, o + n):
                    c = m.d.get(k)
                    if c is not None and k + c[0] > o:
                        hit.append((k, c))
                if not hit:
                    m = m.prev
                    continue
                if len(hit) == 1:
                    k, (cw, v) = hit[0]
                    if k <= o and k + cw >= o + n:
                        return bytes_of(v, o - k, n)
                # split at the boundaries
                pts = sorted({o, o + n} | {p for k, (cw, v) in hit for p in (k, k + cw)
                                           if o < p < o + n})
                if len(pts) == 2:
                    pts = [o, o + 1, o + n]
                r = None
                for a, b in zip(pts, pts[1:]):
                    x = load(m, c64(a), b - a, must, assume)
                    r = x if r is None else tm.cat(x, r)
                return r
            # symbolic offset over constant cells
            cand = []
            for k, (cw, v) in m.d.items():
                d = sub(off, c64(k))
                if off.lb >= k + cw or off.ub + n <= k:
                    continue
                if cw == n and aligned(d, n):
                    cand.append((k, v, eq(off, c64(k))))
                    continue
                # offset residue may exclude the cell
                if must(bor(ule(c64(k + cw), off), ule(add(off, c64(n)), c64(k))), assume):
                    continue
                if cw == n and must(bor(eq(off, c64(k)), ule(c64(k + cw), off),
                                        ule(add(off, c64(n)), c64(k))), assume):
                    cand.append((k, v, eq(off, c64(k))))
                    continue
                cand = None
                break
            if cand is None:
                if n == 1:
                    rest = load(m.prev, off, 1, must, assume)
                    for k, (cw, v) in sorted(m.d.items()):
                        for b in range(cw):
                            rest = ite(eq(off, c64(k + b)), bytes_of(v, b, 1), rest)
                    return rest
                return split(m, off, n, must, assume)
            cand = [(k, v, c) for k, v, c in cand if c is not tm.FALSE]
            if not cand:
                m = m.prev
                continue
            for k, v, c in cand:
                if c is tm.TRUE:
                    return v
            if len(cand) == 1 and must(cand[0][2], assume):
                return cand[0][1]
            live = [(k, v, c) for k, v, c in cand if not must(bnot(c), assume)] \
                if len(cand) <= 8 else cand
            if not live:
                m = m.prev
                continue
            rest = load(m.prev, off, n, must, tuple(assume) + tuple(bnot(c) for _, _, c in live))
            for k, v, c in reversed(live):
                rest = ite(c, v, rest)
            return rest
        if isinstance(m, SymW):
            d = sub(off, m.off)
            if d.op == 'c':
                k = tm.sgn(d.a, 64)
                if k >= m.n or k + n <= 0:
                    m = m.prev
                    continue
                if k >= 0 and k + n <= m.n:
                    return bytes_of(m.val, k, n)
                return split(m, off, n, must, assume)
            if m.n == n and aligned(d, n):
                c = eq(off, m.off)
            else:
                dis = bor(ule(add(m.off, c64(m.n)), off), ule(add(off, c64(n)), m.off))
                if must(dis, assume):
                    m = m.prev
                    continue
                c = eq(off, m.off)
                if m.n != n or not must(bor(c, dis), assume):
                    if n == 1:
                        r = load(m.prev, off, 1, must, assume)
                        for b in range(m.n):
                            r = ite(eq(off, add(m.off, c64(b))), bytes_of(m.val, b, 1), r)
                        return r
                    return split(m, off, n, must, assume)
            if c is tm.FALSE:
                m = m.prev
                continue
            if must(c, assume):
                return m.val
            if must(bnot(c), assume):
                m = m.prev
                continue
            return ite(c, m.val, load(m.prev, off, n, must, tuple(assume) + (bnot(c),)))
        if isinstance(m, Bulk):
            rel = sub(off, m.lo)
            S = m.stride
            total = tm.mulc(m.count, S)
            if rel.op == 'c' and tm.sgn(rel.a, 64) < 0:
                if tm.sgn(rel.a, 64) + n <= 0:
                    m = m.prev
                    continue
                return split(m, off, n, must, assume)
            ex = _signed_parts(rel, S)
            if ex is not None:
                # rel = S*q + k over the integers, so only element q can be involved
                q, k = ex
                if k >= m.n and k + n <= S:
                    m = m.prev
                    continue
                if k + n > m.n:
                    return split(m, off, n, must, assume)
                inr = ult(q, m.count)
                if inr is tm.FALSE or must(bnot(inr), assume):
                    m = m.prev
                    continue
                v = bytes_of(tm.subst(m.val, {m.jv: q}), k, n)
                if inr is tm.TRUE or must(inr, assume):
                    return v
                return ite(inr, v, load(m.prev, off, n, must, tuple(assume) + (bnot(inr),)))
            inr = ult(rel, total)
            if inr is tm.FALSE and n == 1:
                m = m.prev
                continue
            res = tm.urem(rel, c64(S))
            if S % n == 0 and m.n == n and pow2(n) and aligned(rel, n) and pow2(S):
                pass
            if res.op != 'c':
                # outside the whole range?
                if must(bor(ule(add(m.lo, total), off), ule(add(off, c64(n)), m.lo)), assume):
                    m = m.prev
                    continue
                if m.n == S:
                    for k in ([0] if n == m.n else range(0, S - n + 1)):
                        if must(bor(bnot(inr), eq(res, c64(k))), assume):
                            res = c64(k)
                            break
                else:
                    for k in range(0, S):
                        if must(bor(bnot(inr), eq(res, c64(k))), assume):
                            res = c64(k)
                            break
                if res.op != 'c':
                    if n == 1 and m.n == S:
                        idx = tm.udiv(rel, c64(S))
                        v = tm.subst(m.val, {m.jv: idx})
                        r = bytes_of(v, 0, 1)
                        for b in range(1, m.n):
                            r = ite(eq(res, c64(b)), bytes_of(v, b, 1), r)
                        return ite(inr, r, load(m.prev, off, 1, must, assume))
                    if n == 1:
                        raise Unsupported('bulk residue')
                    return split(m, off, n, must, assume)
            k = res.a
            if k >= m.n and k + n <= S:
                m = m.prev
                continue
            if k + n > m.n:
                return split(m, off, n, must, assume)
            # start may be just below lo with the access straddling into the range
            if n > 1 and not (pow2(n) and aligned(rel, n)) and not must(
                    bor(inr, ule(add(off, c64(n)), m.lo), ule(add(m.lo, total), off)), assume):
                return split(m, off, n, must, assume)
            idx = tm.udiv(rel, c64(S))
            if idx.op in ('lshr', 'udiv'):
                # exact division: rel = S*idx + k
                q = _exact(rel, S, k)
                if q is not None and must(bor(bnot(inr), ult(q, m.count)), assume):
                    idx = q
            if inr is tm.FALSE or must(bnot(inr), assume):
                m = m.prev
                continue
            v = bytes_of(tm.subst(m.val, {m.jv: idx}), k, n)
            if inr is tm.TRUE or must(inr, assume):
                return v
            return ite(inr, v, load(m.prev, off, n, must, tuple(assume) + (bnot(inr),)))
        if isinstance(m, (Copy, Fill)):
            rel = sub(off, m.lo)
            if m.cnt.op == 'c' and m.cnt.a == 0:
                m = m.prev
                continue
            inr = ult(rel, m.cnt)
            if n > 1:
                ok = pow2(n) and aligned(rel, n) and aligned(m.cnt, n)
                if rel.op == 'c' and m.cnt.op == 'c':
                    r = tm.sgn(rel.a, 64)
                    if r >= 0 and r + n <= m.cnt.a:
                        ok, inr = True, tm.TRUE
                    elif r >= m.cnt.a or r + n <= 0:
                        ok, inr = True, tm.FALSE
                    else:
                        ok = False
                if not ok:
                    full = band(inr, ule(add(rel, c64(n)), m.cnt), ult(rel, add(rel, c64(n))))
                    out = bor(ule(add(off, c64(n)), m.lo), ule(add(m.lo, m.cnt), off))
                    if not must(bor(full, out), assume):
                        return split(m, off, n, must, assume)
                    inr = band(inr)
                    if must(out, assume):
                        m = m.prev
                        continue
            if inr is tm.FALSE:
                m = m.prev
                continue
            if inr is not tm.TRUE and must(bnot(inr), assume):
                m = m.prev
                continue
            if isinstance(m, Fill):
                v = m.val
                for _ in range(n - 1):
                    v = tm.cat(m.val, v)
            else:
                v = load(m.src, add(m.slo, rel), n, must, tuple(assume) + (inr,))
            if inr is tm.TRUE or must(inr, assume):
                return v
            return ite(inr, v, load(m.prev, off, n, must, tuple(assume) + (bnot(inr),)))
        if isinstance(m, Base):
            if m.kind == 'zero':
                return const(0, w)
            g = m.gran
            if g == 1:
                if n == 1:
                    return tm.uf(m.name, (off,) + m.extra, 8)
            res = tm.and_(off, c64(g - 1)) if g > 1 else ZERO
            if res.op != 'c':
                for k in range(g):
                    if must(eq(res, c64(k)), assume):
                        res = c64(k)
                        break
                else:
                    if n == 1:
                        b = sub(off, res)
                        v = tm.uf(m.name, (b,) + m.extra, 8 * g)
                        r = bytes_of(v, 0, 1)
                        for k in range(1, g):
                            r = ite(eq(res, c64(k)), bytes_of(v, k, 1), r)
                        return r
                    return split(m, off, n, must, assume)
            k = res.a
            b = sub(off, c64(k))
            if k + n <= g:
                return bytes_of(tm.uf(m.name, (b,) + m.extra, 8 * g), k, n)
            r = None
            pos = 0
            while pos < n:
                take = min(g - k, n - pos)
                x = bytes_of(tm.uf(m.name, (b,) + m.extra, 8 * g), k, take)
                r = x if r is None else tm.cat(x, r)
                pos += take
                k = 0
                b = add(b, c64(g))
            return r
        raise Unsupported('memory node %r' % (m,))


def split(m, off, n, must, assume):
    h = n // 2 if n % 2 == 0 else 1
    if n == 1:
        raise Unsupported('byte load')
    lo = load(m, off, h, must, assume)
    hi = load(m, add(off, c64(h)), n - h, must, assume)
    return tm.cat(hi, lo)


def _signed_parts(rel, S):
    """(q, k): rel = S*q + k over the integers (rel read as a signed number), 0 <= k < S."""
    c, ts = tm._parts(rel)
    c = tm.sgn(c, 64)
    lo = hi = c
    d = {}
    for t, q in ts:
        q = tm.sgn(q, 64)
        if q % S:
            return None
        d[t] = q // S
        a, b = q * t.lb, q * t.ub
        lo += min(a, b)
        hi += max(a, b)
    if lo <= -(1 << 62) or hi >= 1 << 62:
        return None
    return tm.mk_lin(c // S, d, 64), c % S


def _exact(rel, S, k):
    """q with rel = S*q + k as machine numbers, when the linear form divides syntactically."""
    r = sub(rel, c64(k))
    c, ts = tm._parts(r)
    c = tm.sgn(c, 64)
    if c % S:
        return None
    d = {}
    for t, q in ts:
        q = tm.sgn(q, 64)
        if q % S:
            return None
        d[t] = q // S
    return tm.mk_lin(c // S, d, 64)


def subst_mem(m, mp, memo=None):
    """Apply a term substitution to a whole log (used for loop closed forms)."""
    if memo is None:
        memo = {}
    r = memo.get(id(m))
    if r is not None:
        return r
    S = lambda t: tm.subst(t, mp)
    if isinstance(m, Base):
        r = Base(m.kind, m.name, m.gran, [S(e) for e in m.extra]) if m.extra else m
    else:
        p = subst_mem(m.prev, mp, memo)
        if isinstance(m, Cells):
            r = Cells(p, {k: (w, S(v)) for k, (w, v) in m.d.items()})
            r.sealed = m.sealed
        elif isinstance(m, SymW):
            r = SymW(p, S(m.off), m.n, S(m.val))
        elif isinstance(m, Bulk):
            r = Bulk(p, S(m.lo), m.stride, S(m.count), m.n, m.jv, S(m.val))
        elif isinstance(m, Copy):
            r = Copy(p, S(m.lo), S(m.cnt), subst_mem(m.src, mp, memo), S(m.slo))
        else:
            r = Fill(p, S(m.lo), S(m.cnt), S(m.val))
    memo[id(m)] = r
    return r
