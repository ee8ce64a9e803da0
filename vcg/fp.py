"""Floating point: exact evaluation of constant operands (IEEE binary32/64, round to nearest even);
everything else is an uninterpreted function of its operands."""
import math
import struct
from . import terms as tm


def dec(v, w):
    return struct.unpack('<f' if w == 32 else '<d', v.to_bytes(w // 8, 'little'))[0]


def enc(x, w):
    try:
        return int.from_bytes(struct.pack('<f' if w == 32 else '<d', x), 'little')
    except OverflowError:
        return int.from_bytes(struct.pack('<f' if w == 32 else '<d', math.copysign(math.inf, x)),
                              'little')


def _c(*ts):
    return all(t.op == 'c' and t.w in (32, 64) for t in ts)


def binary(op, x, y):
    w = x.w
    if _c(x, y) and w == 64 or _c(x, y) and op in ('add', 'sub', 'mul', 'div'):
        # binary32: one operation in binary64 followed by rounding is exact (double rounding is
        # innocuous for + - * / as 53 >= 2*24+2)
        a, b = dec(x.a, w), dec(y.a, w)
        try:
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif b != 0:
                r = a / b
            elif a == 0 or a != a:
                r = math.nan
            else:
                r = math.copysign(math.inf, a) * math.copysign(1, b)
            return tm.const(enc(r, w), w)
        except OverflowError:
            pass
    return tm.uf('fp.%s.%d' % (op, w), (x, y), w)


def compare(op, x, y):
    if _c(x, y):
        a, b = dec(x.a, x.w), dec(y.a, y.w)
        return tm.boolc({'uno': a != a or b != b, 'oeq': a == b, 'ogt': a > b, 'oge': a >= b,
                         'olt': a < b, 'ole': a <= b}[op])
    return tm.uf('fp.%s.%d' % (op, x.w), (x, y), 0)


def convert(op, x, w):
    """Returns (term, valid): valid is False for a conversion with undefined result."""
    f = tm.uf('fp.%s.%d.%d' % (op, x.w, w), (x,), w)
    if x.op != 'c' or (op not in ('uitofp', 'sitofp') and x.w not in (32, 64)):
        return f, True
    if op in ('uitofp', 'sitofp'):
        v = x.a
        if op == 'sitofp' and v >> (x.w - 1):
            v -= 1 << x.w
        if w == 64 or abs(v) < 1 << 24:
            return tm.const(enc(float(v), w), w), True
        return f, True
    d = dec(x.a, x.w)
    if op in ('fptrunc', 'fpext'):
        return tm.const(enc(d, w), w), True
    if d != d or math.isinf(d):
        return f, False
    i = int(d)
    lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if not lo <= i <= hi:
        return f, False
    return tm.const(i % (1 << w), w), True


def unary(op, x):
    if _c(x):
        d = dec(x.a, x.w)
        if d != d or math.isinf(d):
            return x
        s = math.copysign(1, d)
        if op == 'round':
            r = math.floor(abs(d))
            r = (r + 1 if abs(d) - r >= 0.5 else r)
            r = math.copysign(float(r), s)
        elif op in ('floor', 'ceil', 'trunc'):
            r = math.copysign(float(getattr(math, op)(d)), s)
        elif op in ('rint', 'nearbyint'):
            r = math.copysign(float(round(d)), s)
        elif op == 'fabs':
            r = abs(d)
        elif op == 'sqrt' and d >= 0 and x.w == 64:
            r = math.sqrt(d)
        else:
            return tm.uf('fp.%s.%d' % (op, x.w), (x,), x.w)
        return tm.const(enc(r, x.w), x.w)
    return tm.uf('fp.%s.%d' % (op, x.w), (x,), x.w)
