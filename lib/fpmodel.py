"""Reference model of binary floating point, over exact rationals.

A format is (es, ms, mode, ieee).  A model value is one of
    ('nan',)   ('inf', s)   ('fin', s, q)      s in {0,1} sign, q Fraction >= 0
Nothing here looks at hwtypes or at gmpy2.
"""
from fractions import Fraction
from math import isqrt

NAN = ('nan',)


def inf(s):
    return ('inf', s)


def fin(s, q):
    return ('fin', s, Fraction(q))


class Fmt:
    def __init__(self, es, ms, mode, ieee):
        self.es, self.ms, self.mode, self.ieee = es, ms, mode, ieee
        self.bias = (1 << (es - 1)) - 1
        self.emin = 1 - self.bias            # exponent of the smallest normal
        self.emax = self.bias                # exponent of the largest normal
        self.size = 1 + es + ms
        self.min_normal = pow2(self.emin)
        self.max_finite = pow2(self.emax) * (2 - pow2(-ms))

    # ---- rounding -------------------------------------------------
    def _pick(self, s, q, lo, hi, lo_even, mode):
        """q in (lo, hi): choose."""
        if mode == 'RTZ':
            return lo
        if mode == 'RTP':
            return lo if s else hi
        if mode == 'RTN':
            return hi if s else lo
        if mode == 'AWAY':                   # directed: always away from zero
            return hi
        d = (q - lo) - (hi - q)
        if d < 0:
            return lo
        if d > 0:
            return hi
        if mode == 'RNA':
            return hi
        return lo if lo_even else hi         # RNE

    def round(self, s, q, mode=None):
        """Correctly rounded (s, q) -> model value of this format."""
        mode = mode or self.mode
        q = Fraction(q)
        if q == 0:
            return fin(s, 0)
        e = flog2(q)
        if e < self.emin:
            if not self.ieee:
                # representable neighbours: 0 and the smallest normal
                r = self._pick(s, q, Fraction(0), self.min_normal, True, mode)
                return fin(s, r)
            e = self.emin
        ulp = pow2(e - self.ms)
        n, rem = divmod(q, ulp)
        if rem == 0:
            r = q
        else:
            r = self._pick(s, q, n * ulp, (n + 1) * ulp, n % 2 == 0, mode)
        if r > self.max_finite:
            # overflow: r is what an unbounded exponent would give
            if mode == 'RTZ' or (mode == 'RTP' and s) or (mode == 'RTN' and not s):
                return fin(s, self.max_finite)
            return inf(s)
        return fin(s, r)

    def round_signed(self, x, zero_sign=0, mode=None):
        x = Fraction(x)
        if x == 0:
            return fin(zero_sign, 0)
        return self.round(int(x < 0), abs(x), mode)

    # ---- bits -----------------------------------------------------
    def decode(self, bits):
        """Meaning of a bit pattern (before any non-IEEE flushing)."""
        m = bits & ((1 << self.ms) - 1)
        e = (bits >> self.ms) & ((1 << self.es) - 1)
        s = (bits >> (self.ms + self.es)) & 1
        if e == (1 << self.es) - 1:
            return NAN if m else inf(s)
        if e == 0:
            return fin(s, Fraction(m, 1 << self.ms) * pow2(self.emin))
        return fin(s, (1 + Fraction(m, 1 << self.ms)) * pow2(e - self.bias))

    def encode(self, v):
        """Bit pattern of a representable non-NaN value."""
        top = ((1 << self.es) - 1) << self.ms
        if v[0] == 'inf':
            return (v[1] << (self.es + self.ms)) | top
        _, s, q = v
        if q == 0:
            return s << (self.es + self.ms)
        e = flog2(q)
        if e < self.emin:
            m = q / pow2(self.emin - self.ms)
            assert m.denominator == 1
            return (s << (self.es + self.ms)) | int(m)
        m = (q / pow2(e) - 1) * (1 << self.ms)
        assert m.denominator == 1, 'not representable'
        return (s << (self.es + self.ms)) | ((e + self.bias) << self.ms) | int(m)

    def representable(self, v):
        if v[0] != 'fin':
            return v[0] == 'inf' or self.ieee
        r = self.round(v[1], v[2])
        return r == v

    def is_subnormal(self, v):
        return v[0] == 'fin' and 0 < v[2] < self.min_normal


def pow2(k):
    return Fraction(1 << k) if k >= 0 else Fraction(1, 1 << -k)


def flog2(q):
    """floor(log2(q)) for Fraction q > 0."""
    n, d = q.numerator, q.denominator
    k = n.bit_length() - d.bit_length()
    if q < pow2(k):
        k -= 1
    return k


def sval(v):
    """signed rational of a finite value"""
    return -v[2] if v[1] else v[2]


def zsign(fmt, s1, s2, mode=None):
    """sign of an exact zero sum of addends with signs s1, s2"""
    if s1 == s2:
        return s1
    return 1 if (mode or fmt.mode) == 'RTN' else 0


def neg(v):
    return v if v[0] == 'nan' else (v[0], 1 - v[1]) + v[2:]


def add(f, a, b, mode=None):
    if a == NAN or b == NAN:
        return NAN
    if a[0] == 'inf':
        return NAN if (b[0] == 'inf' and b[1] != a[1]) else a
    if b[0] == 'inf':
        return b
    x = sval(a) + sval(b)
    if x == 0:
        if a[2] == 0 and b[2] == 0:
            return fin(zsign(f, a[1], b[1], mode), 0)
        return fin(zsign(f, 0, 1, mode), 0)
    return f.round_signed(x, mode=mode)


def sub(f, a, b, mode=None):
    return add(f, a, neg(b), mode)


def mul(f, a, b, mode=None):
    if a == NAN or b == NAN:
        return NAN
    s = a[1] ^ b[1]
    if a[0] == 'inf' or b[0] == 'inf':
        if (a[0] == 'fin' and a[2] == 0) or (b[0] == 'fin' and b[2] == 0):
            return NAN
        return inf(s)
    q = a[2] * b[2]
    return fin(s, 0) if q == 0 else f.round(s, q, mode)


def div(f, a, b, mode=None):
    if a == NAN or b == NAN:
        return NAN
    s = a[1] ^ b[1]
    if a[0] == 'inf':
        return NAN if b[0] == 'inf' else inf(s)
    if b[0] == 'inf':
        return fin(s, 0)
    if b[2] == 0:
        return NAN if a[2] == 0 else inf(s)
    return fin(s, 0) if a[2] == 0 else f.round(s, a[2] / b[2], mode)


def fma(f, a, b, c, mode=None):
    """a*b + c, one rounding"""
    if NAN in (a, b, c):
        return NAN
    s = a[1] ^ b[1]
    if a[0] == 'inf' or b[0] == 'inf':
        if (a[0] == 'fin' and a[2] == 0) or (b[0] == 'fin' and b[2] == 0):
            return NAN
        if c[0] == 'inf' and c[1] != s:
            return NAN
        return inf(s)
    if c[0] == 'inf':
        return c
    p = a[2] * b[2]
    x = (-p if s else p) + sval(c)
    if x == 0:
        if p == 0 and c[2] == 0:
            return fin(zsign(f, s, c[1], mode), 0)
        return fin(zsign(f, 0, 1, mode), 0)
    return f.round_signed(x, mode=mode)


def sqrt(f, a, mode=None):
    if a == NAN:
        return NAN
    if a[0] == 'fin' and a[2] == 0:
        return a
    if a[1]:
        return NAN
    if a[0] == 'inf':
        return a
    q = a[2]
    # bracket the root finely enough that rounding the bracket's midpoint is
    # the rounding of the root: a root is either rational (exact) or irrational
    n, d = q.numerator, q.denominator
    rn, rd = isqrt(n), isqrt(d)
    if rn * rn == n and rd * rd == d:
        return f.round(0, Fraction(rn, rd), mode)
    k = 4 * f.ms + 64 + max(0, -2 * flog2(q))
    t = isqrt((n << (2 * k)) // d)
    # root in (t, t+1) / 2^k strictly (irrational): use the middle as sticky
    return f.round(0, Fraction(2 * t + 1, 1 << (k + 1)), mode)


def rint(a, mode):
    """a rounded to an integral value (sign kept on zero), as a rational"""
    if a[0] != 'fin' or a[2] == 0:
        return a
    s, q = a[1], a[2]
    n = q.numerator // q.denominator
    if q == n:
        return a
    lo, hi = Fraction(n), Fraction(n + 1)
    r = Fmt._pick(None, s, q, lo, hi, n % 2 == 0, mode)
    return fin(s, r)


def rem(f, a, b, mode=None):
    """IEEE remainder: a - b*n, n = a/b to nearest, ties to even (exact)"""
    if a == NAN or b == NAN or a[0] == 'inf':
        return NAN
    if b[0] == 'inf':
        return a
    if b[2] == 0:
        return NAN
    x, y = sval(a), sval(b)
    q = x / y
    n = q.numerator // q.denominator
    fr = q - n
    if fr > Fraction(1, 2) or (fr == Fraction(1, 2) and n % 2):
        n += 1
    r = x - y * n
    if r == 0:
        return fin(a[1], 0)
    return f.round_signed(r, mode=mode)


def cmp(a, b):
    """-1/0/1 or None when unordered"""
    if a == NAN or b == NAN:
        return None

    def key(v):
        if v[0] == 'inf':
            return (-1 if v[1] else 1, Fraction(0))
        return (0, sval(v))
    ka, kb = key(a), key(b)
    return (ka > kb) - (ka < kb)
