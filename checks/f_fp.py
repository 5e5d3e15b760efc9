"""F01 arithmetic, F02 bit patterns and classes, F03 construction and
conversion, F04 comparisons and integers, F05 histories, F06 types, all against
the exact-rational model in lib/fpmodel."""
import functools
import itertools
import operator
import random
import threading
import warnings
from fractions import Fraction

from hypothesis import strategies as st

from lib import bv, fpmodel as fp, gen
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)

warnings.simplefilter('ignore')

MODES = ('RNE', 'RNA', 'RTP', 'RTN', 'RTZ')
RNA_FINDING = 'rna-rounds-away'
RULE = ('a case is non-trivial unless every operand is an exact zero; labels count '
        'rounded, overflowing, subnormal, exact and special results')


# ------------------------------------------------------------------ helpers
@functools.lru_cache(None)
def model(es, ms, mode, ieee):
    return fp.Fmt(es, ms, mode, ieee)


_subs = {}


def T_of(fmt, kind='plain'):
    """the FPVector type of (es, ms, mode, ieee); kind: plain, sub (a subclass
    of the bound type), unsub (a bound subclass of FPVector)"""
    import hwtypes as h
    es, ms, mode, ieee = fmt
    idx = (es, ms, getattr(h.RoundingMode, mode), ieee)
    if kind == 'plain':
        return h.FPVector[idx]
    k = (fmt, kind)
    if k not in _subs:
        if kind == 'sub':
            _subs[k] = type('MyFP', (h.FPVector[idx],), {})
        else:
            if 'base' not in _subs:
                _subs['base'] = type('MyFPV', (h.FPVector,), {})
            _subs[k] = _subs['base'][idx]
    return _subs[k]


def from_bits(T, bits):
    import hwtypes as h
    return T.reinterpret_from_bv(h.BitVector[T.size](bits))


def bits_of(x):
    return x.reinterpret_as_bv().as_uint()


def get(f, x):
    """model value of x, read back through its bit pattern"""
    return f.decode(bits_of(x))


def canon(f, bits):
    """value a bit pattern denotes after non-IEEE flushing"""
    v = f.decode(bits)
    if not f.ieee:
        if v == fp.NAN:
            return fp.inf(0)
        if f.is_subnormal(v):
            return fp.fin(v[1], 0)
    return v


def show(v):
    if v[0] == 'fin':
        q = v[2]
        if max(q.numerator, q.denominator).bit_length() > 2000:
            return f'{"-" if v[1] else "+"}2^{fp.flog2(q)}..'
        return f'{"-" if v[1] else "+"}{q}'
    return str(v)


def agree(f, x, want, what, away=None):
    """x is the value `want` (a NaN of a non-IEEE format is an infinity of
    either sign).  away(): what rounding away from zero would give."""
    got = get(f, x)
    if want == fp.NAN and not f.ieee:
        if got[0] == 'inf':
            return
        raise Violation(f'{what}: got {show(got)}, expected an infinity for NaN')
    if got == want:
        return
    if f.mode == 'RNA' and away is not None:
        a = away()
        if got == a or (a == fp.NAN and not f.ieee and got[0] == 'inf'):
            raise Violation(f'{what}: got {show(got)} (rounded away from zero), '
                            f'nearest is {show(want)}', finding=RNA_FINDING)
    raise Violation(f'{what}: got {show(got)}, expected {show(want)}')


@st.composite
def formats(draw, big=True):
    r = draw(st.integers(0, 9))
    if r < 5:
        es, ms = draw(st.integers(2, 4)), draw(st.integers(1, 5))
    elif r < 8 or not big:
        es, ms = draw(st.sampled_from([(5, 10), (8, 23), (8, 7), (11, 52), (4, 3),
                                       (5, 2), (6, 9)]))
    else:
        es, ms = draw(st.integers(2, 13)), draw(st.integers(1, 80))
        d = gen.dict_ints(6, 80)
        w = draw(st.integers(0, 3))
        if d and w < 2:
            ms = draw(st.sampled_from(d))
        elif w == 2:                         # far beyond what hardware has
            es, ms = draw(st.sampled_from([(15, 112), (15, 64), (15, 112), (14, 3),
                                           (9, 150), (5, 255), (12, 128), (16, 236)]))
    return es, ms, draw(st.sampled_from(MODES)), draw(st.booleans())


def special_bits(es, ms):
    top = (1 << es) - 1
    bias = (1 << (es - 1)) - 1
    one = bias << ms
    out = [0, 1, 2, (1 << ms) - 1, 1 << ms, (1 << ms) + 1, one, one - 1, one + 1,
           one | (1 << (ms - 1)), (bias + 1) << ms, ((top - 1) << ms) | ((1 << ms) - 1),
           (top - 1) << ms, top << ms, (top << ms) | 1, (top << ms) | ((1 << ms) - 1)]
    e = bias + ms
    if e < top:
        out += [e << ms, (e << ms) | 1, (e - 1) << ms, ((e - 1) << ms) | 1,
                ((e - 1) << ms) | ((1 << ms) - 1)]
    lim = (1 << (es + ms)) - 1
    return [b for b in out if 0 <= b <= lim]


@st.composite
def operand(draw, fmt, other=None, canonical=True):
    es, ms, mode, ieee = fmt
    top = (1 << es) - 1
    bias = (1 << (es - 1)) - 1
    mag = (1 << (es + ms)) - 1
    r = draw(st.integers(0, 11))
    if r < 3:
        # moderate exponents, so that sums and products stay in range
        span = draw(st.integers(0, min(bias, 2 * ms + 3)))
        e = bias + draw(st.integers(-span, span))
        b = (max(0, min(top - 1, e)) << ms) | draw(st.integers(0, (1 << ms) - 1))
    elif r < 5:
        b = draw(st.sampled_from(special_bits(es, ms)[::-1]))
    elif r < 7 and other is not None:
        b = (other & mag) + draw(st.integers(-3, 3))
    elif r == 7 and other is not None:
        # same significand, exponent moved: alignment and cancellation
        e = ((other >> ms) & top) + draw(st.integers(-ms - 3, ms + 3))
        b = (max(0, min(top, e)) << ms) | draw(gen.value(ms))
    elif r == 8:
        b = draw(st.integers(0, (1 << ms)))                 # subnormals
    else:
        b = draw(st.integers(0, mag))
    b = max(0, min(mag, b)) | (draw(st.integers(0, 1)) << (es + ms))
    if canonical and not ieee:
        e = (b >> ms) & top
        if e in (0, top):
            b &= ~((1 << ms) - 1)
    return b


def minmax(sign):
    def model(f, a, b, mode=None):
        if a == fp.NAN or b == fp.NAN:
            return b if a == fp.NAN else a
        c = fp.cmp(a, b)
        if c == 0 and a != b:           # zeros of both signs: -0 is the smaller
            return a if a[1] == (sign < 0) else b
        return a if c in (0, sign) else b
    return model


# ------------------------------------------------------------------ F01
ARITH = {
    # op: (arity, method, python operator, model)
    'add': (2, 'fp_add', operator.add, fp.add),
    'sub': (2, 'fp_sub', operator.sub, fp.sub),
    'mul': (2, 'fp_mul', operator.mul, fp.mul),
    'div': (2, 'fp_div', operator.truediv, fp.div),
    'rem': (2, 'fp_rem', operator.mod, fp.rem),
    'min': (2, 'fp_min', None, minmax(-1)),
    'max': (2, 'fp_max', None, minmax(1)),
    'fma': (3, 'fp_fma', None, fp.fma),
    'sqrt': (1, 'fp_sqrt', None, fp.sqrt),
    'neg': (1, 'fp_neg', operator.neg, lambda f, a, mode=None: fp.neg(a)),
    'abs': (1, 'fp_abs', abs,
            lambda f, a, mode=None: a if a == fp.NAN else (a[0], 0) + a[2:]),
    'rint': (1, 'fp_round_to_integral', None,
             lambda f, a, mode=None: rint(f, a, mode or f.mode)),
}


def rint(f, a, mode):
    v = fp.rint(a, mode)
    # a tiny format may not hold the integer a was rounded to
    return f.round(v[1], v[2], mode) if v[0] == 'fin' and v[2] else v


def apply_op(op, how, xs):
    arity, meth, pyop, _ = ARITH[op]
    if how == 'op' and pyop is not None:
        return pyop(*xs)
    return getattr(xs[0], meth)(*xs[1:])


@st.composite
def arith_case(draw):
    fmt = draw(formats())
    op = draw(st.sampled_from(sorted(ARITH) + ['fma', 'add', 'mul', 'div', 'sqrt']))
    a = draw(operand(fmt))
    ops = [a]
    for _ in range(ARITH[op][0] - 1):
        ops.append(draw(operand(fmt, ops[-1])))
    if op == 'fma' and draw(st.integers(0, 2)) == 0:
        # an addend that nearly cancels the product
        f = model(*fmt)
        v = fp.mul(f, f.decode(ops[0]), f.decode(ops[1]), 'RTZ')
        if v != fp.NAN:
            b = f.encode(v) ^ (1 << (f.size - 1))
            lo = draw(st.integers(-2, 2))
            m = (1 << (f.size - 1)) - 1
            c = (b & ~m) | max(0, min(m, (b & m) + lo))
            if fmt[3] or f.decode(c) != fp.NAN and not f.is_subnormal(f.decode(c)):
                ops[2] = c
    kind = draw(st.sampled_from(['plain'] * 6 + ['sub', 'unsub', 'mixed', 'mixed2']))
    return fmt, op, tuple(ops), draw(st.sampled_from(['meth', 'op'])), kind


MIXED = {'mixed': ('plain', 'unsub'), 'mixed2': ('unsub', 'plain')}


def judge_arith(case, ctx):
    fmt, op, ops, how, kind = case
    # mixed: the operands are of different families of one format
    T, O = [T_of(fmt, k) for k in MIXED.get(kind, (kind, kind))]
    f = model(*fmt)
    vals = [canon(f, b) for b in ops]
    xs = [from_bits(O if i else T, b) for i, b in enumerate(ops)]
    if kind in MIXED:
        how = 'meth'
    r = apply_op(op, how, xs)
    if type(r) is not T:
        raise Violation(f'{op} of {T} returns {type(r)}')
    fn = ARITH[op][3]
    want = fn(f, *vals)
    agree(f, r, want, f'{op}({", ".join(show(v) for v in vals)}) in {fmt}',
          lambda: fn(f, *vals, mode='AWAY'))
    for b, x, v in zip(ops, xs, vals):
        require(get(f, x) == v, op, 'changed its operand', hex(b))
    if all(v[0] == 'fin' and v[2] == 0 for v in vals):
        ctx.mark_trivial()
    ctx.label('op:' + op, 'mode:' + fmt[2], 'ieee' if fmt[3] else 'flush')
    if want == fp.NAN:
        ctx.label('r:nan')
    elif want[0] == 'inf':
        ctx.label('r:inf' if any(v[0] == 'inf' for v in vals) else 'r:overflow')
    elif f.is_subnormal(want):
        ctx.label('r:subnormal')
    elif want[2] == 0:
        ctx.label('r:zero')
    else:
        ctx.label('r:finite')


def enum_arith(tier):
    """every operand tuple of the tiny formats, every mode and both compliances"""
    fmts = [(2, 1), (2, 2)] if tier == 'quick' else [(2, 1), (2, 2), (3, 1), (3, 2)]
    for (es, ms), mode, ieee in itertools.product(fmts, MODES, (True, False)):
        fmt = (es, ms, mode, ieee)
        f = model(*fmt)
        pats = [b for b in range(1 << f.size)
                if ieee or not (f.decode(b) == fp.NAN or f.is_subnormal(f.decode(b)))]
        if tier == 'quick' and (es, ms) == (2, 2) and ieee:
            pats = [b for b in pats if b < 16 or b % 5 == 0]
        for op, (arity, *_ ) in ARITH.items():
            if arity == 3:
                continue
            for ops in itertools.product(pats, repeat=arity):
                yield fmt, op, ops, 'meth', 'plain'


# hardware doubles: a second, independent oracle
@st.composite
def double_case(draw):
    op = draw(st.sampled_from(['add', 'sub', 'mul', 'div', 'sqrt', 'rem', 'cmp']))
    a = draw(operand((11, 52, 'RNE', True)))
    b = draw(operand((11, 52, 'RNE', True), a))
    return op, a, b


def check_double(case, ctx):
    import math
    import struct
    op, a, b = case
    fmt = (11, 52, 'RNE', True)
    T = T_of(fmt)
    u = lambda k: struct.unpack('<d', struct.pack('<Q', k))[0]
    x, y = u(a), u(b)
    X, Y = T(x), T(y)
    ctx.label('op:' + op)
    if op == 'cmp':
        for n, o in [('lt', operator.lt), ('le', operator.le), ('gt', operator.gt),
                     ('ge', operator.ge), ('eq', operator.eq), ('ne', operator.ne)]:
            require(bool(o(X, Y)) is o(x, y), n, x, y)
        return
    try:
        w = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
             'div': operator.truediv, 'rem': math.remainder,
             'sqrt': lambda p, q: math.sqrt(p)}[op](x, y)
    except (ZeroDivisionError, ValueError):
        ctx.mark_trivial()
        return
    r = float(apply_op(op, 'meth', [X] if op == 'sqrt' else [X, Y]))
    same = (math.isnan(r) and math.isnan(w)) or \
        struct.pack('<d', r) == struct.pack('<d', w)
    require(same, op, x, y, 'is', r, 'in hwtypes and', w, 'in hardware')


def demo_rna():
    T = T_of((8, 23, 'RNA', True))
    r = float(T(1) + T('0.00000000001'))
    if r != 1.0:
        return f'FPVector[8,23,RNA,True](1) + 1e-11 = {r!r}, nearest is 1.0'


register(Check('F01', [
    Sub('arith', arith_case, judge_arith, 14000, 500000),
    Sub('exhaustive', None, judge_arith, 0, enumerate_cases=enum_arith),
    Sub('double', double_case, check_double, 3000, 100000),
], RULE, ['formats with at least 2 exponent and 1 mantissa bits',
          'results are read back through reinterpret_as_bv (decided by F02)',
          'the sign of the infinity a non-IEEE format substitutes for NaN is free'],
    {RNA_FINDING: demo_rna}))


# ------------------------------------------------------------------ F02
@st.composite
def bits_case(draw):
    fmt = draw(formats())
    b = draw(operand(fmt, canonical=False))
    return fmt, b, draw(st.sampled_from(['plain'] * 5 + ['sub', 'unsub']))


def judge_bits(case, ctx):
    import gmpy2
    import hwtypes as h
    fmt, b, kind = case
    f, T = model(*fmt), T_of(fmt, kind)
    raw, v = f.decode(b), canon(f, b)
    bv = h.BitVector[T.size](b)
    x = T.reinterpret_from_bv(bv)
    require(bv.as_uint() == b, 'reinterpret_from_bv changed its argument')
    require(type(x) is T, 'reinterpret_from_bv returns', type(x))
    out = x.reinterpret_as_bv()
    require(type(out) is h.BitVector[T.size], 'reinterpret_as_bv type', type(out))
    got = out.as_uint()
    if raw == fp.NAN:
        ctx.label('nan')
        w = f.decode(got)
        require(w == fp.NAN if f.ieee else w[0] == 'inf',
                'NaN pattern', hex(b), 'comes back as', hex(got), 'in', fmt)
    else:
        want = b if v == raw else f.encode(v)
        ctx.label('subnormal' if f.is_subnormal(raw) else raw[0])
        require(got == want, f'{fmt}: pattern {b:#x} comes back as {got:#x}, '
                f'expected {want:#x}')
    # patterns given and taken are the caller's
    i = (b * 7 + b // 3) % T.size
    for w in (bv, out):
        w[i] = ~w[i]
    for z in (x, T.reinterpret_from_bv(h.BitVector[T.size](b))):
        require(bits_of(z) == got, f'{fmt}: the pattern of {b:#x} changes from {got:#x} to '
                f'{bits_of(z):#x} with a vector of the caller')
    # the value behind the pattern, independently of the pattern
    if v[0] == 'fin' and v[2]:
        q = fp.sval(v)
        y = T(gmpy2.mpq(q.numerator, q.denominator))
        require(bool(x.fp_eq(y)), f'{fmt}: pattern {b:#x} is {x!r}, expected {show(v)}')
        if fmt[0] <= 11 and fmt[1] <= 52:
            require(Fraction(float(x)) == q, f'{fmt}: float of {b:#x}')
    else:
        ctx.label('special')
    # classes partition the values
    cls = {'nan': x.fp_is_NaN(), 'inf': x.fp_is_infinite(), 'zero': x.fp_is_zero(),
           'subnormal': x.fp_is_subnormal(), 'normal': x.fp_is_normal()}
    for k, c in cls.items():
        require(type(c) is h.Bit, 'class predicate returns', type(c))
    true = sorted(k for k, c in cls.items() if c)
    if v == fp.NAN:
        want = 'nan'
    elif v[0] == 'inf' or raw == fp.NAN:
        want = 'inf'
    elif v[2] == 0:
        want = 'zero'
    else:
        want = 'subnormal' if f.is_subnormal(v) else 'normal'
    require(true == [want], f'{fmt}: pattern {b:#x} is classified', true, 'not', want)
    if want in ('normal', 'subnormal') or v[0] == 'inf' and raw != fp.NAN:
        require(bool(x.fp_is_negative()) is bool(v[1]), 'fp_is_negative', hex(b), fmt)
        require(bool(x.fp_is_positive()) is not bool(v[1]), 'fp_is_positive', hex(b), fmt)
    if want in ('nan', 'zero'):
        for c in (x.fp_is_negative(), x.fp_is_positive()):
            require(type(c) is h.Bit and not c, want, 'is negative or positive', hex(b), fmt)
    # a pattern of another width is refused
    d = 1 if b & 1 else -1
    expect_raises(TypeError, lambda: T.reinterpret_from_bv(h.BitVector[T.size + d](0)),
                  'pattern of the wrong width')


def enum_bits(tier):
    fmts = [(2, 1), (2, 3), (3, 2), (4, 3)]
    if tier != 'quick':
        fmts += [(2, 6), (5, 2), (3, 7), (5, 6)]
    for es, ms in fmts:
        for mode in MODES if tier != 'quick' else ('RNE', 'RTP', 'RTZ'):
            for ieee in (True, False):
                for b in range(1 << (1 + es + ms)):
                    yield (es, ms, mode, ieee), b, 'plain'


register(Check('F02', [
    Sub('bits', bits_case, judge_bits, 7000, 250000),
    Sub('exhaustive', None, judge_bits, 0, enumerate_cases=enum_bits),
], 'every case is a bit pattern of a format; NaN and special patterns are labelled',
    ['formats with at least 2 exponent and 1 mantissa bits',
     'NaN payloads are not preserved; the sign of zero is not classified']))


# ------------------------------------------------------------------ F03
@st.composite
def rational_near(draw, fmt):
    """a rational that is interesting to round into fmt: representable values,
    midpoints, either side of them, the range's ends, and arbitrary ones"""
    f = model(*fmt)
    r = draw(st.integers(0, 9))
    if r < 6:
        b = draw(operand(fmt)) & ((1 << (f.size - 1)) - 1)
        v = f.decode(b)
        if v[0] != 'fin':
            v = fp.fin(0, f.max_finite)
        q = v[2]
        e = max(fp.flog2(q) if q else f.emin, f.emin)
        ulp = fp.pow2(e - f.ms)
        q += draw(st.sampled_from([Fraction(0), Fraction(1, 2), Fraction(1, 2),
                                   Fraction(1, 4), Fraction(3, 4), Fraction(-1, 2)])) * ulp
        q += draw(st.sampled_from([0, 0, 1, -1])) * ulp * fp.pow2(
            -draw(st.integers(2, 90)))
    elif r == 6:
        q = f.min_normal * Fraction(draw(st.integers(0, 40)), 16)
    elif r == 7:
        q = f.max_finite * Fraction(draw(st.integers(12, 24)), 16)
    else:
        q = Fraction(draw(st.integers(0, 10**6)), draw(st.integers(1, 10**6)))
        if r == 9:
            q *= fp.pow2(draw(st.integers(-f.bias - f.ms, f.bias)))
    return (-q if draw(st.booleans()) else q)


KINDS = ('mpq', 'frac_str', 'int', 'bigint', 'mpz', 'float', 'np_like', 'int_like',
         'dec_str', 'mpfr', 'fpv', 'bool', 'special_str', 'special_float', 'bitvec')


@st.composite
def construct_case(draw):
    fmt = draw(formats())
    f = model(*fmt)
    kind = draw(st.sampled_from(KINDS + ('mpq', 'float', 'fpv', 'mpfr')))
    x = None
    if kind in ('mpq', 'frac_str'):
        q = draw(rational_near(fmt))
        x = (q.numerator, q.denominator)
    elif kind in ('int', 'mpz', 'int_like'):
        q = draw(rational_near(fmt))
        if abs(q) > 1 << 3000:
            q = Fraction(draw(st.integers(-1 << 70, 1 << 70)))
        if draw(st.booleans()):
            q *= fp.pow2(min(400, f.ms + 3))
        x = int(q)
    elif kind == 'bigint':
        x = draw(st.integers(-1 << 200, 1 << 200))
    elif kind in ('float', 'np_like'):
        # a float near a rounding boundary of the format
        q = draw(rational_near(fmt))
        try:
            x = float(q)
        except OverflowError:
            x = draw(st.floats(allow_nan=False, allow_infinity=False))
        if draw(st.integers(0, 3)) == 0:
            x = draw(st.floats(allow_nan=False, allow_infinity=False))
    elif kind == 'dec_str':
        m = draw(st.integers(0, 10**draw(st.integers(1, 20))))
        s = str(m)
        p = draw(st.integers(0, len(s)))
        x = ('-' if draw(st.booleans()) else '') + \
            (s[:p] or '0') + ('.' + s[p:] if p < len(s) else '')
        if draw(st.booleans()):
            x += f'e{draw(st.integers(-30, 30))}'
    elif kind in ('mpfr', 'fpv'):
        src = draw(formats())
        if draw(st.booleans()):
            # a finer format of the same range: double rounding would show
            src = (fmt[0], fmt[1] + draw(st.integers(1, 30)), src[2], src[3])
        x = (src, draw(operand(src)))
    elif kind == 'bool':
        x = draw(st.booleans())
    elif kind == 'special_str':
        x = draw(st.sampled_from(['nan', 'inf', '-inf', '0', '-0', '+inf', '-0.0',
                                  '0/5']))
    elif kind == 'special_float':
        x = draw(st.sampled_from([0.0, -0.0, 'inf', '-inf', 'nan', 5e-324,
                                  1.7976931348623157e308]))
    elif kind == 'bitvec':
        n = draw(gen.width(1, 70))
        x = (n, draw(gen.value(n)))
    return fmt, kind, x


class FloatLike:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class IntLike:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def of_float(x):
    import math
    if math.isnan(x):
        return fp.NAN
    if math.isinf(x):
        return fp.inf(int(x < 0))
    s = int(math.copysign(1, x) < 0)
    return fp.fin(s, abs(Fraction(x)))


def spell(kind, x):
    """(python value to construct from, exact model value)"""
    import gmpy2
    import hwtypes as h
    if kind == 'mpq':
        q = Fraction(*x)
        return gmpy2.mpq(*x), fp.fin(int(q < 0), abs(q))
    if kind == 'frac_str':
        q = Fraction(*x)
        return f'{x[0]}/{x[1]}', fp.fin(int(q < 0), abs(q))
    if kind in ('int', 'bigint', 'mpz', 'int_like', 'bool'):
        py = {'mpz': gmpy2.mpz, 'int_like': IntLike, 'bool': bool, 'int': bv.num}.get(kind, int)(x)
        return py, fp.fin(int(x < 0), abs(int(x)))
    if kind in ('float', 'np_like', 'special_float'):
        x = float(x)
        return (FloatLike(x) if kind == 'np_like' else x), of_float(x)
    if kind == 'dec_str':
        q = Fraction(x)
        return x, fp.fin(int(x.startswith('-')), abs(q))
    if kind == 'special_str':
        return x, {'nan': fp.NAN, 'inf': fp.inf(0), '+inf': fp.inf(0),
                   '-inf': fp.inf(1)}.get(x) or fp.fin(int(x[0] == '-'), 0)
    if kind == 'bitvec':
        return h.BitVector[x[0]](x[1]), fp.fin(0, x[1])
    src, b = x
    f = model(*src)
    v = canon(f, b)
    if kind == 'fpv':
        return from_bits(T_of(src), b), v
    # a free-standing mpfr of enough precision to hold the value
    with gmpy2.context(gmpy2.get_context(), precision=src[1] + 1,
                       emin=-(1 << 20), emax=1 << 20, subnormalize=False):
        if v == fp.NAN:
            y = gmpy2.mpfr('nan')
        elif v[0] == 'inf':
            y = gmpy2.mpfr('-inf' if v[1] else 'inf')
        elif v[2] == 0:
            y = gmpy2.mpfr('-0' if v[1] else '0')
        else:
            q = fp.sval(v)
            y = gmpy2.mpfr(gmpy2.mpq(q.numerator, q.denominator))
    return y, v


def rounded(f, v, mode=None):
    if v[0] != 'fin':
        return v
    return fp.fin(v[1], 0) if v[2] == 0 else f.round(v[1], v[2], mode)


def check_construct(case, ctx):
    fmt, kind, x = case
    f, T = model(*fmt), T_of(fmt)
    py, v = spell(kind, x)
    r = T(py)
    require(type(r) is T, 'constructor returns', type(r))
    want = rounded(f, v)
    agree(f, r, want, f'{fmt} from {kind} {x!r}', lambda: rounded(f, v, 'AWAY'))
    ctx.label('kind:' + kind)
    if want[0] == 'fin' and want == v:
        ctx.label('exact')
    elif want[0] == 'fin':
        ctx.label('rounded-subnormal' if f.is_subnormal(want) else 'rounded')
    if v[0] == 'fin' and v[2] == 0:
        ctx.mark_trivial()
    # binary operations accept the same spellings as their second operand
    one = T(1)
    got = one.fp_eq(py) if kind != 'fpv' else None
    if got is not None:
        require(bool(got) is (fp.cmp(get(f, one), get(f, r)) == 0),
                f'{fmt}: 1 == {kind} {x!r}')
    # conversion back to float is exact for formats inside double
    if fmt[0] <= 11 and fmt[1] <= 52:
        import math
        back = float(r)
        g = get(f, r)
        if g == fp.NAN:
            require(math.isnan(back), 'float of NaN', back)
        else:
            require(of_float(back) == g, f'float() of {show(g)} is {back!r}')
        r2 = T(back)
        require(bits_of(r2) == bits_of(r), 'float round trip', fmt, kind, x)
    # the same thing, given to a format that differs in one respect, and again
    es, ms, mode, ieee = fmt
    for sib in ((es, ms, MODES[MODES.index(mode) - 2], ieee), (es, ms, mode, not ieee),
                (es, ms + 1, mode, ieee), (es + 1, ms, mode, ieee), fmt):
        g = model(*sib)
        agree(g, T_of(sib)(py), rounded(g, v), f'{sib} from {kind} {x!r} after {fmt}',
              lambda: rounded(g, v, 'AWAY'))
    # a copy is the same value
    r3 = T(r)
    require(bits_of(r3) == bits_of(r), 'copy constructor', fmt, kind, x)


@st.composite
def refuse_case(draw):
    return draw(formats()), draw(st.sampled_from(
        ['abc', '1.2.3', '0x', '1/', '/2', None, [], {}, (1, 2), 'none', 'list']))


def check_refuse(case, ctx):
    fmt, x = case
    T = T_of(fmt)
    x = {'none': None, 'list': []}.get(x, x) if isinstance(x, str) else x
    ctx.label(type(x).__name__)
    expect_raises(ValueError if isinstance(x, str) else TypeError, lambda: T(x),
                  f'constructing from {x!r}')


register(Check('F03', [
    Sub('construct', construct_case, check_construct, 9000, 300000),
    Sub('refuse', refuse_case, check_refuse, 300, 3000),
], 'a case is non-trivial unless the constructed value is an exact zero',
    ['formats with at least 2 exponent and 1 mantissa bits',
     'float() is only specified for formats inside double'],
    {RNA_FINDING: lambda: _demo_rna_construct()}))


def _demo_rna_construct():
    r = float(T_of((8, 23, 'RNA', True))('1.00000000001'))
    if r != 1.0:
        return f"FPVector[8,23,RNA,True]('1.00000000001') = {r!r}, nearest is 1.0"


# ------------------------------------------------------------------ F04
CMPS = {'fp_eq': (operator.eq, lambda c: c == 0),
        'fp_lt': (operator.lt, lambda c: c is not None and c < 0),
        'fp_leq': (operator.le, lambda c: c is not None and c <= 0),
        'fp_gt': (operator.gt, lambda c: c is not None and c > 0),
        'fp_geq': (operator.ge, lambda c: c is not None and c >= 0)}


@st.composite
def cmp_case(draw):
    fmt = draw(formats())
    a = draw(operand(fmt))
    b = draw(operand(fmt, a))
    if draw(st.integers(0, 9)) == 7:
        b = a ^ (draw(st.integers(0, 1)) << (fmt[0] + fmt[1]))
    return fmt, a, b, draw(st.sampled_from(['plain'] * 6 + ['sub', 'mixed', 'fams', 'fams2']))


def check_cmp(case, ctx):
    import hwtypes as h
    fmt, a, b, kind = case
    f = model(*fmt)
    Ta, Tb = [T_of(fmt, k) for k in {
        'plain': ('plain', 'plain'), 'sub': ('sub', 'sub'), 'mixed': ('plain', 'sub'),
        'fams': ('plain', 'unsub'), 'fams2': ('unsub', 'plain')}[kind]]
    va, vb = canon(f, a), canon(f, b)
    x, y = from_bits(Ta, a), from_bits(Tb, b)
    c = fp.cmp(va, vb)
    ctx.label('unordered' if c is None else ('lt', 'eq', 'gt')[c + 1], kind)
    for m, (op, judge) in CMPS.items():
        want = judge(c)
        results = [getattr(x, m)(y)] + ([op(x, y)] if kind in ('plain', 'sub') else [])
        for r in results:
            require(type(r) is h.Bit, m, 'returns', type(r))
            require(bool(r) is want, f'{m}({show(va)}, {show(vb)}) in {fmt} is', r)
    r = x != y
    require(type(r) is h.Bit and bool(r) is (c != 0), f'{show(va)} != {show(vb)}')
    # min and max
    for m, sign in (('fp_min', -1), ('fp_max', 1)):
        r = getattr(x, m)(y)
        require(type(r) is Ta, m, 'returns', type(r))
        g = get(f, r)
        require(g == minmax(sign)(f, va, vb),
                f'{m}({show(va)}, {show(vb)}) in {fmt} is {show(g)}')


@st.composite
def coerce_case(draw):
    fmt = draw(formats())
    es, ms, mode, ieee = fmt
    fmt2, kind, x = draw(construct_case())
    if kind in ('fpv', 'mpfr', 'special_str', 'special_float'):
        kind, x = 'int', draw(st.integers(-300, 300))
    if kind == 'dec_str' and abs(Fraction(x)) > fp.pow2(400):
        x = '1.1'
    other = draw(st.sampled_from([
        (es, ms, MODES[(MODES.index(mode) + 1) % 5], ieee),
        (es, ms, MODES[(MODES.index(mode) + 3) % 5], ieee),
        (es, ms, mode, not ieee), (es + 1, ms, mode, ieee), (es, ms + 1, mode, ieee),
        (es + 1, max(ms - 1, 1), mode, ieee), (min(ms + 1, 12), es - 1, mode, ieee)]))
    return fmt, draw(operand(fmt)), (kind, x), other, draw(operand(other))


def check_coerce(case, ctx):
    fmt, a, (kind, v), ofmt, b = case
    if ofmt == fmt:
        ofmt, b = fmt[:3] + (not fmt[3],), 0           # (another format)
    T, O = T_of(fmt), T_of(ofmt)
    x, y = from_bits(T, a), from_bits(O, b)
    num = spell(kind, v)[0]
    z = T(num)
    ctx.label('number:' + kind)
    two = [(m, op) for _, m, op, _ in (ARITH[k] for k in ARITH if ARITH[k][0] == 2)]
    two += [(m, op) for m, (op, _) in CMPS.items()] + [(None, operator.ne)]
    for m, op in two:
        for call in ([lambda p, q, m=m: getattr(p, m)(q)] if m else []) + [op] * bool(op):
            what = m or op.__name__
            # another format is refused, whichever side it is on
            expect_raises(TypeError, lambda: call(x, y), f'{what} of {fmt} and {ofmt}')
            expect_raises(TypeError, lambda: call(y, x), f'{what} of {ofmt} and {fmt}')
            # a number stands for the float it rounds to
            r, w = call(x, num), call(x, z)
            require(type(r) is type(w) and (
                bits_of(r) == bits_of(w) if type(w) is T else bool(r) is bool(w)),
                f'{what} of {x!r} and the number {num!r} is', r, 'and with', z, 'is', w)
    expect_raises(TypeError, lambda: x.fp_fma(y, x), f'fma {fmt} {ofmt}')
    expect_raises(TypeError, lambda: x.fp_fma(x, y), f'fma {fmt} {ofmt}')
    expect_raises(TypeError, lambda: y.fp_fma(x, y), f'fma {fmt} {ofmt}')
    for p, q, p2, q2 in ((num, x, z, x), (x, num, x, z), (num, num, z, z)):
        require(bits_of(x.fp_fma(p, q)) == bits_of(x.fp_fma(p2, q2)),
                'fma with the number', num, 'in', fmt)


@st.composite
def toint_case(draw):
    fmt = draw(formats())
    r = draw(st.integers(0, 3))
    f = model(*fmt)
    if r:
        # values around integers and halves
        q = Fraction(draw(st.integers(-300, 300)), 4) if r == 1 else \
            Fraction(draw(st.integers(-1 << min(f.ms + 3, 70), 1 << min(f.ms + 3, 70))), 4)
        v = f.round_signed(q, mode='RTZ')
        b = f.encode(v)
    else:
        b = draw(operand(fmt))
        v = f.decode(b)
    n = draw(st.one_of(gen.width(1, 80), gen.width(1, 12)))
    return fmt, b, n


def check_toint(case, ctx):
    import hwtypes as h
    fmt, b, n = case
    f, T = model(*fmt), T_of(fmt)
    v = canon(f, b)
    x = from_bits(T, b)
    if v[0] != 'fin':
        ctx.label('special')
        for m in ('to_ubv', 'to_sbv'):
            expect_raises((ValueError, OverflowError),
                          lambda: getattr(x, m)(n), f'{m} of {show(v)}')
        return
    if v[2] > fp.pow2(5000):
        ctx.mark_trivial()
        return
    q = fp.sval(v)
    want = int(fp.sval(fp.rint(v, fmt[2])))
    away = int(fp.sval(fp.rint(v, 'AWAY')))
    m = (1 << n) - 1
    ctx.label('integral' if q == want else 'fraction',
              'in-range' if -(1 << (n - 1)) <= want < (1 << (n - 1)) else 'wraps')
    for meth, R in (('to_ubv', h.BitVector[n]), ('to_sbv', h.SIntVector[n])):
        r = getattr(x, meth)(n)
        require(type(r) is R, meth, 'returns', type(r))
        if r.as_uint() != want & m:
            raise Violation(
                f'{meth}({show(v)}, {n}) in {fmt} is {r.as_uint()}, expected {want & m}',
                finding=RNA_FINDING if fmt[2] == 'RNA' and r.as_uint() == away & m
                else None)
    require(get(f, x) == v, 'conversion changed its operand')


def demo_rna_int():
    T = T_of((8, 23, 'RNA', True))
    r = int(T('1.25').to_ubv(8))
    if r != 1:
        return f"FPVector[8,23,RNA,True]('1.25').to_ubv(8) = {r}, nearest is 1"


register(Check('F04', [
    Sub('compare', cmp_case, check_cmp, 6000, 200000),
    Sub('to_int', toint_case, check_toint, 5000, 150000),
    Sub('operands', coerce_case, check_coerce, 1500, 60000),
], 'every case compares or converts one operand pair; labels give the orderings',
    ['formats with at least 2 exponent and 1 mantissa bits',
     'of zeros of both signs the minimum is -0 and the maximum +0 (IEEE 754-2019)',
     'out-of-range integers wrap modulo 2^n, as the code does'],
    {RNA_FINDING: demo_rna_int}))


# ------------------------------------------------------------------ F05
@st.composite
def history_case(draw):
    nf = draw(st.integers(1, 3))
    fmts = [draw(formats()) for _ in range(nf)]
    if nf > 1 and draw(st.booleans()):
        # formats that differ in one respect only
        e, m, mode, ieee = fmts[0]
        fmts[1] = draw(st.sampled_from([
            (e, m, draw(st.sampled_from(MODES)), ieee), (e, m, mode, not ieee),
            (e, m + 1, mode, ieee), (e + 1, m, mode, ieee)]))
    steps = []
    for _ in range(draw(st.integers(3, 22))):
        r = draw(st.integers(0, 16))
        k = draw(st.integers(0, nf - 1))
        if r < 3:
            steps.append(('bits', k, draw(operand(fmts[k]))))
        elif r == 3:
            q = draw(rational_near(fmts[k]))
            steps.append(('mpq', k, q.numerator, q.denominator))
        elif r == 4:
            steps.append(('random', k, draw(st.booleans()), draw(st.integers(0, 99))))
        elif r == 5:
            steps.append(('convert', k, draw(st.integers(0, nf - 1)),
                          draw(st.integers(0, 40))))
        elif r == 6:
            steps.append(('mix', draw(st.integers(0, 40)), draw(st.integers(0, 40)),
                          draw(st.sampled_from(['fp_add', 'fp_eq', 'fp_min', 'fp_fma']))))
        elif r == 7:
            steps.append(('inner', k, draw(st.integers(0, nf - 1)),
                          draw(st.integers(-(1 << 60), 1 << 60)),
                          draw(st.integers(-40, 40)), draw(st.integers(0, 40)),
                          draw(st.sampled_from(['call', 'thread', 'raise', 'both'])),
                          draw(st.booleans())))
        else:
            op = draw(st.sampled_from(sorted(ARITH)))
            steps.append(('op', op, k) + tuple(
                draw(st.integers(0, 40)) for _ in range(ARITH[op][0])))
    outer = draw(st.sampled_from([None, None, 'short', 'traps', 'narrow']))
    return tuple(fmts), steps, outer


class Inner:
    """a number whose conversion works with floats of another format itself"""
    def __init__(self, value, work, how):
        self.value, self.work, self.how = value, work, how

    def __float__(self):
        import threading
        errors = []

        def run():
            try:
                self.work()
            except BaseException as e:
                errors.append(e)
        if self.how in ('thread', 'both'):
            t = threading.Thread(target=run)
            t.start()
            if self.how == 'both':
                run()
            t.join()
        else:
            run()
        if errors:
            raise errors[0]
        if self.how == 'raise':
            raise ZeroDivisionError('inner')
        return self.value


def check_history(case, ctx):
    import gmpy2
    outer = case[2]
    before = ctx_state()
    c = {None: lambda: gmpy2.get_context().copy(),
         'short': lambda: gmpy2.context(precision=3, round=gmpy2.RoundUp),
         'traps': lambda: gmpy2.context(trap_inexact=True, trap_overflow=True,
                                        trap_underflow=True),
         'narrow': lambda: gmpy2.context(emax=5, emin=-5, round=gmpy2.RoundToZero)}[outer]()
    saved = gmpy2.get_context()
    gmpy2.set_context(c)
    try:
        if outer:
            ctx.label('in a context of the caller')
        run_history(case, ctx)
    finally:
        gmpy2.set_context(saved)
    require(ctx_state() == before, 'the context of the caller changed')


def ctx_state():
    import gmpy2
    c = gmpy2.get_context()
    return (c.precision, c.emax, c.emin, c.round, c.subnormalize, c.allow_complex,
            c.trap_underflow, c.trap_overflow, c.trap_inexact, c.trap_invalid,
            c.trap_erange, c.trap_divzero)


def run_history(case, ctx):
    fmts, steps, _ = case
    before = ctx_state()
    pools = [[] for _ in fmts]               # (object, model value or None)
    done = 0
    for s in steps:
        k = s[1]
        if s[0] in ('bits', 'mpq', 'random', 'convert'):
            f, T = model(*fmts[k]), T_of(fmts[k])
            if s[0] == 'bits':
                x, want = from_bits(T, s[2]), canon(f, s[2])
            elif s[0] == 'mpq':
                import gmpy2
                q = Fraction(s[2], s[3])
                x = T(gmpy2.mpq(s[2], s[3]))
                want = f.round_signed(q, mode='AWAY' if f.mode == 'RNA' else None)
            elif s[0] == 'random':
                st_ = random.getstate()
                random.seed(s[3])
                x = T.random(allow_inf=s[2])
                random.setstate(st_)
                want = None
                require(type(x) is T, 'random returns', type(x))
                v = get(f, x)
                require(v != fp.NAN, 'random is NaN')
                if not s[2]:
                    require(v[0] == 'fin', 'random(allow_inf=False) is infinite', fmts[k])
            else:
                src = pools[s[2]]
                if not src:
                    continue
                y, v = src[s[3] % len(src)]
                x = T(y)
                want = rounded(f, v, 'AWAY' if f.mode == 'RNA' else None)
        elif s[0] == 'op':
            k = s[2]
            pool = pools[k]
            if not pool:
                continue
            f, T = model(*fmts[k]), T_of(fmts[k])
            args = [pool[i % len(pool)] for i in s[3:]]
            x = apply_op(s[1], 'meth', [a[0] for a in args])
            # RNA is a known finding of F01: here it is whatever it is
            want = ARITH[s[1]][3](f, *[a[1] for a in args],
                                  mode='AWAY' if f.mode == 'RNA' else None)
        elif s[0] == 'inner':
            _, k, j, n, e, i, how, operand_ = s
            f, T = model(*fmts[k]), T_of(fmts[k])
            g, U = model(*fmts[j]), T_of(fmts[j])
            q = Fraction(float(n)) * fp.pow2(e)
            pool = pools[j]

            def compute():
                y = pool[i % len(pool)][0]
                w = pool[n % len(pool)][0]
                return [bits_of(v) for v in (U(y), y + w, y * w, y / w, y - w,
                                             U(float(n)), y.fp_fma(w, w))]
            alone = compute() if pool else None

            def work():
                if pool:
                    require(compute() == alone, 'results computed inside another '
                            'operation are others')
                require(threaded() or ctx_state() == inside[-1], 'an operation inside '
                        'left its floating-point context behind')

            inside = []
            here = threading.get_ident()

            def threaded():
                return threading.get_ident() != here

            def record():
                if not threaded():
                    inside.append(ctx_state())
                work()
            num = Inner(float(q), record, how)
            want = f.round_signed(q, mode='AWAY' if f.mode == 'RNA' else None)
            if how == 'raise':
                expect_raises(ZeroDivisionError, lambda: T(num), 'a conversion that raises')
                require(ctx_state() == before, 'a refused construction left its '
                        'floating-point context behind:', ctx_state())
                continue
            if operand_ and f.ieee:
                # as an operand: minus zero is neutral
                x = from_bits(T, f.encode(fp.fin(1, 0))).fp_add(num)
                if want[0] == 'fin' and want[2] == 0:
                    want = None
            else:
                x = T(num)
        else:
            flat = [(i, p) for i, pool in enumerate(pools) for p in pool]
            if not flat:
                continue
            i, (x, _) = flat[s[1] % len(flat)]
            j, (y, _) = flat[s[2] % len(flat)]
            if fmts[i] != fmts[j]:
                ctx.label('mixed formats')
                args = (y, y) if s[3] == 'fp_fma' else (y,)
                expect_raises(TypeError, lambda: getattr(x, s[3])(*args),
                              f'{s[3]} of {fmts[i]} and {fmts[j]}')
                require(ctx_state() == before, 'a refused operation left its '
                        'floating-point context behind:', ctx_state())
            continue
        got = get(f, x)
        if want is not None:
            if f.mode == 'RNA':
                # either reading of RNA; membership in the format is checked below
                pass
            elif want == fp.NAN and not f.ieee:
                require(got[0] == 'inf', s, 'in', fmts[k], 'is', show(got))
            else:
                require(got == want, s, 'in', fmts[k], f'is {show(got)}, '
                        f'expected {show(want)}')
        if not f.ieee:
            require(got != fp.NAN and not f.is_subnormal(got),
                    s, 'in', fmts[k], 'left the format:', show(got))
            require(not x.fp_is_NaN() and not x.fp_is_subnormal(),
                    s, 'in', fmts[k], 'is NaN or subnormal')
        else:
            require(bool(x.fp_is_NaN()) is (got == fp.NAN), 'NaN', s)
        if s[0] == 'op':
            # the same operands give the same pattern, NaN included
            twin = apply_op(s[1], 'meth', [from_bits(T, bits_of(a[0])) for a in args])
            require(bits_of(twin) == bits_of(x), s, 'in', fmts[k], 'is once',
                    hex(bits_of(x)), 'and once', hex(bits_of(twin)))
        # the pattern is all there is to the value
        if got != fp.NAN:
            z = from_bits(T, bits_of(x))
            require(bool(z.fp_eq(x)), s, 'in', fmts[k],
                    'is not the value of its own bit pattern', show(got))
        require(ctx_state() == before, s, 'left its floating-point context behind:',
                ctx_state())
        pools[k].append((x, got))
        done += 1
        ctx.label('step:' + s[0])
    if done < 3:
        ctx.mark_trivial()
    # nothing that happened later changed an earlier value
    for k, pool in enumerate(pools):
        f = model(*fmts[k])
        for x, v in pool:
            require(get(f, x) == v, 'a value changed from', show(v), 'to', show(get(f, x)))


@st.composite
def random_case(draw):
    return draw(formats()), draw(st.integers(0, 10**6)), draw(st.booleans())


def check_random(case, ctx):
    fmt, seed, allow_inf = case
    f, T = model(*fmt), T_of(fmt)
    st_ = random.getstate()
    random.seed(seed)
    try:
        vals = [get(f, T.random(allow_inf=allow_inf)) for _ in range(48)]
    finally:
        random.setstate(st_)
    for v in vals:
        require(v != fp.NAN, 'random is NaN', fmt)
        require(allow_inf or v[0] == 'fin', 'random(allow_inf=False) is infinite', fmt)
        require(f.ieee or not f.is_subnormal(v), 'random value', show(v), 'in', fmt)
    fins = [v for v in vals if v[0] == 'fin' and v[2]]
    # 48 draws that agree on sign, on exponent or on mantissa are no draws
    # (probability below 2^-40 for the sign, less for the rest)
    require(len({v[1] for v in vals}) == 2, 'random always has the same sign', fmt)
    if len(fins) >= 40:
        require(len({v[2] / fp.pow2(fp.flog2(v[2])) for v in fins}) > 1,
                'random always has the same mantissa', fmt)
        require(fmt[0] < 3 or len({fp.flog2(v[2]) for v in fins}) > 1,
                'random always has the same exponent', fmt)
    ctx.label('inf' if any(v[0] == 'inf' for v in vals) else 'finite')


register(Check('F05', [
    Sub('history', history_case, check_history, 2500, 80000),
    Sub('random', random_case, check_random, 400, 10000),
], 'a history is non-trivial when at least three values were computed in it',
    ['formats with at least 2 exponent and 1 mantissa bits',
     'in RNA formats histories only check closure (the rounding is finding F01)']))
