"""B01 modular/bitwise/shift, B02 signed, compare, carry, B05 coercion"""
from hypothesis import strategies as st

from lib import bv, gen
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)

RULE_BV = ('Hypothesis draws a vector type (BitVector, UIntVector, SIntVector and '
           'user subclasses), a width (dense for 1..8, machine boundaries, ints '
           'found in the source, up to 200) and correlated operand patterns; '
           'widths up to 4 (quick) / 6 (thorough) are enumerated completely. ')


# ------------------------------------------------------------------ strategies
@st.composite
def pair_case(draw):
    f = draw(bv.fams())
    n = draw(gen.width())
    a, b = draw(gen.value_pair(n))
    return (f, n, a, b)


def enum_pairs(tier):
    for n in range(0, 7 if tier == 'thorough' else 5):
        for a in range(1 << n):
            for b in range(1 << n):
                for f in (('BV', 'U', 'S') if n < 4 else ('BV', 'S')):
                    yield (f, n, a, b)


def label_pair(ctx, n, a, b):
    ctx.label('width=0' if n == 0 else 'width=1' if n == 1 else 'width<=8' if n <= 8 else
              'width<=64' if n <= 64 else 'width>64')
    if a == b:
        ctx.label('equal')
    if b == 0:
        ctx.label('b=0')
    if b >= n:
        ctx.label('b>=width')
    if gen.sgn(a, n) < 0 and gen.sgn(b, n) < 0:
        ctx.label('both-negative')
    if n == 1 and a == b == 0:
        ctx.mark_trivial()


UNSIGNED_BIN = ('bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'bvnand',
                'bvnor', 'bvxnor', 'bvshl', 'bvlshr', 'bvashr', 'bvrol',
                'bvror', 'bvudiv', 'bvurem')


# ------------------------------------------------------------------ B01
def check_modular(case, ctx):
    f, n, a, b = case
    label_pair(ctx, n, a, b)
    T = bv.fam(f)[n]
    x, y = T(a), T(b)
    for op in UNSIGNED_BIN:
        bv.same(getattr(x, op)(y), T, gen.BIN[op](a, b, n), op, f, n, a, b)
        bv.unchanged(x, T, a, op)
        bv.unchanged(y, T, b, op)
    for op in gen.UN:
        bv.same(getattr(x, op)(), T, gen.UN[op](a, n), op, f, n, a)
    bv.same(~x, T, gen.UN['bvnot'](a, n), '~', f, n, a)
    bv.same(-x, T, gen.UN['bvneg'](a, n), '-', f, n, a)
    for sym, (u, s) in gen.OPER.items():
        if sym in ('//', '%') and f in bv.SIGNED:
            continue
        op = s if f in bv.SIGNED else u
        bv.same(gen.PYOP[sym](x, y), T, gen.BIN[op](a, b, n), sym, f, n, a, b)
    bv.unchanged(x, T, a, 'operators')
    bv.unchanged(y, T, b, 'operators')


@st.composite
def mixed_case(draw):
    """named operations between different vector types of one width"""
    f, g = draw(bv.fams()), draw(bv.fams())
    n = draw(gen.width())
    a, b = draw(gen.value_pair(n))
    return (f, g, n, a, b)


def check_mixed(case, ctx):
    f, g, n, a, b = case
    label_pair(ctx, n, a, b)
    if f == g:
        ctx.mark_trivial()
    x, y = bv.make(f, n, a), bv.make(g, n, b)
    for op in UNSIGNED_BIN:
        bv.same(getattr(x, op)(y), type(x), gen.BIN[op](a, b, n),
                op, f, g, n, a, b)
    bv.unchanged(y, type(y), b, 'named operations')


@st.composite
def shift_case(draw):
    """amounts far beyond the width"""
    f = draw(bv.fams())
    n = draw(st.one_of(gen.width(), st.integers(48, 400)))
    a = draw(gen.value(n))
    b = draw(st.one_of(gen.value(n), st.integers(0, min(gen.mask(n), 3 * n)),
                       st.sampled_from([k * n + d for k in (1, 2, 3, 7)
                                        for d in (-1, 0, 1)])))
    return (f, n, a, b & gen.mask(n))


def check_shift(case, ctx):
    f, n, a, b = case
    label_pair(ctx, n, a, b)
    if b > 1 << 40:
        ctx.label('amount>2^40')
    T = bv.fam(f)[n]
    x, y = T(a), T(b)
    for op in ('bvshl', 'bvlshr', 'bvashr', 'bvrol', 'bvror'):
        bv.same(getattr(x, op)(y), T, gen.BIN[op](a, b, n), op, f, n, a, b)
    bv.same(x << y, T, gen.BV.shl(a, b, n), '<<', f, n, a, b)
    sh = gen.BV.ashr if f in bv.SIGNED else gen.BV.lshr
    bv.same(x >> y, T, sh(a, b, n), '>>', f, n, a, b)


@st.composite
def expr_case(draw):
    """a straight-line program over one type"""
    f = draw(bv.fams())
    n = draw(gen.width())
    ins = [draw(gen.value(n)) for _ in range(draw(st.integers(1, 3)))]
    prog = []
    for i in range(draw(st.integers(2, 14))):
        k = len(ins) + i
        op = draw(st.sampled_from(UNSIGNED_BIN + ('bvnot', 'bvneg')))
        prog.append((op, draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))))
    return (f, n, ins, prog)


def check_expr(case, ctx):
    f, n, ins, prog = case
    T = bv.fam(f)[n]
    xs, vs = [T(v) for v in ins], list(ins)
    for op, i, j in prog:
        ctx.label(op)
        if op in gen.UN:
            xs.append(getattr(xs[i], op)())
            vs.append(gen.UN[op](vs[i], n))
        else:
            xs.append(getattr(xs[i], op)(xs[j]))
            vs.append(gen.BIN[op](vs[i], vs[j], n))
    for k, (x, v) in enumerate(zip(xs, vs)):
        bv.same(x, T, v, 'value', k, 'of the program')


register(Check('B01', [
    Sub('pairs', pair_case, check_modular, 6000, enumerate_cases=enum_pairs),
    Sub('mixed', mixed_case, check_mixed, 2500),
    Sub('shift', shift_case, check_shift, 3000),
    Sub('programs', expr_case, check_expr, 2500),
], RULE_BV + 'Every modular, bitwise, shift and rotate operation is compared with '
    'Python-int arithmetic mod 2^n, singly and in straight-line programs. '
    'Non-trivial: not the 1-bit 0,0 case / not twice the same type.',
    ['Python integers are the reference arithmetic.']))


# ------------------------------------------------------------------ B02
def check_signed(case, ctx):
    import hwtypes as h
    f, n, a, b = case
    label_pair(ctx, n, a, b)
    T = bv.fam(f)[n]
    x, y = T(a), T(b)
    for op, fn in gen.CMP.items():
        bv.same_bit(getattr(x, op)(y), fn(a, b, n), op, f, n, a, b)
    for sym, (u, s) in gen.OPERCMP.items():
        op = s if f in bv.SIGNED else u
        bv.same_bit(gen.PYOP[sym](x, y), gen.CMP[op](a, b, n), sym, f, n, a, b)
    bv.same(x.bvcomp(y), bv.fam(f)[1], int(a == b), 'bvcomp', f, n, a, b)
    for op in ('bvsdiv', 'bvsrem'):
        bv.same(getattr(x, op)(y), T, gen.BIN[op](a, b, n), op, f, n, a, b)
    if f in bv.SIGNED:
        bv.same(x // y, T, gen.BIN['bvsdiv'](a, b, n), '//', f, n, a, b)
        bv.same(x % y, T, gen.BIN['bvsrem'](a, b, n), '%', f, n, a, b)
    for c in (0, 1):
        for carry in (bv.fam(f)[1](c), h.Bit(c), c):
            s, co = x.adc(y, carry)
            bv.same(s, T, (a + b + c) & gen.mask(n), 'adc sum', f, n, a, b, c)
            bv.same_bit(co, (a + b + c) >> n, 'adc carry', f, n, a, b, c)
    r = x + y
    sa, sb = gen.sgn(a, n), gen.sgn(b, n)
    if n:
        bv.same_bit(h.overflow(x, y, r), not -(1 << n - 1) <= sa + sb < 1 << n - 1,
                    'overflow', f, n, a, b)
    bv.unchanged(x, T, a, 'comparison')
    bv.unchanged(y, T, b, 'comparison')


@st.composite
def order_case(draw):
    f = draw(bv.fams())
    n = draw(gen.width())
    vs = [draw(gen.value(n)) for _ in range(draw(st.integers(3, 9)))]
    return (f, n, vs)


def check_order(case, ctx):
    """sorting by the type's < gives numeric order"""
    f, n, vs = case
    if len(set(vs)) < 2:
        ctx.mark_trivial()
    key = (lambda v: gen.sgn(v, n)) if f in bv.SIGNED else (lambda v: v)
    T = bv.fam(f)[n]
    got = [x.as_uint() for x in sorted(T(v) for v in vs)]
    require(got == sorted(vs, key=key), 'sorted', f, n, vs, 'gave', got)
    got = max(T(v) for v in vs).as_uint()
    require(got == max(vs, key=key), 'max', f, n, vs, 'gave', got)


@st.composite
def wide_adc_case(draw):
    """multi-limb addition with adc"""
    n = draw(gen.width(1, 70))
    k = draw(st.integers(2, 6))
    limbs = st.lists(gen.value(n), min_size=k, max_size=k)
    return (draw(bv.fams()), n, draw(limbs), draw(limbs), draw(st.integers(0, 1)))


def check_wide_adc(case, ctx):
    f, n, xs, ys, c0 = case
    T = bv.fam(f)[n]
    import hwtypes as h
    c, out = h.Bit(c0), 0
    for i, (a, b) in enumerate(zip(xs, ys)):
        s, c = T(a).adc(T(b), c)
        out |= s.as_uint() << (i * n)
    out |= int(c) << (n * len(xs))
    val = lambda ls: sum(v << (i * n) for i, v in enumerate(ls))
    require(out == val(xs) + val(ys) + c0, 'limb-wise sum of', case, 'gave', out)


@st.composite
def mixcmp_case(draw):
    return draw(mixed_case())


def check_mixcmp(case, ctx):
    f, g, n, a, b = case
    label_pair(ctx, n, a, b)
    if f == g:
        ctx.mark_trivial()
    x, y = bv.make(f, n, a), bv.make(g, n, b)
    for op, fn in gen.CMP.items():
        bv.same_bit(getattr(x, op)(y), fn(a, b, n), op, f, g, n, a, b)
    for op in ('bvsdiv', 'bvsrem'):
        bv.same(getattr(x, op)(y), type(x), gen.BIN[op](a, b, n), op, f, g, n, a, b)
    bv.same(x.bvcomp(y), bv.fam(f)[1], int(a == b), 'bvcomp', f, g, n, a, b)


register(Check('B02', [
    Sub('pairs', pair_case, check_signed, 5000, enumerate_cases=enum_pairs),
    Sub('order', order_case, check_order, 1500),
    Sub('limbs', wide_adc_case, check_wide_adc, 1500),
    Sub('mixed', mixcmp_case, check_mixcmp, 1500),
], RULE_BV + 'Comparisons, signed division and remainder, add-with-carry and '
    'overflow are compared with Python-int arithmetic on the signed or unsigned '
    'reading. Non-trivial: not the 1-bit 0,0 case / at least two distinct values.',
    ['Python integers are the reference arithmetic; signed division is '
     'Python floor division, with x/0 all ones and x%0 = x, as the tests pin.']))


# ------------------------------------------------------------------ B05
@st.composite
def coerce_case(draw):
    f = draw(bv.fams())
    n = draw(gen.width())
    return (f, n, draw(gen.value(n)), draw(gen.int_for(n)))


def check_coerce(case, ctx):
    import hwtypes as h
    f, n, a, k = case
    T = bv.fam(f)[n]
    x = T(a)
    b = k & gen.mask(n)
    k = bv.num(k)
    ctx.label('negative-int' if k < 0 else 'oversized-int' if k > gen.mask(n)
              else 'in-range-int')
    sg = f in bv.SIGNED
    for sym, ops in gen.OPER.items():
        op = ops[sg]
        bv.same(gen.PYOP[sym](x, k), T, gen.BIN[op](a, b, n), f'vec {sym} int', case)
        bv.same(gen.PYOP[sym](k, x), T, gen.BIN[op](b, a, n), f'int {sym} vec', case)
    for sym, ops in gen.OPERCMP.items():
        op = ops[sg]
        bv.same_bit(gen.PYOP[sym](x, k), gen.CMP[op](a, b, n), f'vec {sym} int', case)
        bv.same_bit(gen.PYOP[sym](k, x), gen.CMP[op](b, a, n), f'int {sym} vec', case)
    for op, fn in gen.BIN.items():
        bv.same(getattr(x, op)(k), T, fn(a, b, n), op, 'with an int', case)
    for op, fn in gen.CMP.items():
        bv.same_bit(getattr(x, op)(k), fn(a, b, n), op, 'with an int', case)
    for one in (True, False, h.Bit(0), h.Bit(1)):
        v = int(bool(one))
        bv.same(x.bvadd(one), T, (a + v) & gen.mask(n), 'bvadd with', one, case)
        bv.same(x.bvor(one), T, a | v, 'bvor with', one, case)
    # other things a vector can be made of
    bits = [bool(b >> i & 1) for i in range(n)]
    for o in (HasInt(k), bits, tuple(map(h.Bit, bits))):
        what = type(o).__name__
        for sym, ops in gen.OPER.items():
            op = ops[sg]
            bv.same(gen.PYOP[sym](x, o), T, gen.BIN[op](a, b, n), f'vec {sym} {what}', case)
            bv.same(gen.PYOP[sym](o, x), T, gen.BIN[op](b, a, n), f'{what} {sym} vec', case)
        for sym, ops in gen.OPERCMP.items():
            op = ops[sg]
            bv.same_bit(gen.PYOP[sym](x, o), gen.CMP[op](a, b, n), f'vec {sym} {what}', case)
            bv.same_bit(gen.PYOP[sym](o, x), gen.CMP[op](b, a, n), f'{what} {sym} vec', case)
    bv.unchanged(x, T, a, 'an operator')


class HasInt:
    """only has an integer value"""
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return int(self.v)


def check_families(case, ctx):
    """operators between two families of one width"""
    f, g, n, a, b = case
    label_pair(ctx, n, a, b)
    if f == g:
        ctx.mark_trivial()
    T = bv.fam(f)[n]
    x, y = bv.make(f, n, a), bv.make(g, n, b)
    sgs = {f in bv.SIGNED, g in bv.SIGNED}
    for sym, ops in gen.OPER.items():
        r = gen.PYOP[sym](x, y)
        bv.same(r, T, r.as_uint(), sym, case)
        require(r.as_uint() in {gen.BIN[ops[s]](a, b, n) for s in sgs}, sym, case, 'gave', r)
    for sym, ops in gen.OPERCMP.items():
        r = gen.PYOP[sym](x, y)
        bv.same_bit(r, bool(r), sym, case)
        require(bool(r) in {gen.CMP[ops[s]](a, b, n) for s in sgs}, sym, case, 'gave', r)
    bv.unchanged(x, T, a, 'an operator')
    bv.unchanged(y, bv.fam(g)[n], b, 'an operator')


@st.composite
def mismatch_case(draw):
    f, g = draw(bv.fams()), draw(bv.fams())
    n = draw(gen.width())
    m = draw(st.one_of(gen.width(), st.sampled_from([max(1, n - 1), n + 1, 2 * n])))
    if m == n:
        m = n + 1
    return (f, n, draw(gen.value(n)), g, m, draw(gen.value(m)))


def check_mismatch(case, ctx):
    """different widths never combine silently"""
    import hwtypes as h
    f, n, a, g, m, b = case
    x, y = bv.make(f, n, a), bv.make(g, m, b)
    ctx.label('equal-values' if a == b else 'different-values')
    E = h.InconsistentSizeError
    for sym in list(gen.OPER) + list(gen.OPERCMP):
        expect_raises(E, lambda: gen.PYOP[sym](x, y), f'{x!r} {sym} {y!r}')
    for op in list(gen.BIN) + list(gen.CMP) + ['bvcomp']:
        expect_raises(E, lambda: getattr(x, op)(y), f'{x!r}.{op}({y!r})')
    expect_raises(E, lambda: x.adc(y, 0), f'{x!r}.adc({y!r})')
    require(issubclass(E, TypeError), 'InconsistentSizeError is a TypeError')
    bv.unchanged(x, bv.fam(f)[n], a, 'a rejected operation')
    bv.unchanged(y, bv.fam(g)[m], b, 'a rejected operation')


FOREIGN = ('None', 'object', 'dict', 'set', 'type', 'lambda', 'ellipsis')


def foreign(name):
    return {'None': lambda: None, 'object': object, 'dict': dict, 'set': set,
            'type': lambda: int, 'lambda': lambda: (lambda: 0),
            'ellipsis': lambda: ...}[name]()


@st.composite
def foreign_case(draw):
    n = draw(gen.width())
    return (draw(bv.fams()), n, draw(gen.value(n)), draw(st.sampled_from(FOREIGN)))


class Deferring:
    """an operand that implements the reflected operators itself"""
    def _r(self, other):
        return ('deferred', other)
    __radd__ = __rsub__ = __rmul__ = __rand__ = __ror__ = __rxor__ = _r
    __rlshift__ = __rrshift__ = __rfloordiv__ = __rmod__ = _r
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _r
    __hash__ = None


def check_foreign(case, ctx):
    f, n, a, name = case
    ctx.label(name)
    T = bv.fam(f)[n]
    x, o = T(a), foreign(name)
    for sym in gen.OPER:
        expect_raises(TypeError, lambda: gen.PYOP[sym](x, o), f'{x!r} {sym} {name}')
        expect_raises(TypeError, lambda: gen.PYOP[sym](o, x), f'{name} {sym} {x!r}')
    for sym in ('<', '<=', '>', '>='):
        expect_raises(TypeError, lambda: gen.PYOP[sym](x, o), f'{x!r} {sym} {name}')
        expect_raises(TypeError, lambda: gen.PYOP[sym](o, x), f'{name} {sym} {x!r}')
    require((x == o) is False and (o == x) is False, f'{x!r} == {name}')
    require((x != o) is True and (o != x) is True, f'{x!r} != {name}')
    d = Deferring()
    for sym in list(gen.OPER) + list(gen.OPERCMP):
        r = gen.PYOP[sym](x, d)
        require(isinstance(r, tuple) and r[0] == 'deferred' and r[1] is x,
                f'{x!r} {sym} obj does not let obj decide: got', r)


register(Check('B05', [
    Sub('ints', coerce_case, check_coerce, 4000),
    Sub('families', mixed_case, check_families, 2000),
    Sub('widths', mismatch_case, check_mismatch, 2500),
    Sub('foreign', foreign_case, check_foreign, 1200),
], RULE_BV + 'The other operand is an int (in range, negative, oversized), a bool '
    'or Bit, bits, an object with an integer value, a vector of another family or of '
    'another width, or an unrelated object. Non-trivial: not two of one family.', ['Python integers are the reference arithmetic.']))
