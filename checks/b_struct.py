"""B03 slicing/concatenation/extension, B04 construction and conversion,
B06 bit assignment and aliasing, B09 hashing, B10 the type lattice"""
import copy
import gc
import random
from types import new_class

from hypothesis import strategies as st

from lib import bv, gen, many
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)
from checks.b_arith import RULE_BV, label_pair

PYINT = 'Python integers and lists are the reference.'


# ------------------------------------------------------------------ B03
def bits(v, n):
    return [v >> i & 1 for i in range(n)]


def unbits(bs):
    return sum(b << i for i, b in enumerate(bs))


def bound(n):
    return st.one_of(st.none(), st.integers(-n - 2, n + 2),
                     st.sampled_from([0, n, -n, -1, n - 1, 1]))


@st.composite
def slice_case(draw):
    n = draw(st.one_of(gen.width(1, 140), gen.width(1, 140), st.integers(0, 2)))
    s = (draw(bound(n)), draw(bound(n)),
         draw(st.one_of(st.none(), st.none(), st.just(1),
                        st.integers(-4, 4).filter(bool), st.just(-1))))
    i = draw(st.one_of(st.integers(-n - 3, n + 2), st.integers(-n, max(n - 1, 0))))
    return (draw(bv.fams()), n, draw(gen.value(n)), s, i)


def enum_slices(tier):
    top = 5 if tier == 'thorough' else 4
    for n in range(0, top + 1):
        ends = [None] + list(range(-n - 1, n + 2))
        a = (gen.specials(n)[-1] ^ 1 or 1) & gen.mask(n)
        for a in {a, gen.mask(n), int('0110' * (n + 1), 2) & gen.mask(n)}:
            for lo in ends:
                for hi in ends:
                    for step in (None, 1, 2, -1, -2):
                        for f in ('BV', 'S'):
                            yield (f, n, a, (lo, hi, step), 0)


def check_slice(case, ctx):
    f, n, a, s, i = case
    F = bv.fam(f)
    x = F[n](a)
    sl = slice(*s)
    want = bits(a, n)[sl]
    ctx.label('empty' if not want else 'whole' if len(want) == n else 'part')
    if s[2] not in (None, 1):
        ctx.label('strided')
    r = x[sl]
    bv.same(r, F[len(want)], unbits(want), 'slice', case)
    bv.same(x[slice(*(k if k is None else bv.Int(k) for k in s))], F[len(want)], unbits(want),
            'slice by numbers of another class', case)
    require(r.size == len(want) and len(r) == len(want), 'slice size', case, r)
    if -n <= i < n:
        bv.same_bit(x[i], bits(a, n)[i], 'bit', i, 'of', f, n, a)
        bv.same_bit(x[bv.Int(i)], bits(a, n)[i], 'bit', i, 'of', f, n, a)
    else:
        ctx.label('index-out-of-range')
        expect_raises(IndexError, lambda: x[i], f'{x!r}[{i}]')
    for bad in (None, '0', 1.0, (0, 1)):
        expect_raises(TypeError, lambda: x[bad], f'{x!r}[{bad!r}]')
    bv.unchanged(x, F[n], a, 'slicing')
    require([int(b) for b in x] == bits(a, n), 'iteration of', x)


@st.composite
def ext_case(draw):
    f, g = draw(bv.fams()), draw(bv.fams())
    n, m = draw(gen.width(1, 100)), draw(gen.width(1, 100))
    k = draw(st.integers(1, 100))
    return (f, n, draw(gen.value(n)), g, m, draw(gen.value(m)), k,
            draw(gen.value(k)), draw(gen.small_ext()),
            draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 300))))


def check_ext(case, ctx):
    f, n, a, g, m, b, k, c, e, r = case
    F, G = bv.fam(f), bv.fam(g)
    x, y, z = F[n](a), F[m](b), F[k](c)
    ctx.label('ext=0' if e == 0 else 'ext>0', 'negative' if a >> n - 1 else 'positive')
    xy = x.concat(y)
    bv.same(xy, F[n + m], a | b << n, 'concat', case)
    bv.same(xy.concat(z), F[n + m + k], a | b << n | c << n + m, 'concat^2', case)
    bv.same(x.concat(y.concat(z)), F[n + m + k], a | b << n | c << n + m,
            'concat^2 (right)', case)
    bv.same(xy[:n], F[n], a, 'low part of a concat', case)
    bv.same(xy[n:], F[m], b, 'high part of a concat', case)
    y2 = G[m](b)
    if issubclass(G, F):
        bv.same(x.concat(y2), F[n + m], a | b << n, 'concat of a subtype', case)
    else:
        ctx.label('foreign-concat')
        expect_raises(TypeError, lambda: x.concat(y2), f'{x!r}.concat({y2!r})')
    V = bv.viewed(F)
    v = V[m](b)
    bv.same(x.concat(v), F[n + m], a | b << n, 'concat of a type with another __int__', case)
    bv.same(v.concat(V[n](a)), V[n + m], b | a << m, 'concat of types with another __int__', case)
    bv.same(v.repeat(r), V[m * r], unbits(bits(b, m) * r), 'repeat with another __int__', case)
    bv.same(v.zext(e), V[m + e], b, 'zext with another __int__', case)
    bv.same(v.sext(e), V[m + e], gen.sgn(b, m) & gen.mask(m + e), 'sext with another __int__', case)
    bv.same(v[k % m:], V[m - k % m], b >> k % m, 'slice with another __int__', case)
    for bad in (1, None, True, 'x', [1]):
        expect_raises(TypeError, lambda: x.concat(bad), f'{x!r}.concat({bad!r})')
    bv.same(x.repeat(r), F[n * r], unbits(bits(a, n) * r), 'repeat', f, n, a, r)
    sx = gen.sgn(a, n) & gen.mask(n + e)
    bv.same(x.zext(e), F[n + e], a, 'zext', f, n, a, e)
    bv.same(x.sext(e), F[n + e], sx, 'sext', f, n, a, e)
    bv.same(x.ext(e), F[n + e], sx if f in bv.SIGNED else a, 'ext', f, n, a, e)
    require(x.sext(e).as_sint() == x.as_sint(), 'sext keeps the signed value', case)
    require(x.zext(e).as_uint() == x.as_uint(), 'zext keeps the value', case)
    require(int(x.ext(e)) == int(x), 'ext keeps int()', case)
    for bad in (-1, -r):
        expect_raises(ValueError, lambda: x.zext(bad), f'zext({bad})')
        expect_raises(ValueError, lambda: x.sext(bad), f'sext({bad})')
        expect_raises(ValueError, lambda: x.ext(bad), f'ext({bad})')
        expect_raises(ValueError, lambda: x.repeat(bad), f'repeat({bad})')
    expect_raises(ValueError, lambda: x.repeat(0), 'repeat(0)')
    for v, w, val in ((x, n, a), (y, m, b), (z, k, c)):
        bv.unchanged(v, F[w], val, 'concat/extend/repeat')


register(Check('B03', [
    Sub('slices', slice_case, check_slice, 4000, enumerate_cases=enum_slices),
    Sub('extend', ext_case, check_ext, 3500),
], RULE_BV + 'Slices (all start/stop/step forms, including negative and '
    'out-of-range) and single indices are compared with Python list slicing; '
    'concat, repeat and the extensions with bit-list concatenation. All cases '
    'are non-trivial.', [PYINT]))


# ------------------------------------------------------------------ B04
class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class HasBool:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


# a sequence element counts by its truth value, whatever it is: [kind, operand]
ELEMS = st.one_of(
    st.tuples(st.just('int'), st.sampled_from([0, 1, 2, 3, -1, 4, 255, 1 << 70])),
    st.tuples(st.just('bool'), st.booleans()),
    st.tuples(st.just('Bit'), st.booleans()),
    st.tuples(st.just('HasBool'), st.booleans()),
    st.tuples(st.just('s1'), st.integers(0, 1)),
    st.tuples(st.just('u4'), st.integers(0, 15)),
    st.tuples(st.just('s3'), st.integers(0, 7)),
    st.tuples(st.just('none'), st.just(0)),
    st.tuples(st.just('str'), st.sampled_from(['', '0', 'x'])),
    st.tuples(st.just('float'), st.sampled_from([0.0, 0.25, 2.0])))


def element(kind, v):
    import hwtypes as h
    return {'int': lambda: v, 'bool': lambda: v, 'Bit': lambda: h.Bit(v),
            'HasBool': lambda: HasBool(v), 's1': lambda: h.SIntVector[1](v),
            'u4': lambda: h.UIntVector[4](v), 's3': lambda: h.SIntVector[3](v),
            'none': lambda: None, 'str': lambda: v, 'float': lambda: v}[kind]()


@st.composite
def construct_case(draw):
    f, g = draw(bv.fams()), draw(bv.fams())
    n = draw(st.one_of(gen.width(), gen.width(), gen.width(), st.just(0)))
    m = draw(st.one_of(gen.width(), gen.width(), gen.width(), st.just(0)))
    return (f, n, draw(gen.value(n)), draw(gen.int_for(n)), g, m,
            draw(gen.value(m)),
            draw(st.lists(st.integers(0, 1), max_size=min(n + 4, 80))),
            draw(st.lists(ELEMS, max_size=min(n + 3, 24))))


def check_construct(case, ctx):
    import hwtypes as h
    f, n, a, k, g, m, b, seq, els = case
    F = bv.fam(f)
    T = F[n]
    ctx.label('empty' if n == 0 else 'narrowing' if m > n else 'widening' if m < n else 'same-width')
    x = T(a)
    M = gen.mask(n)
    k = bv.num(k)
    # construction
    bv.same(T(k), T, k & M, 'from int', k)
    bv.same(T(HasInt(k)), T, k & M, 'from __int__', k)
    bv.same(T(), T, 0, 'default')
    for one in (True, False, h.Bit(0), h.Bit(1)):
        bv.same(T(one), T, int(bool(one)) & M, 'from', one)
    bv.same(T(list(seq)), T, unbits(seq) & M, 'from list', seq)
    bv.same(T(tuple(bool(s) for s in seq)), T, unbits(seq) & M, 'from tuple', seq)
    bv.same(T([h.Bit(s) for s in seq]), T, unbits(seq) & M, 'from Bits', seq)
    els = [element(*e) for e in els]
    want = unbits([int(bool(e)) for e in els])
    bv.same(T(els), T, want & M, 'from list', els)
    bv.same(F(els), F[len(els) or 1], want, 'implicitly sized from list', els)
    y = bv.make(g, m, b)
    bv.same(T(y), T, b & M, 'from', y)
    bv.unchanged(y, bv.fam(g)[m], b, 'construction')
    for bad in (None, object(), {1: 2}, {1}, lambda: 0):
        expect_raises(TypeError, lambda: T(bad), f'{T!r}({bad!r})')
    bv.same(T.make_constant(k), T, k & M, 'make_constant', k)
    for w in {m, 0, 1, n}:
        bv.same(T.make_constant(k, w), F[w], k & gen.mask(w), 'make_constant', k, w)
    D = type(T)('Derived', (T,), {'__hash__': T.__hash__})
    bv.same(D.make_constant(k), D, k & M, 'make_constant of a derived type', k)
    bv.same(D(k), D, k & M, 'a derived type from int', k)
    # observers
    s = gen.sgn(a, n)
    require(type(x.as_uint()) is int and x.as_uint() == a, 'as_uint', case)
    require(type(x.as_sint()) is int and x.as_sint() == s, 'as_sint', case)
    require(x.as_int() == s, 'as_int', case)
    require(int(x) == (s if f in bv.SIGNED else a), 'int()', case)
    require(bool(x) is (a != 0), 'bool()', case)
    require([int(i) for i in x.bits()] == bits(a, n), 'bits', case)
    for read in ('bits', 'as_bool_list'):
        # what was read is the caller's
        mine = getattr(x, read)()
        if isinstance(mine, list):
            mine[:] = [not i for i in mine] + [1]
            mine.reverse()
        for z in (x, T(a)):
            require([int(i) for i in getattr(z, read)()] == bits(a, n), read,
                    'after changing the list read before', case)
    bl = x.as_bool_list()
    require(bl == [bool(i) for i in bits(a, n)] and all(type(i) is bool for i in bl),
            'as_bool_list', case)
    bs = format(a, f'0{n}b') if n else ''
    require(x.binary_string() == bs, 'binary_string', case, x.binary_string())
    require(x.as_binary_string() == '0b' + bs, 'as_binary_string', case)
    require(len(x) == n and x.size == n and x.num_bits == n, 'sizes', case)
    require(str(x) == str(int(x)), 'str', case, str(x))
    # round trips
    for what, r in (('as_uint', T(x.as_uint())), ('as_sint', T(x.as_sint())),
                    ('int', T(int(x))), ('bits', T(x.bits())),
                    ('as_bool_list', T(x.as_bool_list())),
                    ('Bits', T([x[i] for i in range(n)])),
                    ('binary_string', T(int('0' + x.binary_string(), 2))),
                    ('as_binary_string', T(int('0' + x.as_binary_string()[2:], 2))),
                    ('repr', eval(repr(x), {f: F, F.__name__: F})),
                    ('copy', T(x))):
        bv.same(r, T, a, 'round trip through', what)
    # implicitly sized construction keeps the value
    if a:
        z = F(a)
        bv.same(z, F[a.bit_length()], a, 'implicitly sized from', a)
    for v in (k, a, -a, HasInt(k), True, False):
        w = int(v).bit_length() or 1
        bv.same(F(v), F[w], int(v) & gen.mask(w), 'implicitly sized from', v)
    for v in (0, 1):
        bv.same(F(h.Bit(v)), F[1], v, 'implicitly sized from a Bit')
    expect_raises(TypeError, lambda: F(), f'{F!r}()')
    for bad in (None, object(), {1: 2}, {1}, lambda: 0):
        expect_raises(TypeError, lambda: F(bad), f'{F!r}({bad!r})')
    bv.same(F(bits(a, n)), F[n or 1], a, 'implicitly sized from bits')
    bv.same(F(bv.make(g, m, b)), F[m], b, 'implicitly sized from a vector')


@st.composite
def random_case(draw):
    return (draw(st.sampled_from(['BV', 'U', 'S'])), draw(gen.width()),
            draw(st.integers(0, 1 << 30)))


def check_random(case, ctx):
    f, n, seed = case
    F = bv.fam(f)
    state = random.getstate()
    try:
        random.seed(seed)
        vals = []
        for _ in range(12):
            x = F.random(n)
            require(type(x) is F[n], 'random type', x)
            require(0 <= x.as_uint() <= gen.mask(n), 'random range', x)
            vals.append(x.as_uint())
    finally:
        random.setstate(state)
    if n >= 16:
        ctx.label('spread')
        # 12 draws from >= 2^16 values, chosen from 2^30 seeds: a bit position
        # equal in 12 draws has probability 2^-11 for one bit, so only the
        # number of distinct values is asserted
        require(len(set(vals)) > 4, 'random draws barely vary', vals)


register(Check('B04', [
    Sub('construct', construct_case, check_construct, 4000),
    Sub('random', random_case, check_random, 600),
], RULE_BV + 'Each case builds a vector from every accepted source and reads it '
    'back through every observer. All cases are non-trivial.', [PYINT]))


# ------------------------------------------------------------------ B06
MAKERS = ('copy', 'slice', 'or0', 'mod0', 'ite', 'zext0', 'sext0', 'ext0',
          'repeat1', 'rol0', 'add0', 'shl0', 'and1', 'srem0', 'itevec', 'concat0',
          'make_constant', 'adc', 'not2', 'neg2', 'udiv1', 'mul1', 'xor0', 'sub0',
          'lshr0', 'ashr0', 'ror0', 'tuple-ite', 'and-self', 'or-self', 'urem-big', 'int0',
          'int-shift', 'ones', 'copy.copy', 'deepcopy', 'ite-cast', 'urem-zero')
# how symbolic vectors are derived
SYM_MAKERS = ('copy', 'slice', 'or0', 'xor0', 'ite', 'zext0', 'sext0', 'ext0', 'repeat1', 'rol0',
              'ror0', 'add0', 'sub0', 'shl0', 'lshr0', 'ashr0', 'and1', 'adc', 'not2', 'neg2',
              'mul1', 'and-self', 'or-self', 'int0', 'int-shift', 'copy.copy', 'tuple-ite',
              'itevec', 'make_constant', 'itevec-int')


@st.composite
def history_case(draw):
    f = draw(bv.fams())
    n = draw(st.sampled_from((gen.width(1, 70), gen.width(1, 70), gen.width()))
             .flatmap(lambda w: w))
    ops = []
    for i in range(draw(st.integers(3, 16))):
        r = draw(st.integers(0, 9))
        if r < 4:
            ops.append(('set', draw(st.integers(0, i)),
                        draw(st.integers(-n, n - 1)), draw(st.integers(0, 1)),
                        draw(st.sampled_from(['int', 'bool', 'Bit', 'Int']))))
        elif r < 8:
            ops.append(('make', draw(st.integers(0, i)),
                        draw(st.sampled_from(MAKERS)), draw(st.integers(0, 1))))
        else:
            ops.append(('bad', draw(st.integers(0, i)), draw(st.sampled_from(
                ['hi', 'lo', 'value', 'none', 'slice', 'bv']))))
    return (f, n, draw(gen.value(n)), ops)


def derive(x, T, how, sel):
    import hwtypes as h
    F = T.unsized_t
    z = T(0)
    if how == 'copy': return T(x)
    if how == 'slice': return x[:]
    if how == 'or0': return x | z
    if how == 'xor0': return x ^ z
    if how == 'mod0': return x.bvurem(z)
    if how == 'srem0': return x.bvsrem(z)
    if how == 'ite': return h.Bit(sel).ite(x, x)
    if how == 'tuple-ite': return h.Bit(sel).ite((x, z), (x, z))[0]
    if how == 'itevec': return T(1).ite(x, z)
    if how == 'zext0': return x.zext(0)
    if how == 'sext0': return x.sext(0)
    if how == 'ext0': return x.ext(0)
    if how == 'repeat1': return x.repeat(1)
    if how == 'rol0': return x.bvrol(z)
    if how == 'ror0': return x.bvror(z)
    if how == 'add0': return x + z
    if how == 'sub0': return x - z
    if how == 'shl0': return x << z
    if how == 'lshr0': return x.bvlshr(z)
    if how == 'ashr0': return x.bvashr(z)
    if how == 'and1': return x & ~z
    if how == 'concat0': return x.concat(F[0](0))
    if how == 'make_constant': return T.make_constant(x)
    if how == 'adc': return x.adc(z, 0)[0]
    if how == 'not2': return ~~x
    if how == 'neg2': return -(-x)
    if how == 'udiv1': return x.bvudiv(T(1))
    if how == 'mul1': return x * T(1)
    if how == 'and-self': return x & x
    if how == 'or-self': return x | x
    if how == 'urem-big': return x.bvurem(-T(1)) if x.as_uint() != T(-1).as_uint() else T(x)
    if how == 'urem-zero': return x % 0 if not issubclass(T, h.SIntVector) else x.bvurem(0)
    if how == 'int0': return (x + 0 - 0 | 0) ^ 0
    if how == 'int-shift': return x << 0 if sel else 0 + x
    if how == 'ones': return -T(1) & x if sel else x & -T(1)
    if how == 'copy.copy': return copy.copy(x)
    if how == 'deepcopy': return copy.deepcopy(x)
    if how == 'ite-cast':
        other = h.UIntVector if issubclass(T, h.SIntVector) else h.SIntVector
        return T(h.Bit(sel).ite(other[T.size](x), x))
    raise AssertionError(how)


@st.composite
def symbolic_case(draw):
    n = draw(gen.width(1, 40))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('set'), st.integers(0, 9), st.integers(-n, n - 1), st.integers(0, 1),
                  st.sampled_from(('int', 'bool', 'Bit', 'sym'))),
        st.tuples(st.just('make'), st.integers(0, 9), st.sampled_from(SYM_MAKERS),
                  st.integers(0, 1)),
        st.tuples(st.just('bad'), st.integers(0, 9), st.sampled_from(
            ('hi', 'lo', 'value', 'none', 'slice')))), min_size=2, max_size=8))
    return (draw(st.sampled_from(('SMT', 'z3'))), draw(st.sampled_from(('Bit', 'UInt', 'SInt'))),
            draw(st.booleans()), n, draw(gen.value(n)), tuple(ops))


def derive_sym(x, T, how, sel, Bit):
    z = T(0)
    if how == 'ite': return Bit(sel).ite(x, x)
    if how == 'tuple-ite' and Bit.__name__ == 'SMTBit':      # (those of z3 take no tuples)
        return Bit(sel).ite((x, z), (x, z))[0]
    if how == 'tuple-ite': return Bit(sel).ite(x, z) if sel else Bit(sel).ite(z, x)
    if how == 'itevec-int': return T(1).ite(x, T(3))
    if how == 'rol0': return x.bvrol(0)
    if how == 'ror0': return x.bvror(0)
    if how == 'int-shift': return x << 0 if sel else x + 0
    return derive(x, T, how, sel)


def check_symbolic(case, ctx):
    import hwtypes as h
    be, kind, sym, n, a, ops = case
    T = getattr(h, f'{be}{kind}Vector')[n]
    Bit = getattr(h, be + 'Bit')
    ctx.label(be)
    x, b1 = T() if sym else T(a), Bit()
    if be == 'SMT':
        import pysmt.shortcuts as smt
        subs = {b1.value: smt.Bool(True)}
        if sym:
            subs[x.value] = smt.BV(a, n)

        def read(y):
            t = y.value.substitute(subs).simplify()
            require(t.is_constant(), y, 'is not determined')
            return int(t.constant_value())
    else:
        import z3
        subs = [(b1.value, z3.BoolVal(True))] + [(x.value, z3.BitVecVal(a, n))] * sym

        def read(y):
            return z3.simplify(z3.substitute(y.value, *subs)).as_long()
    xs, vs = [x], [a]
    for op in ops:
        k = op[1] % len(xs)
        x = xs[k]
        if op[0] == 'set':
            _, _, i, b, form = op
            if form == 'sym':
                b = 1
            x[i] = {'int': b, 'bool': bool(b), 'Bit': Bit(b), 'sym': b1}[form]
            j = i % n
            vs[k] = vs[k] & ~(1 << j) | b << j
            ctx.label('set')
        elif op[0] == 'make':
            y = derive_sym(x, T, op[2], op[3], Bit)
            require(isinstance(y, T), op[2], 'gave a', type(y))
            xs.append(y)
            vs.append(vs[k])
            ctx.label('make')
        else:
            def store(i, v):
                x[i] = v
            i, v, E = {'hi': (n, 1, IndexError), 'lo': (-n - 1, 1, IndexError),
                       'value': (0, 2, ValueError), 'none': (0, None, ValueError),
                       'slice': (slice(0, 1), 1, NotImplementedError)}[op[2]]
            expect_raises(E, lambda: store(i, v), op[2])
        for q, (y, v) in enumerate(zip(xs, vs)):
            require(read(y) == v and y.size == n, 'vector', q, 'after', op, 'is', read(y),
                    'expected', v)
    if len(xs) == 1 or not any(o[0] == 'set' for o in ops):
        ctx.mark_trivial()


def check_history(case, ctx):
    import hwtypes as h
    f, n, a, ops = case
    T = bv.fam(f)[n]
    xs, vs = [T(a)], [a]
    for op in ops:
        k = op[1] % len(xs)
        x = xs[k]
        if op[0] == 'set':
            _, _, i, b, form = op
            x[bv.num(i)] = {'int': b, 'bool': bool(b), 'Bit': h.Bit(b), 'Int': bv.Int(b)}[form]
            j = i % n
            vs[k] = vs[k] & ~(1 << j) | b << j
            ctx.label('set')
        elif op[0] == 'make':
            xs.append(derive(x, T, op[2], op[3]))
            vs.append(vs[k])
            ctx.label('make')
            # lists read from a vector are the caller's
            for read in ('bits', 'as_bool_list'):
                l = getattr(x, read)()
                l[:] = [1 - b for b in l]
                require([int(b) for b in getattr(x, read)()] == bits(vs[k], n)
                        and [int(b) for b in getattr(T(vs[k]), read)()] == bits(vs[k], n),
                        read, 'of', x, 'changed with an earlier list')
        else:
            def store(i, v):
                x[i] = v
            kind = op[2]
            ctx.label('rejected')
            if kind == 'hi':
                expect_raises(IndexError, lambda: store(n, 1), 'index too high')
            elif kind == 'lo':
                expect_raises(IndexError, lambda: store(-n - 1, 1), 'index too low')
            elif kind == 'value':
                expect_raises(ValueError, lambda: store(0, 2), 'value 2')
            elif kind == 'none':
                expect_raises(ValueError, lambda: store(0, None), 'value None')
            elif kind == 'bv':
                expect_raises(ValueError, lambda: store(0, T(1)), 'vector value')
            else:
                expect_raises(NotImplementedError, lambda: store(slice(0, 1), 1),
                              'slice assignment')
        for q, (y, v) in enumerate(zip(xs, vs)):
            bv.same(y, T, v, 'vector', q, 'after', op)
    if len(xs) == 1 or not any(o[0] == 'set' for o in ops):
        ctx.mark_trivial()


register(Check('B06', [
    Sub('history', history_case, check_history, 8000),
    Sub('symbolic', symbolic_case, check_symbolic, 1200, 20000),
], RULE_BV + 'A history derives vectors from each other (copies, identity '
    'operations, ite, slices), assigns single bits through all index and value '
    'forms and tries rejected assignments; after every step every live vector is '
    'compared with a list-of-ints model. Non-trivial: at least one derived vector '
    'and one assignment.', [PYINT]))


# ------------------------------------------------------------------ B09
@st.composite
def dict_case(draw):
    f = draw(st.one_of(bv.fams(), st.just('Bit')))
    n = 1 if f == 'Bit' else draw(gen.width(1, 70))
    pool = draw(st.lists(gen.value(n), min_size=1, max_size=5))
    ops = draw(st.lists(st.tuples(st.sampled_from(['put', 'put', 'get', 'del', 'in']),
                                  st.sampled_from(pool), st.integers(0, 9)),
                        min_size=2, max_size=24))
    return (f, n, ops)


def check_dict(case, ctx):
    import hwtypes as h
    f, n, ops = case
    mk = h.Bit if f == 'Bit' else bv.fam(f)[n]
    d, ref = {}, {}
    hits = 0
    for op, v, payload in ops:
        x = mk(v)
        require(hash(x) == hash(mk(v)), 'equal values hash differently', f, n, v)
        if op == 'put':
            hits += v in ref
            d[x] = payload
            ref[v] = payload
        elif op == 'get':
            require(d.get(x, 'none') == ref.get(v, 'none'), 'lookup of', x)
        elif op == 'del':
            require((d.pop(x, None)) == ref.pop(v, None), 'deletion of', x)
        else:
            require((x in d) is (v in ref), 'membership of', x)
        got = {int(k) & gen.mask(n): w for k, w in d.items()}
        require(len(d) == len(ref) and got == ref, 'dict keyed by vectors', d,
                'should be', ref)
    if not hits:
        ctx.mark_trivial()
    ctx.label(f)


@st.composite
def hash_case(draw):
    n = draw(gen.width())
    a, b = draw(gen.value_pair(n))
    return (draw(bv.fams()), n, a, b)


def check_hash(case, ctx):
    """however it was computed, an equal value of the type hashes the same"""
    f, n, a, b = case
    T = bv.fam(f)[n]
    F = bv.fam(f)
    x, y = T(a), T(b)
    same_ways = [T(a), T(a + (1 << n)), T(a - (1 << n)), T(gen.sgn(a, n)), ~~x,
                 x ^ y ^ y, x + y - y, x[:], x.concat(y)[:n], T(x.bits()),
                 F[n + 3](a)[:n], T(x)]
    z = T(0)
    for i in range(n):
        z[i] = a >> i & 1
    same_ways.append(z)
    for w in same_ways:
        require(bool(w == x) and hash(w) == hash(x), 'hash of', w, 'and', x, 'as', case)
    # a hash is of the present value: assigning bits after hashing changes it
    w = T(b)
    d = {hash(w), hash(y)}
    require(len(d) == 1, 'hash of equal vectors', w, y)
    for i in range(n):
        w[i] = a >> i & 1
        hash(w)
    require(bool(w == x) and hash(w) == hash(x), 'hash after assigning bits of', y,
            'to get', x)
    require(w in {x} and x in {w}, 'set membership after assigning bits', case)
    # presentation is not part of the value
    D = type(F)('Shown', (F,), {
        '__hash__': F.__hash__, '__repr__': lambda s: f'<{id(s)}>',
        '__str__': lambda s: f'<{id(s)}>', 'note': None})[n]
    p, q = D(a), D(a)
    p.note = 'one'
    require(hash(p) == hash(q) and len({p, q}) == 1 and q in {p: 0},
            'hash of a user type with its own repr', case)
    require(bool(x == y) is (a == b), 'equality of', x, y)
    require(len({*same_ways, y}) == (1 if a == b else 2), 'set of', x, y)


register(Check('B09', [
    Sub('dict', dict_case, check_dict, 4000),
    Sub('hash', hash_case, check_hash, 3000),
], RULE_BV + 'Histories of dict operations keyed by vectors or Bits, against a '
    'dict keyed by ints. Non-trivial: some key is stored twice / every case.',
    ['Keys of one dict are all of one type: mixed-width equality raises.']))


# ------------------------------------------------------------------ B10
@st.composite
def lattice_case(draw):
    """a forest of user vector types, then widths to instantiate"""
    k = draw(st.integers(0, 5))
    parents = []
    for i in range(k):
        cands = list(range(i + 3))      # 0..2 are BV, U, S; then user types
        p = draw(st.lists(st.sampled_from(cands), min_size=1, max_size=2, unique=True))
        # -1: a mixin that is no vector; -2, -3: metaclasses of the user's own
        parents.append(tuple(p) + ((-1,) if draw(st.integers(0, 3)) == 0 else ())
                       + draw(st.sampled_from([(), (), (), (), (-2,), (-3,)])))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['get', 'get', 'forget', 'gc', 'make', 'sized', 'move']),
        st.integers(0, k + 2), st.one_of(st.integers(0, 4), gen.width())),
        min_size=3, max_size=16))
    return (parents, ops)


class Mixin:
    pass


def check_lattice(case, ctx):
    import hwtypes as h
    parents, ops = case
    types = [h.BitVector, h.UIntVector, h.SIntVector]
    meta = [type('Meta', (type(h.BitVector),), {})]
    meta.append(type('Meta2', (meta[0],), {}))
    for i, ps in enumerate(parents):
        bases = tuple(Mixin if p < 0 else types[p] for p in ps if p > -2)
        kw = {'metaclass': meta[-2 - ps[-1]]} if ps[-1] < -1 else {}
        if kw:
            ctx.label('metaclass')
        try:
            U = new_class(f'User{i}', bases, kw)
        except TypeError:                   # no consistent order of the bases
            ctx.label('one-base')
            U = new_class(f'User{i}', bases[:1], kw)
        else:
            ctx.label(f'{len(bases)}bases')
        types.append(U)
    live = {}
    sub = lambda a, b: issubclass(types[a], types[b])
    for op, t, n in ops:
        T = types[t]
        if op == 'gc':
            gc.collect(0 if n % 4 else 2)
        elif op == 'forget':
            live.pop((t, n), None)
        elif op == 'move' and t > 2:
            # where a type says it lives, and what else it has, are not what it is
            T.__module__ = ('elsewhere', __name__)[n % 2]
            T.note = n
        else:
            R = T[(int(str(n)), bv.Int(n), n == 1 or n)[(n + t) % 3]]
            require(R is T[n], 'second lookup of', T, n)
            if (t, n) in live:
                ctx.label('re-lookup')
                require(R is live[t, n], 'type', R, 'is not the one made before')
            live[t, n] = R
            require(R.size == n and len(R) == n and R.is_sized, 'size of', R)
            require(R.unsized_t is T, 'unsized_t of', R)
            require(not T.is_sized and T.unsized_t is T, 'unsized', T)
            require(R.__name__ == f'{T.__name__}[{n}]', 'name of', R)
            expect_raises(TypeError, lambda: R[n], f'{R!r}[{n}]')
            if op == 'make' and n:
                x = R(1)
                require(x.size == n and isinstance(x, T), 'instance of', R)
                for u, U in enumerate(types):
                    require(isinstance(x, U[n]) is sub(t, u), x, 'isinstance', U, n)
            if op == 'sized' and n:
                D = new_class('Sized', (R,))
                require(D.size == n and D.is_sized, 'size of a subclass of', R)
                require(type(D(3)) is D and D(3).as_uint() == 3 & gen.mask(n),
                        'instance of a subclass of', R)
                expect_raises(AttributeError, lambda: D.unsized_t, 'unsized_t of a '
                              'class derived from a sized type')
                expect_raises(TypeError, lambda: type(R)(
                    'Two', (T[n], T[n + 1]), {}), 'two sizes in one class')
    for (t1, n1), R1 in live.items():
        for (t2, n2), R2 in live.items():
            require(issubclass(R1, R2) is (n1 == n2 and sub(t1, t2)),
                    'issubclass', R1, R2)
            require((R1 is R2) is (t1 == t2 and n1 == n2), 'identity', R1, R2)
            require((R1 == R2) is (R1 is R2), 'equality', R1, R2)
        for t2, U in enumerate(types):
            require(issubclass(R1, U) is sub(t1, t2), 'issubclass', R1, U)
    keep = types[-1][8]
    for bad in ('8', 2.5, 8.0, None, (1,)):
        expect_raises(TypeError, lambda: types[-1][bad], f'width {bad!r}')
    require(types[-1][8] is keep, 'identity of', keep)
    for bad in (-1, -8):
        expect_raises(ValueError, lambda: types[-1][bad], f'width {bad}')
    expect_raises(AttributeError, lambda: len(types[-1]), 'len of an unsized type')
    expect_raises(TypeError, lambda: type(types[-1])('X', (types[-1],),
                                                    {'_info_': 1}), 'reserved name')
    if not live:
        ctx.mark_trivial()


def many_type(f, n):
    return bv.fam(f)[n]


register(Check('B10', [
    Sub('lattice', lattice_case, check_lattice, 2400),
    Sub('many', many.cases(), many.check(many_type, lambda i, rng: (
        rng.choice(('BV', 'U', 'S')), rng.randint(0, 9000))), 8, 200,
        enumerate_cases=many.enumerated(3000)),
], 'Hypothesis draws a forest of user-defined vector types and a history of '
    'parameterisations, drops and garbage collections; after each step identity, '
    'size, unsized type and the whole subclass relation are compared with the '
    'drawn forest. Non-trivial: some parameterised type is held at the end.'))
