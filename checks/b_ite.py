"""B07 Bit logic and ite, B08 polymorphic ite"""
from hypothesis import strategies as st

from lib import bv, gen
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)


class HasBool:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


# ------------------------------------------------------------------ B07 logic
BOP = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
       '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b)}


@st.composite
def logic_case(draw):
    ins = draw(st.lists(st.integers(0, 1), min_size=1, max_size=4))
    prog = []
    for i in range(draw(st.integers(1, 14))):
        k = len(ins) + i
        op = draw(st.sampled_from(['&', '|', '^', '==', '!=', '~', 'ite']))
        prog.append((op, draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1)),
                     draw(st.integers(0, k - 1)),
                     draw(st.sampled_from(['Bit', 'bool', 'int', 'rbool', 'rint']))))
    return (ins, prog)


def check_logic(case, ctx):
    import hwtypes as h
    ins, prog = case
    xs, vs = [h.Bit(v) for v in ins], list(ins)
    for op, i, j, k, form in prog:
        ctx.label(op)
        if op == '~':
            r, v = ~xs[i], 1 - vs[i]
        elif op == 'ite':
            r, v = xs[k].ite(xs[i], xs[j]), vs[i] if vs[k] else vs[j]
        else:
            other = {'Bit': xs[j], 'bool': bool(vs[j]), 'int': vs[j],
                     'rbool': bool(vs[j]), 'rint': vs[j]}[form]
            v = BOP[op](vs[i], vs[j])
            r = (gen.PYOP[op](other, xs[i]) if form[0] == 'r'
                 else gen.PYOP[op](xs[i], other))
        bv.same_bit(r, v, op, form, 'in', case)
        require(int(r) == v and type(int(r)) is int, 'int()', r)
        require(hash(r) == hash(h.Bit(v)), 'hash', r)
        require(eval(repr(r), {'Bit': h.Bit}) is not None
                and bool(eval(repr(r), {'Bit': h.Bit})) is bool(v), 'repr', r)
        xs.append(r)
        vs.append(v)
    for x, v in zip(xs, vs):
        bv.same_bit(x, v, 'operand after', case)


@st.composite
def bitcons_case(draw):
    return (draw(st.integers(0, 1)), draw(st.integers(-300, 300)),
            draw(st.sampled_from(['object', 'list', 'str', 'dict'])))


def check_bitcons(case, ctx):
    import hwtypes as h
    v, k, name = case
    for src in (v, bool(v), h.Bit(v), HasBool(bool(v)), h.BitVector[3](v * 5)):
        bv.same_bit(h.Bit(src), v, 'Bit from', src)
    b = h.Bit(v)
    # results of user Bits have the type of the left one
    B, C = type('B', (h.Bit,), {}), type('C', (h.Bit,), {})
    require(type(~B(v)) is B, '~ of a subtype of Bit')
    for sym in '&|^':
        for w in (0, 1):
            for X, Y in ((h.Bit, B), (B, h.Bit), (B, C), (B, B)):
                r = gen.PYOP[sym](X(v), Y(w))
                require(type(r) is X and int(r) == BOP[sym](v, w), v, sym, w, 'of', X, Y, 'is', r)
            for o in (w, bool(w)):
                for r in (gen.PYOP[sym](B(v), o), gen.PYOP[sym](o, B(v))):
                    require(type(r) is B and int(r) == BOP[sym](v, w), v, sym, o, 'is', r)
    foreign = {'object': object(), 'list': [], 'str': '1', 'dict': {}}[name]
    if name == 'object':
        expect_raises(TypeError, lambda: h.Bit(foreign), f'Bit({name})')
        for sym in '&|^':
            expect_raises(TypeError, lambda: gen.PYOP[sym](b, foreign), f'Bit {sym} {name}')
            expect_raises(TypeError, lambda: gen.PYOP[sym](foreign, b), f'{name} {sym} Bit')
        require((b == foreign) is False and (b != foreign) is True, 'Bit == object')
    if k not in (0, 1):
        expect_raises(ValueError, lambda: h.Bit(k), f'Bit({k})')
        for sym in '&|^':
            expect_raises(ValueError, lambda: gen.PYOP[sym](b, k), f'Bit {sym} {k}')
    require(type(h.Bit.random()) is h.Bit, 'Bit.random')


# ------------------------------------------------------------------ B07 ite
# a shape is ('bit',) | ('vec', fam, width) | ('proto', width) | ('tup', [shapes])
def leaf():
    return st.one_of(st.just(('bit',)),
                     st.tuples(st.just('vec'), bv.fams(), gen.width(1, 40)),
                     st.tuples(st.just('proto'), gen.width(1, 20)))


def shapes():
    return st.recursive(leaf(), lambda s: st.tuples(
        st.just('tup'), st.lists(s, max_size=4)), max_leaves=7)


@st.composite
def value_of(draw, shape):
    if shape[0] == 'bit':
        return draw(st.integers(0, 1))
    if shape[0] == 'tup':
        return tuple(draw(value_of(s)) for s in shape[1])
    return draw(gen.value(shape[-1]))


@st.composite
def ite_case(draw):
    s = draw(shapes())
    cw = draw(st.one_of(st.just(0), gen.width(1, 40)))
    cond = draw(st.integers(0, 1)) if cw == 0 else draw(
        st.one_of(st.just(0), gen.value(cw)))
    return (cw, draw(st.sampled_from(['BV', 'U', 'S'])), cond, s,
            draw(value_of(s)), draw(value_of(s)))


def proto(n):
    import hwtypes as h
    # the vectors it holds may be of a type below the declared one
    W = bv.fam(('BV', 'S', 'BV')[n % 3])[n]
    V = bv.fam(('BV', 'MyS', 'U')[n % 3])[n]

    class Meta(type):
        def _bitvector_t_(cls):
            return W

    class P(metaclass=Meta):
        def __init__(self, v):
            self.v = V(v)

        @classmethod
        def _from_bitvector_(cls, b):
            if type(b) is not W:
                raise Violation(f'_from_bitvector_ was given {b!r}, not a {W!r}')
            return cls(b)

        def _to_bitvector_(self):
            return self.v
    return P


def build(shape, v, protos):
    import hwtypes as h
    if shape[0] == 'bit':
        return h.Bit(v)
    if shape[0] == 'vec':
        return bv.make(shape[1], shape[2], v)
    if shape[0] == 'proto':
        P = protos.setdefault(shape[1], None) or protos.__setitem__(
            shape[1], proto(shape[1])) or protos[shape[1]]
        return P(v)
    return tuple(build(s, x, protos) for s, x in zip(shape[1], v))


def match(r, shape, v, protos, what):
    if shape[0] == 'bit':
        bv.same_bit(r, v, what)
    elif shape[0] == 'vec':
        bv.same(r, bv.fam(shape[1])[shape[2]], v, what)
    elif shape[0] == 'proto':
        require(type(r) is protos[shape[1]], what, 'gave', r)
        bv.same(r.v, type(r.v), v, what)
    else:
        require(isinstance(r, tuple) and len(r) == len(v), what, 'gave', r)
        for x, s, y in zip(r, shape[1], v):
            match(x, s, y, protos, what)


def mk_cond(cw, f, cond):
    import hwtypes as h
    return h.Bit(cond) if cw == 0 else bv.make(f, cw, cond)


def check_ite(case, ctx):
    cw, f, cond, shape, t, e = case
    protos = {}
    c = mk_cond(cw, f, cond)
    tb, eb = build(shape, t, protos), build(shape, e, protos)
    ctx.label('cond=vector' if cw else 'cond=bit', shape[0],
              'true' if cond else 'false')
    if t == e:
        ctx.mark_trivial()
    match(c.ite(tb, eb), shape, t if cond else e, protos, f'{c!r}.ite in {case!r}')
    match(tb, shape, t, protos, 'true branch afterwards')
    match(eb, shape, e, protos, 'false branch afterwards')


@st.composite
def badite_case(draw):
    """two shapes that do not fit: one leaf or arity differs"""
    s = draw(shapes())
    kind = draw(st.sampled_from(['width', 'arity', 'bitvec', 'int', 'tupleleaf',
                                 'family', 'noto', 'nofrom', 'class', 'protos',
                                 'subproto', 'protovec', 'plain', 'none', 'lists']))
    depth = draw(st.integers(0, 2))
    n = draw(gen.width(1, 40))
    return (draw(st.integers(0, 1)), s, draw(value_of(s)), kind, depth, n,
            draw(gen.width(1, 9)))


def half_proto(method, x):
    """two objects with one half of the protocol"""
    class Meta(type):
        def _bitvector_t_(cls):
            return type(x)
    P = Meta('P', (), {method: lambda *a: x})
    return P(), P()


def two_protos(n):
    P = proto(n)
    Q = type(P)('Q', (P,), {})
    return P(1), Q(1)


def check_badite(case, ctx):
    import hwtypes as h
    cond, shape, v, kind, depth, n, d = case
    protos = {}
    ctx.label(kind)
    good = build(shape, v, protos)
    x = h.BitVector[n](1)
    pair = {'width': (x, h.BitVector[n + d](1)),
            'arity': ((x,) * d, (x,) * (d + 1)),
            'bitvec': (h.Bit(1), h.BitVector[1](1)),
            'int': (1, 0),
            'tupleleaf': ((x,), x),
            'family': (x, h.SMTBitVector[n](1)),
            'noto': half_proto('_from_bitvector_', x), 'nofrom': half_proto('_to_bitvector_', x),
            'class': (type(x), type(x)),
            'protos': (proto(n)(1), proto(n)(1)), 'subproto': two_protos(n),
            'protovec': (proto(n)(1), x),
            'plain': ((x, True, 1)[d % 3], (1, h.Bit(1), x)[d % 3]),
            'lists': (([x] * d, (x,) * d)[n & 1], [x] * d),
            'none': (x, (None, 'x', 1.0, [x], object())[d % 5])}[kind]
    a, b = pair
    for _ in range(depth):
        a, b = (good, a), (good, b)
    expect_raises(TypeError, lambda: h.Bit(cond).ite(a, b), f'ite({a!r}, {b!r})')
    expect_raises(TypeError, lambda: h.Bit(cond).ite(b, a), f'ite({b!r}, {a!r})')
    if kind == 'width' and depth == 0:
        expect_raises(h.InconsistentSizeError, lambda: h.Bit(cond).ite(a, b), 'ite')


register(Check('B07', [
    Sub('logic', logic_case, check_logic, 3000),
    Sub('bit', bitcons_case, check_bitcons, 400),
    Sub('ite', ite_case, check_ite, 5000),
    Sub('reject', badite_case, check_badite, 2000),
], 'Boolean programs over Bits, with Bit/bool/int operands on either side, '
    'against Python ints; ite over drawn shapes (Bits, vectors of any type, '
    'protocol objects, nested tuples) with Bit or vector conditions against '
    'choosing the branch; shapes that do not fit must be refused. Non-trivial: '
    'ite branches differ.', ['Python bool arithmetic is the reference.']))


# ------------------------------------------------------------------ B08
# the model of a polymorphic value: (signed?, width, pattern), signed? resolved
LEAVES = ('U', 'S', 'BV', 'MyU', 'MyS')
STEPS = ('+', '-', '*', '&', '|', '^', '<<', '>>', '//', '%', 'neg', 'not',
         'ext', 'sext', 'zext', 'bvlshr', 'bvashr', 'bvudiv', 'bvsdiv')


# where in tuples of branches the two values stand: positions from the outside
NESTING = st.lists(st.sampled_from((0, 1, 2)), max_size=2)


def nested_ite(c, t, e, nest):
    """c.ite(t, e), through tuples whose other elements are crossed over"""
    x, y = t, e
    for p in nest:
        xs, ys = [e, t, e], [t, e, t]
        xs[p], ys[p] = x, y
        x, y = tuple(xs), tuple(ys)
    r = c.ite(x, y)
    for p in reversed(nest):
        require(isinstance(r, tuple) and len(r) == 3, 'ite of tuples gave', r)
        r = r[p]
    return r


@st.composite
def poly_case(draw):
    n = draw(gen.width(1, 40))
    k = draw(st.integers(2, 5))
    vals = [(draw(st.sampled_from(LEAVES)), draw(gen.value(n))) for _ in range(k)]
    merges = [(draw(st.integers(0, 1)), draw(st.integers(0, 20)), draw(st.integers(0, 20)),
               draw(NESTING)) for _ in range(draw(st.integers(1, 4)))]
    steps = [(draw(st.sampled_from(STEPS)), draw(gen.int_for(n)),
              draw(st.integers(0, 5)))
             for _ in range(draw(st.integers(1, 6)))]
    return (n, vals, merges, steps, draw(gen.int_for(n)))


def check_poly(case, ctx):
    import hwtypes as h
    n, vals, merges, steps, k = case
    pool = [bv.make(f, n, v) for f, v in vals]
    model = [(f in bv.SIGNED, v) for f, v in vals]
    mixed = False
    for c, i, j, nest in merges:
        i, j = i % len(pool), j % len(pool)
        mixed |= model[i][0] != model[j][0]
        pool.append(nested_ite(h.Bit(c), pool[i], pool[j], nest))
        model.append(model[i] if c else model[j])
    ctx.label('signedness-mixed' if mixed else 'signedness-same')
    x, (sg, v) = pool[-1], model[-1]
    w = n

    def eq(r, v, w, what):
        require(isinstance(r, h.BitVector) and r.size == w and r.as_uint() == v,
                what, 'gave', r, 'of size', getattr(r, 'size', None),
                f'expected {v} of size {w}:', case)

    eq(x, v, w, 'ite')
    for sym, a, e in steps:
        b = a & gen.mask(w)
        if sym in gen.OPER:
            r = gen.PYOP[sym](x, a)
            v2 = gen.BIN[gen.OPER[sym][sg]](v, b, w)
            rr = gen.PYOP[sym](a, x)
            eq(rr, gen.BIN[gen.OPER[sym][sg]](b, v, w), w, f'int {sym} poly')
        elif sym == 'neg':
            r, v2 = -x, -v & gen.mask(w)
        elif sym == 'not':
            r, v2 = ~x, ~v & gen.mask(w)
        elif sym in ('ext', 'sext', 'zext'):
            r = getattr(x, sym)(e)
            se = sym == 'sext' or sym == 'ext' and sg
            v2 = gen.sgn(v, w) & gen.mask(w + e) if se else v
            w += e
        else:
            r, v2 = getattr(x, sym)(a), gen.BIN[sym](v, b, w)
        eq(r, v2, w, f'poly {sym} {a}')
        x, v = r, v2
        for csym, ops in gen.OPERCMP.items():
            kk = k & gen.mask(w)
            bv.same_bit(gen.PYOP[csym](x, k), gen.CMP[ops[sg]](v, kk, w),
                        'poly', csym, k, case)
            bv.same_bit(gen.PYOP[csym](k, x), gen.CMP[ops[sg]](kk, v, w),
                        k, csym, 'poly', case)
        require([int(q) for q in x.bits()] == [v >> q & 1 for q in range(w)], 'bits')
        require(x.as_sint() == gen.sgn(v, w), 'as_sint')
    if not mixed:
        ctx.mark_trivial()


@st.composite
def polypair_case(draw):
    n = draw(gen.width(1, 40))
    a, b = draw(gen.value_pair(n))
    fs = st.sampled_from(LEAVES)
    return (n, (draw(fs), draw(fs), draw(st.integers(0, 1)), a, draw(gen.value(n))),
            (draw(fs), draw(fs), draw(st.integers(0, 1)), b, draw(gen.value(n))))


def check_polypair(case, ctx):
    """both operands polymorphic: named comparisons and the receiver's operators"""
    import hwtypes as h
    n = case[0]
    xs = []
    for f, g, c, sel, other in case[1:]:
        t, e = (sel, other) if c else (other, sel)
        xs.append((h.Bit(c).ite(bv.make(f, n, t), bv.make(g, n, e)),
                   (f if c else g) in bv.SIGNED, sel, f != g))
    (x, sg, a, p1), (y, _, b, p2) = xs
    if not (p1 and p2):
        ctx.mark_trivial()
    for op, fn in gen.CMP.items():
        bv.same_bit(getattr(x, op)(y), fn(a, b, n), op, case)
    for op, fn in gen.BIN.items():
        r = getattr(x, op)(y)
        require(r.size == n and r.as_uint() == fn(a, b, n), op, 'gave', r, case)
    if p1 and p2:
        for sym, ops in gen.OPER.items():
            r = gen.PYOP[sym](x, y)
            require(r.size == n and r.as_uint() == gen.BIN[ops[sg]](a, b, n),
                    sym, 'gave', r, case)
    r = h.Bit(1).ite((x, y), (y, x))
    require(r[0].as_uint() == a and r[1].as_uint() == b, 'tuple of polys', r)


@st.composite
def polyuser_case(draw):
    n = draw(gen.width(1, 40))
    return (n, draw(st.integers(0, 1)), draw(gen.value(n)), draw(gen.value(n)),
            draw(gen.int_for(n)), draw(st.booleans()))


def check_polyuser(case, ctx):
    """user types with their own methods"""
    import hwtypes as h
    n, c, a, b, k, swap = case

    class P(h.BitVector):
        def twist(self, z=0):
            return self + 1 + z

        def only_p(self):
            return self

        def __floordiv__(self, o):
            return NotImplemented

    class Q(h.UIntVector):
        def twist(self, z=0):
            return self * 3 - z

        def flag(self):
            return h.Bit(1)

        def __floordiv__(self, o):
            return self

    class Right:
        def __rfloordiv__(self, o):
            return 'right'

    T, E = (Q, P) if swap else (P, Q)
    x = h.Bit(c).ite(T[n](a), E[n](b))
    sel, v = (T, a) if c else (E, b)
    m = gen.mask(n)
    for z in (0, 5):
        want = (v + 1 + z if sel is P else v * 3 - z) & m
        require(x.twist(z).as_uint() == want, 'user method', x.twist(z), case)
        require(x.twist(z=z).as_uint() == want, 'user method by keyword', case)
    require(not hasattr(x, 'only_p') and not hasattr(x, 'flag'),
            'a method of one branch only', case)
    require((x // Right()) == 'right', 'an operand one branch refuses', case)
    # other classes of the same names, while the first value is alive
    P2 = type('P', (h.BitVector,), {'twist': lambda s, z=0: s + 7 - z,
                                    '__module__': P.__module__, '__qualname__': P.__qualname__})
    Q2 = type('Q', (h.UIntVector,), {'twist': lambda s, z=0: ~s + z, 'only_p': lambda s: s,
                                     '__module__': Q.__module__, '__qualname__': Q.__qualname__})
    T2, E2 = (Q2, P2) if swap else (P2, Q2)
    x2 = h.Bit(c).ite(T2[n](a), E2[n](b))
    sel2 = T2 if c else E2
    for z in (0, 5):
        want2 = (v + 7 - z if sel2 is P2 else ~v + z) & gen.mask(n)
        want = (v + 1 + z if sel is P else v * 3 - z) & gen.mask(n)
        require(x2.twist(z).as_uint() == want2, 'method of a class of the same name', case)
        require(x.twist(z).as_uint() == want, 'user method', x.twist(z), case)
    require(isinstance(x2, h.AbstractBitVector) and not hasattr(x2, 'only_p'), x2)
    B = type('MyBit', (h.Bit,), {'__hash__': h.Bit.__hash__,
                                 '__and__': lambda s, o: h.Bit(1)})
    y = h.Bit(c).ite(B(1), h.Bit(0))
    require(bool(y) is bool(c), 'poly Bit', y)
    require(bool(y & h.Bit(0)) is bool(c), 'poly Bit &', case)
    require(bool(~y) is (not c), 'poly Bit ~', case)
    for t, e in ((h.SIntVector[n](0), h.UIntVector[n + 1](0)),
                 (h.SIntVector[n + 1](0), h.BitVector[n](0))):
        expect_raises(h.InconsistentSizeError, lambda: h.Bit(c).ite(t, e), 'widths')


register(Check('B08', [
    Sub('chains', poly_case, check_poly, 1300),
    Sub('pairs', polypair_case, check_polypair, 1200),
    Sub('user', polyuser_case, check_polyuser, 600),
], 'Values of differently signed types are merged with concrete conditions, '
    'repeatedly, and put through chains of sign-dependent and independent '
    'operations; a model that tracks the selected branch\'s signedness predicts '
    'every value, width and comparison. Non-trivial: some merge mixes signedness.',
    ['int(), str() and repr() of a polymorphic value are not asserted.']))
