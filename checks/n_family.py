"""B11 back ends of one's own, M03 new()"""
import functools
import gc

from hypothesis import strategies as st

from lib import adt, bv, gen
from lib.harness import Check, Sub, expect_raises, register, require


@functools.lru_cache(None)
def mini():
    """a vector back end that defines the primitive operations only"""
    import hwtypes as h
    from hwtypes.bit_vector_util import build_ite

    class Env:
        pass

    class MBit(h.AbstractBit):
        @staticmethod
        def get_family():
            return Env.family

        def __init__(self, v=0):
            self.v = bool(v)

        def __bool__(self):
            return self.v

        def __hash__(self):
            return hash(self.v)

        def __eq__(self, o):
            return MBit(self.v == bool(o))

        def __invert__(self):
            return MBit(not self.v)

        def __and__(self, o):
            return MBit(self.v and bool(o))

        def __or__(self, o):
            return MBit(self.v or bool(o))

        def __xor__(self, o):
            return MBit(self.v != bool(o))

        def ite(self, t, f):
            return build_ite(lambda s, t, f: t if s else f, self, t, f)

    class MVec(h.AbstractBitVector):
        @staticmethod
        def get_family():
            return Env.family

        def __init__(self, v=0):
            if isinstance(v, (list, tuple)):
                v = sum(bool(b) << i for i, b in enumerate(v))
            elif isinstance(v, MVec):
                v = v.v
            elif isinstance(v, h.AbstractBit):
                v = bool(v)
            self.v = int(v) & gen.mask(self.size)

        def __len__(self):
            return self.size

        def make_constant(self, v, n=None):
            return type(self).unsized_t[self.size if n is None else n](v)

        def bvnot(self):
            return type(self)(~self.v)

        def sign(self):
            return MBit(0)

        def ite(self, t, f):
            return MBit(self.v).ite(t, f)

        def __repr__(self):
            return f'{type(self).__name__}({self.v})'

    def arg(x, o):
        # its operations take ints as well
        return o.v if isinstance(o, MVec) else int(o) & gen.mask(x.size)

    def binary(name):
        def op(self, o):
            return type(self)(gen.BIN[name](self.v, arg(self, o), self.size))
        return op

    def compare(name):
        def op(self, o):
            return MBit(gen.CMP[name](self.v, arg(self, o), self.size))
        return op
    for n in ('bvand', 'bvor', 'bvxor', 'bvadd', 'bvsub', 'bvlshr', 'bvashr', 'bvshl'):
        setattr(MVec, n, binary(n))
    for n in ('bveq', 'bvult', 'bvslt'):
        setattr(MVec, n, compare(n))
    MVec.shr = MVec.bvlshr
    MVec.less = MVec.bvult

    class MUns(MVec):
        def only_unsigned(self):
            return 1

    class MSig(MVec):
        shr = MVec.bvashr
        less = MVec.bvslt

        def sign(self):
            return MBit(1)

    class MObj:
        pass
    Env.Bit, Env.BV, Env.U, Env.S, Env.Obj = MBit, MVec, MUns, MSig, MObj
    Env.family = h.TypeFamily(MBit, MVec, MUns, MSig)
    return Env


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


DERIVED = ('bvnand', 'bvnor', 'bvxnor')
DERIVED_CMP = ('bvne', 'bvule', 'bvugt', 'bvuge', 'bvsle', 'bvsgt', 'bvsge')


@st.composite
def backend_case(draw):
    n = draw(gen.width())
    a, b = draw(gen.value_pair(n))
    leaf = st.sampled_from(['bit', ('bv', 'BV', n), ('bv', 'U', 3), ('bv', 'S', n), 'A'])
    return (draw(st.sampled_from(('BV', 'U', 'S'))), draw(st.sampled_from(('BV', 'U', 'S'))),
            n, a, b, draw(st.booleans()), draw(gen.int_for(n)),
            draw(st.lists(st.booleans(), max_size=9)),
            draw(adt.adt(2, kinds=('tuple', 'anon', 'prod', 'tu'), leaves=leaf, auto=False,
                         lo=1)))


def check_backend(case, ctx):
    import hwtypes as h
    from hwtypes.bit_vector_util import PolyBit, PolyVector
    from hwtypes import adt_util as u
    f, g, n, a, b, s, k, seq, d = case
    e = mini()
    F, G = getattr(e, f), getattr(e, g)
    T = F[n]
    require(T is F[n] and T.unsized_t is F and T.size == n and issubclass(T, e.BV[n]), T)
    x, y = T(a), T(b)
    ctx.label(f + g)
    # derived operations
    for op in DERIVED:
        r = getattr(x, op)(y)
        require(type(r) is T and r.v == gen.BIN[op](a, b, n), op, x, y, 'gave', r)
        r = getattr(x, op)(k)
        require(type(r) is T and r.v == gen.BIN[op](a, k & gen.mask(n), n), op, x, k, 'gave', r)
    for op in DERIVED_CMP:
        r = getattr(x, op)(y)
        require(type(r) is e.Bit and r.v is gen.CMP[op](a, b, n), op, x, y, 'gave', r)
        r = getattr(x, op)(k)
        require(type(r) is e.Bit and r.v is gen.CMP[op](a, k & gen.mask(n), n), op, x, k, 'gave', r)
    p, q = e.Bit(a & 1), e.Bit(b & 1)
    require(type(p != q) is e.Bit and (p != q).v is bool((a ^ b) & 1), p, '!=', q)
    require((x.v, y.v) == (a, b) and x.size == n, 'operands changed')
    # implicit sizes
    def sized(v, w, val):
        r = F(v)
        require(type(r) is F[w] and r.v == val & gen.mask(w), F, 'of', v, 'gave', r)
    sized(a, a.bit_length() or 1, a)
    sized(k, k.bit_length() or 1, k)
    sized(HasInt(k), k.bit_length() or 1, k)
    sized(seq, len(seq) or 1, sum(v << i for i, v in enumerate(seq)))
    sized(tuple(seq), len(seq) or 1, sum(v << i for i, v in enumerate(seq)))
    sized(True, 1, 1)
    sized(e.Bit(s), 1, int(s))
    sized(x, n, a)
    sized(G[n](b), n, b)
    for bad in (None, object(), {1}, {1: 2}):
        expect_raises(TypeError, lambda: F(bad), f'{F!r}({bad!r})')
    expect_raises(TypeError, lambda: F(), f'{F!r}()')
    # merging
    sel = e.Bit(s)
    z = G[n](b)
    r = sel.ite(x, z)
    t, v = (T, a) if s else (G[n], b)
    require(r.v == v and isinstance(r, e.BV[n]), 'ite', r)
    if F is G:
        require(type(r) is T, 'ite of one type gave', type(r))
    else:
        ctx.label('merged')
        for U in (e.BV, e.U, e.S):
            require(isinstance(r, U[n]) is (issubclass(F, U) and issubclass(G, U)), r, U)
    o = type(r)(k)
    signed = issubclass(t, e.S)
    kk = k & gen.mask(n)
    require(r.sign().v is signed, 'sign of', r)
    require(r.less(o).v is gen.CMP['bvslt' if signed else 'bvult'](v, kk, n), r, 'less', o)
    require(r.shr(o).v == gen.BIN['bvashr' if signed else 'bvlshr'](v, kk, n), r, 'shr', o)
    require(r.bvadd(o).v == (v + kk) & gen.mask(n), r, 'add', o)
    require(hasattr(r, 'only_unsigned') is (issubclass(F, e.U) and issubclass(G, e.U)),
            'method of one branch', r)
    # types that share a class that is no vector type
    Mix, Mix2, Mix3 = (type(f'Mix{i}', (), {f'mix{i}': lambda self, i=i: i}) for i in range(3))
    Mix3 = type('Mix3', (Mix3,), {})
    P, Q = (type(F)('P', (Mix, Mix3, F), {}), type(G)('Q', (Mix, Mix2, G), {}))
    if b & 1:
        Q = type(G)('Q2', (Q,), {'mix2': 5})
    m_ = sel.ite(P[n](a), Q[n](b))
    for K in (Mix, Mix2, Mix3) + (e.BV[n], e.U[n], e.S[n], P, Q):
        require(isinstance(m_, K) is (issubclass(P[n], K) and issubclass(Q[n], K)),
                'a merged value is of', K, isinstance(m_, K))
    require(m_.v == v and m_.mix0() == 0 and not hasattr(m_, 'mix1'), 'merged value', m_)
    w = sel.ite((x, p), (z, q))
    require(w[0].v == v and w[1].v is (p if s else q).v, 'ite of tuples', w)
    # families do not mix
    cv = h.BitVector[n](a)
    for c in (sel, h.Bit(s)):
        for t_, f_ in ((x, cv), (cv, x), (p, h.Bit(1)), (h.Bit(0), q)):
            expect_raises(TypeError, lambda: c.ite(t_, f_), 'ite across families')
    if F is not G:
        expect_raises(TypeError, lambda: h.Bit(s).ite(x, z), 'a Bit of another family')
        expect_raises(TypeError, lambda: PolyVector[T, G[n], s], 'not a Bit')
        expect_raises(TypeError, lambda: PolyVector[F[n + 1], G[n], sel], 'two widths')
    expect_raises(TypeError, lambda: PolyVector[T, e.Bit, sel], 'a vector and a Bit')
    expect_raises(TypeError, lambda: PolyBit[T, e.Bit, sel], 'a vector and a Bit')
    expect_raises(TypeError, lambda: PolyBit[e.Bit, h.Bit, sel], 'two families')
    for t_ in (T, F, e.Bit, x, p):
        require(t_.get_family() is e.family, 'family of', t_)
    fam = h.Bit.get_family()
    require(tuple(fam) == (h.Bit, h.BitVector, h.UIntVector, h.SIntVector), fam)
    for t_ in (cv, h.SIntVector, h.UIntVector[n]):
        require(t_.get_family() is fam, 'family of', t_)
    for B, V, U, S in ((h.SMTBit, h.SMTBitVector, h.SMTUIntVector, h.SMTSIntVector),
                       (h.z3Bit, h.z3BitVector, h.z3UIntVector, h.z3SIntVector)):
        for t_ in (B, V, U, S, U[n]):
            require(tuple(t_.get_family()) == (B, V, U, S), 'family of', t_)
    ab = h.AbstractBitVector[n].get_family()
    require(ab is h.AbstractBit.get_family()
            and tuple(ab) == (h.AbstractBit, h.AbstractBitVector, None, None), ab)
    # rebinding into the family
    X = adt.build(d)
    R = u.rebind_type(X, e.family)

    def same(d, X, R):
        kd = adt.kind(d)
        if kd == 'bit':
            return R is e.Bit
        if kd == 'bv':
            return R is e.BV[d[2]]
        if adt.is_leaf(d) or kd == 'enum':
            return R is X
        return (R.unbound_t is X.unbound_t and list(R.field_dict) == list(X.field_dict)
                and R.__name__ == X.__name__ or kd in ('tuple', 'anon')) and all(
            same(t, X.field_dict[m], R.field_dict[m]) for m, t in adt.fields(d))
    require(same(d, X, R), 'rebind_type of', X, 'gave', R)


register(Check('B11', [Sub('backend', backend_case, check_backend, 2500, 60000)],
               'Every case exercises a vector back end defined in the check from the '
               'primitive operations: derived operations, implicit sizes, merging by '
               'ite, families and rebinding. All cases are non-trivial.',
               ['The primitive operations are those of the check itself.']))


# ------------------------------------------------------------------ M03
@st.composite
def new_case(draw):
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        steps.append((draw(st.sampled_from(('BV', 'U', 'S', 'SMT', 'tuple', 'sum', 'anon', 'A',
                                            'sized', 'bound', 'again', 'again'))),
                      draw(st.booleans()), draw(st.sampled_from((None, 'N', 'P', 'Tuple'))),
                      draw(st.sampled_from((None, 'some.module', 'hwtypes'))),
                      draw(gen.width(1, 40)), draw(st.integers(0, 9)),
                      draw(st.integers(0, 5))))
    return tuple(steps)


def check_new(case, ctx):
    import hwtypes as h
    from hwtypes.modifiers import new
    e = adt.env()
    made = []
    for what, bind, name, module, n, v, j in case:
        idx = None
        if what == 'again' and made:
            K = made[j % len(made)][0]
            if hasattr(K, 'is_sized') and not K.is_sized:
                idx = n
        elif what in ('BV', 'U', 'S', 'SMT'):
            K, idx = adt.bvfam(what), n
        elif what in ('tuple', 'sum'):
            K, idx = e.fam[what][0], ((adt.A, adt.C) if v % 2 == 0 or what == 'sum' else
                                      (adt.A, adt.C) + (adt.A, adt.D, adt.C, adt.A)[:v // 2])
        elif what == 'anon':
            K, idx = e.fam[what][0], {'a': adt.A, 'b': adt.C}
        elif what == 'sized':
            K = h.BitVector[n]
        elif what == 'bound':
            K = e.fam['tuple'][j % 3][adt.A, adt.C]
        else:
            K = adt.A
        ctx.label(what, 'bound' if bind and idx is not None else 'plain')
        if j == 5 and what in ('tuple', 'anon', 'BV', 'U', 'S') and idx is not None:
            # nothing in it
            idx = () if what == 'tuple' else {} if what == 'anon' else 0
            n = 0
        kw = {}
        if name is not None:
            kw['name'] = name
        if module is not None:
            kw['module'] = module
        N = new(K, idx, **kw) if bind and idx is not None else new(K, **kw)
        require(N is not K and issubclass(N, K), 'new of', K, 'is', N)
        for M, _ in made:
            require(M is not N, 'new gave', N, 'again')
        if bind and idx is not None:
            base = N.unsized_t if hasattr(N, 'is_sized') else N.unbound_t
            require(base is not K and issubclass(base, K), 'the unbound type of', N, base)
            require(base[idx] is N, base, 'bound again is not', N)
            require(issubclass(N, K[idx]), N, 'is not below', K[idx])
            if hasattr(N, 'is_sized'):
                require(N.size == n, 'size of', N)
        else:
            base = N
        if name is not None:
            require(base.__name__ == name, 'name of', base)
        if module is not None:
            require(N.__module__ == module, 'module of', N, N.__module__)
        # unrelated to every other new type but the one it was made of
        for M, S in made:
            if M is not K and not issubclass(K, M):
                require(not issubclass(N, M) and not issubclass(M, N), M, N, 'are related')
        made.append((N, K))
        # its values are values of the class it was made of, and of nothing else made
        x = None
        if K is adt.A or (isinstance(K, type) and issubclass(K, adt.A)):
            x = N(v)
        elif hasattr(N, 'is_sized'):
            if N.is_sized:
                x = N(v)
                if what != 'SMT' and issubclass(N, h.BitVector):
                    require(x.as_uint() == v & gen.mask(N.size), x)
                    require(type(x + 1) is N and (x + 1).as_uint() == (v + 1) & gen.mask(N.size),
                            'arithmetic of', x)
        elif N.is_bound and issubclass(N, e.a.Sum):
            x = N(adt.C(v))
            require(x[adt.C].value == adt.C(v) and not x[adt.A].match, x)
        elif N.is_bound:
            ts = tuple(t for _, t in sorted(N.field_dict.items())) if what == 'anon' else N.fields
            if idx is not None and bind:
                want = tuple(idx.values()) if what == 'anon' else idx
                require(ts == want, 'fields of', N, ts)
            vs = [t(v + i) for i, t in enumerate(ts)]
            x = N(*vs)
            require(all(x[i] == w and type(x[i]) is type(w) for i, w in enumerate(vs)), x)
        if x is not None:
            require(type(x) is N and isinstance(x, K), x)
            for M, _ in made:
                require(isinstance(x, M) is issubclass(N, M), x, 'instance of', M)
        if j == 0:
            gc.collect()
    if len(made) < 2:
        ctx.mark_trivial()


register(Check('M03', [Sub('new', new_case, check_new, 2000, 50000)],
               'at least two types made in one history', []))
