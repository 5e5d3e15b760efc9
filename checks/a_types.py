"""A04 identity and caching of algebraic types, A06 rebind, A07 rebinding helpers,
A08 visitors, M01 modifiers, M02 strip and push"""
import collections
import gc
import itertools
import warnings

from hypothesis import strategies as st

from lib import adt, gen, many
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)
from checks.a_adt import TRUSTS

warnings.simplefilter('ignore')
RESERVED = tuple(sorted(adt.RESERVED))
SUNDERS = ('_value_', '_tag_', '_cached_', '_fields_', '_field_table_',
           '_unbound_base_', '_syntax_')


# ------------------------------------------------------------------ A04
@st.composite
def variant(draw, d):
    """a type that differs from d in one respect, or does not"""
    k = adt.kind(d)
    ts = list(adt.types_of(d))
    r = draw(st.integers(0, 7))
    if r == 0 and ts:
        i = draw(st.integers(0, len(ts) - 1))
        t = draw(adt.leaf())
        if k != 'sum' or adt.group(t) not in {adt.group(u) for j, u in enumerate(ts)
                                              if j != i}:
            ts[i] = t
        return adt.with_types(d, ts)
    if r == 1:
        return adt.with_types(d, ts[::-1])
    if r == 2:
        return (k, (d[1] + 1) % 3) + d[2:]
    if k in ('prod', 'tu', 'anon'):
        fs = list(adt.fields(d))
        if r == 3:
            fs.reverse()
        elif r == 4:
            ns = [n for n, _ in fs]
            i = draw(st.integers(0, len(fs) - 1))
            n = draw(adt.name())
            if n not in ns:
                fs[i] = (n, fs[i][1])
        elif r == 5 and k != 'anon':
            return d[:4] + (not d[4],)
        elif r == 6 and k != 'anon':
            return d[:2] + (draw(st.sampled_from(adt.TYPENAMES)),) + d[3:]
        elif r == 7 and len(fs) > 1:
            i = draw(st.integers(0, len(fs) - 2))
            fs[i], fs[i + 1] = (fs[i][0], fs[i + 1][1]), (fs[i + 1][0], fs[i][1])
        return (k, d[1], tuple(fs)) if k == 'anon' else d[:3] + (tuple(fs),) + d[4:]
    if r == 3 and k == 'tuple':
        return (k, d[1], d[2] + (draw(adt.leaf()),))
    if r == 4 and len(ts) > 1:
        return (k, d[1], tuple(ts[:-1]))
    if r == 5 and k == 'tuple':
        return ('anon', d[1], tuple((f'f{i}', t) for i, t in enumerate(ts))) if ts else d
    return d


@st.composite
def identity_case(draw):
    pool = [draw(adt.adt(2, lo=1, hi=draw(st.sampled_from((3, 3, 5))), auto=False, wide=True))]
    for _ in range(draw(st.integers(1, 4))):
        pool.append(draw(variant(draw(st.sampled_from(pool)))))
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        op = draw(st.sampled_from(['build', 'build', 'build', 'build', 'drop', 'gc',
                                   'inherit', 'extra', 'extra', 'bad', 'reserved',
                                   'value', 'mixin', 'alias', 'multi']))
        steps.append((op, draw(st.integers(0, len(pool) - 1)), draw(st.integers(0, 11))))
    return tuple(pool), tuple(steps)


def _method(i):
    def f(self):
        return i
    return f


class Mix0:
    Mix0 = 1


class Mix1:
    Mix1 = 1


MIXINS = (Mix0, Mix1)


def check_identity(case, ctx):
    pool, steps = case
    e = adt.env()
    T_, S_, AP = e.a.Tuple, e.a.Sum, e.fam['anon'][0]
    live, other = {}, []
    if len(steps) < 4:
        ctx.mark_trivial()

    def families(d):
        """(family, bound the same way) that a type of d must be below"""
        k = adt.kind(d)
        ts = tuple(adt.types_of(d))
        if k == 'tuple':
            return [('tuple', j, ts) for j in range(d[1] + 1)]
        if k == 'sum':
            return [('sum', j, ts) for j in range(d[1] + 1)]
        if k == 'anon':
            return [('anon', j, d[2]) for j in range(d[1] + 1)] + [('tuple', 0, ts)]
        if k == 'prod':
            return [('anon', 0, d[3]), ('tuple', 0, ts)]
        uniq = {}
        for t in ts:
            uniq.setdefault(adt.norm(t), t)
        return [('sum', 0, tuple(uniq.values()))]

    for op, i, j in steps:
        d = pool[i]
        k = adt.kind(d)
        F = e.fam[k][d[1]]
        key = adt.norm(d)
        ctx.label(op)
        if op in ('build', 'value', 'inherit', 'bad'):
            T = adt.build(d, j & 1)
            adt.check_type(T, d, 'built type')
            require(T.is_bound and T.unbound_t is F and e.a.is_adt_type(T)
                    and issubclass(T, F) and type(T) is type(F), T, 'of family', F)
            attr = k in ('prod', 'tu')
            require(isinstance(T, e.syntax[0]) is attr and isinstance(T, e.syntax[1]) is not attr
                    and issubclass(type(T), e.syntax[0]) is attr,
                    'the syntax of', T)
            if adt.cacheable(d):
                if key in live:
                    require(live[key] is T, T, 'built twice gives two types')
                    ctx.label('cached')
                for o, U in live.items():
                    require(o == key or U is not T, 'one type for', key, 'and', o)
                live[key] = T
                require(adt.build(d, 1 - (j & 1)) is T, T, 'built in the other way')
            else:
                require(all(U is not T for U in live.values()) and
                        all(U is not T for U in other), T, 'is not new')
                other.append(T)
            if k in ('prod', 'tu'):
                require(T.is_cached is d[4] and T.__name__ == d[2], T, 'name, is_cached')
            for g, f, ts in families(d):
                if all(map(adt.cacheable, adt.types_of(d))):
                    U = adt.build((g, f, ts))
                    require(issubclass(T, U), T, 'is not below', U)
                    require(U is T or not issubclass(U, T), U, 'is below', T)
                    require(U.unbound_t is e.fam[g][f], U, 'unbound')
            for U in live.values():
                if U is not T and U.unbound_t is F:
                    require(not issubclass(U, T) and not issubclass(T, U), T, U,
                            'are related')
        if op == 'drop':
            live.pop(key, None)
        elif op == 'gc':
            gc.collect()
        elif op == 'value' and adt.cacheable(d):
            v = _some(d)
            x = adt.value(d, v, T)
            require(isinstance(x, F) and isinstance(x, T) and type(x) is T, x)
            for o, U in live.items():
                require(isinstance(x, U) == issubclass(T, U), x, 'instance of', U)
        elif op == 'inherit':
            Q = type(T)('Q', (T,), {'hi': lambda self: 'hi'})
            require(Q is not T and issubclass(Q, T) and Q.is_bound
                    and Q.fields == T.fields
                    and list(Q.field_dict.items()) == list(T.field_dict.items()),
                    'a subclass of', T, 'is', Q, Q.fields)
            if adt.cacheable(d):
                x = adt.value(d, _some(d), Q)
                require(type(x) is Q and x.hi() == 'hi', 'value of a subclass', x)
            if k in ('prod', 'tu'):
                expect_raises(TypeError, lambda: type(T)(
                    'Q', (T,), {'zz_other': adt.fields(d) and T.field_dict[
                        adt.fields(d)[0][0]]}), 'other fields by inheritance')
                # the same fields may be given again, those of a product in their order
                keys = list(T.field_dict)
                for ks in (keys, keys[::-1], keys[1:] + keys[:1]):
                    ns = {n: T.field_dict[n] for n in ks}
                    if k == 'prod' and ks != keys:
                        expect_raises(TypeError, lambda: type(T)('Q', (T,), ns),
                                      'fields in another order by inheritance')
                        continue
                    R = type(T)('Q', (T,), ns)
                    require(issubclass(R, T) and R is not T and R.is_bound
                            and dict(R.field_dict) == dict(T.field_dict), R, 'below', T)
                    if k == 'prod':
                        require(list(R.field_dict) == keys and R.fields == T.fields, R)
                    ctx.label('redeclared')
        elif op == 'extra' and k in ('prod', 'tu'):
            named = {n: adt.build(t) for n, t in adt.fields(d)}
            mk = type(F)
            attrs = [{}, {'zz_a': 1}, {'zz_a': 2}, {'zz_a': 'x'}, {'zz_b': 1},
                     {'zz_m': _method(1)}, {'zz_m': _method(2)},
                     {'__str__': _method('s')}, {'__str__': _method('t')},
                     {'zz_p': property(_method(5))}, {'_zz': 3},
                     {'__len__': _method(7)}]
            a, b = attrs[j], attrs[(i * 5 + j * 3 + 1) % len(attrs)]
            U = mk(d[2], (F,), {**named, **a}, cache=True)
            V = mk(d[2], (F,), {**b, **named}, cache=True)
            W = mk(d[2], (F,), {**named, **a}, cache=True)
            require(U is W, 'the same class statement gives two types', U, a)
            require((U is V) == (a is b), 'members', a, 'and', b, 'one type:', U is V)
            for t, m in ((U, a), (V, b)):
                require(dict(t.field_dict) == named, 'fields of', t, 'with', m)
                for n, w in m.items():
                    require(t.__dict__[n] is w, n, 'of', t, 'is', t.__dict__[n])
            require(issubclass(U, F) and U.unbound_t is F and type(U) is mk, U, F)
            X = mk(d[2], (F,), {**named, **a}, cache=False)
            require(X is not U and X is not V and not X.is_cached, 'cache=False')
        elif op == 'mixin' and k in ('prod', 'tu'):
            # the other bases of a class statement are part of the type
            named = {n: adt.build(t) for n, t in adt.fields(d)}
            bases = [(F,), (F, MIXINS[0]), (F, MIXINS[1]), (F, MIXINS[0], MIXINS[1]),
                     (MIXINS[0], F), (F, MIXINS[1], MIXINS[0])]
            a, b = bases[j % 6], bases[(j + 1 + i) % 6]
            U, V, W = (type(F)(d[2], x, dict(named), cache=True) for x in (a, b, a))
            require(U is W, 'the same class statement gives two types', a)
            require((U is V) == (a == b), 'bases', a, 'and', b, 'one type:', U is V)
            for t, bs in ((U, a), (V, b)):
                require(dict(t.field_dict) == named and t.unbound_t is F, t, bs)
                for m in MIXINS:
                    require(issubclass(t, m) == (m in bs), t, 'below', m)
            if adt.cacheable(d):
                x = adt.value(d, _some(d), V)
                require(type(x) is V, x)
                for m in MIXINS:
                    require(hasattr(x, m.__name__) == (m in b), m, 'in', x)
        elif op == 'alias':
            # what a type was made of may be changed afterwards
            ts = [adt.build(t) for t in adt.types_of(d)]
            named = {f'zz{n}{j}': t for n, t in zip('abcdefghijklmnopqrstuvwxyzABCDEFGHIJ', ts)}
            src, want = dict(named), dict(named)
            if k in ('prod', 'tu'):
                T = (F.from_fields('Al', src, cache=bool(i & 1)) if j % 3 else
                     type(F)('Al', (F,), src, cache=bool(i & 1)))
            elif k == 'anon':
                T = F[src]
            else:
                src = list(ts) if j & 1 else {t: t for t in ts}
                T, want = F[src], dict(enumerate(ts)) if k == 'tuple' else {t: t for t in ts}
                if k == 'tuple' and not j & 1:
                    want = dict(enumerate(src))
            if isinstance(src, list):
                src[:] = [adt.D, adt.D]
            else:
                for key in list(src)[::2]:
                    del src[key]
                src.update({'zz_later': adt.D})
            require(dict(T.field_dict) == want and (k in ('sum', 'tu')
                    or list(T.field_dict) == list(want)), T, 'changed with its source',
                    dict(T.field_dict), want)
            require(set(T.fields) == set(want.values()), T, 'changed with its source')
        elif op == 'multi':
            T, U = adt.build(d), adt.build(pool[(i + 1 + j) % len(pool)])
            if U.unbound_t is F and U.fields != T.fields:
                ctx.label('two-bounds')
                expect_raises(TypeError, lambda: type(T)('X', (T, U), {}),
                              'two different bound bases')
        elif op == 'bad':
            ts = [adt.build(t) for t in adt.types_of(d)]
            if k == 'tuple':
                expect_raises(TypeError, lambda: T[adt.A], 'bind a bound type')
                expect_raises(TypeError, lambda: T[tuple(ts) + (adt.A,)], 'bind a bound type')
            elif k == 'sum':
                expect_raises(KeyError, lambda: T[adt.Foreign], 'bind a bound type')
            elif k in ('prod', 'tu'):
                expect_raises(TypeError, lambda: F[adt.A], 'bind by index')
                expect_raises(TypeError, lambda: F[{'a': adt.A}], 'bind by index')
                expect_raises(TypeError, lambda: T.from_fields('X', {'a': adt.A}),
                              'from_fields of a bound type')
                expect_raises(TypeError, lambda: T.from_fields(d[2], dict(T.field_dict)),
                              'from_fields of a bound type')
            else:
                for w in (adt.A, (('a', adt.A),), [('a', adt.A)], (adt.A, adt.C), 'a'):
                    expect_raises(TypeError, lambda: F[w], f'anonymous product of {w}')
            require(F.is_bound is False and F.fields is None and F.unbound_t is F,
                    F, 'is bound')
            if k == 'sum':
                expect_raises(TypeError, lambda: F(adt.A()), 'unbound')
            elif k == 'tu':
                expect_raises(TypeError, lambda: F(a=adt.A()), 'unbound')
            elif k in ('prod', 'anon'):
                expect_raises(TypeError, lambda: F(adt.A()), 'unbound')
                expect_raises(TypeError, lambda: F(a=adt.A()), 'unbound')
        elif op == 'reserved':
            from hwtypes.adt_meta import ReservedNameError
            n = (RESERVED + SUNDERS)[(i * 7 + j) % (len(RESERVED) + len(SUNDERS))]
            for P in (e.a.Product, e.a.TaggedUnion):
                expect_raises(ReservedNameError,
                              lambda: type(P)('R', (P,), {'a': adt.A, n: adt.C}), n)
                expect_raises(ReservedNameError,
                              lambda: P.from_fields('R', {n: adt.C, 'b': adt.A}), n)
    for key, T in live.items():
        require(adt.describe(T) == key, T, 'changed')


def _some(d):
    k = adt.kind(d)
    if adt.is_leaf(d) or k == 'enum':
        return 0
    if k == 'mod':
        return _some(d[2])
    if adt.tuple_like(d):
        return tuple(map(_some, adt.types_of(d)))
    return (0, _some(adt.types_of(d)[0]))


def many_index(i, rng):
    return rng.randint(0, 4), rng.randint(1, 60), rng.randint(1, 60), rng.randint(0, 1)


def many_type(k, n, m, r):
    e = adt.env()
    t, u = e.h.BitVector[n], (e.h.SIntVector if r else e.h.BitVector)[m]
    if k == 0:
        return e.a.Tuple[t, u]
    if k == 1:
        # (of two different types, in no order)
        return e.a.Sum[t, e.h.SIntVector[m] if r else e.a.Tuple[e.h.BitVector[m]]]
    F = e.fam[('anon', 'prod', 'tu')[k - 2]][0]
    named = {'a': t, 'b': u}
    return F[named] if k == 2 else F.from_fields('Many', named, cache=True)


register(Check('A04', [Sub('identity', identity_case, check_identity, 1600, 40000),
                       Sub('many', many.cases(), many.check(many_type, many_index), 6, 150,
                           enumerate_cases=many.enumerated(4000))],
               'a history of at least four type operations', TRUSTS))


# ------------------------------------------------------------------ A06
REB_LEAVES = ['A', 'B', 'C', 'D', 'bit', 'smtbit', ('bv', 'BV', 3), ('bv', 'U', 3),
              ('bv', 'S', 3), ('bv', 'LBV', 3), ('bv', 'BV', 5), ('bv', 'SMT', 3)]


def sub_leaf(a, b):
    """descriptor a is a subclass of b (leaves only)"""
    if a == b:
        return True
    if (a, b) in (('B', 'A'), ('D', 'C')):
        return True
    if adt.kind(a) == adt.kind(b) == 'bv' and (b[2] is None or a[2] == b[2]):
        fa, fb = a[1], b[1]
        up = {'BV': ('BV', 'Abs'), 'U': ('U', 'BV', 'Abs'), 'S': ('S', 'BV', 'Abs'),
              'LBV': ('LBV', 'BV', 'Abs'), 'LS': ('LS', 'S', 'BV', 'Abs'),
              'SMT': ('SMT', 'Abs'), 'Abs': ('Abs',)}
        return fb in up[fa]
    return False


@st.composite
def rebind_case(draw):
    leaf = st.sampled_from(REB_LEAVES[:10])
    d = draw(adt.nested(draw(adt.adt(3, leaves=leaf, auto=False, wide=True)), leaves=leaf))
    subs = [t for t in adt.walk(d) if t is not d]
    a = draw(st.one_of(st.sampled_from(subs), st.sampled_from(REB_LEAVES))) if subs \
        else draw(leaf)
    r = draw(st.integers(0, 5))
    if r == 5:
        # a field that turns into A: A = K[b], the field is K[A]
        b = draw(leaf)
        inner = draw(adt.adt(1, leaves=st.just(b), auto=False, lo=1, hi=2))
        a = inner
        field = subst(inner, b, inner, lambda t: False, False)
        d = draw(st.sampled_from((('tuple', 0, (field,)), ('tuple', 0, (field, b)),
                                  ('anon', 0, (('x', field), ('y', inner))),
                                  ('prod', 0, 'P', (('x', field), ('y', field)), True),
                                  ('tu', 0, 'P', (('x', field), ('y', b)), True),
                                  ('sum', 0, (field, 'bit')))))
    elif r == 0:
        b = ('tuple', 0, (a,))
    elif r == 1 and subs:
        b = draw(st.sampled_from(subs))
    elif r == 2:
        b = draw(adt.adt(1, leaves=leaf, auto=False))
    else:
        b = draw(st.sampled_from(REB_LEAVES))
    return d, a, b, draw(st.booleans()), draw(st.integers(0, 4)) != 0


def subst(d, a, b, below, rec):
    """all fields at once"""
    ts = []
    for t in adt.types_of(d):
        if adt.norm(t) == adt.norm(a) and adt.cacheable(a) or below(t):
            ts.append(b)
        elif rec and not adt.is_leaf(t) and adt.kind(t) not in ('enum', 'mod'):
            ts.append(subst(t, a, b, below, True))
        else:
            ts.append(t)
    return dedupe(adt.with_types(d, ts))


def dedupe(d):
    """a Sum has each alternative once"""
    if adt.kind(d) == 'sum':
        seen = {}
        for t in d[2]:
            seen.setdefault(adt.norm(t), t)
        return ('sum', d[1], tuple(seen.values()))
    return d


def check_rebind(case, ctx):
    d, a, b, subs, rec = case
    T, TA, TB = adt.build(d), adt.build(a), adt.build(b)
    if subs and not adt.is_leaf(a):
        subs = False                        # subclass relations of leaves only
    below = (lambda t: adt.is_leaf(t) and sub_leaf(t, a)) if subs else (lambda t: False)
    # uncached types are never equal to another build of the same descriptor
    want = subst(d, a, b, below, rec)
    before = adt.describe(T)
    kw = {}
    if subs:
        kw['rebind_sub_types'] = True
    if not rec:
        kw['rebind_recursive'] = False
    R = T.rebind(TA, TB, **kw)
    got = adt.describe(R)
    require(got == adt.norm(want), T, f'.rebind({TA}, {TB}, {kw}) gave', got,
            'expected', adt.norm(want))
    changed = got != before
    ctx.label('changed' if changed else 'unchanged', adt.kind(d),
              'subtypes' if subs else 'exact', 'recursive' if rec else 'flat')
    if not changed:
        ctx.mark_trivial()
        if adt.kind(d) in ('prod', 'tu') and all(map(adt.cacheable, adt.types_of(d))):
            require(R is T, 'rebind without effect gave another type')
    if adt.cacheable(want):
        require(R is adt.build(want), 'rebind gave a type', R, 'not the cached one')
    require(R.unbound_t is T.unbound_t, 'rebind left the family', R)
    require(adt.describe(T) == before, 'rebind changed', T)
    # values can be made of the result
    if all(adt.kind(t) != 'smtbit' and not (adt.kind(t) == 'bv' and t[1] == 'SMT')
           for t in adt.walk(want)) and adt.cacheable(want):
        if adt.kind(want) in ('tuple', 'anon', 'prod'):
            x = adt.value(want, _some(want), R)
            require(adt.lit(want, x, R) == _some(want), 'value of the rebound type', x)
    # rebinding twice in a row = once, when B does not contain A
    if not changed or b == a:
        return
    if rec and not any(adt.norm(t) == adt.norm(a) or below(t) for t in adt.walk(b)) \
            and not any(adt.norm(t) == adt.norm(a) for t in adt.walk(want)):
        R2 = R.rebind(TA, TB, **kw)
        require(adt.describe(R2) == got, 'rebinding again changed', R2)


register(Check('A06', [Sub('rebind', rebind_case, check_rebind, 3000, 80000)],
               'rebinding changes the type',
               TRUSTS + ['modified types are the subject of A07']))


# ------------------------------------------------------------------ A07
@st.composite
def bits_case(draw):
    """rebind_bitvector / rebind_keep_modifiers / rebind_type"""
    how = draw(st.sampled_from(('bitvector', 'bitvector', 'keep', 'keep', 'type')))
    leaf = st.sampled_from(REB_LEAVES + [('bv', 'BV', None), ('bv', 'U', None),
                                         ('bv', 'U', 7), ('bv', 'SMT', 7),
                                         ('bv', 'BV', 0), ('bv', 'S', 0)])
    keep = how == 'keep' or (how == 'bitvector' and draw(st.booleans()))
    d = draw(st.one_of(adt.adt(3, leaves=leaf, mods=25 if keep else 0, auto=False, wide=True),
                       adt.adt(3, leaves=leaf, mods=25 if keep else 0, auto=False, wide=True),
                       leaf))
    if not adt.is_leaf(d):
        d = draw(adt.nested(d, mods=10 if keep else 0, leaves=leaf))
    if how == 'bitvector' and not keep:
        # modifiers of the bit vectors themselves go with them
        ms = draw(st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True))
        ls = sorted({t for t in adt.walk(d) if adt.kind(t) == 'bv'}, key=str)
        ls = [t for t in ls if draw(st.booleans())]

        def wrap(t):
            if t in ls:
                for m in ms:
                    t = ('mod', m, t)
            return t
        d = map_leaves(d, wrap, False)
    if keep or how == 'type':
        ms = draw(st.lists(st.integers(0, 2), max_size=2, unique=True))
        for m in ms:
            d = ('mod', m, d)
    mine = [t for t in adt.walk(d) if adt.is_leaf(t)]
    if how == 'keep' and mine and draw(st.integers(0, 3)):
        a = draw(st.sampled_from(mine))
        a = {'B': 'A', 'D': 'C'}.get(a, a) if draw(st.booleans()) else a
        b = draw(st.sampled_from(['C', 'D', 'smtbit', ('bv', 'SMT', 3),
                                  ('tuple', 0, ('A', 'C')), ('tuple', 0, (a,))]))
    elif how == 'bitvector' and draw(st.integers(0, 3)):
        fs = [t[1] for t in mine if adt.kind(t) == 'bv'] or ['BV']
        a = ('bv', draw(st.sampled_from(fs + ['Abs'])), None)
        b = draw(st.sampled_from([('bv', f, None) for f in ('BV', 'U', 'S', 'SMT', 'LBV')
                                  if f != a[1]]))
    elif how == 'keep':
        a = draw(st.sampled_from(['A', 'B', 'C', 'bit', ('bv', 'BV', 3), ('bv', 'BV', None),
                                  ('bv', 'U', 3)]))
        b = draw(st.sampled_from(['C', 'D', 'smtbit', ('bv', 'SMT', 3),
                                  ('tuple', 0, ('A', 'C')), ('tuple', 0, (a,)), a]))
    elif how == 'bitvector':
        a = draw(st.sampled_from([('bv', f, None) for f in ('BV', 'U', 'S', 'Abs', 'SMT')]))
        b = draw(st.sampled_from([('bv', f, None) for f in ('BV', 'U', 'S', 'SMT', 'LBV')]))
    else:
        a = None
        b = draw(st.sampled_from(['BV', 'SMT']))
    return how, d, a, b, keep


def map_leaves(d, f, mods):
    """apply f to every leaf, keeping or dropping modifiers"""
    k = adt.kind(d)
    if k == 'mod':
        t = map_leaves(d[2], f, mods)
        return ('mod', d[1], t) if mods else t
    if adt.is_leaf(d):
        return f(d)
    if k == 'enum':
        return d
    return dedupe(adt.with_types(d, [map_leaves(t, f, mods) for t in adt.types_of(d)]))


def map_top(d, f):
    """apply f to every leaf, modified or not"""
    k = adt.kind(d)
    if k == 'mod' or adt.is_leaf(d):
        return f(d)
    if k == 'enum':
        return d
    return dedupe(adt.with_types(d, [map_top(t, f) for t in adt.types_of(d)]))


def check_rebinds(case, ctx):
    how, d, a, b, keep = case
    from hwtypes import adt_util as u
    e = adt.env()
    if _repeats(d):
        # a modifier applied twice is refused by wrap_modifier (M01)
        ctx.mark_trivial()
        ctx.label('repeated-modifier')
        return
    T = adt.build(d)
    before = adt.describe(T)
    if how == 'bitvector':
        def f(t):
            if adt.kind(t) == 'bv' and sub_leaf((t[0], t[1], None), a):
                return ('bv', b[1], t[2])
            return t
        def g(t):
            u = t
            while adt.kind(u) == 'mod':
                u = u[2]
            hit = adt.kind(u) == 'bv' and sub_leaf((u[0], u[1], None), a)
            return f(u) if hit else t
        want = map_leaves(d, f, True) if keep else map_top(d, g)
        try:
            # rebinding the other way before is a different question
            u.rebind_bitvector(T, adt.build(a), adt.build(b), keep_modifiers=not keep)
        except Exception:
            pass
        R = u.rebind_bitvector(T, adt.build(a), adt.build(b), keep_modifiers=True) if keep \
            else u.rebind_bitvector(T, adt.build(a), adt.build(b))
    elif how == 'keep':
        def f(t):
            if sub_leaf(t, a):
                return b
            if adt.kind(t) == 'bv' == adt.kind(a) and a[2] is None \
                    and sub_leaf((t[0], t[1], None), a):
                return b
            return t
        want = map_leaves(d, f, True)
        R = u.rebind_keep_modifiers(T, adt.build(a), adt.build(b))
    else:
        fam = (e.h.Bit if b == 'BV' else e.h.SMTBit).get_family()

        def f(t):
            if adt.kind(t) == 'bv':
                return ('bv', b, t[2])
            if t in ('bit', 'smtbit'):
                return 'bit' if b == 'BV' else 'smtbit'
            return t
        want = map_leaves(d, f, True)
        R = u.rebind_type(T, fam)
    got = adt.describe(R)
    changed = got != before
    ctx.label(how, 'changed' if changed else 'unchanged',
              'modified' if any(adt.kind(t) == 'mod' for t in adt.walk(d)) else 'plain')
    if not changed:
        ctx.mark_trivial()
    require(got == adt.norm(want), how, T, a, b, keep, 'gave', got, 'expected',
            adt.norm(want))
    if adt.cacheable(want):
        require(R is adt.build(want), how, 'gave a type', R, 'that is not the cached one')
    require(adt.describe(T) == before, how, 'changed', T)


def _repeats(d, seen=()):
    k = adt.kind(d)
    if k == 'mod':
        return d[1] in seen or _repeats(d[2], seen + (d[1],))
    if adt.is_leaf(d) or k == 'enum':
        return False
    return any(_repeats(t) for t in adt.types_of(d))


register(Check('A07', [Sub('helpers', bits_case, check_rebinds, 3000, 80000)],
               'the rebinding changes the type',
               TRUSTS + ['rebind_type: modifiers only at the top; rebind_bitvector '
                         'without keep_modifiers: modifiers of leaves only']))


# ------------------------------------------------------------------ A08
@st.composite
def visit_case(draw):
    d = draw(adt.nested(draw(adt.adt(4, hi=3, wide=True, related=True))))
    return d, draw(adt.lits(d)) if all(adt.types_of(t) for t in adt.walk(d)
                                       if adt.kind(t) in ('sum', 'tu')) else None


def check_visit(case, ctx):
    d, v = case
    from hwtypes import adt_util as u
    T = adt.build(d)
    log = []

    def recorder(base):
        ns = {}
        for n in ('Enum', 'Product', 'Tuple', 'TaggedUnion', 'Sum', 'leaf'):
            def m(self, x, n=n):
                log.append((n, x))
                return getattr(base, 'visit_' + n)(self, x)
            ns['visit_' + n] = m
        return type('Recorder', (base,), ns)()

    NAME = dict(enum='Enum', prod='Product', anon='Tuple', tuple='Tuple',
                tu='TaggedUnion', sum='Sum')

    def walk_t(d, T):
        k = adt.kind(d)
        out = [(NAME.get(k, 'leaf'), T)]
        if k == 'enum' or adt.is_leaf(d):
            return out
        for n, t in adt.fields(d):
            out += walk_t(t, T.field_dict[n] if k != 'sum' else adt.sum_field(d, T, t))
        return out

    def walk_v(d, x, T):
        k = adt.kind(d)
        out = [(NAME.get(k, 'leaf'), x)]
        if k == 'enum' or adt.is_leaf(d):
            return out
        if adt.tuple_like(d):
            for i, (n, t) in enumerate(adt.fields(d)):
                out += walk_v(t, x[i], T.field_dict[n])
            return out
        for _, n, t, F, v in adt.matched(d, x, T):
            out += walk_v(t, v, F)
        return out

    def same(got, want, what):
        key = [(n, id(x)) for n, x in got]
        wkey = [(n, id(x)) for n, x in want]
        if any(adt.kind(t) == 'sum' for t in adt.walk(d)):
            key, wkey = sorted(key), sorted(wkey)
        require(key == wkey, what, 'visited', got, 'expected', want)

    recorder(u.ADTVisitor).visit(T)
    same(log, walk_t(d, T), 'type visitor')
    ctx.label(adt.kind(d), f'depth{adt.depth(d)}')
    if len(log) < 3:
        ctx.mark_trivial()
    if v is not None:
        x = adt.value(d, v, T)
        del log[:]
        recorder(u.ADTInstVisitor).visit(x)
        same(log, walk_v(d, x, T), 'instance visitor')
        require(adt.lit(d, x, T) == v, 'visiting changed', x)
    # a visitor that overrides one method is still called everywhere
    hits = []

    class Leaves(u.ADTVisitor):
        def visit_leaf(self, t):
            hits.append(t)

    class Stop(u.ADTVisitor):
        def visit_Product(self, t):
            hits.append(t)
    Leaves().visit(T)
    want = [x for n, x in walk_t(d, T) if n == 'leaf']
    require(collections.Counter(map(id, hits)) == collections.Counter(map(id, want)),
            'leaves', hits, want)
    del hits[:]
    Stop().visit(T)

    def top(d, T):
        k = adt.kind(d)
        if k == 'prod':
            return [T]
        if k == 'enum' or adt.is_leaf(d):
            return []
        return [y for n, t in adt.fields(d) for y in
                top(t, T.field_dict[n] if k != 'sum' else adt.sum_field(d, T, t))]
    want = top(d, T)
    require(collections.Counter(map(id, hits)) == collections.Counter(map(id, want)),
            'outermost products', hits, want)


register(Check('A08', [Sub('visit', visit_case, check_visit, 1500, 40000)],
               'the type has at least three nodes', TRUSTS))


# ------------------------------------------------------------------ M01
@st.composite
def mod_case(draw):
    base = draw(st.one_of(adt.leaf(), adt.enum(), adt.adt(2, auto=False, lo=1),
                          st.just(('bv', 'BV', None))))
    other = draw(st.one_of(adt.leaf(), st.just(base)))
    ms = draw(st.lists(st.integers(0, 2), max_size=3, unique=True))
    steps = draw(st.lists(st.tuples(st.sampled_from(('make', 'cachemake', 'drop', 'gc',
                                                     'apply', 'apply', 'apply')),
                                    st.integers(0, 3), st.integers(0, 2)),
                          max_size=10))
    v = None if base == ('bv', 'BV', None) else draw(adt.lits(base))
    return base, other, tuple(ms), tuple(steps), v


def check_mods(case, ctx):
    base, other, ms, steps, v = case
    m = adt.env().m
    M = adt.env().mods
    T = adt.build(base)
    chain = [T]
    for i in ms:
        chain.append(M[i](chain[-1]))
    top = chain[-1]
    ctx.label(adt.kind(base), f'{len(ms)}modifiers')
    if not ms and not steps:
        ctx.mark_trivial()
    require(not m.is_modified(T), T, 'is modified')
    expect_raises(TypeError, lambda: m.get_modifier(T), 'get_modifier')
    expect_raises(TypeError, lambda: m.get_unmodified(T), 'get_unmodified')
    for k, i in enumerate(ms):
        N, U = chain[k + 1], chain[k]
        require(N is not U and N is M[i](U), 'applying', M[i], 'to', U)
        require(m.is_modified(N) and m.get_modifier(N) is M[i]
                and m.get_unmodified(N) is U, 'parts of', N)
        require(issubclass(N, U) and issubclass(N, T) and issubclass(N, M[i]),
                N, 'is not below', U)
        for j in range(3):
            require(issubclass(N, M[j]) == (j == i), N, 'is a', M[j])
            if j not in ms:
                require(not issubclass(N, M[j](U)), N, 'is a', M[j](U))
        require(not issubclass(U, N), U, 'is a', N)
        for b in U.__mro__[1:]:
            if b is not object and not m.is_modified(b):
                require(issubclass(N, M[i](b)), N, 'is not a', M[i](b))
    require(m.unwrap_modifier(top) == (T, [M[i] for i in ms]), 'unwrap of', top)
    require(list(m.get_all_modifiers(top)) == [M[i] for i in ms], 'all modifiers')
    require(m.wrap_modifier(T, [M[i] for i in ms]) is top, 'wrap of', T)
    if ms:
        expect_raises(TypeError, lambda: m.wrap_modifier(T, [M[i] for i in ms + ms[:1]]),
                      'a modifier twice')
        if len(ms) > 1:
            require(m.wrap_modifier(T, [M[i] for i in reversed(ms)]) is not top,
                    'order of modifiers')
    # many modifiers
    more = [m.make_modifier(f'More{i}') for i in range(min(len(steps) + 1, 6 - len(ms)) if ms else 0)]
    many_ = m.wrap_modifier(top, more)
    mods = [M[i] for i in ms] + more
    require(m.unwrap_modifier(many_) == (T, mods), 'unwrap of', many_)
    require(list(m.get_all_modifiers(many_)) == mods, 'all modifiers of', many_)
    require(m.wrap_modifier(T, mods) is many_ and issubclass(many_, top), 'wrap of', T, mods)
    U = many_
    for M_ in reversed(mods):
        require(m.get_modifier(U) is M_ and issubclass(U, M_), 'modifier of', U)
        U = m.get_unmodified(U)
    require(U is T, 'below', many_, 'is', U)
    # another type, modified alike, is not related
    O = adt.build(other)
    if O is not T and ms:
        P = m.wrap_modifier(O, [M[i] for i in ms])
        require(issubclass(P, top) == issubclass(O, T)
                and issubclass(top, P) == issubclass(T, O), P, top)
    for M_ in M:
        require(m.is_modifier(M_) and not m.is_modified(M_), M_)
    require(not m.is_modifier(T) and not m.is_modifier(top), T, 'is a modifier')
    expect_raises(TypeError, lambda: m.AbstractModifier(T), 'abstract modifier')
    for ts in ((T, T), (T, adt.A), (T, top, adt.A)):
        expect_raises(TypeError, lambda: M[0](*ts), 'a modifier of several types')
    # values
    if v is not None and adt.kind(base) != 'enum' and adt.cacheable(base):
        x, y = adt.value(base, v, T), adt.value(base, v, top)
        require(type(y) is top and isinstance(y, T), y)
        for i in range(3):
            require(isinstance(y, M[i]) == bool(ms and ms[-1] == i), y, M[i])
            require(not isinstance(x, M[i]), x, M[i])
        require(isinstance(x, top) == (top is T), x, 'is a', top)
        if adt.kind(base) not in ('A', 'B', 'C', 'D'):
            require(adt.lit(base, y, top, exact=False) == v, 'modified value', y)
            if adt.kind(base) != 'bit' and not adt.is_leaf(base):
                require(bool(x == y) and hash(x) == hash(y), x, y)
    # a history of making and applying modifiers
    live, applied, names = {}, {}, {}
    for op, i, j in steps:
        ctx.label(op)
        if op == 'make':
            N = m.make_modifier(f'Hist{i}')
            require(all(N is not L for L in live.values()), 'make_modifier is not new')
            live[('new', i)] = N
            applied = {k: t for k, t in applied.items() if k[0] != ('new', i)}
        elif op == 'cachemake':
            N = m.make_modifier(f'Hist{i}', cache=True)
            if ('c', i) in live:
                require(N is live[('c', i)], 'cached modifier')
            require(all(N is not L for k, L in live.items() if k != ('c', i)), 'cached modifier')
            live[('c', i)] = N
        elif op == 'drop' and live:
            k = sorted(live)[i % len(live)]
            del live[k]
            applied = {q: t for q, t in applied.items() if q[0] != k}
        elif op == 'gc':
            gc.collect()
        elif op == 'apply' and live:
            k = sorted(live)[i % len(live)]
            B = chain[j % len(chain)]
            N = live[k](B)
            key = (k, j % len(chain))
            if key in applied:
                require(applied[key] is N, 'applying a modifier twice')
            require(all(N is not t for q, t in applied.items() if q != key),
                    'one type for two modifiers')
            require(m.get_modifier(N) is live[k] and m.get_unmodified(N) is B
                    and N.__name__ == live[k].__name__ + B.__name__, 'parts of', N)
            for q, L in live.items():
                require(issubclass(N, L) == (q == k), N, 'is a', L)
            applied[key] = N


def many_modified(i, n, m, t):
    e = adt.env()
    T = e.h.BitVector[n] if t == 0 else e.a.Tuple[e.h.SIntVector[n]] if t == 1 else \
        e.m.make_modifier(f'Many{m}', cache=True)(e.h.UIntVector[n])
    return e.mods[i](T)


register(Check('M01', [Sub('modifiers', mod_case, check_mods, 2000, 32000),
                       Sub('many', many.cases(), many.check(
                           many_modified, lambda i, rng: (
                               rng.randint(0, 2), rng.randint(1, 900), *rng.choice(
                                   ((0, 0), (0, 1), (rng.randint(0, 300), 2))))), 6, 90,
                           enumerate_cases=many.enumerated(2500))],
               'at least one modifier applied or one step of history', TRUSTS))


# ------------------------------------------------------------------ M02
@st.composite
def strip_case(draw):
    d = draw(adt.nested(draw(adt.adt(3, mods=35, auto=False, wide=True)), mods=8))
    ms = draw(st.lists(st.integers(0, 2), max_size=2, unique=True))
    for i in ms:
        d = ('mod', i, d)
    return d


def strip(d):
    k = adt.kind(d)
    if k == 'mod':
        return strip(d[2])
    if adt.is_leaf(d) or k == 'enum':
        return d
    return dedupe(adt.with_types(d, [strip(t) for t in adt.types_of(d)]))


def push(d, mods):
    """mods: outermost last, as wrap_modifier applies them"""
    here = []
    while adt.kind(d) == 'mod':
        here.insert(0, d[1])
        d = d[2]
    mods = here + mods
    if adt.is_leaf(d) or adt.kind(d) == 'enum':
        if len(set(mods)) != len(mods):
            raise _Repeated
        for i in mods:
            d = ('mod', i, d)
        return d
    return dedupe(adt.with_types(d, [push(t, mods) for t in adt.types_of(d)]))


class _Repeated(Exception):
    pass


def check_strip(case, ctx):
    d = case
    m = adt.env().m
    if _repeats(d):
        ctx.mark_trivial()
        ctx.label('repeated-modifier')
        return
    T = adt.build(d)
    before = adt.describe(T)
    mods = [t for t in adt.walk(d) if adt.kind(t) == 'mod']
    ctx.label(f'{min(len(mods), 5)}modifiers')
    if not mods:
        ctx.mark_trivial()
    R = m.strip_modifiers(T)
    got = adt.describe(R, cache=False)
    require(got == adt.norm(strip(d), cache=False), 'strip of', T, 'gave', got,
            'expected', adt.norm(strip(d), cache=False))
    require(m.strip_modifiers(R) is R or not adt.cacheable(strip(d)), 'strip is idempotent')
    try:
        want = push(d, [])
    except _Repeated:
        ctx.label('repeated')
        expect_raises(TypeError, lambda: m.push_modifiers(T), 'push of a repeated modifier')
        want = None
    if want is not None:
        R = m.push_modifiers(T)
        got = adt.describe(R, cache=False)
        require(got == adt.norm(want, cache=False), 'push of', T, 'gave', got,
                'expected', adt.norm(want, cache=False))
        S = m.strip_modifiers(R)
        require(adt.describe(S, cache=False) == adt.norm(strip(d), cache=False),
                'strip of the pushed type', S)
    require(adt.describe(T) == before, 'changed', T)


register(Check('M02', [Sub('strip', strip_case, check_strip, 2500, 60000)],
               'at least one modifier somewhere in the type',
               TRUSTS + ['whether a rebuilt type is cached is not specified']))
