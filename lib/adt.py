"""Algebraic data types as literals: descriptors of types and values, how to build
them with the public API, and how to read them back through it.

  type descriptor                      value literal
  'A' 'B' 'C' 'D'  plain classes       int        (B is an A, D is a C)
  'bit'                                0/1
  ('bv', fam, n) / ('bv', fam, None)   int        (None: unsized, no values)
  ('enum', name, ((member, int|None)..))   index  (None: Enum.Auto())
  ('tuple', k, (T..))                  tuple      (k: 0 Tuple, 1 a subclass, 2 one of that)
  ('anon', k, ((name, T)..))           tuple
  ('prod', k, name, ((name, T)..), cache)  tuple
  ('sum', k, (T..))                    (index, literal)
  ('tu', k, name, ((name, T)..), cache)    (index, literal)
  ('mod', i, T)                        as T
"""
import functools
import keyword

from hypothesis import strategies as st

from . import bv, gen
from .harness import HarnessError, require


# ------------------------------------------------------------ leaves, families
class _Leaf:
    def __init__(self, v=0):
        self.v = v

    def __eq__(self, other):
        if isinstance(other, _Leaf):
            return type(self) is type(other) and self.v == other.v
        return NotImplemented

    def __hash__(self):
        return hash((type(self).__name__, self.v))

    def __repr__(self):
        return f'{type(self).__name__}({self.v})'


class A(_Leaf): pass
class B(A): pass
class C(_Leaf): pass
class D(C): pass
class Foreign: pass


# unrelated classes may look alike
C.__name__ = C.__qualname__ = 'A'


LEAVES = {'A': A, 'B': B, 'C': C, 'D': D}
BVFAMS = ('BV', 'U', 'S', 'LBV', 'LS')      # the last two look like the first


class _Env:
    pass


@functools.lru_cache(None)
def env():
    """families and modifiers, created once per process"""
    import hwtypes as h
    import hwtypes.adt as a
    import hwtypes.modifiers as m
    e = _Env()

    def hello(self):
        return 'hello'
    class Mixin:
        def mixed(self):
            return 'mixed'

    def family(F):
        G = type(F)('My' + F.__name__, (F,), {'hello': hello})
        return F, G, type(F)('Mixed' + F.__name__, (Mixin, G), {})
    e.fam = {k: family(F) for k, F in dict(tuple=a.Tuple, anon=a.AnonymousProduct,
                              prod=a.Product, sum=a.Sum, tu=a.TaggedUnion).items()}
    # the first and the last have one name
    e.mods = tuple(m.make_modifier(n) for n in ('Mod0', 'Mod1', 'Mod0'))
    e.h, e.a, e.m = h, a, m
    e.Auto = a.new_instruction
    from hwtypes.adt_meta import AttrSyntax, GetitemSyntax
    e.syntax = AttrSyntax, GetitemSyntax
    return e


@functools.lru_cache(None)
def lookalike(f):
    L = bv.fam('BV' if f == 'LBV' else 'S')
    return type(L)('BitVector', (L,), {
        '__hash__': L.__hash__, '__module__': L.__module__, '__qualname__': 'BitVector'})


def bvfam(f):
    if f == 'SMT':
        return env().h.SMTBitVector
    if f == 'Abs':
        return env().h.AbstractBitVector
    if f in ('LBV', 'LS'):
        return lookalike(f)
    return bv.fam(f)


def kind(d):
    return d if isinstance(d, str) else d[0]


def is_leaf(d):
    return kind(d) in ('A', 'B', 'C', 'D', 'bit', 'smtbit', 'bv')


def tuple_like(d):
    return kind(d) in ('tuple', 'anon', 'prod')


def fresh(x):
    """an equal name or number that is another object, where Python allows it"""
    return ''.join(list(x)) if isinstance(x, str) else int(str(x))


def fields(d):
    """((key, T), ...) of an adt descriptor that has types as fields"""
    k = kind(d)
    if k == 'tuple':
        return tuple(enumerate(d[2]))
    if k == 'anon':
        return d[2]
    if k in ('prod', 'tu'):
        return d[3]
    if k == 'sum':
        return tuple((t, t) for t in d[2])
    raise HarnessError(d)


def with_types(d, ts):
    """d with its field types replaced"""
    k = kind(d)
    if k in ('tuple', 'sum'):
        return (k, d[1], tuple(ts))
    named = tuple((n, t) for (n, _), t in zip(fields(d), ts))
    if k == 'anon':
        return (k, d[1], named)
    return (k, d[1], d[2], named, d[4])


def distinct(d, ts):
    """field types for d: each alternative of a sum once"""
    return list({norm(t): t for t in ts}.values() if d[0] == 'sum' else ts)


def types_of(d):
    return tuple(t for _, t in fields(d))


# ------------------------------------------------------------ building
def build(d, how=0):
    e = env()
    k = kind(d)
    if k in LEAVES:
        return LEAVES[k]
    if k == 'bit':
        return e.h.Bit
    if k == 'smtbit':
        return e.h.SMTBit
    if k == 'bv':
        F = bvfam(d[1])
        return F if d[2] is None else F[d[2]]
    if k == 'mod':
        return e.mods[d[1]](build(d[2], how))
    if k == 'enum':
        ns = {fresh(n): e.Auto() if v is None else fresh(v) for n, v in d[2]}
        return type(e.a.Enum)(d[1], (e.a.Enum,), ns)
    F = e.fam[k][d[1]]
    if k == 'tuple':
        ts = tuple(build(t, how) for t in d[2])
        return F[ts[0]] if how and len(ts) == 1 else F[ts]
    if k == 'sum':
        ts = [build(t, how) for t in d[2]]
        return F[tuple(reversed(ts)) if how else tuple(ts)]
    named = {fresh(n): build(t, how) for n, t in fields(d)}
    if k == 'anon':
        return F[named]
    # two ways to make the same type
    if how:
        return type(F)(d[2], (F,), dict(named), cache=d[4])
    return F.from_fields(d[2], named, cache=d[4])


def cacheable(d):
    """building d again gives the same type while the first is alive"""
    k = kind(d)
    if is_leaf(d):
        return True
    if k == 'enum':
        return all(v is not None for _, v in d[2])
    if k == 'mod':
        return cacheable(d[2])
    return (k not in ('prod', 'tu') or d[4]) and all(map(cacheable, types_of(d)))


# ------------------------------------------------------------ reading back
def norm(d, cache=True):
    """descriptors of one type are equal after norm (cache=False: regardless of
    whether it is cached)"""
    k = kind(d)
    if is_leaf(d):
        return d
    if k == 'mod':
        return ('mod', d[1], norm(d[2], cache))
    if k == 'enum':
        return ('enum', d[1], frozenset(d[2]))
    if k in ('tuple', 'sum'):
        ts = [norm(t, cache) for t in d[2]]
        return (k, d[1], tuple(ts) if k == 'tuple' else frozenset(ts))
    named = tuple((n, norm(t, cache)) for n, t in fields(d))
    if k == 'anon':
        return (k, d[1], named)
    return (k, d[1], d[2], named if k == 'prod' else frozenset(named),
            d[4] if cache else None)


def describe(T, cache=True):
    """norm of the descriptor of a type, read through the public API only"""
    e = env()
    if e.m.is_modified(T):
        M = e.m.get_modifier(T)
        i = e.mods.index(M) if M in e.mods else M
        return ('mod', i, describe(e.m.get_unmodified(T), cache))
    for k, L in LEAVES.items():
        if T is L:
            return k
    if T is e.h.Bit:
        return 'bit'
    if T is e.h.SMTBit:
        return 'smtbit'
    for f in BVFAMS + ('SMT', 'Abs'):
        F = bvfam(f)
        if T is F:
            return ('bv', f, None)
        if isinstance(T, type(e.h.AbstractBitVector)) and T.is_sized and T.unsized_t is F:
            return ('bv', f, T.size)
    require(e.a.is_adt_type(T), 'not a type of ours:', T)
    if issubclass(T, e.a.Enum):
        from hwtypes.adt_meta import EnumMeta
        vals = []
        for n, m in T.field_dict.items():
            v = m._value_
            vals.append((n, None if isinstance(v, EnumMeta.Auto) else v))
        return ('enum', T.__name__, frozenset(vals))
    for k in ('prod', 'anon', 'tuple', 'tu', 'sum'):
        if issubclass(T, e.fam[k][0]):
            break
    else:
        require(False, 'unknown adt', T)
    F = T.unbound_t
    require(F in e.fam[k], T, 'has unbound type', F)
    i = e.fam[k].index(F)
    if k == 'tuple':
        return (k, i, tuple(describe(t, cache) for t in T.fields))
    if k == 'sum':
        return (k, i, frozenset(describe(t, cache) for t in T.fields))
    named = tuple((n, describe(t, cache)) for n, t in T.field_dict.items())
    if k == 'anon':
        return (k, i, named)
    return (k, i, T.__name__, named if k == 'prod' else frozenset(named),
            T.is_cached if cache else None)


def check_type(T, d, what, cache=True):
    got = describe(T, cache)
    want = norm(d, cache)
    require(got == want, what, 'is', got, 'expected', want)
    if cache and cacheable(d):
        require(build(d) is T, what, 'is not the cached type of', want)


# ------------------------------------------------------------ values
def value(d, lit, T=None, kw=False):
    """a value of T (default: build(d)).  Fields get values of the types T
    itself has, so that uncached types fit."""
    if T is None:
        T = build(d)
    k = kind(d)
    if k == 'mod':
        return value(d[2], lit, T, kw)
    if is_leaf(d):
        return T(lit)
    if k == 'enum':
        return getattr(T, d[2][lit][0])
    if tuple_like(d):
        fs = fields(d)
        vals = [value(t, v, T.field_dict[n], kw) for (n, t), v in zip(fs, lit)]
        if kw and k != 'tuple':
            pairs = [(fresh(n), v) for (n, _), v in zip(fs, vals)]
            return T(**dict(reversed(pairs)))
        return T(*vals)
    i, v = lit
    n, t = fields(d)[i]
    if k == 'tu':
        return T(**{fresh(n): value(t, v, T.field_dict[n], kw)})
    return T(value(t, v, sum_field(d, T, t), kw))


def sum_field(d, T, t):
    """the alternative of T described by t"""
    if cacheable(t):
        return build(t)
    for F in T.fields:
        if describe(F) == norm(t):
            return F
    raise HarnessError(f'{t} not in {T}')


def lit(d, x, T=None, exact=True):
    """the literal of a value, read through the public API"""
    if T is None:
        T = build(d)
    k = kind(d)
    if k == 'mod':
        return lit(d[2], x, T, exact)
    if exact:
        require(type(x) is T or (k in ('A', 'C') and isinstance(x, T)),
                x, 'has type', type(x), 'expected', T)
    if k in LEAVES:
        return x.v
    if k == 'bit':
        return int(bool(x))
    if k == 'bv':
        return x.as_uint()
    if k == 'enum':
        ids = [i for i, (n, _) in enumerate(d[2]) if getattr(T, n) is x]
        require(len(ids) == 1, x, 'is not one member of', T)
        return ids[0]
    if tuple_like(d):
        out = []
        for i, (n, t) in enumerate(fields(d)):
            v = x[i]
            if k != 'tuple':
                require(getattr(x, n) is v, f'{n} and [{i}] of', x, 'differ')
            out.append(lit(t, v, T.field_dict[n], exact))
        return tuple(out)
    hits = [(i, lit(t, v, F, exact)) for i, _, t, F, v in matched(d, x, T)]
    require(len(hits) == 1, x, 'matches', len(hits), 'alternatives')
    return hits[0]


def matched(d, x, T):
    """(index, key, description, type, value) of the alternatives x matches, without
    those matched because they are a supertype of that of the value"""
    for i, (n, t) in enumerate(fields(d)):
        F = T.field_dict[n] if d[0] == 'tu' else sum_field(d, T, t)
        m = getattr(x, n) if d[0] == 'tu' else x[F]
        if m.match:
            if d[0] == 'sum' and type(m.value) is not F and type(m.value) in T.fields:
                require(issubclass(type(m.value), F), x, 'matches', F)
            else:
                yield i, n, t, F, m.value


def default(d):
    """the literal enumerate() uses for a leaf"""
    if is_leaf(d):
        return 0
    raise HarnessError(d)


# ------------------------------------------------------------ generators
RESERVED = {'enumerate', 'fields', 'field_dict', 'is_bound', 'is_cached',
            'value_dict', 'from_values'}
# names of the type machinery that are neither reserved nor usable (finding A01)
UNUSABLE = {'Match', 'rebind', 'unbound_t', 'from_fields'}
NAMES = ('a', 'b', 'c', 'x', 'y', 'value', 'name', 'self', 'cls', 'super', 'other',
         'args', 'kwargs', 'idx', 'T', 'data', 'tag', 'match', 'mro', 'type',
         'object', 'i', 'p', 't', 'gs', 'ls', 'AnonymousProduct', 'Product', 'Tuple',
         'prop', 'op', 'hash', 'int', 'repr', 'isinstance', 'a1', 'aa', 'A', 'B',
         'item', 'count', 'index', 'keys', 'items', 'values', 'get', 'print')


def ok_name(n):
    return (n.isidentifier() and not keyword.iskeyword(n) and n not in RESERVED
            and n not in UNUSABLE and not n.startswith('_'))


@functools.lru_cache(None)
def all_names():
    return tuple(sorted(set(NAMES) | {n for n in gen.dictionary()[1] if ok_name(n)}))


def name():
    return st.one_of(st.sampled_from(NAMES[:5]), st.sampled_from(NAMES),
                     st.sampled_from(all_names()))


def names(lo, hi):
    return st.lists(name(), min_size=lo, max_size=hi, unique=True)


TYPENAMES = ('P', 'Q', 'Type', 'Inst', 'Tuple', 'Product', 'super', 'T', 'cls')


@st.composite
def leaf(draw, bvs=True):
    r = draw(st.integers(0, 6 if bvs else 2))
    if r <= 1:
        return draw(st.sampled_from('ABCD'))
    if r == 2:
        return 'bit'
    return ('bv', draw(st.sampled_from(BVFAMS)), draw(st.integers(1, 9)))


@st.composite
def enum(draw, lo=1, auto=True, unique=True):
    w = draw(st.integers(0, 24)) == 24       # many members
    ns = draw(st.lists(name(), min_size=9 if w else lo, max_size=13 if w else 4,
                       unique=True))
    vs = draw(st.lists(st.integers(-2, 20 if w else 9), min_size=len(ns), max_size=len(ns),
                       unique=unique))
    if draw(st.integers(0, 4)) == 4:         # (large numbers: equal is not identical)
        vs = [v * 1000 + 7 for v in vs]
    if auto and draw(st.integers(0, 3)) == 0:
        vs = [None if draw(st.booleans()) else v for v in vs]
    return ('enum', draw(st.sampled_from(('E', 'F', 'Op'))), tuple(zip(ns, vs)))


def group(d):
    """types of different groups are not subclass-related"""
    k = kind(d)
    if k in ('A', 'B'):
        return 'A'
    if k in ('C', 'D'):
        return 'C'
    if k in ('bit', 'smtbit'):
        return 'bit'
    if k == 'bv':
        return ('bv', d[2])
    if k == 'mod':
        return group(d[2])
    if k == 'enum':
        return ('enum', d[1], frozenset(n for n, _ in d[2]))
    if tuple_like(d):
        return ('t', tuple(group(t) for t in types_of(d)))
    return ('s', frozenset(group(t) for t in types_of(d)))


ALL = ('tuple', 'anon', 'prod', 'sum', 'tu')


@st.composite
def adt(draw, depth=2, kinds=ALL, leaves=None, mods=0, cache=True, sub=True,
        lo=0, hi=4, auto=True, only=None, wide=False, related=False):
    """related: the alternatives of sums may be subtypes of each other;
    wide: now and then more than eight fields; kinds: the adt kinds allowed; mods: percentage of modified types; cache:
    allow uncached types; only: the kinds allowed at the top"""
    leaves = leaf() if leaves is None else leaves
    k = draw(st.sampled_from(only or kinds))

    def child():
        r = draw(st.integers(0, 9))
        if depth > 1 and r < 4:
            t = draw(adt(depth - 1, kinds, leaves, mods, cache, sub, lo,
                         max(2, hi - 1), auto, related=related))
        elif r < 6:
            t = draw(enum(auto=auto))
        else:
            t = draw(leaves)
        left = [0, 1, 2]                     # none twice
        while mods and left and draw(st.integers(0, 99)) < mods:
            t = ('mod', left.pop(draw(st.integers(0, len(left) - 1))), t)
        return t

    f = max(0, draw(st.integers(0, 5)) - 3) if sub else 0
    if wide and draw(st.integers(0, 11)) == 11:
        n = draw(st.sampled_from((9, 11, 12, 13, 21, 33)))         # two-digit indices
        ts = [draw(leaves if draw(st.integers(0, 5)) else enum(auto=auto)) for _ in range(n)]
    else:
        n = draw(st.integers(max(lo, 0 if k == 'tuple' else 1), hi))
        ts = [child() for _ in range(n)]
    if n > 1 and draw(st.integers(0, 3)) == 0:
        ts[-1] = ts[0]                       # a type may be used twice
    if k == 'tuple':
        return (k, f, tuple(ts))
    if k == 'sum':
        uniq = {}
        if related and n > 1 and draw(st.booleans()):
            t = ts[draw(st.integers(0, n - 1))]
            if kind(t) == 'bv':
                ts[0] = ('bv', draw(st.sampled_from(BVFAMS)), t[2])
            elif t in ('A', 'B', 'C', 'D'):
                ts[0] = {'A': 'B', 'B': 'A', 'C': 'D', 'D': 'C'}[t]
            elif mods and kind(t) in ('bit', 'mod'):
                ts[0] = ('mod', draw(st.integers(0, 2)), t) if kind(t) == 'bit' else t[2]
        for t in ts:
            uniq.setdefault(norm(t, False) if related else group(t), t)
        return (k, f, tuple(uniq.values()))
    ns = draw(names(n, n))
    named = tuple(zip(ns, ts))
    if k == 'anon':
        return (k, f, named)
    c = not cache or draw(st.integers(0, 3)) != 0
    return (k, f, draw(st.sampled_from(TYPENAMES)), named, c)


@st.composite
def nested(draw, d, kinds=ALL, mods=0, leaves=None, lo=4, hi=18):
    """now and then d inside many more types"""
    if draw(st.integers(0, 15)) < 15:
        return d
    if draw(st.booleans()):                  # of one kind
        kinds = (draw(st.sampled_from(kinds)),)
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.sampled_from(kinds))
        ts = [d] + ([draw(leaves or leaf())] if k not in ('sum', 'tu') and draw(st.booleans()) else [])
        if len(ts) > 1 and draw(st.booleans()):
            ts.reverse()
        named = tuple(zip('ab', ts))
        d = (k, 0, tuple(ts)) if k in ('tuple', 'sum') else (k, 0, named) if k == 'anon' \
            else (k, 0, 'P', named, True)
        if draw(st.integers(0, 99)) < mods:
            d = ('mod', draw(st.integers(0, 2)), d)
    return d


@st.composite
def lits(draw, d):
    k = kind(d)
    if k == 'mod':
        return draw(lits(d[2]))
    if k in LEAVES:
        return draw(st.integers(0, 4))
    if k == 'bit':
        return draw(st.integers(0, 1))
    if k == 'bv':
        return draw(st.one_of(st.just(0), gen.value(d[2])))
    if k == 'enum':
        return draw(st.integers(0, len(d[2]) - 1))
    if tuple_like(d):
        return tuple(draw(lits(t)) for t in types_of(d))
    ts = types_of(d)
    i = draw(st.integers(0, len(ts) - 1))
    return (i, draw(lits(ts[i])))


def depth(d):
    if is_leaf(d) or kind(d) == 'enum':
        return 0
    if kind(d) == 'mod':
        return depth(d[2])
    return 1 + max((depth(t) for t in types_of(d)), default=0)


def walk(d):
    yield d
    if kind(d) == 'mod':
        yield from walk(d[2])
    elif not is_leaf(d) and kind(d) != 'enum':
        for t in types_of(d):
            yield from walk(t)
