"""U01 frozen dictionaries, typed properties and methods"""
import itertools

from hypothesis import strategies as st

from lib import adt, gen
from lib.harness import Check, Sub, expect_raises, register, require

# different values of one hash, and equal ones of different types
VALUES = (0, 1, 2, -1, -2, 2**61 - 1, True, 1.0, -1.0)
KEYS = (-1, -2, 'a', 'b', 'c', 0, 1, True, None, 1.0, (1, 2), 'self', 'args')


def pairs():
    key = st.sampled_from(KEYS)
    return st.one_of(st.lists(st.tuples(key, st.one_of(st.integers(0, 2), st.sampled_from(VALUES))), max_size=5),
                     st.lists(st.tuples(st.one_of(key, st.integers(0, 99)), st.integers(0, 2)),
                              min_size=5, max_size=45))


@st.composite
def dict_case(draw):
    a = draw(pairs())
    b = draw(st.one_of(st.permutations(a), pairs(), st.just(a), st.just([
        (k, {-1: -2, -2: -1, 0: 2**61 - 1, 2**61 - 1: 0}.get(v, v)) for k, v in a])))
    return (tuple(a), tuple(b), draw(st.sampled_from(('F', 'O'))),
            draw(st.sampled_from(('F', 'O', 'dict', 'same'))), draw(st.integers(0, 3)))


def check_dict(case, ctx):
    from hwtypes import util
    import collections
    a, b, ka, kb, how = case
    cls = {'F': util.FrozenDict, 'O': util.OrderedFrozenDict, 'dict': dict}
    if kb == 'same':
        kb = ka
    ctx.label(ka + '/' + kb)

    def make(k, ps):
        C = cls[k]
        if how == 1:
            return C(dict(ps))
        if how == 2:
            return C(iter(ps))
        if how == 3 and all(isinstance(x, str) and x != 'self' for x, _ in ps):
            return C(**dict(ps))
        return C(list(ps))
    da, db = dict(a), dict(b)
    x, y = make(ka, a), make(kb, b)
    if not da:
        ctx.mark_trivial()
    require(list(x.items()) == list(da.items()) and len(x) == len(da)
            and list(x) == list(da) and dict(x) == da, 'items of', x)
    for k in KEYS:
        require((k in x) == (k in da) and x.get(k, 'no') == da.get(k, 'no'), k, 'in', x)
        if k in da:
            require(x[k] == da[k], 'value of', k)
        else:
            expect_raises(KeyError, lambda: x[k], f'x[{k!r}]')
    # immutable
    for f in (lambda: x.__class__.__setitem__(x, 'a', 1), lambda: _set(x),
              lambda: _del(x), lambda: setattr(x, 'zz', 1)):
        expect_raises((TypeError, AttributeError), f, 'mutation')
    src = dict(a)
    z = cls[ka](src)
    src['zz'] = 1
    require('zz' not in z and dict(z) == da, 'the source dictionary is shared')
    # equality and hashing
    if ka == kb:
        want = da == db if ka == 'F' else list(da.items()) == list(db.items())
        require((x == y) is want and (y == x) is want and (x != y) is not want,
                x, y, 'equality')
        if want:
            require(hash(x) == hash(y) and len({x, y}) == 1, 'hash of equal')
            ctx.label('equal')
        else:
            require(len({x, y}) == 2, 'set of different')
    elif kb != 'dict':
        require((x == y) is (y == x) and (x != y) is not (x == y),
                x, y, 'equality')
        require((x == y) is (da == db), x, y, 'equality across classes')
        if x == y:
            require(hash(x) == hash(y), 'hash of equal', x, y)
    else:
        require((x == db) is (da == db) and (db == x) is (da == db)
                and (x != db) is (da != db), x, '==', db)
    require(hash(x) == hash(make(ka, tuple(da.items()))), 'hash is not stable')
    for w in (None, 1, 'a', [], object()):
        require((x == w) is False and (x != w) is True, x, '==', w)


def _set(x):
    x['a'] = 1


def _del(x):
    del x['a']


@st.composite
def prop_case(draw):
    steps = draw(st.lists(st.tuples(
        st.sampled_from(('set', 'set', 'get', 'bad', 'del', 'class', 'sub', 'other')),
        st.integers(0, 9)), max_size=10))
    return (draw(st.booleans()), draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from(('decorator', 'call', 'order'))), tuple(steps),
            draw(st.sampled_from((None, None, 'explicit', ''))))


def check_prop(case, ctx):
    from hwtypes.util import TypedProperty
    getter, setter, deleter, style, steps, doc = case
    if not steps:
        ctx.mark_trivial()
    ctx.label(style, f'{getter:d}{setter:d}{deleter:d}')

    def fget(self):
        'the documentation'
        return self.store['v']

    def fset(self, v):
        self.store['v'] = v

    def fdel(self):
        self.store['v'] = 'deleted'
    g, s, d = (f if on else None for f, on in ((fget, getter), (fset, setter),
                                               (fdel, deleter)))
    if style == 'call':
        p = TypedProperty(adt.A)
        if doc is None:
            p = p(g, s, d)
        else:
            p = p(g, s, d, doc) if len(doc) else p(fget=g, fset=s, fdel=d, doc=doc)
            require(p.__doc__ == doc, 'the explicit doc', p.__doc__)
            # a property made from this one keeps the documentation
            for n, f in (('getter', g), ('setter', s), ('deleter', d)):
                if f is not None:
                    require(getattr(p, n)(f).__doc__ == doc, 'doc after', n)
    else:
        p = TypedProperty(adt.A)
        todo = [(p_, f) for p_, f in (('getter', g), ('setter', s), ('deleter', d)) if f]
        if style == 'order':
            todo.reverse()
        q = p(None)
        for n, f in todo:
            r = getattr(q, n)(f)
            require(r is not q and isinstance(r, TypedProperty), 'the decorator', n)
            q = r
        p = q
    K = type('K', (), {'v': p, '__init__': lambda self: setattr(self, 'store', {'v': 0})})
    K2 = type('K2', (K,), {})
    # set after the class body it is not final: the class gives the property itself
    late = TypedProperty(adt.A)(fget, fset, fdel)
    K.late = late
    require(K.late is late and K2.late is late, 'K.late is', K.late)
    require(K().late == 0, 'late get')
    xs = [K(), K2()]
    model = [0, 0]
    if getter and style == 'call' and doc is None:
        require(p.__doc__ == 'the documentation', 'doc')
    for op, k in steps:
        ctx.label(op)
        i = k & 1
        x = xs[i]
        if op == 'set' or op == 'sub':
            v = (adt.A if op == 'set' else adt.B)(k)
            if setter:
                x.v = v
                model[i] = v
            else:
                expect_raises(AttributeError, lambda: setattr(x, 'v', v), 'no setter')
        elif op in ('bad', 'other'):
            v = [None, 1, adt.C(1), adt.A, 'x', object()][k % 6]
            expect_raises(TypeError if setter else AttributeError,
                          lambda: setattr(x, 'v', v), f'v = {v!r}')
        elif op == 'del':
            if deleter:
                del x.v
                model[i] = 'deleted'
            else:
                expect_raises(AttributeError, lambda: delattr(x, 'v'), 'no deleter')
        elif op == 'get' and not getter:
            expect_raises(AttributeError, lambda: x.v, 'no getter')
        elif op == 'class':
            require(K.v is adt.A and K2.v is adt.A, 'the class attribute is', K.v)
        for y, m in zip(xs, model):
            require(y.store['v'] is m or y.store['v'] == m, 'stored', y.store, m)
            if getter:
                require(y.v is y.store['v'], 'get gave', y.v)


@st.composite
def method_case(draw):
    names = draw(st.lists(adt.name(), min_size=1, max_size=3, unique=True))
    calls = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3),
                                    st.lists(st.integers(0, 9), max_size=3)),
                          min_size=1, max_size=6))
    return tuple(names), draw(st.booleans()), tuple((a, b, tuple(c)) for a, b, c in calls)


def check_method(case, ctx):
    from hwtypes.util import Method
    names, nested, calls = case
    ctx.label(f'{len(names)}methods', 'inner' if nested else 'top')

    def func(i):
        def f(*args, **kwargs):
            return (i, args, kwargs)
        return f
    fs = [func(i) for i in range(len(names))]
    ns = {n: Method(f) for n, f in zip(names, fs)}
    if nested:
        ns['__qualname__'] = 'Outer.K'
    K = type('K', (), dict(ns))
    K2 = type('K2', (K,), {})
    x, y = K(), K2()
    for n, f in zip(names, fs):
        require(getattr(K, n) is f and getattr(K2, n) is f, n, 'of the class')
        require(f.__name__ == n and f.__qualname__ == K.__qualname__ + '.' + n,
                'names of', n, 'are', f.__name__, f.__qualname__)
    for a, how, args in calls:
        i = a % len(names)
        n, f = names[i], fs[i]
        kw = {'k': 1} if how & 1 else {}
        for o in (x, y):
            got = getattr(o, n)(*args, **kw)
            require(got == (i, (o,) + args, kw), n, 'called with', got)
            require(getattr(o, n).__self__ is o and getattr(o, n).__func__ is f, n)
        require(getattr(K, n)(x, *args, **kw) == (i, (x,) + args, kw), n, 'of the class')
        require(ns[n](*args, **kw) == (i, args, kw), 'calling the descriptor')


register(Check('U01', [Sub('methods', method_case, check_method, 500, 10000),
                       Sub('dicts', dict_case, check_dict, 3000, 60000),
                       Sub('properties', prop_case, check_prop, 2000, 40000)],
               'a non-empty dictionary; a property with at least one access',
               []))
