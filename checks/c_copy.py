"""A11 copies of values"""
import copy
import operator
import pickle
import sys
import types

from hypothesis import strategies as st

from lib import adt, bv, gen
from lib.harness import Check, Sub, register, require


# ------------------------------------------------------------------ ADT values
class Node:
    """mutable stand-in of a value; its copies are made by the same module"""
    def __init__(self, d, lit):
        while adt.kind(d) == 'mod':
            d = d[2]
        self.d = d
        k = adt.kind(d)
        if adt.tuple_like(d):
            self.v = [Node(t, w) for t, w in zip(adt.types_of(d), lit)]
        elif k in ('sum', 'tu'):
            self.v = [lit[0], Node(adt.types_of(d)[lit[0]], lit[1])]
        else:
            self.v = [lit]

    def __copy__(self):
        n = object.__new__(Node)
        n.d, n.v = self.d, list(self.v)
        return n

    def __deepcopy__(self, memo):
        if adt.kind(self.d) == 'enum':
            return self
        n = memo[id(self)] = object.__new__(Node)
        n.d, n.v = self.d, [copy.deepcopy(w, memo) for w in self.v]
        return n

    def lit(self):
        if adt.tuple_like(self.d):
            return tuple(w.lit() for w in self.v)
        if adt.kind(self.d) in ('sum', 'tu'):
            return (self.v[0], self.v[1].lit())
        return self.v[0]


def no_modified_enums(d):
    """these have no values"""
    if adt.kind(d) == 'mod':
        inner = no_modified_enums(d[2])
        return inner if adt.kind(inner) == 'enum' else ('mod', d[1], inner)
    if adt.is_leaf(d) or adt.kind(d) == 'enum':
        return d
    return adt.with_types(d, adt.distinct(d, map(no_modified_enums, adt.types_of(d))))


@st.composite
def adt_case(draw):
    d = no_modified_enums(draw(adt.nested(draw(adt.adt(
        3, mods=draw(st.sampled_from((0, 0, 15))), auto=True, wide=True, related=True)))))
    v = draw(adt.lits(d))
    steps = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(('copy', 'deep', 'deep', 'set', 'set', 'set', 'list', 'list')))
        steps.append((op, draw(st.integers(0, 9)),
                      tuple(draw(st.lists(st.integers(0, 12), max_size=3))),
                      draw(st.integers(0, 1 << 12))))
    return d, v, tuple(steps)


def some_lit(d, r):
    """a literal of d from a number"""
    k = adt.kind(d)
    if k == 'mod':
        return some_lit(d[2], r)
    if k in ('A', 'B', 'C', 'D'):
        return r % 5
    if k == 'bit':
        return r & 1
    if k == 'bv':
        return r * 40503 & gen.mask(d[2])
    if k == 'enum':
        return r % len(d[2])
    if adt.tuple_like(d):
        return tuple(some_lit(t, r // (i + 2) + i) for i, t in enumerate(adt.types_of(d)))
    ts = adt.types_of(d)
    i = r % len(ts)
    return (i, some_lit(ts[i], r // len(ts)))


def unmod(d):
    while adt.kind(d) == 'mod':
        d = d[2]
    return d


def assign(x, n, T, path, r):
    """change x and its model n at the end of a path, as far as it leads"""
    while True:
        d = n.d
        k = adt.kind(d)
        ts = adt.types_of(d) if not adt.is_leaf(d) and k != 'enum' else ()
        if k == 'bv' and d[1] != 'SMT':
            i = r % d[2]
            x[i] = r >> 5 & 1
            n.v[0] = n.v[0] & ~(1 << i) | (r >> 5 & 1) << i
            return 'bit'
        if not ts:
            return None
        i = n.v[0] if k in ('sum', 'tu') and path else (path[0] if path else r) % len(ts)
        t = ts[i]
        key = adt.fields(d)[i][0]
        F = adt.sum_field(d, T, t) if k == 'sum' else T.field_dict[key]
        inner = unmod(t)
        if path and (adt.kind(inner) == 'bv' or not adt.is_leaf(inner)
                     and adt.kind(inner) != 'enum'):
            path = path[1:]
            if k == 'sum':
                x = x[F].value
            elif k == 'tu':
                x = getattr(x, key).value
            else:
                x = x[i]
            n = n.v[i] if adt.tuple_like(d) else n.v[1]
            T = F
            continue
        w = some_lit(t, r)
        v = adt.value(t, w, F)
        if k == 'sum':
            x[F] = v
        elif k == 'tu' or k != 'tuple' and r & 1:
            setattr(x, key, v)
        else:
            x[i] = v
        if adt.tuple_like(d):
            n.v[i] = Node(t, w)
        else:
            n.v = [i, Node(t, w)]
        return 'field'


def check_adt(case, ctx):
    d, v, steps = case
    T = adt.build(d)
    x = adt.value(d, v, T)
    pool, model = [x], [Node(d, v)]
    ctx.label(adt.kind(d), f'depth{adt.depth(d)}')
    z = adt.value(d, v, T)
    require(adt.lit(d, x, T) == v and bool(x == z) and hash(x) == hash(z)
            and repr(x) == repr(z) and dict(x.value_dict) == dict(z.value_dict),
            x, 'differs from', z)
    shared = 0
    for op, i, path, r in steps:
        i %= len(pool)
        x, n = pool[i], model[i]
        if op == 'set':
            what = assign(x, n, T, path, r)
            ctx.label(f'set-{what}')
            shared += len(pool) > 1 and what is not None
        elif op == 'list':
            # one copy of a list that holds a value twice holds its copy twice
            a, b = copy.deepcopy([x, x])
            require(a is b and a is not x, 'deepcopy of', [x, x], 'gave', [a, b])
            # and what a value holds is copied once, too
            held = [w for w in x.value_dict.values() if w is not None]
            y, *ws = copy.deepcopy([x] + held)
            got = [w for w in y.value_dict.values() if w is not None]
            require(len(got) == len(ws) and all(map(operator.is_, got, ws)),
                    'what', x, 'holds is copied apart from it')
            ctx.label('shared')
            pool.append(a)
            model.append(copy.deepcopy(n))
        else:
            f = copy.copy if op == 'copy' else copy.deepcopy
            y = f(x)
            require(type(y) is type(x) is T and y is not x, op, 'of', x, 'gave', y)
            require(bool(x == y) and bool(y == x) and not bool(x != y)
                    and hash(x) == hash(y), op, 'of', x, 'is not equal to it:', y)
            require(repr(x) == repr(y), op, 'of', x, 'is shown as', y)
            if op == 'copy' and adt.tuple_like(d):
                require(all(x[k] is y[k] for k in range(len(n.v))),
                        'a copy of', x, 'has other fields')
            pool.append(y)
            model.append(f(n))
        for y, m in zip(pool, model):
            got = adt.lit(d, y, T)
            require(got == m.lit(), 'after', op, 'value', y, 'is', got, 'expected', m.lit())
            z = adt.value(d, got, T)
            require(bool(y == z) and hash(y) == hash(z) and repr(y) == repr(z)
                    and dict(y.value_dict) == dict(z.value_dict),
                    'after', op, 'value', y, 'differs from', z)
    if not shared:
        ctx.mark_trivial()


# ------------------------------------------------------------------ vectors
@st.composite
def vec_case(draw):
    k = draw(st.sampled_from(('BV', 'U', 'S', 'sub', 'poly', 'smt', 'z3', 'smtsym', 'z3sym')))
    n = draw(gen.width(1, 70))
    steps = draw(st.lists(st.tuples(st.sampled_from(('copy', 'deep', 'set', 'set')),
                                    st.integers(0, 9), st.integers(0, 140),
                                    st.integers(0, 1)), min_size=1, max_size=10))
    return k, n, draw(gen.value(n)), draw(st.integers(0, 1)), tuple(steps)


def check_vec(case, ctx):
    import hwtypes as h
    k, n, a, c, steps = case
    ctx.label(k)
    subs = read = None
    if k in ('BV', 'U', 'S'):
        x = bv.make(k, n, a)
    elif k == 'sub':
        class Sub_(h.SIntVector):
            pass
        x = Sub_[n](a)
        x.note = ['note']
    elif k == 'poly':
        x = h.Bit(c).ite(h.SIntVector[n](a), h.UIntVector[n](a))
    else:
        F = h.SMTUIntVector if k.startswith('smt') else h.z3UIntVector
        x = F[n]() if k.endswith('sym') else F[n](a)
        if k.startswith('smt'):
            import pysmt.shortcuts as smt
            subs = {x.value: smt.BV(a, n)} if k.endswith('sym') else {}
        else:
            import z3
            subs = [(x.value, z3.BitVecVal(a, n))] if k.endswith('sym') else []
    if k.startswith('smt'):
        def read(y):
            t = y.value.substitute(subs).simplify()
            require(t.is_constant(), y, 'is not determined')
            return int(t.constant_value())
    elif k.startswith('z3'):
        def read(y):
            import z3
            return z3.simplify(z3.substitute(y.value, *subs) if subs else y.value).as_long()
    else:
        def read(y):
            u = y.as_uint()
            s = u - (u >> n - 1 << n)
            bits = [u >> i & 1 for i in range(n)]
            require(list(y.bits()) == bits and y.as_bool_list() == list(map(bool, bits))
                    and y.binary_string() == format(u, f'0{n}b')
                    and y.as_sint() == s and bool(y) == bool(u)
                    and int(y[-1]) == bits[-1] and y[n // 2:].as_uint() == u >> n // 2
                    and (~y).as_uint() == u ^ gen.mask(n) and (y + 1).as_uint() == u + 1 & gen.mask(n),
                    'parts of', y, 'disagree', bits)
            return u
    require(read(x) == a, x, 'is not', a)
    T = type(x)
    pool, model = [x], [a]
    sets = 0
    for op, i, p, b in steps:
        i %= len(pool)
        x = pool[i]
        if op == 'set':
            p %= n
            q = p - n if b and p & 1 else p
            x[q] = b
            model[i] = model[i] & ~(1 << p) | b << p
            sets += len(pool) > 1
        else:
            # the terms of pysmt are not made for deep copies
            f = copy.deepcopy if op == 'deep' and not k.startswith('smt') else copy.copy
            y = f(x)
            require(type(y) is T and y is not x, op, 'of', x, 'gave', y)
            if not k.startswith(('smt', 'z3')):
                require(bool(x == y) and not bool(x != y) and hash(x) == hash(y)
                        and repr(x) == repr(y), op, 'of', x, 'gave', y)
            if k == 'sub':
                require(y.note == ['note'] and (y.note is x.note) is (f is copy.copy),
                        'an attribute of', y)
            if k == 'poly':
                # it still acts as the chosen branch
                require(bool((x < 1) == (y < 1)) and (x >> 1).as_uint() == (y >> 1).as_uint(),
                        'operations of', y)
            pool.append(y)
            model.append(model[i])
        for y, m in zip(pool, model):
            require(read(y) == m, 'after', op, y, 'is', read(y), 'expected', m)
    if not sets:
        ctx.mark_trivial()


# ------------------------------------------------------------------ immutable ones
@st.composite
def value_case(draw):
    k = draw(st.sampled_from(('bit', 'fp', 'fp', 'dict', 'enum', 'type', 'fptype', 'smtbit',
                              'z3bit')))
    e, m = draw(st.integers(2, 11)), draw(st.integers(2, 60))
    d = draw(adt.enum()) if k == 'enum' else draw(adt.adt(2, mods=15))
    return (k, e, m, draw(st.sampled_from(('RNE', 'RTP', 'RTN', 'RTZ'))),
            draw(st.booleans()), draw(gen.value(1 + e + m)), d,
            draw(st.lists(st.tuples(st.sampled_from('abcde'), st.integers(0, 3)), max_size=4)))


def check_value(case, ctx):
    import hwtypes as h
    from hwtypes import util
    k, e, m, mode, ieee, bits, d, items = case
    ctx.label(k)
    both = (copy.copy, copy.deepcopy)
    if k == 'bit':
        b = h.Bit(bits & 1)
        for f in both:
            bv.same_bit(f(b), bits & 1, 'copy of', b)
    elif k in ('fp', 'fptype'):
        from hwtypes.fp_vector_abc import RoundingMode
        F = h.FPVector[e, m, RoundingMode[mode], ieee]
        for f in both:
            require(f(F) is F, 'copy of', F)
        if k == 'fp':
            x = F.reinterpret_from_bv(h.BitVector[1 + e + m](bits))
            want = x.reinterpret_as_bv().as_uint()
            for f in both:
                y = f(x)
                require(type(y) is F and y.reinterpret_as_bv().as_uint() == want,
                        'copy of', x, 'is', y)
                require((x.fp_is_NaN() or bool(x == y)), 'copy of', x, 'is', y)
    elif k == 'dict':
        for C in (util.FrozenDict, util.OrderedFrozenDict):
            x = C(items)
            for f in both + (lambda x: pickle.loads(pickle.dumps(x)),):
                y = f(x)
                require(type(y) is C and y == x and list(y.items()) == list(x.items())
                        and hash(y) == hash(x), 'copy of', x, 'is', y)
    elif k == 'enum':
        # the members of an enum are all the values there are
        E = adt.build(d)
        for n, _ in d[2]:
            x = getattr(E, n)
            for f in both:
                require(f(x) is x, 'copy of', x, 'is', f(x))
            require(copy.deepcopy({x: [x]}) == {x: [x]}, 'copy of', x)
    elif k == 'type':
        T = adt.build(d)
        for f in both:
            require(f(T) is T, 'copy of', T)
        for t in adt.walk(d):
            if adt.cacheable(t):
                require(copy.deepcopy([adt.build(t)])[0] is adt.build(t), 'copy of', t)
    else:
        x = h.SMTBit() if k == 'smtbit' else h.z3Bit()
        y = copy.copy(x)
        require(type(y) is type(x) and y is not x and y.value is x.value, 'copy of', x)


# ------------------------------------------------------------------ pickle
PLAIN = ('A', 'B', 'D', 'bit')           # (C goes by the name of A)


@st.composite
def pickle_case(draw):
    d = draw(adt.adt(2, kinds=('prod', 'tu'), sub=False, auto=True,
                     leaves=st.sampled_from(PLAIN), lo=1))
    return d, draw(adt.lits(d)), draw(st.integers(0, pickle.HIGHEST_PROTOCOL))


def check_pickle(case, ctx):
    """types that can be found by their module and name"""
    d, v, protocol = case
    T = adt.build(d)
    mod = types.ModuleType('verif_pickled')
    saved = []

    def publish(t, T):
        k = adt.kind(t)
        if adt.is_leaf(t) or T in [s[0] for s in saved]:
            return
        saved.append((T, T.__module__, T.__qualname__))
        name = f'T{len(saved)}'
        T.__module__, T.__qualname__ = mod.__name__, name
        setattr(mod, name, T)
        if k != 'enum':
            for n, u in adt.fields(t):
                publish(u, T.field_dict[n])
    sys.modules[mod.__name__] = mod
    try:
        publish(d, T)
        x = adt.value(d, v, T)
        ctx.label(adt.kind(d), f'protocol{protocol}')
        if protocol < 2:
            # object.__reduce_ex__ of these protocols does not know __new__'s arguments
            protocol = 2
        y = pickle.loads(pickle.dumps(x, protocol))
        require(type(y) is T and y is not x, 'unpickled', x, 'is', y)
        require(adt.lit(d, y, T) == v, 'unpickled', x, 'is', y)
        require(bool(x == y) and hash(x) == hash(y), 'unpickled', x, 'is', y)
        require(pickle.loads(pickle.dumps(T, protocol)) is T, 'unpickled type', T)
    finally:
        del sys.modules[mod.__name__]
        for T_, m, q in saved:
            T_.__module__, T_.__qualname__ = m, q


register(Check('A11', [
    Sub('adts', adt_case, check_adt, 2500, 60000),
    Sub('vectors', vec_case, check_vec, 1500, 30000),
    Sub('values', value_case, check_value, 1500, 30000),
    Sub('pickle', pickle_case, check_pickle, 800, 20000)],
    'a value is changed while copies of it exist; every value or type copied that cannot '
    'be changed; every pickled value',
    ["Python's copy module copies the model.",
     'pysmt terms are not deep-copied.',
     'pickle is applied to types that a module provides under their name.']))
