"""A01 tuples and products, A02 sums and tagged unions, A03 enums, A05 enumerate,
A09 equality and hashing"""
import gc
import itertools
import warnings

from hypothesis import strategies as st

from lib import adt, gen
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)

warnings.simplefilter('ignore')
TRUSTS = ['field names exclude the ones reserved or used by the type machinery '
          '(Match, rebind, unbound_t, from_fields)']


def wrong_values(d):
    """things that are not values of type d"""
    out = [None, 'x', object(), adt.Foreign(), adt.Foreign]
    k = adt.kind(d)
    if k != 'bv' or d[2] != 11:
        out.append(('bv', 'BV', 11))
    for w in ('A', 'C', 'bit'):
        if adt.group(w) != adt.group(d):
            out.append(w)
    if k == 'B':
        out.append('A')
    if k == 'D':
        out.append('C')
    if k == 'bv' and d[1] != 'BV':
        out.append(('bv', 'BV', d[2]))
    if k in ('bit', 'bv'):
        out += [0, 1, True]
    if k == 'enum':
        out += [0, d[2][0][1], d[2][0][0], ('enum', 'Other', (('a', 0), ('b', 1)))]
    # values of other types that look the same
    out.append(ALIKE)
    if k in ('prod', 'tu'):
        out.append(k)
    return out


ALIKE = ('alike',)


def alike(d):
    T = adt.build(d)
    if adt.kind(d) == 'enum':
        return type(T)(T.__name__, adt.build(d).__bases__, {n: -77 for n in T.field_dict})
    return type(T.__name__, (), {'__module__': T.__module__,
                                 '__qualname__': T.__qualname__})


def wrong_value(d, k):
    ws = wrong_values(d)
    w = ws[k % len(ws)]
    if w is ALIKE:
        T = alike(d)
        return next(T.enumerate()) if hasattr(T, 'enumerate') else T()
    if w in ('prod', 'tu'):
        # a field that no type has
        return adt.value((w, d[1], d[2], (('other_one', 'bit'),), True),
                         (1,) if w == 'prod' else (0, 1))
    if isinstance(w, tuple) and w[0] == 'enum':
        return adt.build(w).a
    if isinstance(w, tuple) or w in ('A', 'C', 'bit'):
        return adt.build(w)(0)
    return w


# ------------------------------------------------------------------ A01
@st.composite
def tuple_case(draw):
    ks = ('tuple', 'anon', 'prod')
    d = draw(adt.nested(draw(adt.adt(3, only=ks, wide=True)), ks))
    v = draw(adt.lits(d))
    ops = []
    for _ in range(draw(st.integers(0, 12))):
        path, t = [], d
        while adt.types_of(t) and draw(st.integers(0, 2)):
            ks = [i for i, u in enumerate(adt.types_of(t)) if adt.tuple_like(u)]
            if not ks:
                break
            i = draw(st.sampled_from(ks))
            path.append(i)
            t = adt.types_of(t)[i]
        ts = adt.types_of(t)
        n = len(ts)
        op = draw(st.sampled_from(['seti', 'sets', 'neg', 'bad', 'badattr', 'slice',
                                   'oob', 'values', 'badvalues', 'badctor', 'kw',
                                   'alias', 'dict', 'frozen', 'seti', 'sets',
                                   'subclass', 'swap']))
        if n == 0 and op not in ('slice', 'oob', 'values', 'badvalues', 'badctor'):
            op = 'values'
        k = draw(st.integers(0, n - 1)) if n else 0
        if op in ('seti', 'sets', 'neg', 'kw', 'alias'):
            arg = draw(adt.lits(ts[k]))
        elif op == 'slice':
            arg = tuple(draw(st.one_of(st.none(), st.integers(-5, 5)))
                        for _ in range(2)) + (draw(st.sampled_from([None, 1, 2, -1])),)
        else:
            arg = draw(st.integers(0, 40))
        ops.append((op, tuple(path), k, arg))
    return d, v, tuple(ops)


def put(lit, path, k, v):
    lit = list(lit)
    if path:
        lit[path[0]] = put(lit[path[0]], path[1:], k, v)
    else:
        lit[k] = v
    return tuple(lit)


def at(lit, path):
    for i in path:
        lit = lit[i]
    return lit


def check_tuple(case, ctx):
    d, model, ops = case
    T = adt.build(d)
    x = adt.value(d, model, T)
    ctx.label(adt.kind(d), f'depth{adt.depth(d)}')
    if len(ops) < 2 or not adt.fields(d):
        ctx.mark_trivial()
    require(adt.lit(d, x, T) == model, 'constructed', x, 'from', model)
    keys = [n for n, _ in adt.fields(d)]
    require(list(T.field_dict) == keys and list(x.value_dict) == keys,
            'field order of', T, list(T.field_dict), list(x.value_dict), keys)
    y = T.from_values(dict(reversed(list(x.value_dict.items()))))
    require(type(y) is T and adt.lit(d, y, T) == model, 'from_values', y, 'of', x)
    require(tuple(T.fields) == tuple(T.field_dict.values()), 'fields of', T)
    require(all(T[i] is F for i, F in enumerate(T.fields)), 'T[i] of', T)
    if adt.kind(d) != 'tuple':
        for i, n in enumerate(keys):
            require(getattr(T, n) is T.fields[i], f'{T}.{n}')
            if adt.kind(d) == 'prod':
                require(T[n] is T.fields[i], f'{T}[{n!r}]')
    if adt.kind(d) == 'tuple' and all(map(adt.cacheable, adt.types_of(d))):
        F = adt.env().fam['tuple'][d[1]]
        y = F(*[adt.value(t, v) for t, v in zip(adt.types_of(d), model)])
        if not any(adt.kind(t) == 'mod' for t in adt.types_of(d)):
            require(type(y) is T and adt.lit(d, y, T) == model,
                    'type inference gave', y, 'expected', T)
    if d[1]:
        require(x.hello() == 'hello', 'method of', T)
    if 'value' not in keys:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            got = x.value
        require(tuple(got) == tuple(x[i] for i in range(len(keys))), 'value of', x)
        require([w.category for w in ws] == [DeprecationWarning], 'warnings of value', ws)
    for op, path, k, arg in ops:
        ctx.label(op)
        t, y = d, x
        for i in path:
            t, y = adt.types_of(t)[i], y[i]
        U = type(y)
        ts, ks = adt.types_of(t), [n for n, _ in adt.fields(t)]
        named = adt.kind(t) != 'tuple'
        n = len(ts)
        cur = at(model, path)
        key = ks[k] if n else None
        if op in ('seti', 'sets', 'neg', 'alias'):
            v = adt.value(ts[k], arg, U.fields[k])
            if op == 'sets' and named:
                setattr(y, key, v)
            else:
                y[k - n if op == 'neg' else k] = v
            model = put(model, path, k, arg)
            require(y[k] is v, 'the stored value is not the one assigned')
            if op == 'alias' and adt.tuple_like(ts[k]) and adt.fields(ts[k]):
                # the value assigned is shared, not copied
                w = adt.value(adt.types_of(ts[k])[0], arg[0], type(v).fields[0])
                v[0] = w
                require(y[k][0] is w, 'nested assignment not visible')
        elif op == 'swap':
            # two equal values are independent
            z = adt.value(t, cur, U)
            j = next((j for j in range(n) if U.fields[j] is U.fields[k] and cur[j] != cur[k]), None)
            if j is not None:
                a, b = y[k], y[j]
                y[k], y[j] = b, a
                model = put(put(model, path, k, cur[j]), path, j, cur[k])
            require(adt.lit(t, z, U) == cur, 'another value changed along')
        elif op == 'bad':
            v = wrong_value(ts[k], arg)
            for i in (k, k - n):
                expect_raises(TypeError, lambda: y.__setitem__(i, v),
                              f'{y!r}[{i}] = {v!r}')
        elif op == 'badattr' and named:
            v = wrong_value(ts[k], arg)
            expect_raises(TypeError, lambda: setattr(y, key, v), f'{y!r}.{key} = {v!r}')
        elif op == 'subclass' and adt.kind(ts[k]) in ('A', 'C'):
            v = adt.LEAVES['B' if ts[k] == 'A' else 'D'](arg % 5)
            y[k] = v
            require(y[k] is v, 'a value of a subclass is not stored')
            z = U(*[y[i] for i in range(n)])
            require(z == y and z[k] is v, 'a value of a subclass is not accepted')
            y[k] = U.fields[k](arg % 5)
            model = put(model, path, k, arg % 5)
        elif op == 'slice':
            s = slice(*arg)
            got = y[s]
            want = [y[i] for i in range(n)][s]
            require(type(got) is tuple and len(got) == len(want)
                    and all(g is w for g, w in zip(got, want)), y, s, 'gave', got)
            expect_raises((TypeError, IndexError),
                          lambda: y.__setitem__(s, tuple(y[i] for i in range(n))[s]),
                          f'{y!r}[{s}] = ...')
            for w in [y[i] for i in range(n)]:
                expect_raises((TypeError, IndexError), lambda: y.__setitem__(s, w),
                              f'{y!r}[{s}] = {w!r}')
        elif op == 'oob':
            for i in (n, -n - 1, n + arg):
                expect_raises(IndexError, lambda: y[i], f'{y!r}[{i}]')
                expect_raises((IndexError, TypeError),
                              lambda: y.__setitem__(i, y[0] if n else None),
                              f'{y!r}[{i}] = ...')
        elif op == 'values':
            z = U.from_values(y.value_dict)
            require(type(z) is U and z == y and z is not y, 'from_values gave', z)
            z = U.from_values(dict(reversed(list(y.value_dict.items()))))
            require(adt.lit(t, z, U) == cur, 'from_values reversed gave', z)
            if n:
                z[0] = adt.value(ts[0], cur[0], U.fields[0])
                require(all(z[i] is y[i] for i in range(1, n)), 'from_values copies')
        elif op == 'badvalues':
            vd = dict(y.value_dict)
            if arg % 4 == 0:
                vd['no such field'] = None
            elif arg % 4 == 1 and n:
                del vd[key]
            elif arg % 4 == 2 and n:
                vd[key, 0] = vd.pop(key)
            elif n:
                vd[key] = wrong_value(ts[k], arg // 4)
            else:
                vd[0] = None
            exc = TypeError if arg % 4 == 3 and n else ValueError
            expect_raises(exc, lambda: U.from_values(vd), f'{U}.from_values({vd})')
        elif op == 'badctor':
            vals = [y[i] for i in range(n)]
            expect_raises((TypeError, ValueError), lambda: U(*vals, None), 'one more')
            expect_raises((TypeError, ValueError),
                          lambda: U(*vals, **{'no_such_field_': None}), 'unknown field')
            if n:
                expect_raises((TypeError, ValueError), lambda: U(*vals[:-1]), 'one less')
                vals[k] = wrong_value(ts[k], arg)
                expect_raises(TypeError, lambda: U(*vals), f'{U}({vals})')
                if named:
                    kws = dict(zip(ks, vals))
                    expect_raises(TypeError, lambda: U(**kws), f'{U}({kws})')
        elif op == 'kw' and named:
            vals = [y[i] for i in range(n)]
            vals[k] = adt.value(ts[k], arg, U.fields[k])
            kws = dict(zip(ks, vals))
            z = U(**dict(reversed(list(kws.items()))))
            w = U(*vals[:k], **{m: v for m, v in kws.items() if m in ks[k:]})
            u = U(*vals)
            for r in (z, w, u):
                require(all(r[i] is vals[i] for i in range(n)), 'keywords gave', r,
                        'for', kws)
            require(z == u and hash(z) == hash(u), 'keywords and positions differ')
        elif op == 'dict':
            vd = y.value_dict
            require(list(vd) == ks and all(vd[m] is y[i] for i, m in enumerate(ks)),
                    'value_dict is', vd)
            expect_raises(TypeError, lambda: vd.__class__.__setitem__(vd, key, vd[key])
                          if hasattr(type(vd), '__setitem__') else _setitem(vd, key),
                          'value_dict is writable')
            expect_raises(TypeError, lambda: _setitem(U.field_dict, key),
                          'field_dict is writable')
        elif op == 'frozen' and named:
            expect_raises(AttributeError, lambda: delattr(y, key), f'del {y!r}.{key}')
        require(adt.lit(d, x, T) == model, 'after', (op, path, k, arg), x,
                'expected', model)
        z = adt.value(d, model, T)
        require(z == x and x == z and not (x != z) and hash(x) == hash(z),
                'after', (op, path, k, arg), x, 'differs from a new', z)
    require(isinstance(repr(x), str), 'repr')


def _setitem(m, k):
    m[k] = None


def demo_names():
    h = adt.env().h
    bad = []
    for n in ('rebind', 'unbound_t'):
        P = adt.env().a.Product.from_fields('P', {n: h.Bit})
        try:
            ok = getattr(P, n) is h.Bit and P.unbound_t is adt.env().a.Product \
                and P.rebind(h.Bit, h.SMTBit).field_dict == {n: h.SMTBit}
        except Exception:
            ok = False
        if not ok:
            bad.append(n)
    if bad:
        return f'Product accepts the field names {bad}, which then hide or are hidden by the type machinery'


register(Check('A01', [Sub('tuples', tuple_case, check_tuple, 3000, 80000)],
               'at least two operations on a value with at least one field',
               TRUSTS, {'machinery-names': demo_names}))


# ------------------------------------------------------------------ A02
@st.composite
def sum_case(draw):
    d = draw(adt.nested(draw(adt.adt(3, only=('sum', 'tu', 'tu'), lo=1, wide=True,
                                     related=True)), ('sum', 'tu')))
    v = draw(adt.lits(d))
    ops = []
    ts = adt.types_of(d)
    for _ in range(draw(st.integers(0, 12))):
        op = draw(st.sampled_from(['set', 'set', 'set', 'bad', 'foreign', 'values',
                                   'badvalues', 'badctor', 'unmatched', 'dict',
                                   'copy', 'safe']))
        k = draw(st.integers(0, len(ts) - 1))
        ops.append((op, k, draw(adt.lits(ts[k])) if op == 'set'
                    else draw(st.integers(0, 40))))
    return d, v, tuple(ops)


def check_sum(case, ctx):
    d, model, ops = case
    T = adt.build(d)
    tu = adt.kind(d) == 'tu'
    fs = adt.fields(d)
    ts, ks = adt.types_of(d), [n for n, _ in fs]
    F = [T.field_dict[n] if tu else adt.sum_field(d, T, n) for n in ks]
    if not tu:
        ks = F
    ctx.label(adt.kind(d), f'{len(ts)}alternatives')
    if len(ops) < 2:
        ctx.mark_trivial()
    x = adt.value(d, model, T)

    def check(x, model, what):
        i, v = model
        require(adt.lit(d, x, T) == model, what, x, 'expected', model)
        for j in range(len(ts)):
            m = getattr(x, ks[j]) if tu else x[F[j]]
            # an alternative that is a supertype of that of the value matches as well
            sup = not tu and i != j and issubclass(F[i], F[j])
            require(m.match is (i == j or sup), what, 'alternative', ks[j], 'matches:', m.match)
            if i == j or sup:
                require(adt.lit(ts[i], m.value, F[i]) == v, what, 'value', m.value)
            else:
                expect_raises(TypeError, lambda: m.value, f'{what}: unmatched value')
            if tu:
                # by type: every tag of that type is meant
                b = x[F[j]]
                require(b.match is (F[j] is F[i])
                        or adt.group(ts[j]) == adt.group(ts[i]),
                        what, 'by type', F[j], b.match)
        vd = x.value_dict
        require(set(vd) == set(ks) and [k for k in vd if vd[k] is not None] == [ks[i]],
                what, 'value_dict', dict(vd))
        require(adt.lit(ts[i], vd[ks[i]], F[i]) == v, what, 'value_dict', dict(vd))
        z = T.from_values(vd)
        require(type(z) is T and z is not x and adt.lit(d, z, T) == model and z == x
                and x == z and not (z != x) and hash(z) == hash(x),
                what, 'from_values', z)
        z = adt.value(d, model, T)
        require(z == x and hash(z) == hash(x), what, x, 'differs from a new', z)

    check(x, model, 'new')
    require(T.is_bound and set(T.fields) == set(F), 'fields of', T)
    for t in F:
        require(t in T and T[t] is t, t, 'in', T)
    expect_raises(KeyError, lambda: T[adt.Foreign], f'{T}[Foreign]')
    require(adt.Foreign not in T, 'Foreign in', T)
    if tu:
        require(all(getattr(T, n) is t for n, t in zip(ks, F)), 'attributes of', T)
    if d[1]:
        require(x.hello() == 'hello', 'method of', T)
    copies = []
    for op, k, arg in ops:
        ctx.label(op)
        if op == 'set':
            v = adt.value(ts[k], arg, F[k])
            if tu:
                setattr(x, ks[k], v)
            else:
                x[F[k]] = v
            model = (k, arg)
        elif op == 'bad':
            v = wrong_value(ts[k], arg)
            if tu:
                expect_raises(TypeError, lambda: setattr(x, ks[k], v), f'{ks[k]} = {v!r}')
            else:
                expect_raises(TypeError, lambda: x.__setitem__(F[k], v), f'[{F[k]}] = {v!r}')
                j = arg % len(F)
                if adt.group(ts[j]) != adt.group(ts[k]):
                    v = adt.value(ts[j], _zero(ts[j]), F[j])
                    expect_raises(TypeError, lambda: x.__setitem__(F[k], v), 'other alternative')
        elif op == 'foreign':
            expect_raises(TypeError, lambda: x[adt.Foreign], 'foreign index')
            v = adt.Foreign()
            expect_raises(TypeError, lambda: x.__setitem__(adt.Foreign, v), 'foreign set')
            if tu:
                v = adt.value(ts[k], _zero(ts[k]), F[k])
                expect_raises(TypeError, lambda: x.__setitem__(F[k], v),
                              'setitem of a tagged union')
                expect_raises(AttributeError, lambda: delattr(x, ks[k]), 'del field')
        elif op == 'values':
            vd = dict(x.value_dict)
            z = T.from_values(dict(reversed(list(vd.items()))))
            require(z == x, 'from_values reversed', z)
            x = z
        elif op == 'badvalues':
            vd = dict(x.value_dict)
            exc = ValueError
            if arg % 5 == 0:
                vd['no such field'] = None
            elif arg % 5 == 1:
                del vd[ks[k]]
            elif arg % 5 == 2:
                vd = dict.fromkeys(vd)
            elif arg % 5 == 3 and len(vd) > 1:
                vd = {n: adt.value(t, _zero(t), f) for n, t, f in zip(ks, ts, F)}
                same = [n for n, f in zip(ks, F) if f is F[k] and n != ks[k]]
                if same and arg > 10:
                    # one object for both
                    vd = dict.fromkeys(vd)
                    vd[ks[k]] = vd[same[0]] = adt.value(ts[k], _zero(ts[k]), F[k])
            else:
                vd[ks[k]] = wrong_value(ts[k], 1 + arg % 7) or 'x'
                exc = TypeError
            expect_raises(exc, lambda: T.from_values(vd), f'{T}.from_values({vd})')
        elif op == 'badctor':
            w = wrong_value(ts[k], arg)
            if tu:
                v = adt.value(ts[k], _zero(ts[k]), F[k])
                expect_raises(ValueError, lambda: T(), 'no field')
                expect_raises((ValueError, TypeError), lambda: T(v), 'positional')
                for n in ('no_such_field_', 'hello', 'from_values', 'value_dict', 'fields',
                          '__doc__', '__hash__', '_value_', '_tag_'):
                    if n not in ks:
                        expect_raises(ValueError, lambda: T(**{n: v}), f'{n}, no field')
                expect_raises(TypeError, lambda: T(**{ks[k]: w}), 'wrong type')
                if len(ks) > 1:
                    j = (k + 1) % len(ks)
                    u = adt.value(ts[j], _zero(ts[j]), F[j])
                    expect_raises(ValueError, lambda: T(**{ks[k]: v, ks[j]: u}), 'two fields')
            else:
                expect_raises(TypeError, lambda: T(adt.Foreign()), 'wrong type')
                v = wrong_value(ts[k], wrong_values(ts[k]).index(ALIKE))
                expect_raises(TypeError, lambda: T(v), 'a value of another type '
                              f'named {type(v).__name__}')
                expect_raises(TypeError, lambda: x[type(v)], 'another type of that name')
                expect_raises(TypeError, lambda: x.__setitem__(type(v), v),
                              'another type of that name')
                require(type(v) not in T, type(v), 'is in', T)
                expect_raises(TypeError, lambda: T(None), 'None')
                expect_raises(TypeError, lambda: T(), 'no value')
        elif op == 'unmatched':
            y = adt.value(d, (k, _zero(ts[k])), T)
            same = (k, _zero(ts[k])) == model
            require(bool(y == x) == same and bool(x == y) == same
                    and bool(x != y) != same, x, '==', y)
        elif op == 'dict':
            expect_raises(TypeError, lambda: _setitem(x.value_dict, ks[k]), 'value_dict')
            expect_raises(TypeError, lambda: _setitem(T.field_dict, ks[k]), 'field_dict')
        elif op == 'copy':
            copies.append((T.from_values(x.value_dict), model))
        elif op == 'safe':
            m = adt.env().a.Sum.Match
            require(m(False, arg, safe=False).value == arg and
                    m(True, arg).value == arg and m(False, arg).match is False,
                    'Sum.Match')
            expect_raises(TypeError, lambda: m(False, arg).value, 'safe Match')
        check(x, model, f'after {op}')
    for y, m in copies:
        require(adt.lit(d, y, T) == m, 'a copy changed along', y)
    require(isinstance(repr(x), str), 'repr')


def _zero(d):
    k = adt.kind(d)
    if adt.is_leaf(d) or k == 'enum':
        return 0
    if k == 'mod':
        return _zero(d[2])
    if adt.tuple_like(d):
        return tuple(_zero(t) for t in adt.types_of(d))
    return (0, _zero(adt.types_of(d)[0]))


def demo_sum_subclass():
    S = adt.env().a.Sum[adt.A, adt.C]
    s = S(adt.C())
    s[adt.A] = adt.B(1)
    try:
        ok = S.from_values(s.value_dict) == s
    except TypeError as e:
        ok = False
    if not ok:
        return 'Sum[A, C] accepts a B (subclass of A) by assignment, but not ' \
               'in from_values(value_dict) or the constructor'


register(Check('A02', [Sub('sums', sum_case, check_sum, 3000, 80000)],
               'at least two operations on a sum or tagged union value',
               TRUSTS,
               {'sum-subclass-value': demo_sum_subclass}))


# ------------------------------------------------------------------ A03
@st.composite
def enum_case(draw):
    d = draw(adt.enum(auto=True, unique=draw(st.booleans())))
    d2 = draw(adt.enum(auto=False))
    if draw(st.booleans()):
        d2 = d2[:2] + (d[2],)
    extra = draw(st.sampled_from(('none', 'method', 'attr', 'dunder', 'prop')))
    return d, d2, extra, draw(st.booleans())


def check_enum(case, ctx):
    d, d2, extra, cache = case
    e = adt.env()
    Enum = e.a.Enum
    ns = {adt.fresh(n): e.Auto() if v is None else adt.fresh(v) for n, v in d[2]}
    given = dict(ns)
    if extra == 'method':
        ns['zz_method'] = lambda self: 'method'
    elif extra == 'attr':
        ns['zz_attr'] = 'text'
    elif extra == 'dunder':
        ns['__doc__'] = 'some text'
    elif extra == 'prop':
        ns['zz_prop'] = property(lambda self: 'prop')
    E = type(Enum)(d[1], (Enum,), dict(ns), cache=cache)
    ctx.label(extra, 'auto' if None in dict(d[2]).values() else 'ints')
    names = [n for n, _ in d[2]]
    ms = [getattr(E, n) for n in names]
    require(E.is_bound and issubclass(E, Enum) and e.a.is_adt_type(E), 'enum type')
    require(list(E.field_dict) == names
            and all(E.field_dict[n] is m for n, m in zip(names, ms))
            and tuple(E.fields) == tuple(ms), 'fields of', E)
    require(list(E.enumerate()) == ms and all(
        a is b for a, b in zip(E.enumerate(), ms)), 'enumerate')
    require(E.is_cached is cache, 'is_cached')
    for n, m in zip(names, ms):
        require(type(m) is E and isinstance(m, Enum), m, 'has type', type(m))
        require(m._value_ is given[n] or m._value_ == given[n], 'value of', n)
        if 'name' not in names:
            require(m.name == n, 'name of', n, m.name)
        if 'value' not in names:
            require(m.value == given[n], 'value of', n, m.value)
        require(repr(m) == f'{d[1]}.{n}', 'repr of', n, repr(m))
        require(E(m) is m, 'E(member)')
        for k in names:
            expect_raises(AttributeError, lambda: getattr(m, k), f'{m!r}.{k}')
    if extra == 'method':
        require(ms[0].zz_method() == 'method', 'method')
    if extra == 'attr':
        require(E.zz_attr == 'text' and ms[0].zz_attr == 'text', 'attribute')
    if extra == 'prop':
        require(ms[0].zz_prop == 'prop', 'property')
    for (n, a), (k, b) in itertools.product(zip(names, ms), repeat=2):
        eq = given[n] == given[k] if not isinstance(given[n], type(e.Auto())) \
            else given[n] is given[k]
        require((a == b) is eq and (a != b) is (not eq), a, '==', b)
        if eq:
            require(hash(a) == hash(b), 'hash of', a, b)
    for w in (0, names[0], given[names[0]], None, E, adt.Foreign()):
        expect_raises(TypeError, lambda: E(w), f'{E}({w!r})')
    wild = Anything()
    for a in ms:
        require((a == wild) is True and (wild == a) is True and (a != wild) is False,
                a, 'does not leave == to the other object')
        for w in (None, 'x', given[names[0]], object(), adt.Foreign()):
            require((a == w) is False and (w == a) is False and (a != w) is True, a, '==', w)
    expect_raises(TypeError, lambda: E(), 'no argument')
    # another type of the same or other members
    E2 = type(Enum)(d2[1], (Enum,), dict(d2[2]) if None not in dict(d2[2]).values()
                    else {n: e.Auto() for n, _ in d2[2]})
    if E2 is not E:
        expect_raises(TypeError, lambda: type(Enum)('EE', (E, E2), {'zz': 1}), 'two enums')
        for a in E2.enumerate():
            require(type(a) is E2 and a not in ms and all(a != m for m in ms),
                    a, 'equals a member of another enum')
            expect_raises(TypeError, lambda: E(a), 'member of another enum')
    # caching
    E3 = type(Enum)(d[1], (Enum,), dict(reversed(list(ns.items()))), cache=cache)
    require((E3 is E) is cache, 'cache', cache, 'but', E3 is E)
    if not cache:
        require(all(a != b for a in E3.enumerate() for b in ms), 'uncached enums')
    E4 = type(Enum)(d[1] + '_', (Enum,), dict(ns), cache=cache)
    require(E4 is not E and E4.__name__ == d[1] + '_', 'a name is part of the type')
    nz = dict(ns)
    nz[names[-1]] = 77
    E5 = type(Enum)(d[1], (Enum,), nz, cache=cache)
    require(E5 is not E and getattr(E5, names[-1])._value_ == 77, 'values are part of the type')
    require(E.rebind(adt.A, adt.B) is E, 'rebind of an enum')
    if E2 is not E:
        expect_raises(TypeError, lambda: type(Enum)('X', (E, E2), {'zz': 1}), 'two enum bases')
    for r in ('enumerate', 'fields', 'field_dict', 'is_bound', 'is_cached',
              'value_dict', 'from_values', '_value_', '_fields_'):
        from hwtypes.adt_meta import ReservedNameError
        expect_raises(ReservedNameError,
                      lambda: type(Enum)('R', (Enum,), {r: 0}), f'reserved {r}')
    expect_raises((TypeError, AttributeError), lambda: Enum(0), 'unbound Enum')
    s = set(ms) | {E(m) for m in ms}
    require(len(s) == len({str(v) if v is None else v for v in
                           [g if isinstance(g, int) else id(g) for g in given.values()]}),
            'set of members')


register(Check('A03', [Sub('enums', enum_case, check_enum, 2500, 60000)],
               'every case is an enum with at least one member', TRUSTS))


# ------------------------------------------------------------------ A05
@st.composite
def enumerate_case(draw):
    d = draw(adt.nested(draw(adt.adt(3, lo=1, hi=3, wide=True, related=True))))
    # members of an enum may have equal values
    return same_values(d) if draw(st.integers(0, 3)) == 0 else d


def same_values(d):
    k = adt.kind(d)
    if k == 'enum':
        return d[:2] + (tuple((n, 1) for n, _ in d[2]),)
    if k == 'mod' or adt.is_leaf(d):
        return d
    return adt.with_types(d, adt.distinct(d, map(same_values, adt.types_of(d))))


def count(d, top=400):
    k = adt.kind(d)
    if adt.is_leaf(d):
        return 1
    if k == 'enum':
        return len(d[2])
    cs = [count(t) for t in adt.types_of(d)]
    if adt.tuple_like(d):
        r = 1
        for c in cs:
            r *= c
        return r
    return sum(cs)


def all_lits(d):
    k = adt.kind(d)
    if adt.is_leaf(d):
        return [0]
    if k == 'enum':
        return list(range(len(d[2])))
    if adt.tuple_like(d):
        return list(itertools.product(*(all_lits(t) for t in adt.types_of(d))))
    return [(i, v) for i, t in enumerate(adt.types_of(d)) for v in all_lits(t)]


def check_enumerate(case, ctx):
    d = case
    n = count(d)
    if n > 4000:
        ctx.mark_trivial()
        ctx.label('too-many')
        return
    if n == 1:
        ctx.mark_trivial()
    ctx.label(adt.kind(d), '400+' if n > 400 else '9+' if n > 8 else f'{n}')
    T = adt.build(d)
    xs = list(itertools.islice(T.enumerate(), 2 * n + 1))
    got = [adt.lit(d, x, T) for x in xs]
    want = all_lits(d)
    require(len(got) == len(want) and sorted(got) == sorted(want),
            'enumerate gave', got, 'expected', want)
    require(all(type(x) is T for x in xs), 'enumerated values have another type')
    require([adt.lit(d, x, T) for x in T.enumerate()] == got, 'second enumeration differs')
    # within one value, no two places share an object that can change
    for x in xs[:400]:
        objs = parts(d, x, T)
        require(len({id(o) for o in objs}) == len(objs), 'fields of', x, 'share an object')
    # changing a field of one value changes no other
    if adt.tuple_like(d) and len(xs) > 1:
        k = next(i for i in range(len(T.fields)) if count(adt.types_of(d)[i]) > 1)
        other = next(x for x in xs if adt.lit(d, x, T)[k] != got[0][k])
        xs[0][k] = other[k]
        require([adt.lit(d, x, T) for x in xs[1:]] == got[1:], 'values share state')


def parts(d, x, T):
    """the objects inside x that can be changed"""
    k = adt.kind(d)
    if k in adt.LEAVES:
        return [x]
    if adt.is_leaf(d) or k == 'enum':
        return []
    out = [x]
    if adt.tuple_like(d):
        for i, (n, t) in enumerate(adt.fields(d)):
            out += parts(t, x[i], T.field_dict[n])
        return out
    for _, n, t, F, v in adt.matched(d, x, T):
        out += parts(t, v, F)
    return out


register(Check('A05', [Sub('enumerate', enumerate_case, check_enumerate, 2500, 60000)],
               'a type with at least two and at most 4000 values',
               TRUSTS + ['a field that is not an ADT contributes its default value']))


# ------------------------------------------------------------------ A09
class Anything:
    """equal to everything: == of other types is to be left to it"""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None


@st.composite
def related(draw):
    """types whose values may be equal to one another, and values"""
    base = draw(adt.adt(2, only=('tuple', 'anon', 'prod', 'sum', 'tu'), lo=1, wide=True,
                        related=True, hi=3, cache=True))
    ts, k = adt.types_of(base), adt.kind(base)
    pool = [base]
    for _ in range(draw(st.integers(2, 6))):
        f = draw(st.sampled_from((0, 0, 0, 1, 2)))
        cache = draw(st.integers(0, 3)) != 0
        nm = draw(st.sampled_from(('P', 'Q')))
        if adt.tuple_like(base):
            ns = tuple(draw(adt.names(len(ts), len(ts)))) if draw(st.booleans()) \
                else tuple(f'n{i}' for i in range(len(ts)))
            u = draw(st.sampled_from(('tuple', 'tuple', 'anon', 'prod', 'prod', 'inherit', 'inherit')))
            us = ts
            if draw(st.integers(0, 3)) == 0:
                us = tuple(reversed(ts))
            if u == 'tuple':
                pool.append(('tuple', f, us))
            elif u == 'anon':
                pool.append(('anon', f, tuple(zip(ns, us))))
            elif u == 'prod':
                pool.append(('prod', f, nm, tuple(zip(ns, us)), cache))
            else:
                pool.append(('inherit', draw(st.integers(0, len(pool) - 1)), nm))
        else:
            ns = tuple(f'n{i}' for i in range(len(ts)))
            u = draw(st.sampled_from(('sum', 'sum', 'tu', 'tu', 'inherit', 'inherit')))
            if u == 'sum':
                uniq = {}
                for t in ts:
                    uniq.setdefault(adt.norm(t, False), t)
                pool.append(('sum', f, tuple(uniq.values())))
            elif u == 'tu':
                pool.append(('tu', f, nm, tuple(zip(ns, ts)), cache))
            else:
                pool.append(('inherit', draw(st.integers(0, len(pool) - 1)), nm))
    res = []
    for i, d in enumerate(pool):
        c = d
        while c[0] == 'inherit':
            c = pool[c[1]]
        res.append(c)
    a = draw(adt.lits(base))
    vals = []
    for i in range(draw(st.integers(2, 9))):
        j = draw(st.integers(0, len(pool) - 1))
        d = res[j]
        same = draw(st.integers(0, 3)) != 0
        if same and adt.tuple_like(base) and adt.types_of(d) == ts:
            v = a
            if draw(st.integers(0, 2)) == 0:
                # differs in one place only, more often a late one
                i = len(ts) - 1 - min(draw(st.integers(0, len(ts) - 1)),
                                      draw(st.integers(0, len(ts) - 1)))
                v = a[:i] + (draw(adt.lits(ts[i])),) + a[i + 1:]
        elif same and not adt.tuple_like(base) and ts[a[0]] in adt.types_of(d):
            hits = [i for i, t in enumerate(adt.types_of(d)) if t == ts[a[0]]]
            v = (draw(st.sampled_from(hits)), a[1])
        else:
            v = draw(adt.lits(d))
        vals.append((j, v))
    return tuple(pool), tuple(res), tuple(vals)


def check_eq(case, ctx):
    pool, res, vals = case
    types, d_of = [], res
    for d in pool:
        if d[0] == 'inherit':
            Bt = types[d[1]]
            again = {}
            if adt.kind(d_of[len(types)]) == 'tu' and len(types) & 1:
                # with its fields given again in another order
                again = {adt.fresh(n): Bt.field_dict[n] for n in reversed(list(Bt.field_dict))}
            types.append(type(Bt)(d[2] + 'Sub', (Bt,), again))
        else:
            types.append(adt.build(d))
    xs = []
    for j, v in vals:
        x = adt.value(res[j], v, types[j])
        xs.append((x, res[j], v, types[j]))
    ctx.label(adt.kind(res[0]))
    equal_other = 0

    def payload(d, v, T):
        if adt.tuple_like(d):
            return ('t',) + tuple((adt.describe(T.fields[i]), w) for i, w in enumerate(v))
        return ('s', adt.describe(T.field_dict[adt.fields(d)[v[0]][0]]
                                  if adt.kind(d) == 'tu' else
                                  adt.sum_field(d, T, adt.types_of(d)[v[0]])), v[1])

    for (x, d, v, T), (y, e, w, U) in itertools.product(xs, repeat=2):
        eq, ne, back = bool(x == y), bool(x != y), bool(y == x)
        require(eq == back, x, y, 'equality is not symmetric', T, U)
        require(eq != ne, x, y, '!= is not the negation of ==', T, U)
        if eq:
            require(hash(x) == hash(y), 'equal values', x, y, 'of', T, U,
                    'have different hashes')
            require(len({x, y}) == 1 and {x: 1}[y] == 1, 'a set keeps both', x, y)
        if not (issubclass(T, U) or issubclass(U, T)):
            require(not eq, x, y, 'of unrelated types', T, U, 'are equal')
            ctx.label('unrelated')
        elif T is U:
            require(eq == (v == w), x, y, 'of one type: equal', eq, v, w)
            ctx.label('same-equal' if eq else 'same-different')
        elif all(adt.cacheable(t) for t in adt.types_of(d) + adt.types_of(e)):
            tagged = [f for f in (d, e) if adt.kind(f) == 'tu']
            if len(tagged) == 2:
                want = v == w
            else:
                want = payload(d, v, T) == payload(e, w, U)
            require(eq == want, x, y, 'of related types', T, U, ': equal', eq)
            equal_other += eq
            ctx.label('related-equal' if eq else 'related-different')
    # equality and hash follow the fields when these are changed
    for i, (x, d, v, T) in enumerate(xs):
        _, e, w, U = xs[(i + 1) % len(xs)]
        if U is not T or w == v:
            continue
        old = hash(x)
        if adt.tuple_like(d):
            for k, (n, t) in enumerate(adt.fields(d)):
                x[k] = adt.value(t, w[k], T.fields[k])
        elif adt.kind(d) == 'tu':
            n, t = adt.fields(d)[w[0]]
            setattr(x, n, adt.value(t, w[1], T.field_dict[n]))
        else:
            F = adt.sum_field(d, T, adt.types_of(d)[w[0]])
            x[F] = adt.value(adt.types_of(d)[w[0]], w[1], F)
        ctx.label('changed')
        was, now = adt.value(d, v, T), adt.value(d, w, T)
        require(bool(x == now) and not bool(x != now) and bool(now == x)
                and not bool(x == was) and not bool(was == x),
                'equality after a change from', was, 'to', x)
        require(hash(x) == hash(now) and hash(was) == old and len({x, now}) == 1,
                'hash after a change from', was, 'to', x)
    for x, d, v, T in xs:
        for w in (None, v, (), adt.Foreign(), 0, 'x'):
            require((x == w) is False and (x != w) is True and (w == x) is False,
                    x, '==', w)
        wild = Anything()
        require((x == wild) is True and (wild == x) is True and (x != wild) is False,
                x, 'does not leave == to the other object')
        require(x._value_ is not None and x == x and not (x != x), 'reflexive')
    if not equal_other:
        ctx.mark_trivial()


register(Check('A09', [Sub('equality', related, check_eq, 2500, 60000)],
               'some pair of values of different, related types is equal',
               TRUSTS + ['leaf classes have consistent == and hash']))
