"""A10 class statements: fields and attributes"""
import enum
import itertools

from hypothesis import strategies as st

from lib import adt
from lib.harness import Check, Sub, expect_raises, register, require

ODD = ('_', '__', '___', '____', '_____', '_a', 'a_', '_a_', '__a', 'a__', '_a__', '__a_',
       '__a__', '__a___', '___a__', '_ab', '_ab_', '__ab__', '_a1', '_1_', '__1__')
WHAT = ('A', 'C', 'bit', 'bv', 'nested', 'plain', 'int', 'bool', 'auto', 'str', 'none', 'func', 'super',
        'property', 'static', 'classm', 'get', 'set', 'delete', 'descclass', 'descint',
        'annotation', 'annotated')
FIELDY = {'prod': ('A', 'C', 'bit', 'bv', 'nested', 'plain', 'annotated'), 'enum': ('int', 'bool', 'auto')}
FIELDY['tu'] = FIELDY['prod']
KINDS = {'prod': 'Product', 'tu': 'TaggedUnion', 'enum': 'Enum'}


class Desc:
    """descriptors of one method each"""
    class get:
        def __get__(self, obj, cls=None):
            return self if obj is None else 'got'

    class set:
        def __set__(self, obj, value):
            obj.log_ = value

    class delete:
        def __delete__(self, obj):
            obj.log_ = 'deleted'


DESC = (Desc.get, Desc.set, Desc.delete)


def _desc_ints():
    for f in ('__get__', '__set__', '__delete__'):
        K = type('K', (int,), {f: lambda s, obj, *a: 'dint' if obj is not None else s})
        yield K(7)


DESC_INTS = tuple(_desc_ints())


@st.composite
def define_case(draw):
    k = draw(st.sampled_from(('prod', 'prod', 'tu', 'enum')))
    n = draw(st.integers(0, 7))
    name = st.one_of(st.sampled_from(('a', 'b', 'c', 'd', 'zz')), st.sampled_from(ODD),
                     adt.name())
    ns = draw(st.lists(name, min_size=n, max_size=n, unique=True))
    what = st.one_of(st.sampled_from(FIELDY[k]), st.sampled_from(WHAT))
    entries = tuple((m, draw(what)) for m in ns)
    return (k, entries, draw(st.booleans()), draw(st.sampled_from((None, None, True, False))),
            draw(st.booleans()), draw(st.integers(0, 3)), draw(st.sampled_from((0, 0, 1, 2))))


def source(k, entries, doc, cache, base):
    """a class statement; attributes only use names no field or base has"""
    out = [f'class P({base}{"" if cache is None else f", cache={cache}"}):']
    if doc:
        out.append('    """some text"""')
    for i, (n, w) in enumerate(entries):
        rhs = {'A': 'q9A', 'C': 'q9C', 'bit': 'q9Bit', 'bv': f'q9BitVector[{i + 1}]', 'int': str(i + 3),
               'bool': 'True', 'auto': 'q9Auto()', 'str': f'"text{i}"', 'none': 'None',
               'property': f'q9property(lambda self: ("prop", {i}, self))',
               'static': f'q9staticmethod(lambda *a: ("static", {i}, a))',
               'classm': f'q9classmethod(lambda cls, *a: ("class", {i}, cls, a))',
               'descclass': f'q9Desc.{("get", "set", "delete")[i % 3]}', 'descint': f'q9ints[{i % 3}]',
               'get': 'q9Desc.get()', 'set': 'q9Desc.set()', 'delete': 'q9Desc.delete()'}.get(w)
        if w == 'nested':
            out.append(f'    class {n}(q9Product):\n        q = q9A')
        elif w == 'plain':
            out.append(f'    class {n}(q9A):\n        q = 1')
        elif w == 'func':
            out.append(f'    def {n}(self, *a):\n        return ("func", {i}, self, a)')
        elif w == 'super':
            out.append(f'    def {n}(self):\n        return ("super", __class__, super().__hash__())')
        elif w == 'annotation':
            out.append(f'    {n}: q9A')
        elif w == 'annotated':
            out.append(f'    {n}: q9A = q9A')
        else:
            out.append(f'    {n} = {rhs}')
    if len(out) == 1:
        out.append('    pass')
    return '\n'.join(out)


def mangled(n):
    return '_P' + n if n.startswith('__') and not n.endswith('__') and n.strip('_') else n


def check_define(case, ctx):
    k, entries, doc, cache, reserve, pick, depth = case
    import hwtypes as h
    e = adt.env()
    Base = getattr(e.a, KINDS[k])
    # attributes get names of their own, unless the odd ones are the point
    bases = set(dir(Base)) | set(dir(type(Base)))
    entries = tuple((n if n in ODD or w in FIELDY[k] else 'zz_' + n, w) for n, w in entries)
    entries = tuple((n, w) for n, w in entries if n not in bases)
    env = dict(A=adt.A, C=adt.C, Bit=h.Bit, BitVector=h.BitVector, Auto=e.Auto, Desc=Desc, ints=DESC_INTS,
               Product=e.a.Product, property=property, staticmethod=staticmethod,
               classmethod=classmethod)
    # names no field has: a class statement sees its own fields
    env = {'q9' + k: v for k, v in env.items()}
    env['__name__'] = 'some.module'
    if doc or any(enum._is_dunder(n) for n, _ in entries):
        # an equal type may be alive: the cache does not compare these
        depth = max(depth, 1)
    # a user's family between the library's and the type
    F = Base
    for i in range(depth):
        F = type(Base)(f'F{i}', (F,), {f'fam{i}': lambda self, i=i: ('fam', i)})
    env['q9Base'] = F
    text = source(k, entries, doc, cache, 'q9Base')
    exec(text, env)
    P = env['P']
    want, attrs = [], []
    for i, (n, w) in enumerate(entries):
        m = mangled(n)
        odd = enum._is_dunder(m) or enum._is_sunder(m)
        ctx.label(w + ('-odd' if odd else ''))
        if w == 'annotation':
            require(m not in P.__dict__, 'an annotation made', m)
        elif w in FIELDY[k] and not odd:
            want.append((m, w, i))
        else:
            attrs.append((m, w, i))
    if not want or not attrs:
        ctx.mark_trivial()
    require(type(P) is type(Base) and issubclass(P, F) and P.__name__ == 'P'
            and P.__qualname__ == 'P' and P.__module__ == 'some.module', 'names of', P, text)
    if doc or depth:
        require(P.__dict__.get('__doc__') == ('some text' if doc else None), 'doc of', P)
    require(P.is_bound is bool(want), P, 'is_bound', text)
    if want:
        names = [m for m, _, _ in want]
        got = list(P.field_dict)
        require(got == names if k != 'tu' else set(got) == set(names) and len(got) == len(names),
                'fields', got, 'expected', names, text)
        require(P.unbound_t is F and P.is_cached is (cache is not False), P, 'unbound_t')
    T = {'A': adt.A, 'C': adt.C, 'bit': h.Bit, 'annotated': adt.A}
    vals, insts = {}, []
    for m, w, i in want:
        t = P.field_dict[m]
        if k == 'enum':
            if w != 'auto':
                require(t._value_ == (i + 3 if w == 'int' else True), 'value of', m)
            insts.append(t)
            continue
        if w == 'plain':
            require(t.__name__ == entries[i][0] and t.__bases__ == (adt.A,) and t.q == 1,
                    'nested class', t, m)
            vals[m] = t(i)
        elif w == 'nested':
            require(t.__name__ == entries[i][0], 'name of a nested class', t, m)
            require(issubclass(t, e.a.Product) and dict(t.field_dict) == {'q': adt.A}, t)
            vals[m] = t(adt.A(i))
        else:
            require(t is (h.BitVector[i + 1] if w == 'bv' else T[w]), 'type of', m, 'is', t)
            vals[m] = t(i & 1)
        require(getattr(P, m) is t, m, 'of the class is', getattr(P, m))
    if k == 'prod' and want:
        insts.append(P(**vals))
        require(list(insts[0].value_dict.items()) == list(vals.items())
                and P(*vals.values()) == insts[0], insts[0])
    elif k == 'tu':
        insts.extend(P(**{m: v}) for m, v in vals.items())
    elif not want:
        expect_raises((TypeError, AttributeError, ValueError), lambda: P(adt.A()), 'no fields')
        # what it has is inherited by the types made of it
        if k == 'enum':
            Q = type(Base)('Q', (P,), {'qq': 1})
            insts.append(Q.qq)
        else:
            Q = type(Base)('Q', (P,), {'qq': adt.A})
            insts.append(Q(qq=adt.A(1)))
        require(Q.unbound_t is P and list(Q.field_dict) == ['qq'], Q, text)
    for (m, w, i), x in itertools.product(attrs, insts[:3]):
        K = type(x)
        v = P.__dict__[m]
        if w == 'func':
            require(getattr(x, m)(1, 2) == ('func', i, x, (1, 2)), 'method', m, text)
        elif w == 'super':
            require(getattr(x, m)() == ('super', P, hash(x)), 'method', m, text)
        elif w == 'property':
            r = getattr(x, m)
            require(r[:2] == ('prop', i) and r[2] is x and getattr(P, m) is v, 'property', m)
        elif w == 'static':
            require(getattr(x, m)(7) == ('static', i, (7,)) == getattr(K, m)(7), 'static', m)
        elif w == 'classm':
            require(getattr(x, m)(7) == ('class', i, K, (7,)) == getattr(K, m)(7), 'class', m)
        elif w == 'descclass':
            require(v is DESC[i % 3] and getattr(P, m) is v and getattr(x, m) is v, 'class', m, text)
        elif w == 'descint':
            require(v is DESC_INTS[i % 3] and getattr(P, m) is v, 'attribute', m, text)
        elif w == 'get':
            require(getattr(x, m) == 'got' and getattr(P, m) is v, 'descriptor', m)
        elif w in ('set', 'delete'):
            if w == 'set':
                setattr(x, m, 5)
            else:
                delattr(x, m)
            require(x.log_ == (5 if w == 'set' else 'deleted'), 'descriptor', m, text)
        elif w in FIELDY['prod'] and w not in ('nested', 'plain'):
            t = h.BitVector[i + 1] if w == 'bv' else T[w]
            require(getattr(x, m) is t and getattr(P, m) is t, m, text)
        elif w in ('int', 'bool', 'str', 'none'):
            t = {'int': i + 3, 'bool': True, 'str': f'text{i}', 'none': None}[w]
            require(getattr(x, m) == t and getattr(P, m) == t, m, text)
        for d in range(depth):
            require(getattr(x, f'fam{d}')() == ('fam', d), 'inherited method', x)
    if reserve:
        from hwtypes.adt_meta import ReservedNameError
        n = ('_value_', '_tag_', '_cached_', '_fields_', '_field_table_', '_unbound_base_',
             '_syntax_')[(pick + len(entries) * 4) % 7]
        for rhs in ('q9A', '3', '"x"', 'q9property(id)'):
            expect_raises(ReservedNameError,
                          lambda: exec(f'{text}\n    {n} = {rhs}', dict(env)), n)
        for B in ('Tuple', 'Sum', 'AnonymousProduct'):
            expect_raises(ReservedNameError, lambda: exec(
                f'class X(B):\n    {n} = 1', dict(B=getattr(e.a, B, None) or e.fam['anon'][0])), n)


register(Check('A10', [Sub('define', define_case, check_define, 2500, 60000)],
               'Class statements (as source text) with fields and attributes of many kinds '
               'under ordinary and odd names. Non-trivial: at least one field and one '
               'attribute.',
               ["the standard library's enum module decides which names are _sunder_ or "
                '__dunder__', 'attributes are hashable (the type cache needs that)',
                'attributes do not have names the library uses']))
