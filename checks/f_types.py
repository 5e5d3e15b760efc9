"""F06 floating-point types, F07 SMT floating-point vectors"""
import functools
import gc
import itertools
import warnings

from hypothesis import strategies as st

from lib import fpmodel as fp, gen, many
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)
from checks.f_fp import (ARITH, MODES, T_of, bits_of, canon, formats, from_bits,
                         model, operand)

warnings.simplefilter('ignore')


# ------------------------------------------------------------------ F06
FAMS = ('FPVector', 'AbstractFPVector', 'SMTFPVector', 'MyFP', 'MyFP2', 'Mixed',
        'MixedSub')


@st.composite
def types_case(draw):
    pool = [draw(formats()) for _ in range(2)]
    e, m, mode, ieee = pool[0]
    pool += [(e, m, draw(st.sampled_from(MODES)), ieee), (e, m, mode, not ieee),
             (min(m + 1, 13), e, mode, ieee)]
    steps = []
    for _ in range(draw(st.integers(3, 16))):
        op = draw(st.sampled_from(['bind', 'bind', 'bind', 'drop', 'gc', 'sub',
                                   'bad', 'bad', 'rebind', 'inherit', 'value', 'ctx']))
        steps.append((op, draw(st.sampled_from(FAMS)), draw(st.integers(0, 4)),
                      draw(st.integers(0, 11))))
    return pool, steps


def check_types(case, ctx):
    import hwtypes as h
    pool, steps = case
    my = type('MyFP', (h.FPVector,), {})
    fams = {'FPVector': h.FPVector, 'AbstractFPVector': h.AbstractFPVector,
            'SMTFPVector': h.SMTFPVector, 'MyFP': my,
            'MyFP2': type('MyFP2', (my,), {})}
    # a mixin in front of (or behind) the family it extends
    Mix = type('Mix', (), {'mixed_in': 1})
    fams['Mixed'] = type('Mixed', (Mix, h.FPVector), {})
    fams['MixedSub'] = type('MixedSub', (fams['Mixed'], type('Mix2', (), {})), {})
    up = {'Mixed': ['FPVector', 'AbstractFPVector'],
          'MixedSub': ['Mixed', 'FPVector', 'AbstractFPVector'],
          'FPVector': ['AbstractFPVector'], 'MyFP': ['FPVector', 'AbstractFPVector'],
          'MyFP2': ['MyFP', 'FPVector', 'AbstractFPVector'],
          'SMTFPVector': ['AbstractFPVector'], 'AbstractFPVector': []}
    live = {}
    for name, F in fams.items():
        require(F.is_bound is False and F.unbound_t is F, name, 'is bound')
        for a in ('exponent_size', 'mantissa_size', 'mode', 'ieee_compliance'):
            expect_raises(AttributeError, lambda: getattr(F, a), f'{name}.{a}')

    def idx(k):
        e, m, mode, ieee = pool[k]
        return e, m, getattr(h.RoundingMode, mode), ieee

    for op, name, k, j in steps:
        F, i = fams[name], idx(k)
        ctx.label(op)
        if op == 'bind':
            T = F[i]
            e, m, mode, ieee = i
            if (name, i) in live:
                ctx.label('bound again')
                require(T is live[name, i], name, i, 'is a different type each time')
            live[name, i] = T
            require((T.exponent_size, T.mantissa_size, T.mode, T.ieee_compliance)
                    == i and T.binding == i and T.is_bound is True, 'binding of', T)
            require(T.size == 1 + e + m, 'size of', T, 'is', T.size)
            require(T.unbound_t is F, 'unbound_t of', T)
            require(issubclass(T, F), T, 'is no', F)
            for u in up[name]:
                require(issubclass(T, fams[u][i]), T, 'is no', u, i)
            for (n2, i2), T2 in live.items():
                want = i2 == i and (n2 == name or name in up[n2])
                require(issubclass(T2, T) is want, f'issubclass({n2}{i2}, {name}{i})')
        elif op == 'drop':
            if live:
                del live[sorted(live, key=repr)[j % len(live)]]
        elif op == 'gc':
            gc.collect(0)
        elif op == 'sub' and name != 'AbstractFPVector':
            T = F[i]
            S = type('S', (T,), {})
            require(S.binding == i and S.is_bound and issubclass(S, T),
                    'subclass of a bound type has binding', S.binding)
            expect_raises(AttributeError, lambda: S.unbound_t, 'unbound_t of a subclass')
            expect_raises(TypeError, lambda: S[i], 'binding a bound subclass')
        elif op == 'rebind':
            T = F[i]
            expect_raises(TypeError, lambda: T[idx((k + 1) % len(pool))],
                          'binding a bound type')
        elif op == 'inherit' and name in ('FPVector', 'MyFP'):
            T, U = F[i], F[idx(j % len(pool))]
            if T.binding != U.binding:
                expect_raises(TypeError, lambda: type(T)('B', (T, U), {}),
                              'inheriting from two formats')
            expect_raises(TypeError, lambda: type(T)('B', (T,), {'_info_': 1}),
                          'reserved attribute')
        elif op == 'bad':
            e, m, mode, ieee = i
            bad, exc = [
                ((e, m, mode), IndexError), ((e, m, mode, ieee, 0), IndexError),
                ((e, m, mode, int(ieee)), IndexError),
                ((float(e), m, mode, ieee), IndexError),
                ((e, float(m), mode, ieee), IndexError),
                ((e, m, mode.value, ieee), IndexError),
                ((e, m, mode.name, ieee), IndexError),
                ((0, m, mode, ieee), ValueError), ((e, 0, mode, ieee), ValueError),
                ((-e, m, mode, ieee), ValueError), ((e, -m, mode, ieee), ValueError),
                ((m, e, ieee, mode), IndexError)][j]
            expect_raises(exc, lambda: F[bad], f'{name}[{bad}]')
        elif op == 'ctx' and name not in ('AbstractFPVector', 'SMTFPVector'):
            # the attribute that holds the rounding context is reserved
            import gmpy2
            ctxs = (None, 0, {}, gmpy2.context(precision=i[1] + 90),
                    gmpy2.context(allow_complex=True), gmpy2.get_context)
            G = type('Ctx', (F,), {'_ctx_': ctxs[j % len(ctxs)]})
            if j > 5:
                G = type('Ctx2', (G,), {})
            expect_raises(TypeError, lambda: G[i], 'a family with a context of its own')
        elif op == 'value' and name not in ('AbstractFPVector', 'SMTFPVector'):
            T = F[i]
            x = T(1)
            require(isinstance(x, T) and isinstance(x, F) and x.size == T.size
                    and type(x) is T, 'value of', T)
            for u in up[name]:
                require(isinstance(x, fams[u]) and isinstance(x, fams[u][i]),
                        'value of', T, 'is no', u)
            # operands of other formats are refused, of other families are not
            o = h.FPVector[idx(j % len(pool))]
            if o.binding != T.binding:
                for f in ('fp_add', 'fp_mul', 'fp_rem', 'fp_min', 'fp_lt', 'fp_eq'):
                    expect_raises(TypeError, lambda: getattr(x, f)(o(1)), f)
                expect_raises(TypeError, lambda: x.fp_fma(o(1), x), 'fp_fma')
                expect_raises(TypeError, lambda: x.fp_fma(x, o(1)), 'fp_fma')
            else:
                require(type(x + o(1)) is T and type(o(1) + x) is o,
                        'mixed families of one format')
    if len(steps) < 3:
        ctx.mark_trivial()


def many_format(f, e, m, mode, ieee):
    import hwtypes as h
    return getattr(h, f)[e, m, getattr(h.RoundingMode, mode), ieee]


register(Check('F06', [Sub('types', types_case, check_types, 1200, 40000),
                       Sub('many', many.cases(), many.check(
                           many_format, lambda i, rng: (
                               rng.choice(FAMS[:3]), rng.randint(2, 12), rng.randint(1, 50),
                               rng.choice(MODES), rng.random() < .5)), 6, 150,
                           enumerate_cases=many.enumerated(3000))],
               'a history of at least three type operations',
               ['accepted type arguments are exactly (int, int, RoundingMode, bool)']))


# ------------------------------------------------------------------ F07
FUN1 = ('fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral')
FUN2 = ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max')
REL = ('fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq')
PRED = ('fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite',
        'fp_is_NaN', 'fp_is_negative', 'fp_is_positive')
ARITY = dict({n: 1 for n in FUN1 + PRED}, **{n: 2 for n in FUN2 + REL}, fp_fma=3)
PYOPS = {'__neg__': 'fp_neg', '__abs__': 'fp_abs', '__add__': 'fp_add',
         '__sub__': 'fp_sub', '__mul__': 'fp_mul', '__truediv__': 'fp_div',
         '__mod__': 'fp_rem', '__eq__': 'fp_eq', '__ge__': 'fp_geq',
         '__gt__': 'fp_gt', '__le__': 'fp_leq', '__lt__': 'fp_lt', '__ne__': None}
_salt = itertools.count()


@st.composite
def uf_case(draw):
    fmt = draw(formats())
    f = model(*fmt)
    nsym = draw(st.integers(1, 3))
    env = []
    for _ in range(nsym):
        b = draw(operand(fmt))
        env.append(1 | ((1 << f.es) - 1) << f.ms if f.decode(b) == fp.NAN else b)
    steps = []
    n = nsym
    for _ in range(draw(st.integers(1, 12))):
        r = draw(st.integers(0, 15))
        if r < 10:
            op = draw(st.sampled_from(sorted(FUN1 + FUN2) + ['fp_fma'] + sorted(PYOPS)))
            ar = 2 if op in PYOPS else ARITY[op]
            if steps and draw(st.integers(0, 5)) == 0:
                # the same again, of its own result
                op = steps[-1][0] if steps[-1][0] in FUN1 + FUN2 else 'fp_neg'
                steps.append((op,) + (n - 1,) * ARITY[op])
            else:
                steps.append((op,) + tuple(draw(st.integers(0, n - 1)) for _ in range(ar)))
            n += op not in ('__eq__', '__ge__', '__gt__', '__le__', '__lt__', '__ne__')
        elif r < 12:
            op = draw(st.sampled_from(sorted(REL + PRED)))
            steps.append((op,) + tuple(draw(st.integers(0, n - 1))
                                       for _ in range(ARITY[op])))
        elif r == 12:
            steps.append(('int', draw(st.sampled_from(['to_ubv', 'to_sbv'])),
                          draw(st.integers(0, n - 1)), draw(gen.width(1, 70))))
        elif r == 13:
            b = draw(operand(fmt))
            steps.append(('const', 1 | ((1 << f.es) - 1) << f.ms
                          if f.decode(b) == fp.NAN else b))
            n += 1
        else:
            steps.append(('rebits', draw(st.integers(0, n - 1))))
            n += 1
    return fmt, tuple(env), steps


@functools.lru_cache(None)
def smt_T(fmt):
    import hwtypes as h
    return h.SMTFPVector[fmt[0], fmt[1], getattr(h.RoundingMode, fmt[2]), fmt[3]]


def nbits(f, x):
    """pattern of x; the sign and payload of NaN mean nothing"""
    b = bits_of(x)
    return 1 | ((1 << f.es) - 1) << f.ms if f.decode(b) == fp.NAN else b


def to_int(x, meth, n):
    try:
        return getattr(x, meth)(n).as_uint()
    except (OverflowError, ValueError):
        return 0


@functools.lru_cache(None)
def functions(fmt):
    """function symbol -> method, learned by applying each method once"""
    T = smt_T(fmt)
    xs = [T() for _ in range(3)]
    out = {}
    for m, k in ARITY.items():
        r = getattr(xs[0], m)(*xs[1:k])
        t = r.value if m in REL + PRED else r.reinterpret_as_bv().value
        require(t.is_function_application(), m, 'is the term', t)
        s = t.function_name()
        require(s not in out, m, 'and', out.get(s), 'are the same function')
        out[s] = m
    return out


def evaluate(term, env, fmt, extra, memo):
    """the term's value when every function symbol means what FPVector does"""
    import pysmt.shortcuts as smt
    from pysmt.environment import get_env
    k = term.node_id()
    if k in memo:
        return memo[k]
    if term.is_symbol():
        r = env[term.symbol_name()]
    elif term.is_constant():
        r = term
    elif term.is_function_application():
        fs = functions(fmt)
        s = term.function_name()
        args = [evaluate(a, env, fmt, extra, memo) for a in term.args()]
        T = T_of(fmt)
        xs = [from_bits(T, a.constant_value()) for a in args]
        if s in extra:
            meth, n = extra[s]
            r = smt.BV(to_int(xs[0], meth, n), n)
        else:
            require(s in fs, 'unknown function', s, 'in', fmt)
            v = getattr(xs[0], fs[s])(*xs[1:])
            r = smt.Bool(bool(v)) if fs[s] in REL + PRED else smt.BV(nbits(model(*fmt), v), T.size)
    else:
        args = [evaluate(a, env, fmt, extra, memo) for a in term.args()]
        r = get_env().formula_manager.create_node(
            node_type=term.node_type(), args=tuple(args),
            payload=term._content.payload).simplify()
    memo[k] = r
    return r


def run_step(s, xs, mk, rebits):
    """-> (kind, result)"""
    op = s[0]
    if op == 'const':
        return 'fp', mk(s[1])
    if op == 'rebits':
        return 'fp', rebits(xs[s[1]])
    args = [xs[i] for i in s[1:]]
    if op in ('__neg__', '__abs__'):
        args = args[:1]
    r = getattr(args[0], op)(*args[1:])
    isbit = op in REL + PRED or op in ('__eq__', '__ge__', '__gt__', '__le__',
                                       '__lt__', '__ne__')
    return ('bit' if isbit else 'fp'), r


def check_uf(case, ctx):
    import hwtypes as h
    fmt, env, steps = case
    f, C, S = model(*fmt), T_of(fmt), smt_T(fmt)
    size = S.size
    salt = next(_salt)
    names = [f'fp{salt}_{i}' for i in range(len(env))]
    import pysmt.shortcuts as smt
    syms = [S(name=n) for n in names]
    tenv = {n: smt.BV(b, size) for n, b in zip(names, env)}
    cs = [from_bits(C, b) for b in env]
    ss = list(syms)
    extra, memo = {}, {}
    seen = {}

    def crebits(x):
        b = nbits(f, x)
        if f.decode(b) != fp.NAN and canon(f, b ^ 1) == f.decode(b ^ 1) != fp.NAN:
            b ^= 1
        return from_bits(C, b)

    def srebits(x, flip):
        v = x.reinterpret_as_bv()
        require(type(v) is h.SMTBitVector[size], 'reinterpret_as_bv type', type(v))
        return S.reinterpret_from_bv(v ^ int(flip))

    for s in steps:
        ctx.label(s[0])
        if s[0] == 'int':
            _, meth, i, n = s
            r = getattr(ss[i], meth)(n)
            require(type(r) is h.SMTBitVector[n], meth, n, 'has type', type(r))
            t = r.value
            require(t.is_function_application(), meth, 'is', t)
            fn = t.function_name()
            require(fn not in functions(fmt), meth, 'shares a function with',
                    functions(fmt).get(fn))
            require(extra.setdefault(fn, (meth, n)) == (meth, n),
                    f'{meth}({n}) shares a function with', extra[fn])
            want = to_int(cs[i], meth, n)
            got = evaluate(t, tenv, fmt, extra, memo)
            require(got.constant_value() == want, f'{meth}({n}) is',
                    got, 'expected', want)
            require(getattr(ss[i], meth)(n).value is t, meth, 'is no function')
            continue
        if s[0] == 'rebits':
            c = crebits(cs[s[1]])
            flip = nbits(f, c) != nbits(f, cs[s[1]])
            kind, r = 'fp', srebits(ss[s[1]], flip)
        else:
            kind, c = run_step(s, cs, lambda b: from_bits(C, b), None)
            _, r = run_step(s, ss, S, None)
        if kind == 'fp':
            require(type(r) is S, s, 'has type', type(r))
            t = r.reinterpret_as_bv().value
            want = nbits(f, c)
            c = from_bits(C, want)
        else:
            require(type(r) is h.SMTBit, s, 'has type', type(r))
            t = r.value
            want = bool(c)
        got = evaluate(t, tenv, fmt, extra, memo).constant_value()
        require(got == want, s, 'in', fmt, 'means', got, 'expected', want)
        # congruence: the same application is the same term
        if s[0] not in ('const', 'rebits'):
            args = tuple(ss[i].reinterpret_as_bv().value for i in s[1:])
            if s[0] in ARITY:
                # nothing is known of it but that it is a function
                require(t.is_function_application()
                        and functions(fmt).get(t.function_name()) == s[0]
                        and tuple(t.args()) == args, s, 'of', args, 'is the term', t)
            key = (s[0],) + tuple(a.node_id() for a in args)
            require(seen.setdefault(key, t) is t, s, 'is not a function of its operands')
        if kind == 'fp':
            cs.append(c)
            ss.append(r)
    for n, x in zip(names, syms):
        require(x.reinterpret_as_bv().value.symbol_name() == n, 'variable', n, 'is', x)
        expect_raises(ValueError, lambda: S(name=n), f'second variable named {n}')
    if len(steps) < 2:
        ctx.mark_trivial()


@st.composite
def uf_types_case(draw):
    return draw(formats()), draw(formats()), draw(st.integers(0, 3))


def check_uf_types(case, ctx):
    """formats do not share functions; the same format does, however often its
    type is built"""
    import hwtypes as h
    import pysmt.shortcuts as smt
    a, b, how = case
    if a == b:
        b = (a[0], a[1], a[2], not a[3])
    elif how == 1:
        b = (a[0], a[1], a[2], not a[3])
    elif how == 2:
        b = (a[0], a[1], MODES[(MODES.index(a[2]) + 1) % 5], a[3])
    fa, fb = functions(a), functions(b)
    for s in fa:
        require(s not in fb, f'{fa[s]} of {a} and {b} are the same function')
    S = smt_T(a)
    # two fresh variables differ; constants are their pattern
    x, y = S(), S()
    require(x.reinterpret_as_bv().value is not y.reinterpret_as_bv().value,
            'two fresh variables are the same')
    n = S.size
    v = (sum(a[:2]) * 40503 ^ how << 7) % (1 << n)
    require(S(v).reinterpret_as_bv().value is smt.BV(v, n), 'constant', v)
    require(S(x).reinterpret_as_bv().value is x.reinterpret_as_bv().value, 'copy')
    T2 = h.SMTBitVector[n + 1]
    expect_raises(TypeError, lambda: S.reinterpret_from_bv(T2(0)), 'wrong width')
    # a float of another format is no constructor argument
    o = smt_T(b)()
    expect_raises(TypeError, lambda: S(o), f'{a} from a float of {b}')
    e, m, mode, ieee = a
    for g in ((e, m, mode, not ieee), (e, m, MODES[(MODES.index(mode) + 2) % 5], ieee),
              (e + 1, m, mode, ieee)):
        expect_raises(TypeError, lambda: S(smt_T(g)()), f'{a} from a float of {g}')
    expect_raises(TypeError, lambda: S(1, name='q'), 'named constant')
    expect_raises(TypeError, lambda: S(name=3), 'name that is no string')
    expect_raises(TypeError, lambda: S('1.5'), 'constructing from a string')
    # a name is one variable, of vectors and floats alike
    nm = f'fpn{next(_salt)}'
    z = h.SMTBitVector[n](name=nm) if how & 1 else S(name=nm)
    expect_raises(ValueError, lambda: S(name=nm), 'name in use')
    expect_raises(ValueError, lambda: h.SMTBitVector[n](name=nm), 'name in use')
    del z


register(Check('F07', [
    Sub('programs', uf_case, check_uf, 1500, 50000),
    Sub('functions', uf_types_case, check_uf_types, 300, 8000),
], 'programs of at least two steps over 1-3 symbols',
    ['functions are identified by applying each method once',
     'out-of-domain to_ubv/to_sbv are interpreted as 0 on both sides']))
