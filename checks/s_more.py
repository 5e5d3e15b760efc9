"""S03 variable freshness, S04 substitution, S05 SMTInt, S06 formula
constructors, S07 symbolic ite"""
import functools
import gc
import itertools
import re
import warnings

from hypothesis import strategies as st

from lib import bv, gen, prog
from lib.harness import (Check, Sub, Violation, expect_raises, register, require)
from checks.s_sym import smt_const, smt_value

warnings.simplefilter('ignore')
_salt = itertools.count()


# ------------------------------------------------------------------ S03
PREFIXES = ('a', 'b', '.c', '!d e', '_', '_1', '-0', 'ä')


@st.composite
def naming_case(draw, z3=False):
    kinds = ['bit', 'vec', 'vec2'] if z3 else ['bit', 'vec', 'vec2', 'int', 'fp']
    hows = ['auto', 'name', 'name'] if z3 else ['auto', 'prefix', 'prefix', 'name', 'name']
    pres = draw(st.lists(st.integers(0, len(PREFIXES) - 1), min_size=1, max_size=2))
    ops = []
    for _ in range(draw(st.integers(3, 18))):
        r = draw(st.integers(0, 12))
        if r == 12:
            ops.append(('ahead', draw(st.sampled_from(kinds[:3])), draw(st.sampled_from(pres)),
                        draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.booleans())))
        elif r < 6:
            ops.append(('new', draw(st.sampled_from(kinds)),
                        draw(st.sampled_from(hows)), draw(st.sampled_from(pres)),
                        draw(st.integers(0, 3))))
        elif r < 8:
            ops.append(('expr', draw(st.integers(0, 30))))
        elif r < 10:
            ops.append(('drop', draw(st.integers(0, 30))))
        elif r == 10:
            ops.append(('gc',) if draw(st.integers(0, 3)) == 0 else
                       ('steal', draw(st.integers(0, 30)), draw(st.sampled_from(kinds))))
        else:
            ops.append(('bad', draw(st.sampled_from(
                ['both', 'value+name', 'value+prefix', 'type'])),
                draw(st.sampled_from(kinds))))
    return ops


def check_naming(z3):
    def check(ops, ctx):
        import hwtypes as h
        V = h.z3BitVector if z3 else h.SMTBitVector
        T = {'bit': h.z3Bit if z3 else h.SMTBit, 'vec': V[8],
             'vec2': (h.z3SIntVector if z3 else h.SMTUIntVector)[5],
             'int': None if z3 else h.SMTInt,
             'fp': None if z3 else h.SMTFPVector[3, 4, h.RoundingMode.RNE, True]}
        salt = next(_salt)
        live, exprs, kind_of = {}, [], {}       # name -> variable

        def symbols(x):
            if z3:
                import z3 as z
                out, todo = set(), [x.value]
                while todo:
                    t = todo.pop()
                    if z.is_const(t) and t.decl().kind() == z.Z3_OP_UNINTERPRETED:
                        out.add(t.decl().name())
                    todo.extend(t.children())
                return out
            if isinstance(x, h.SMTFPVector):
                x = x.reinterpret_as_bv()
            return {s.symbol_name() for s in x.value.get_free_variables()}

        for op in ops:
            if op[0] == 'new':
                _, kind, how, pre, num = op
                if how == 'name':
                    # one symbol keeps one sort: the name carries the kind
                    # unless the prefix could generate it
                    name = f'p{salt}{PREFIXES[pre]}_{num}'
                    if kind_of.setdefault(name, kind) != kind:
                        kind = kind_of[name]
                    if name in live:
                        ctx.label('name-collision')
                        expect_raises(ValueError, lambda: T[kind](name=name),
                                      f'second live variable named {name}')
                        continue
                    ctx.label('name-reuse' if (name in kind_of) else 'name')
                    x = T[kind](name=name)
                    require(symbols(x) == {name}, 'variable named', name, 'is', x)
                else:
                    ctx.label(how)
                    used = set(live) | {s for e in exprs for s in symbols(e)}
                    prefix = f'p{salt}{PREFIXES[pre]}'
                    if kind == 'fp':
                        how = 'auto'            # has no prefixes
                    x = T[kind]() if how == 'auto' else T[kind](prefix=prefix)
                    syms = symbols(x)
                    require(len(syms) == 1, 'fresh variable', x, 'has symbols', syms)
                    name = next(iter(syms))
                    require(name not in used, 'fresh variable is named', name,
                            'like one still in use')
                    if how == 'prefix':
                        require(name.startswith(prefix), 'prefix of', name)
                    kind_of.setdefault(name, kind)
                require(type(x) is T[kind], 'type of', x)
                require(name in repr(x) or kind == 'fp', 'repr of', name, 'is', repr(x))
                live[name] = x
                del x
            elif op[0] == 'ahead':
                # take the names that would be next, then ask for fresh ones
                _, kind, pre, n, k, auto = op
                new = T[kind] if auto or z3 else \
                    functools.partial(T[kind], prefix=f'p{salt}{PREFIXES[pre]}')
                first = new()
                name = next(iter(symbols(first)))
                live[name] = first
                kind_of.setdefault(name, kind)
                m = re.fullmatch(r'(.*?)(\d+)', name)
                for i in range(1, n + 1) if m else ():
                    later = f'{m[1]}{int(m[2]) + i}'
                    if later not in live and kind_of.setdefault(later, kind) == kind:
                        live[later] = T[kind](name=later)
                        ctx.label('ahead')
                for _ in range(k):
                    used = set(live) | {s for e in exprs for s in symbols(e)}
                    x = new()
                    name = next(iter(symbols(x)))
                    require(name not in used, 'fresh variable is named', name,
                            'like one still in use')
                    live[name] = x
                    kind_of.setdefault(name, kind)
                    del x
                del first
            elif op[0] == 'expr' and live:
                name = sorted(live)[op[1] % len(live)]
                x = live[name]
                k = kind_of[name]
                e = x + 1 if k == 'int' else ~(x.reinterpret_as_bv() if k == 'fp' else x)
                require(symbols(e) == {name}, 'symbols of an expression over', name)
                exprs.append(e)
                del x, e
            elif op[0] == 'drop' and live:
                del live[sorted(live)[op[1] % len(live)]]
                ctx.label('drop')
            elif op[0] == 'steal' and live:
                # the name of any live variable, whoever chose it
                name = sorted(live)[op[1] % len(live)]
                expect_raises(ValueError, lambda: T[op[2]](name=name),
                              f'second live variable named {name}')
            elif op[0] == 'gc':
                gc.collect(0)
            elif op[0] == 'bad':
                t = T[op[2]]
                if op[1] == 'both' and not z3 and op[2] != 'fp':
                    expect_raises(ValueError, lambda: t(name='n', prefix='p'), op[1])
                elif op[1] == 'value+name':
                    expect_raises(TypeError, lambda: t(1, name='n'), op[1])
                elif op[1] == 'value+prefix' and not z3 and op[2] != 'fp':
                    expect_raises(TypeError, lambda: t(1, prefix='p'), op[1])
                elif op[1] == 'type':
                    expect_raises(TypeError, lambda: t(name=7), op[1])
            # different live variables are different symbols
            owners = [next(iter(symbols(v))) for v in live.values()]
            require(len(set(owners)) == len(owners) and set(owners) == set(live),
                    'live variables share a symbol:', owners)
        if sum(o[0] == 'new' for o in ops) < 2:
            ctx.mark_trivial()
    return check


register(Check('S03', [
    Sub('smt', naming_case, check_naming(False), 4000),
    Sub('z3', lambda: naming_case(z3=True), check_naming(True), 2000),
], 'Histories that create Bits, vectors and ints with automatic, prefixed and '
    'explicit names (chosen to collide with the names a prefix generates), build '
    'expressions, drop variables and collect garbage; the model is the set of '
    'names in use. Non-trivial: two creations.',
    ['Names of the reserved form V_<n>, which warn, are not given explicitly.']))


# ------------------------------------------------------------------ S04
@st.composite
def subst_case(draw):
    p = draw(prog.programs(all_symbolic=True, max_inputs=draw(st.sampled_from((5, 5, 5, 14))),
                           max_instrs=9, wmax=20))
    inputs = p[0]
    types = [('bit',) if i[0] == 'bit' else (i[0], i[2]) for i in inputs]
    subs = []
    for k, t in enumerate(types):
        same = [j for j, u in enumerate(types) if u == t]
        how = draw(st.sampled_from(['keep', 'const', 'var', 'var', 'expr', 'expr']))
        other = draw(st.sampled_from(same))
        other2 = draw(st.sampled_from(same))
        c = draw(st.integers(0, 1)) if t[0] == 'bit' else draw(gen.value(t[1]))
        subs.append((how, other, other2, c,
                     draw(st.sampled_from(['add', 'xor', 'not', 'ite']))))
    return (p, subs, draw(st.permutations(range(len(types)))))


def check_subst(case, ctx):
    import hwtypes as h
    p, subs, order = case
    inputs, instrs = p
    be = prog.Backend('smt')
    xs = [be.T(('bit',) if i[0] == 'bit' else ('vec', i[1], i[2]))() for i in inputs]
    vals = [i[1] if i[0] == 'bit' else i[3] for i in inputs]
    types, _ = prog.run_model(p)
    pairs, newvals = [], list(vals)
    for k in order:
        how, o, o2, c, op = subs[k]
        t = types[k]
        U = be.T(t)
        if how == 'keep':
            continue
        if how == 'const':
            to, v = U(c), c
        elif how == 'var':
            to, v = xs[o], vals[o]
        else:
            a, b = xs[o], xs[o2]
            if t[0] == 'bit':
                to, v = {'add': lambda: (a & b, vals[o] & vals[o2]),
                         'xor': lambda: (a ^ b, vals[o] ^ vals[o2]),
                         'not': lambda: (~a, 1 - vals[o]),
                         'ite': lambda: (b.ite(a, ~a), vals[o] ^ 1 ^ vals[o2])}[op]()
            else:
                n = t[2]
                to, v = {'add': lambda: (a.bvadd(b), vals[o] + vals[o2] & gen.mask(n)),
                         'xor': lambda: (a.bvxor(b), vals[o] ^ vals[o2]),
                         'not': lambda: (~a, ~vals[o] & gen.mask(n)),
                         'ite': lambda: (b.ite(a, ~a), vals[o] if vals[o2] else
                                         ~vals[o] & gen.mask(n))}[op]()
        pairs.append((xs[k], to))
        newvals[k] = v
    ctx.label(f'{len(pairs)}-replaced')
    if len(pairs) < 2:
        ctx.mark_trivial()
    env = {x.value: smt_const(t, v) for x, t, v in zip(xs, types, vals)}
    exprs = prog.run_backend(be, p, xs)
    inputs2 = [i[:-2] + (v, i[-1]) for i, v in zip(inputs, newvals)]
    _, want = prog.run_model((inputs2, instrs), trunc_div=True, trunc_rem=True)
    for k, (e, w) in enumerate(zip(exprs, want)):
        before = e.value
        r = e.substitute(*pairs)
        require(e.value is before, 'substitute changed its receiver', e)
        if types[k][0] == 'bit':
            require(type(r) is h.SMTBit, 'substituted Bit is', r)
        else:
            require(isinstance(r, h.SMTBitVector) and r.size == types[k][2],
                    'substituted vector is', r)
        got = smt_value(r, env)
        require(got == w, f'value {k} after substitution is {got}, expected {w}:', case)


def subterms(t):
    seen, out, todo = set(), [], [t]
    while todo:
        n = todo.pop()
        if n.node_id() not in seen:
            seen.add(n.node_id())
            out.append(n)
            todo.extend(n.args())
    return out


def value_with(t, table, env, memo):
    """constant value of term t when the terms in table have the given values"""
    from pysmt.environment import get_env
    if t in table:
        return table[t]
    if t.is_symbol():
        return env[t]
    if t.is_constant():
        return t
    k = t.node_id()
    if k not in memo:
        args = tuple(value_with(a, table, env, memo) for a in t.args())
        memo[k] = get_env().formula_manager.create_node(
            node_type=t.node_type(), args=args, payload=t._content.payload).simplify()
    return memo[k]


@st.composite
def subterm_case(draw):
    p = draw(prog.programs(all_symbolic=True, max_inputs=4, max_instrs=9, wmax=16))
    picks = [(draw(st.integers(0, 40)), draw(st.integers(0, 40)),
              draw(st.integers(0, (1 << 16) - 1)),
              draw(st.sampled_from(['const', 'var', 'not']))) for _ in range(
                  draw(st.integers(1, 4)))]
    return (p, picks)


def check_subterm(case, ctx):
    import hwtypes as h
    p, picks = case
    inputs, instrs = p
    be = prog.Backend('smt')
    xs = [be.T(('bit',) if i[0] == 'bit' else ('vec', i[1], i[2]))() for i in inputs]
    types, _ = prog.run_model(p)
    vals = [i[1] if i[0] == 'bit' else i[3] for i in inputs]
    env = {x.value: smt_const(t, v) for x, t, v in zip(xs, types, vals)}
    exprs = prog.run_backend(be, p, xs)
    last = exprs[-1]
    pairs, table, memo = [], {}, {}
    for which, other, c, how in picks:
        cand = [t for t in subterms(last.value) if not t.is_constant()]
        if not cand:
            break
        t = cand[which % len(cand)]
        bit = t.get_type().is_bool_type()
        if not bit and not t.get_type().is_bv_type():
            continue
        w = 0 if bit else t.bv_width()
        x = h.SMTBit(t) if bit else h.SMTBitVector[w](t)
        if x.value in table or x.value.is_constant():
            continue
        same = [y for y in xs if (bit and isinstance(y, h.SMTBit)) or
                (not bit and isinstance(y, h.SMTBitVector) and y.size == w)]
        if how != 'const' and same:
            to = same[other % len(same)]
            to = ~to if how == 'not' else to
        else:
            to = h.SMTBit(c & 1) if bit else h.SMTBitVector[w](c)
        pairs.append((x, to))
        table[x.value] = value_with(to.value, {}, env, memo)
        ctx.label('variable' if t.is_symbol() else 'compound')
    if not any(not k.is_symbol() for k in table):
        ctx.mark_trivial()
    before = last.value
    r = last.substitute(*pairs)
    require(last.value is before, 'substitute changed its receiver', last)
    want = value_with(last.value, table, env, {}).constant_value()
    got = smt_value(r, env)
    require(got == int(want), 'substituting', pairs, 'in', last, 'gave', r,
            'which is', got, 'expected', want)


register(Check('S04', [
    Sub('programs', subst_case, check_subst, 3500),
    Sub('subterms', subterm_case, check_subterm, 2000),
], 'A program over symbols is built once; a drawn set of symbols is replaced '
    'at once by constants, other symbols (swaps and chains included) and '
    'expressions over the originals; evaluating the result must equal running '
    'the model on the replaced inputs. In a second family arbitrary subterms of a '
    'term are replaced, outermost first. Non-trivial: two or more replacements / '
    'a compound term is replaced.',
    ["pysmt's substitution and simplifier are trusted to evaluate a term."]))


# ------------------------------------------------------------------ S05
def ediv(a, b):
    q = abs(a) // abs(b) if a >= 0 else -((-a + abs(b) - 1) // abs(b))
    return q if b > 0 else -q


INTOPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
          '//': ediv}
ICMP = ('<', '<=', '>', '>=', '==', '!=')


def ints():
    return st.one_of(st.integers(-20, 20), st.integers(-(1 << 70), 1 << 70),
                     st.sampled_from(gen.dict_ints(-(1 << 40), 1 << 40) or [0]))


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


@st.composite
def int_case(draw):
    ins = [(draw(st.sampled_from(['int', 'int', 'BV', 'S', 'U'])), draw(st.booleans()),
            draw(ints()), draw(gen.width(1, 40)), draw(st.booleans()))
           for _ in range(draw(st.integers(1, 4)))]
    instrs = []
    for i in range(draw(st.integers(1, 8))):
        k = len(ins) + i
        instrs.append((draw(st.sampled_from(['+', '-', '*', '//', 'neg'])),
                       draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1)),
                       draw(st.sampled_from(['vv', 'vi', 'iv'])), draw(ints())))
    return (ins, instrs)


def check_int(case, ctx):
    import hwtypes as h
    import pysmt.shortcuts as smt
    ins, instrs = case
    be = prog.Backend('smt')
    xs, vs, env = [], [], {}

    def read(x):
        v = x.value.substitute(env).simplify()
        require(v.is_constant(), x, 'is not determined by its inputs')
        return int(v.constant_value())
    for kind, symb, v, n, signed in ins:
        ctx.label(kind)
        if kind == 'int':
            x = h.SMTInt() if symb else h.SMTInt(bv.num(v))
            if symb:
                env[x.value] = smt.Int(v)
        else:
            T = be.vec[kind][n]
            pat = v & gen.mask(n)
            b = T() if symb else T(pat)
            if symb:
                env[b.value] = smt.BV(pat, n)
            x = b.as_sint() if signed else (b.as_uint() if v % 2 else h.SMTInt(b))
            v = gen.sgn(pat, n) if signed else pat
        require(type(x) is h.SMTInt, 'not an SMTInt:', x)
        got = read(x)
        require(got == v, 'input', (kind, symb, v, n, signed), 'reads as', got)
        xs.append(x)
        vs.append(v)
    for op, i, j, form, k in instrs:
        i, j = i % len(xs), j % len(xs)
        if op == 'neg':
            r, v = -xs[i], -vs[i]
        else:
            a, av = (bv.num(k), k) if form == 'iv' else (xs[i], vs[i])
            b, bv_ = (bv.num(k), k) if form == 'vi' else (xs[j], vs[j])
            # pysmt folds constant integer division in floating point
            if op == '//' and (bv_ == 0 or abs(av) > 1 << 50):
                continue
            if abs(av) > 1 << 400 or abs(bv_) > 1 << 400:
                continue
            r, v = gen.PYOP[op](a, b), INTOPS[op](av, bv_)
            for c in ICMP:
                t = gen.PYOP[c](a, b)
                require(type(t) is h.SMTBit, 'comparison gave', t)
                got = read(t)
                require(got == int(gen.PYOP[c](av, bv_)), 'comparison', av, c, bv_,
                        'gave', got)
        ctx.label(op)
        require(type(r) is h.SMTInt, op, 'gave', r)
        got = read(r)
        require(got == v, op, vs[i], vs[j], form, k, 'gave', got, 'expected', v)
        xs.append(r)
        vs.append(v)
    for x, v in zip(xs, vs):
        for what, y in (('SMTInt', h.SMTInt(x)), ('its term', h.SMTInt(x.value))):
            require(type(y) is h.SMTInt and read(y) == v, 'SMTInt of', what, 'of', v)
    for v in (True, False, vs[0], HasInt(vs[0]), bv.Int(vs[0])):
        y = h.SMTInt(v)
        require(read(y) == int(v) and read(xs[0] + y) == vs[0] + int(v), 'SMTInt of', v)
        if not isinstance(v, HasInt):
            require(str(int(v)) in repr(y) or int(v) < 0, 'repr of', v, 'is', repr(y))
        require(read(xs[0] - v) == vs[0] - int(v) and read(v - xs[0]) == int(v) - vs[0],
                'an operand', v)
    for bad in (object(), 'x', None):
        expect_raises(TypeError, lambda: h.SMTInt(bad), f'SMTInt({bad!r})')
        for op in ('+', '-', '*', '//'):
            expect_raises(TypeError, lambda: gen.PYOP[op](xs[0], bad), op)
    expect_raises(TypeError, lambda: h.SMTInt(h.SMTBit().value), 'SMTInt of a Bool term')


@st.composite
def reading_case(draw):
    n = draw(gen.width(1, 70))
    return (draw(st.sampled_from(prog.FAMS3)), n, draw(gen.value(n)), draw(st.booleans()))


def check_reading(case, ctx):
    """as_uint / as_sint of a vector"""
    import hwtypes as h
    f, n, a, symb = case
    ctx.label('symbolic' if symb else 'constant')
    T = prog.Backend('smt').vec[f][n]
    x = T() if symb else T(a)
    env = {x.value: smt_const(('vec', f, n), a)} if symb else None
    for what, r, v in (('as_uint', x.as_uint(), a), ('as_sint', x.as_sint(), gen.sgn(a, n)),
                       ('SMTInt', h.SMTInt(x), a), ('SMTInt term', h.SMTInt(x.value), a)):
        require(type(r) is h.SMTInt, what, 'gave', r)
        got = smt_value(r, env)
        require(got == v, what, 'of', case, 'is', got, 'expected', v)
    # terms put together of others
    for what, y, v in (('sext', x.sext(3), gen.sgn(a, n) & gen.mask(n + 3)), ('zext', x.zext(3), a),
                       ('concat', x.concat(x), a | a << n), ('not', ~x, ~a & gen.mask(n)),
                       ('prefix', x.concat(T(1)), a | 1 << n), ('suffix', T(0).concat(x), a << n),
                       ('neg', -x, -a & gen.mask(n)), ('slice', x[n // 2:], a >> n // 2),
                       ('shl', x << 1, a << 1 & gen.mask(n)), ('lshr', x.bvlshr(1), a >> 1),
                       ('double', x + x, 2 * a & gen.mask(n)), ('ite', (x == x).ite(x, ~x), a)):
        w = y.size
        for how, r, u in (('SMTInt', h.SMTInt(y), v), ('its term', h.SMTInt(y.value), v),
                          ('as_uint', y.as_uint(), v), ('as_sint', y.as_sint(), gen.sgn(v, w))):
            got = smt_value(r, env)
            require(got == u, how, 'of', what, 'of', case, 'is', got, 'expected', u)
    for cv in (bv.make(f, n, a),):
        got = smt_value(h.SMTInt(cv), None)
        require(got == int(cv), 'SMTInt of', cv, 'is', got)


register(Check('S05', [
    Sub('programs', int_case, check_int, 3000),
    Sub('reading', reading_case, check_reading, 2000),
], 'Programs of integer arithmetic and comparisons over constant and symbolic '
    'SMTInts, ints on either side, and vectors read as signed or unsigned; the '
    'evaluated result must equal Python-int arithmetic with Euclidean (SMT-LIB) '
    'division. All cases are non-trivial.',
    ["pysmt's substitution and simplifier are trusted to evaluate a term.",
     'Division by zero is not exercised: SMT-LIB leaves it unspecified; nor are '
     'dividends beyond 2^50, where pysmt itself folds constants inexactly.']))


# ------------------------------------------------------------------ S06
def formulas(top):
    return st.recursive(
        st.tuples(st.just('v'), st.integers(0, top) | st.just(top), st.booleans()),
        lambda f: st.one_of(
            st.tuples(st.just('and'), st.lists(f, max_size=4)),
            st.tuples(st.just('or'), st.lists(f, max_size=4)),
            st.tuples(st.just('imp'), f, f)), max_leaves=12)


def wide_formulas(top):
    v = st.tuples(st.just('v'), st.integers(0, top), st.booleans())
    return st.tuples(st.sampled_from(('and', 'or')), st.integers(5, 70).flatmap(
        lambda n: st.one_of(st.lists(v, min_size=n, max_size=n),
                            # all the same but for one
                            st.tuples(v, v, st.integers(0, n - 1) | st.integers(n - 5, n - 1)).map(
                                lambda t: [t[1] if i == t[2] else t[0] for i in range(n)]))))


@st.composite
def formula_case(draw):
    # leaves: five variables, compound Bits over them, and a deep one
    leaves = [(draw(st.sampled_from(['&', '|', '^', '~&', '~|', '==', '~'])),
               draw(st.integers(0, 4 + i)), draw(st.integers(0, 4 + i)))
              for i in range(draw(st.integers(0, 4)))]
    if draw(st.integers(0, 5)) == 0:
        leaves += [(draw(st.sampled_from(['&', '|', '^'])), 4 + len(leaves) + i,
                    draw(st.integers(0, 4))) for i in range(draw(st.integers(15, 70)))]
    top = 4 + len(leaves)
    f = draw(formulas(top) if draw(st.integers(0, 11)) else wide_formulas(top))
    return (leaves, f, draw(st.lists(st.integers(0, 1), min_size=5, max_size=5)),
            draw(st.sampled_from(['', '> ', '**'])),
            draw(st.sampled_from([None, '  ', '|   ', ''])),
            draw(st.sampled_from(['list', 'tuple', 'gen'])))


def check_formula(case, ctx):
    import hwtypes as h
    from hwtypes import smt_utils as u
    leaves, f, env, lp, indent, form = case
    xs = [h.SMTBit() for _ in env]
    sub = {x.value: smt_const(('bit',), v) for x, v in zip(xs, env)}
    env = list(env)
    for op, i, j in leaves:
        x, y, a, b = xs[i], xs[j], env[i], env[j]
        xs.append({'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                   '~&': lambda: ~(x & y), '~|': lambda: ~(x | y),
                   '==': lambda: x == y, '~': lambda: ~x}[op]())
        env.append({'&': a & b, '|': a | b, '^': a ^ b, '~&': 1 - (a & b),
                    '~|': 1 - (a | b), '==': int(a == b), '~': 1 - a}[op])
    if leaves:
        ctx.label('deep-leaf' if len(leaves) > 14 else 'compound-leaf')
    ctx.label(f[0], form)
    if f[0] == 'v':
        ctx.mark_trivial()

    def seq(vs):
        return vs if form == 'list' else tuple(vs) if form == 'tuple' else iter(vs)

    def build(f):
        if f[0] == 'v':
            return ~xs[f[1]] if f[2] else xs[f[1]]
        if f[0] == 'imp':
            return u.Implies(build(f[1]), build(f[2]))
        vs = [build(g) for g in f[1]]
        r = {'and': u.And, 'or': u.Or}[f[0]](seq(vs))
        vs.append('changed afterwards')
        return r

    def value(f):
        if f[0] == 'v':
            return env[f[1]] ^ f[2]
        if f[0] == 'imp':
            return int(not value(f[1]) or value(f[2]))
        return int((all if f[0] == 'and' else any)(value(g) for g in f[1]))

    def text(f, p, ind):
        if f[0] == 'v':
            return p + build(f).value.serialize()
        args = f[1:] if f[0] == 'imp' else f[1]
        name = {'and': 'And', 'or': 'Or', 'imp': 'Implies'}[f[0]]
        body = ',\n'.join(text(g, p + ind, ind) for g in args)
        return f'{p}{name}(\n{body}\n{p})'

    t = build(f)
    if f[0] == 'v':
        return
    for _ in range(2):
        b = t.to_hwtypes()
        require(type(b) is h.SMTBit, 'to_hwtypes gave', b)
        got = smt_value(b, sub)
        require(got == value(f), 'formula evaluates to', got, 'expected', value(f))
    if f[0] != 'imp' and all(g[0] == 'v' for g in f[1]) and len(leaves) < 15:
        # every assignment to the variables
        vs, keep = list(sub), env[:]
        for bits in itertools.product((0, 1), repeat=5):
            env[:5] = bits
            for k, (op, i, j) in enumerate(leaves, 5):
                a, c = env[i], env[j]
                env[k] = {'&': a & c, '|': a | c, '^': a ^ c, '~&': 1 - (a & c),
                          '~|': 1 - (a | c), '==': int(a == c), '~': 1 - a}[op]
            got = smt_value(b, {v: smt_const(('bit',), x) for v, x in zip(vs, bits)})
            require(got == value(f), 'under', bits, 'it is', got, 'expected', value(f))
        env[:] = keep
    s = t.serialize(lp) if indent is None else t.serialize(lp, indent)
    want = text(f, lp, '|   ' if indent is None else indent)
    require(s == want, 'serialize gave', s, 'expected', want)
    if not lp and indent is None:
        require(t.serialize() == want, 'default serialize')
    for bad in (1, True, None, 'x', h.Bit(1)):
        for C in (u.And, u.Or):
            expect_raises(ValueError, lambda: C([xs[0], bad]), f'{C.__name__} of {bad!r}')
        expect_raises(ValueError, lambda: u.Implies(xs[0], bad), f'Implies of {bad!r}')
        expect_raises(ValueError, lambda: u.Implies(bad, xs[0]), f'Implies of {bad!r}')


register(Check('S06', [
    Sub('formulas', formula_case, check_formula, 4000),
], 'Nested And/Or/Implies over SMTBits, from lists, tuples and iterators, are '
    'evaluated under a drawn assignment and compared with Python bools; the '
    'serialisation is compared with an independent printer. Non-trivial: at '
    'least one connective.',
    ["pysmt's substitution and simplifier are trusted to evaluate a term."]))


# ------------------------------------------------------------------ S07
@st.composite
def spoly_case(draw):
    n = draw(gen.width(1, 24))
    vals = [(draw(st.sampled_from(['U', 'S', 'BV'])), draw(gen.value(n)),
             draw(st.booleans())) for _ in range(draw(st.integers(2, 4)))]
    from checks.b_ite import NESTING
    merges = [(draw(st.integers(0, 1)), draw(st.booleans()), draw(st.integers(0, 20)),
               draw(st.integers(0, 20)), draw(NESTING), draw(st.integers(0, 2)) == 0)
              for _ in range(draw(st.integers(1, 3)))]
    steps = [(draw(st.sampled_from(['+', '-', '*', '&', '|', '^', '<<', '>>', 'neg',
                                    'not', 'ext', 'sext', 'zext', 'bvlshr', 'bvashr',
                                    'bvudiv', '//', '%'])),
              draw(gen.int_for(n)), draw(st.integers(0, 5)))
             for _ in range(draw(st.integers(1, 5)))]
    return (n, vals, merges, steps, draw(gen.int_for(n)))


def check_spoly(case, ctx):
    import hwtypes as h
    n, vals, merges, steps, k = case
    be = prog.Backend('smt')
    env, pool, model = {}, [], []
    for f, v, symb in vals:
        x = be.vec[f][n]() if symb else be.vec[f][n](v)
        if symb:
            env[x.value] = smt_const(('vec', f, n), v)
        pool.append(x)
        model.append((f == 'S', v))
    mixed = False
    from checks.b_ite import nested_ite
    on = h.SMTBit()
    env[on.value] = smt_const(('bit',), 1)
    for c, symb, i, j, nest, deep in merges:
        i, j = i % len(pool), j % len(pool)
        mixed |= model[i][0] != model[j][0]
        cond = h.SMTBit() if symb else h.SMTBit(c)
        if symb:
            env[cond.value] = smt_const(('bit',), c)
        if deep:
            # conditions that look alike from outside
            for _ in range(5):
                cond = ((cond ^ on) | ~on) ^ on
        pool.append(nested_ite(cond, pool[i], pool[j], nest))
        model.append(model[i] if c else model[j])
    ctx.label('signedness-mixed' if mixed else 'signedness-same')
    if not mixed:
        ctx.mark_trivial()
    x, (sg, v) = pool[-1], model[-1]
    w = n

    def eq(r, v, w, what):
        require(isinstance(r, h.SMTBitVector) and r.size == w, what, 'gave', r)
        got = smt_value(r, env)
        require(got == v, what, 'is', got, 'expected', v, case)
    eq(x, v, w, 'ite')
    for sym, a, e in steps:
        b = a & gen.mask(w)
        if sym in gen.OPER:
            op = gen.OPER[sym][sg]
            # signed division of the symbolic types: see S01's known finding
            fn = {'bvsdiv': gen.BV.sdiv_trunc, 'bvsrem': gen.BV.srem_trunc}.get(
                op, gen.BIN[op])
            floor = gen.BIN[op](v, b, w)
            r, v2 = gen.PYOP[sym](x, a), fn(v, b, w)
            if v2 != floor and smt_value(r, env) == floor:
                v2 = floor
        elif sym in ('neg', 'not'):
            r = -x if sym == 'neg' else ~x
            v2 = (-v if sym == 'neg' else ~v) & gen.mask(w)
        elif sym in ('ext', 'sext', 'zext'):
            r = getattr(x, sym)(e)
            se = sym == 'sext' or sym == 'ext' and sg
            v2 = gen.sgn(v, w) & gen.mask(w + e) if se else v
            w += e
        else:
            r, v2 = getattr(x, sym)(a), gen.BIN[sym](v, b, w)
        eq(r, v2, w, f'poly {sym} {a}')
        x, v = r, v2
        kk = k & gen.mask(w)
        for csym, ops in gen.OPERCMP.items():
            t = gen.PYOP[csym](x, k)
            require(isinstance(t, h.SMTBit), 'comparison gave', t)
            got = smt_value(t, env)
            require(got == gen.CMP[ops[sg]](v, kk, w), 'poly', csym, k, 'is', got, case)


def sbuild(shape, v, be, env, symb, protos):
    import hwtypes as h
    if shape[0] == 'tup':
        return tuple(sbuild(s, x, be, env, symb, protos) for s, x in zip(shape[1], v))
    if shape[0] == 'proto':
        n = shape[1]
        if n not in protos:
            W = h.SMTBitVector[n]

            class Meta(type):
                def _bitvector_t_(cls):
                    return W

            class P(metaclass=Meta):
                def __init__(self, v):
                    self.v = v

                @classmethod
                def _from_bitvector_(cls, b):
                    if type(b) is not W:
                        raise Violation(f'_from_bitvector_ was given {b!r}')
                    return cls(b)

                def _to_bitvector_(self):
                    return self.v
            protos[n] = P
        return protos[n](sbuild(('vec', 'BV', n), v, be, env, symb, protos))
    t = ('bit',) if shape[0] == 'bit' else ('vec', shape[1].replace('My', ''), shape[2])
    if t[0] == 'vec' and t[1] not in prog.FAMS3:
        t = ('vec', 'BV', shape[2])
    U = be.T(t)
    if symb:
        x = U()
        env[x.value] = smt_const(t, v)
        return x
    return U(v)


def smatch(r, like, shape, v, env, what):
    if shape[0] == 'tup':
        require(isinstance(r, tuple) and len(r) == len(v), what, 'gave', r)
        for a, b, s, w in zip(r, like, shape[1], v):
            smatch(a, b, s, w, env, what)
        return
    require(type(r) is type(like), what, 'gave', r, 'of', type(r))
    if shape[0] == 'proto':
        r = r.v
    got = smt_value(r, env)
    require(got == v, what, 'is', got, 'expected', v)


@st.composite
def site_case(draw):
    from checks.b_ite import shapes, value_of
    s = draw(shapes())
    cw = draw(st.one_of(st.just(0), gen.width(1, 20)))
    cond = draw(st.integers(0, 1)) if cw == 0 else draw(
        st.one_of(st.just(0), gen.value(cw)))
    return (cw, cond, draw(st.booleans()), s, draw(value_of(s)), draw(value_of(s)),
            draw(st.booleans()), draw(st.sampled_from(prog.FAMS3)))


def check_site(case, ctx):
    cw, cond, csym, shape, t, e, symb, cf = case
    be = prog.Backend('smt')
    env, protos = {}, {}
    ctype = ('bit',) if cw == 0 else ('vec', cf, cw)
    c = be.T(ctype)() if csym else be.T(ctype)(cond)
    if csym:
        env[c.value] = smt_const(ctype, cond)
    tb = sbuild(shape, t, be, env, symb, protos)
    eb = sbuild(shape, e, be, env, symb, protos)
    ctx.label('symbolic-condition' if csym else 'constant-condition', shape[0])
    if t == e:
        ctx.mark_trivial()
    smatch(c.ite(tb, eb), tb, shape, t if cond else e, env, f'ite in {case!r}')


@st.composite
def sreject_case(draw):
    from checks.b_ite import shapes, value_of
    s = draw(shapes())
    return (s, draw(value_of(s)), draw(st.sampled_from(
        ['width', 'arity', 'bitvec', 'int', 'tupleleaf', 'family', 'lists', 'none'])),
        draw(st.integers(0, 2)), draw(gen.width(1, 20)), draw(st.integers(1, 5)))


def check_sreject(case, ctx):
    import hwtypes as h
    shape, v, kind, depth, n, d = case
    ctx.label(kind)
    be = prog.Backend('smt')
    good = sbuild(shape, v, be, {}, False, {})
    x = h.SMTBitVector[n](1)
    a, b = {'width': (x, h.SMTBitVector[n + d](1)), 'arity': ((x,) * d, (x,) * (d + 1)),
            'bitvec': (h.SMTBit(1), h.SMTBitVector[1](1)), 'int': (1, 0),
            'tupleleaf': ((x,), x), 'family': (x, h.BitVector[n](1)),
            'lists': (([x] * d, (x,) * d)[n & 1], [x] * d),
            'none': (x, (None, 'x', 1.0, [x], object())[d % 5])}[kind]
    for _ in range(depth):
        a, b = (good, a), (good, b)
    for c in (h.SMTBit(), h.SMTBit(0), h.SMTBit(1)):
        expect_raises(TypeError, lambda: c.ite(a, b), f'ite({a!r}, {b!r})')
        expect_raises(TypeError, lambda: c.ite(b, a), f'ite({b!r}, {a!r})')
        expect_raises(TypeError, lambda: bool(c), 'bool of an SMTBit')
        expect_raises(TypeError, lambda: bool(x == 1), 'bool of a symbolic comparison')


register(Check('S07', [
    Sub('poly', spoly_case, check_spoly, 700),
    Sub('shapes', site_case, check_site, 2500),
    Sub('reject', sreject_case, check_sreject, 1000),
], 'As B07 and B08 on the pysmt back end: conditions and branches are symbolic '
    'or constant, and the result is read after substituting the drawn values. '
    'Non-trivial: the branches differ in value or signedness.',
    ["pysmt's substitution and simplifier are trusted to evaluate a term.",
     'Signed division may floor or truncate (known finding of S01).']))
