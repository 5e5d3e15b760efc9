"""S01 pysmt back end, S02 z3 back end: both agree with the concrete semantics"""
import warnings

from hypothesis import strategies as st

from lib import gen, prog
from lib.harness import (Check, HarnessError, Sub, Violation, expect_raises,
                         register, require)

warnings.simplefilter('ignore')


def label(case, ctx):
    inputs, instrs = case
    for ins in instrs:
        ctx.label(ins[0])
    if any(i[-1] for i in inputs):
        ctx.label('some-symbolic')
    else:
        ctx.label('all-constant')
    if len(instrs) < 2 and len(inputs) < 2:
        ctx.mark_trivial()


# ------------------------------------------------------------ reading values
def smt_value(x, env):
    """the int a library value denotes once its symbols take the values env"""
    v = x.value.substitute(env).simplify() if env else x.value.simplify()
    if not v.is_constant():
        raise Violation(f'{x!r} is not determined by its inputs: {v}')
    c = v.constant_value()
    return int(c)


def smt_const(t, v):
    import pysmt.shortcuts as smt
    return smt.Bool(bool(v)) if t[0] == 'bit' else smt.BV(v, t[2])


def z3_value(x, subs):
    import z3
    v = z3.simplify(z3.substitute(x.value, *subs)) if subs else z3.simplify(x.value)
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    if not z3.is_bv_value(v):
        raise Violation(f'{x!r} is not determined by its inputs: {v}')
    return v.as_long()


def z3_const(t, v):
    import z3
    return z3.BoolVal(bool(v)) if t[0] == 'bit' else z3.BitVecVal(v, t[2])


def make_inputs(be, inputs, style=0):
    """library values for the inputs; symbolic ones are fresh symbols"""
    out = []
    for k, i in enumerate(inputs):
        t = ('bit',) if i[0] == 'bit' else ('vec', i[1], i[2])
        v = i[1] if i[0] == 'bit' else i[3]
        if i[-1]:
            out.append(be.T(t)())
        else:
            out.append(be.T(t)(v))
    return out


def compare(case, ctx, backend, finding, **trunc):
    label(case, ctx)
    inputs, instrs = case
    types, want = prog.run_model(case)
    be = prog.Backend(backend)
    xs = make_inputs(be, inputs)
    vals = prog.run_backend(be, case, xs)
    env = {} if backend == 'smt' else []
    for i, x in zip(inputs, xs):
        if i[-1]:
            t = ('bit',) if i[0] == 'bit' else ('vec', i[1], i[2])
            v = i[1] if i[0] == 'bit' else i[3]
            if backend == 'smt':
                env[x.value] = smt_const(t, v)
            else:
                env.append((x.value, z3_const(t, v)))
    read = smt_value if backend == 'smt' else z3_value
    got = [read(x, env) for x in vals]
    for k, x in enumerate(vals):
        if types[k][0] == 'vec':
            require(x.size == types[k][2] and len(x) == types[k][2]
                    and x.num_bits == types[k][2], 'size of value', k, x)
    if got == want:
        return
    k = next(k for k in range(len(got)) if got[k] != want[k])
    where = (f'value {k} of the program is {got[k]}, the concrete semantics '
             f'give {want[k]}')
    if prog.uses_sdiv(case):
        _, alt = prog.run_model(case, **trunc)
        if got == alt:
            raise Violation(where + ' (signed division truncates)', finding)
    raise Violation(where)


def check_smt(case, ctx):
    compare(case, ctx, 'smt', 'smt-signed-division', trunc_div=True, trunc_rem=True)


def check_z3(case, ctx):
    compare(case, ctx, 'z3', 'z3-signed-division', trunc_div=True)


def check_concrete(case, ctx):
    """the same programs on the concrete types, so that the model itself is
    tied to them"""
    label(case, ctx)
    types, want = prog.run_model(case)
    be = prog.Backend('concrete')
    xs = make_inputs(be, [i[:-1] + (False,) for i in case[0]])
    vals = prog.run_backend(be, case, xs)
    got = [int(x) if t[0] == 'bit' else x.as_uint() for x, t in zip(vals, types)]
    require(got == want, 'concrete values', got, 'model', want)


def single_ops(tier):
    """every operation at tiny widths, all operand values, constant operands"""
    top = 3 if tier == 'thorough' else 2
    for n in range(1, top + 1):
        for a in range(1 << n):
            for b in range(1 << n):
                for f in ('BV', 'S'):
                    for symb in ((False, False), (True, True), (True, False)):
                        inputs = [('vec', f, n, a, symb[0]), ('vec', f, n, b, symb[1])]
                        instrs = [('bin', op, 0, 1) for op in sorted(gen.BIN)
                                  if op not in ('bvrol', 'bvror')]
                        instrs += [('cmp', op, 0, 1) for op in sorted(gen.CMP)]
                        instrs += [('oper', s, 0, 1) for s in sorted(gen.OPER)]
                        instrs += [('cmpoper', s, 0, 1) for s in sorted(gen.OPERCMP)]
                        instrs += [('comp', 0, 1), ('adc', 0, 1, ('int', 0)),
                                   ('adc', 0, 1, ('int', 1)), ('concat', 0, 1),
                                   ('un', 'bvnot', 0), ('un', 'bvneg', 0),
                                   ('repeat', 0, 2), ('sext', 0, 1), ('zext', 0, 1),
                                   ('ext', 0, 2), ('itevec', 0, 0, 1)]
                        instrs += [('rot', o, 0, k) for k in range(-n - 1, 2 * n + 2)
                                   for o in ('bvrol', 'bvror')]
                        for ins in instrs:
                            yield (inputs, [ins])


# ------------------------------------------------------------ rejections
@st.composite
def reject_case(draw):
    n = draw(gen.width(1, 30))
    return (draw(st.sampled_from(prog.FAMS3)), n, draw(gen.value(n)),
            draw(st.integers(1, 9)), draw(st.booleans()),
            draw(st.lists(st.tuples(*[st.one_of(
                st.none(), st.integers(-n - 1, n + 1), st.sampled_from([0, n, -n]))] * 2),
                min_size=2, max_size=6)))


def check_reject(backend):
    def check(case, ctx):
        import hwtypes as h
        f, n, a, d, symb, slices = case
        be = prog.Backend(backend)
        F = be.vec[f]
        x = F[n]() if symb else F[n](a)
        y = F[n + d]()
        for op in sorted(gen.BIN):
            if op in ('bvrol', 'bvror'):
                continue
            expect_raises(TypeError, lambda: getattr(x, op)(y), f'{op} across widths')
        for op in sorted(gen.CMP):
            expect_raises(TypeError, lambda: getattr(x, op)(y), f'{op} across widths')
        for sym in list(gen.OPER) + list(gen.OPERCMP):
            expect_raises(TypeError, lambda: gen.PYOP[sym](x, y), f'{sym} across widths')
        expect_raises(TypeError, lambda: x.adc(y, 0), 'adc across widths')
        for i in (n, -n - 1):
            expect_raises(IndexError, lambda: x[i], f'index {i}')
        expect_raises(TypeError, lambda: x['0'], 'index "0"')
        # symbolic slices are contiguous and non-empty: anything else is refused,
        # not turned into another slice
        for lo, hi in slices:
            want = range(n)[lo:hi]
            sl = f'x[{lo}:{hi}] of {n} bits'
            if want:
                try:
                    r = x[lo:hi]
                except Exception:
                    continue
                require(type(r) is F[len(want)], sl, 'has type', type(r))
                continue
            ctx.label('empty-slice')
            try:
                r = x[lo:hi]
            except Exception:
                continue
            raise Violation(f'{sl}, an empty slice, gave {r!r}')
        for step in (2, -1, 0, d + 1):
            expect_raises((IndexError, ValueError), lambda: x[::step], f'slice step {step}')
        for o in (3, None, 'x'):
            expect_raises(TypeError, lambda: x.concat(o), f'concat {o!r}')
        for e in (-1, -d):
            for m in ('zext', 'sext', 'ext', 'repeat'):
                expect_raises(ValueError, lambda: getattr(x, m)(e), f'{m}({e})')
        expect_raises(ValueError, lambda: x.repeat(0), 'repeat(0)')
        b = be.Bit()
        expect_raises(TypeError, lambda: b.ite(x, y), 'ite across widths')
        for o in (object(), 'x', [1]) if backend == 'smt' else ():
            for sym in '&|^':
                expect_raises(TypeError, lambda: gen.PYOP[sym](b, o), f'Bit {sym} {o!r}')
                expect_raises(TypeError, lambda: gen.PYOP[sym](o, b), f'{o!r} {sym} Bit')
            require((b == o) is False and (b != o) is True and (o == b) is False,
                    'Bit ==', o)
            # a sequence of bits is a vector; a string and other objects are not
            for sym in ('<', '<=', '>', '>=') if not isinstance(o, list) else ():
                expect_raises(TypeError, lambda: gen.PYOP[sym](x, o), f'{sym} {o!r}')
                expect_raises(TypeError, lambda: gen.PYOP[sym](o, x), f'{o!r} {sym}')
        for o in ('x', 'x' * n):
            expect_raises(TypeError, lambda: F[n](o), f'a vector of {o!r}')
        if backend == 'smt':
            expect_raises(TypeError, lambda: h.SMTBit(x.value), 'a Bit of a vector term')
            expect_raises(TypeError, lambda: F[n](b.value), 'a vector of a Bit term')
            for sym in list(gen.OPER):
                expect_raises(TypeError, lambda: gen.PYOP[sym](x, object()), sym)
                expect_raises(TypeError, lambda: gen.PYOP[sym](object(), x), sym)
                if d > 1:
                    expect_raises(h.InconsistentSizeError,
                                  lambda: gen.PYOP[sym](x, y), sym)

        def store(i, v):
            x[i] = v
        for i in (n, -n - 1):
            expect_raises(IndexError, lambda: store(i, 1), f'x[{i}] = 1')
        for v in (2, None, 'x'):
            expect_raises(ValueError, lambda: store(0, v), f'x[0] = {v!r}')
    return check


# ------------------------------------------------------------ constants in
@st.composite
def const_case(draw):
    n, m = draw(gen.width(1, 70)), draw(gen.width(1, 70))
    return (draw(st.sampled_from(prog.FAMS3)), n, draw(gen.int_for(n)),
            draw(st.sampled_from(prog.FAMS3)), m, draw(gen.value(m)),
            draw(st.lists(st.integers(0, 1), min_size=1, max_size=9)))


def check_const(backend):
    def check(case, ctx):
        import hwtypes as h
        f, n, k, g, m, b, seq = case
        be = prog.Backend(backend)
        cc = prog.Backend('concrete')
        T = be.vec[f][n]
        M = gen.mask(n)
        read = smt_value if backend == 'smt' else z3_value

        def eq(x, U, v, what):
            require(type(x) is U, what, 'has type', type(x))
            got = read(x, None)
            require(got == v, what, 'is', got, 'expected', v, case)
        eq(T(k), T, k & M, f'T({k})')
        c = cc.vec[g][m](b)
        ctx.label('negative' if int(c) < 0 else 'non-negative')
        eq(T(c), T, gen.sgn(b, m) & M if g == 'S' else b & M, f'T({c!r})')
        eq(T(True), T, 1, 'T(True)')
        eq(T(be.Bit(1)), T, 1, 'T(Bit(1))')
        eq(T(be.Bit(0)), T, 0, 'T(Bit(0))')
        L = be.vec[f][len(seq)]
        eq(L(seq), L, sum(s << p for p, s in enumerate(seq)), f'L({seq})')
        if len(seq) != n:
            expect_raises(ValueError, lambda: T(seq), f'T({seq})')
        eq(T(T(k).value), T, k & M, 'T(term)')
        eq(T(0).make_constant(k), T, k & M, 'make_constant')
        eq(T(0).make_constant(k, m), be.vec[f][m], k & gen.mask(m), 'make_constant')
        for v in (0, 1, False, True):
            eq(be.Bit(v), be.Bit, int(v), f'Bit({v})')
        eq(be.Bit(h.Bit(1)), be.Bit, 1, 'Bit(Bit(1))')
        expect_raises(ValueError, lambda: be.Bit(2), 'Bit(2)')
        expect_raises(TypeError, lambda: T(object()), 'T(object())')
        expect_raises(TypeError, lambda: be.Bit(object()), 'Bit(object())')
        expect_raises(TypeError, lambda: T(be.vec[f][n + 1]().value), 'wider term')
        expect_raises(TypeError, lambda: T(k, name='n'), 'named constant')
        expect_raises(TypeError, lambda: be.Bit(1, name='n'), 'named constant')
    return check


# ------------------------------------------------------------ ite of z3
@st.composite
def z3ite_case(draw):
    n, m = draw(gen.width(1, 40)), draw(gen.width(1, 40))
    return (draw(st.sampled_from(('sym', 'const', 'vec', 'vecconst'))), draw(st.integers(0, 1)),
            draw(gen.width(1, 9)), draw(st.sampled_from(prog.FAMS3)), n, draw(gen.value(n)),
            draw(st.booleans()), draw(st.sampled_from(prog.FAMS3)), m, draw(gen.int_for(n)),
            draw(gen.value(m)))


def check_z3ite(case, ctx):
    """beside a vector, ints, Bits and concrete vectors are values of its type"""
    import hwtypes as h
    how, c, cn, f, n, a, symb, g, m, k, b = case
    be, cc = prog.Backend('z3'), prog.Backend('concrete')
    T = be.vec[f][n]
    subs = []
    cond = {'sym': be.Bit, 'const': lambda: be.Bit(c), 'vec': be.vec[g][cn],
            'vecconst': lambda: be.vec[g][cn](c)}[how]()
    if how == 'sym':
        subs.append((cond.value, z3_const(('bit',), c)))
    elif how == 'vec':
        subs.append((cond.value, z3_const(('vec', g, cn), c << cn - 1)))
    x = T() if symb else T(a)
    if symb:
        subs.append((x.value, z3_const(('vec', f, n), a)))
    ctx.label(how, 'symbolic' if symb else 'constant')
    M = gen.mask(n)
    others = [(k, k & M), (bool(k & 1), k & 1), (be.Bit(k & 1), k & 1),
              (cc.vec[g][m](b), (gen.sgn(b, m) if g == 'S' else b) & M)]
    for o, v in others:
        for t, e, want in ((x, o, a if c else v), (o, x, v if c else a)):
            r = cond.ite(t, e)
            what = f'ite({c}, {t!r}, {e!r})'
            require(type(r) is T, what, 'has type', type(r))
            require(z3_value(r, subs) == want, what, 'is', z3_value(r, subs), 'not', want)
    # two ints: as wide as the wider one
    p, q = abs(k), b
    r = cond.ite(p, q)
    w = max(p.bit_length(), q.bit_length(), 1)
    require(type(r) is be.vec['BV'][w], f'ite of {p} and {q} has type', type(r))
    require(z3_value(r, subs) == (p if c else q), f'ite of {p} and {q}', r)
    y = be.vec[g][m]()
    if type(y) is not T:
        expect_raises(TypeError, lambda: cond.ite(x, y), f'ite of {T} and {type(y)}')
        expect_raises(TypeError, lambda: cond.ite(y, x), f'ite of {T} and {type(y)}')
    for o in (object(), None, 'x', 'x' * n):
        expect_raises(TypeError, lambda: cond.ite(x, o), f'ite with {o!r}')
        expect_raises(TypeError, lambda: cond.ite(o, x), f'ite with {o!r}')


def demo_sdiv(backend):
    def demo():
        import hwtypes as h
        T = h.SMTSIntVector[8] if backend == 'smt' else h.z3SIntVector[8]
        x = T(-7).bvsdiv(T(2))
        read = smt_value if backend == 'smt' else z3_value
        got, want = read(x, None), h.SIntVector[8](-7).bvsdiv(2).as_uint()
        if got != want:
            return (f'-7 bvsdiv 2 is {gen.sgn(got, 8)} symbolically and '
                    f'{gen.sgn(want, 8)} concretely (8 bits)')
    return demo


RULE = ('Typed straight-line programs over vectors and Bits (all operations, '
        'slices, concatenation, extension, casts, ite, carry, bit assignment) '
        'with symbolic and constant inputs; the symbolic values, with the symbols '
        'replaced by the drawn inputs, must equal a Python-int model of the '
        'concrete semantics. Every binary operation is also enumerated at width '
        '1-2. Non-trivial: two inputs or two instructions.')

Z3_KINDS = prog.KINDS + ('rotvec', 'rotvec')

register(Check('S01', [
    Sub('programs', lambda: prog.programs(), check_smt, 4000,
        enumerate_cases=single_ops),
    Sub('concrete', lambda: prog.programs(kinds=Z3_KINDS), check_concrete, 1500),
    Sub('constants', const_case, check_const('smt'), 1200),
    Sub('reject', reject_case, check_reject('smt'), 600),
], RULE, ["pysmt's substitution and simplifier are trusted to evaluate a term."],
    findings={'smt-signed-division': demo_sdiv('smt')}))

register(Check('S02', [
    Sub('programs', lambda: prog.programs(kinds=Z3_KINDS, reverse_int=False),
        check_z3, 3000, enumerate_cases=single_ops),
    Sub('constants', const_case, check_const('z3'), 1000),
    Sub('reject', reject_case, check_reject('z3'), 500),
    Sub('ite', z3ite_case, check_z3ite, 800),
], RULE, ["z3's substitution and simplifier are trusted to evaluate a term.",
          'z3 vectors have no reflected operators, so an int stands on the right.'],
    findings={'z3-signed-division': demo_sdiv('z3')}))
