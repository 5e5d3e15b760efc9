"""Typed straight-line programs over bit vectors, run alike on Python ints, on
the concrete types and on the symbolic back ends.

A program is (inputs, instrs).  An input is ('vec', fam, n, value, symbolic?) or
('bit', value, symbolic?).  Every instruction appends one or two values.  Types
are ('vec', fam, n) and ('bit',).
"""
from hypothesis import strategies as st

from . import bv, gen
from .harness import HarnessError, Violation

FAMS3 = ('BV', 'U', 'S')
SAFE_BIN = ('bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'bvnand',
            'bvnor', 'bvxnor', 'bvshl', 'bvlshr', 'bvashr', 'bvudiv', 'bvurem')
KINDS = ('bin', 'bin', 'bin', 'oper', 'oper', 'operint', 'un', 'cmp', 'cmp',
         'cmpoper', 'cmpint', 'comp', 'slice', 'slice', 'idx', 'concat', 'zext',
         'sext', 'ext', 'repeat', 'ite', 'ite', 'itebit', 'itevec', 'adc',
         'bitop', 'bitnot', 'bitconst', 'cast', 'frombits', 'frombit', 'rot',
         'overflow', 'setbit', 'sdiv', 'const')
MAXW = 90


@st.composite
def programs(draw, max_inputs=4, max_instrs=12, wmax=40, kinds=KINDS,
             all_symbolic=None, reverse_int=True):
    n0 = draw(gen.width(1, wmax))
    inputs, types = [], []
    for i in range(draw(st.integers(1, max_inputs))):
        symb = draw(st.booleans()) if all_symbolic is None else all_symbolic
        r = draw(st.integers(0, 5))
        if r == 0:
            inputs.append(('bit', draw(st.integers(0, 1)), symb))
            types.append(('bit',))
        else:
            n = n0 if r < 5 else draw(gen.width(1, wmax))
            f = draw(st.sampled_from(FAMS3)) if r != 1 else 'BV'
            inputs.append(('vec', f, n, draw(gen.value(n)), symb))
            types.append(('vec', f, n))
    instrs = []
    for _ in range(draw(st.integers(1, max_instrs))):
        ins = draw(instr(types, kinds, reverse_int))
        if ins is not None:
            instrs.append(ins)
            types.extend(result_types(types, ins))
    return (inputs, instrs)


@st.composite
def instr(draw, types, kinds, reverse_int):
    kind = draw(st.sampled_from(kinds))
    vecs = [i for i, t in enumerate(types) if t[0] == 'vec']
    bits = [i for i, t in enumerate(types) if t[0] == 'bit']

    def pick(cands):
        # biased towards recent values, so that programs are deep
        k = draw(st.integers(0, len(cands) - 1))
        return cands[len(cands) - 1 - k]

    if kind in ('bitop', 'bitnot', 'itebit', 'frombit', 'bitconst') and not bits:
        kind = 'cmp'
    if kind == 'ite' and not bits:
        kind = 'itevec'
    if kind in ('frombits',) and not bits:
        kind = 'idx'
    if not vecs and kind not in ('bitop', 'bitnot', 'itebit', 'frombit',
                                 'bitconst', 'frombits'):
        kind = 'bitnot'
    if kind == 'const':
        f, n = draw(st.sampled_from(FAMS3)), types[pick(vecs)][2]
        return ('const', f, n, draw(gen.int_for(n)))
    if kind == 'bitop':
        return ('bitop', draw(st.sampled_from('&|^') | st.sampled_from(['==', '!='])),
                pick(bits), pick(bits))
    if kind == 'bitconst':
        return ('bitconst', draw(st.sampled_from(['&', '|', '^', '==', '!='])),
                pick(bits), draw(st.integers(0, 1)), draw(st.booleans()),
                draw(st.sampled_from('lr')) if reverse_int else 'r')
    if kind == 'bitnot':
        return ('bitnot', pick(bits))
    if kind == 'itebit':
        return ('itebit', pick(bits), pick(bits), pick(bits))
    if kind == 'frombits':
        return ('frombits', draw(st.sampled_from(FAMS3)),
                [pick(bits) for _ in range(draw(st.sampled_from(
                    (1, 2, 3, 4, 5, 8, 9, 16, 17, 21, 33))))])
    if kind == 'frombit':
        return ('frombit', draw(st.sampled_from(FAMS3)), draw(st.integers(1, 9)),
                pick(bits))
    i = pick(vecs)
    _, f, n = types[i]
    same = [j for j in vecs if types[j] == types[i]]
    samew = [j for j in vecs if types[j][2] == n]
    if kind == 'bin':
        return ('bin', draw(st.sampled_from(SAFE_BIN)), i, pick(samew))
    if kind == 'sdiv':
        return ('bin', draw(st.sampled_from(['bvsdiv', 'bvsrem'])), i, pick(samew))
    if kind == 'oper':
        return ('oper', draw(st.sampled_from(sorted(gen.OPER))), i, pick(same))
    if kind == 'operint':
        side = draw(st.sampled_from('lr')) if reverse_int else 'r'
        return ('operint', draw(st.sampled_from(sorted(gen.OPER))), i,
                draw(gen.int_for(n)), side)
    if kind == 'un':
        return ('un', draw(st.sampled_from(['bvnot', 'bvneg', '~', '-'])), i)
    if kind == 'cmp':
        return ('cmp', draw(st.sampled_from(sorted(gen.CMP))), i, pick(samew))
    if kind == 'cmpoper':
        return ('cmpoper', draw(st.sampled_from(sorted(gen.OPERCMP))), i, pick(same))
    if kind == 'cmpint':
        return ('cmpint', draw(st.sampled_from(sorted(gen.OPERCMP))), i,
                draw(gen.int_for(n)))
    if kind == 'comp':
        return ('comp', i, pick(samew))
    if kind == 'overflow':
        return ('overflow', i, pick(same), pick(same))
    if kind == 'slice':
        lo = draw(st.integers(0, n - 1))
        hi = draw(st.integers(lo + 1, n))
        lo_ = draw(st.sampled_from([lo, lo - n] + ([None] if lo == 0 else [])))
        hi_ = draw(st.sampled_from([hi] + ([hi - n] if hi < n else [None])))
        return ('slice', i, lo_, hi_)
    if kind == 'idx':
        return ('idx', i, draw(st.integers(-n, n - 1)))
    if kind == 'setbit':
        v = ('bit', pick(bits)) if bits and draw(st.booleans()) else (
            'int', draw(st.integers(0, 1)))
        return ('setbit', i, draw(st.integers(-n, n - 1)), v)
    if kind == 'concat':
        cand = [j for j in vecs if types[j][1] == f and types[j][2] + n <= MAXW]
        return ('concat', i, pick(cand)) if cand else None
    if kind in ('zext', 'sext', 'ext'):
        e = draw(st.one_of(st.integers(0, 4), st.integers(0, 40)))
        return (kind, i, e) if n + e <= MAXW else (kind, i, 0)
    if kind == 'repeat':
        r = draw(st.integers(1, 4))
        return ('repeat', i, r) if n * r <= MAXW else None
    if kind == 'ite':
        return ('ite', pick(bits), i, pick(same))
    if kind == 'itevec':
        return ('itevec', pick(vecs), i, pick(same))
    if kind == 'adc':
        c = ('bit', pick(bits)) if bits and draw(st.booleans()) else (
            'int', draw(st.integers(0, 1)))
        return ('adc', i, pick(samew), c)
    if kind == 'cast':
        return ('cast', draw(st.sampled_from(FAMS3)), draw(gen.width(1, 50)), i)
    if kind == 'rot':
        return ('rot', draw(st.sampled_from(['bvrol', 'bvror'])), i,
                draw(st.one_of(st.integers(0, n - 1), st.integers(0, n - 1),
                               st.integers(-2 * n, 3 * n), gen.int_for(n))))
    if kind == 'rotvec':
        # by a vector amount: the pysmt types only rotate by ints
        return ('bin', draw(st.sampled_from(['bvrol', 'bvror'])), i, pick(samew))
    raise HarnessError(kind)


def result_types(types, ins):
    k = ins[0]
    T = lambda i: types[i]
    if k in ('const', 'frombit', 'cast'):
        return [('vec', ins[1], ins[2])]
    if k == 'frombits':
        return [('vec', ins[1], len(ins[2]))]
    if k in ('bitop', 'bitnot', 'itebit', 'cmp', 'cmpoper', 'cmpint', 'idx',
             'overflow', 'bitconst'):
        return [('bit',)]
    if k in ('bin', 'oper', 'operint', 'un', 'rot'):
        return [T(ins[1] if k == 'none' else ins[2])]
    if k == 'comp':
        return [('vec', T(ins[1])[1], 1)]
    if k == 'slice':
        _, i, lo, hi = ins
        n = T(i)[2]
        return [('vec', T(i)[1], len(range(n)[slice(lo, hi)]))]
    if k == 'setbit':
        return [T(ins[1])]
    if k == 'concat':
        return [('vec', T(ins[1])[1], T(ins[1])[2] + T(ins[2])[2])]
    if k in ('zext', 'sext', 'ext'):
        return [('vec', T(ins[1])[1], T(ins[1])[2] + ins[2])]
    if k == 'repeat':
        return [('vec', T(ins[1])[1], T(ins[1])[2] * ins[2])]
    if k in ('ite', 'itevec'):
        return [T(ins[2])]
    if k == 'adc':
        return [T(ins[1]), ('bit',)]
    raise HarnessError(k)


# ------------------------------------------------------------ the model
def run_model(prog, trunc_div=False, trunc_rem=False):
    """-> (types, values); division as the concrete types define it unless
    asked for the SMT-LIB (truncating) one"""
    inputs, instrs = prog
    BIN = dict(gen.BIN)
    if trunc_div:
        BIN['bvsdiv'] = gen.BV.sdiv_trunc
    if trunc_rem:
        BIN['bvsrem'] = gen.BV.srem_trunc
    types = [('bit',) if i[0] == 'bit' else ('vec', i[1], i[2]) for i in inputs]
    vs = [i[1] if i[0] == 'bit' else i[3] for i in inputs]
    for ins in instrs:
        k = ins[0]
        rt = result_types(types, ins)
        if k == 'const':
            r = [ins[3] & gen.mask(ins[2])]
        elif k == 'frombit':
            r = [vs[ins[3]]]
        elif k == 'cast':
            r = [vs[ins[3]] & gen.mask(ins[2])]
        elif k == 'frombits':
            r = [sum(vs[b] << p for p, b in enumerate(ins[2]))]
        elif k == 'bitop':
            a, b = vs[ins[2]], vs[ins[3]]
            r = [int(gen.PYOP[ins[1]](a, b))]
        elif k == 'bitconst':
            r = [int(gen.PYOP[ins[1]](vs[ins[2]], ins[3]))]
        elif k == 'bitnot':
            r = [1 - vs[ins[1]]]
        elif k == 'itebit':
            r = [vs[ins[2]] if vs[ins[1]] else vs[ins[3]]]
        elif k in ('ite', 'itevec'):
            r = [vs[ins[2]] if vs[ins[1]] else vs[ins[3]]]
        elif k == 'bin':
            n = types[ins[2]][2]
            r = [BIN[ins[1]](vs[ins[2]], vs[ins[3]], n)]
        elif k == 'oper':
            _, f, n = types[ins[2]]
            r = [BIN[gen.OPER[ins[1]][f == 'S']](vs[ins[2]], vs[ins[3]], n)]
        elif k == 'operint':
            _, f, n = types[ins[2]]
            a, b = vs[ins[2]], ins[3] & gen.mask(n)
            if ins[4] == 'l':
                a, b = b, a
            r = [BIN[gen.OPER[ins[1]][f == 'S']](a, b, n)]
        elif k == 'un':
            n = types[ins[2]][2]
            op = {'~': 'bvnot', '-': 'bvneg'}.get(ins[1], ins[1])
            r = [gen.UN[op](vs[ins[2]], n)]
        elif k == 'rot':
            n = types[ins[2]][2]
            r = [gen.BIN[ins[1]](vs[ins[2]], ins[3] & gen.mask(n), n)]
        elif k == 'cmp':
            r = [int(gen.CMP[ins[1]](vs[ins[2]], vs[ins[3]], types[ins[2]][2]))]
        elif k == 'cmpoper':
            _, f, n = types[ins[2]]
            r = [int(gen.CMP[gen.OPERCMP[ins[1]][f == 'S']](vs[ins[2]], vs[ins[3]], n))]
        elif k == 'cmpint':
            _, f, n = types[ins[2]]
            r = [int(gen.CMP[gen.OPERCMP[ins[1]][f == 'S']](
                vs[ins[2]], ins[3] & gen.mask(n), n))]
        elif k == 'comp':
            r = [int(vs[ins[1]] == vs[ins[2]])]
        elif k == 'overflow':
            n = types[ins[1]][2]
            a, b, c = (vs[q] >> n - 1 for q in ins[1:])
            r = [a & b & (1 - c) | (1 - a) & (1 - b) & c]
        elif k == 'slice':
            n = types[ins[1]][2]
            bs = [vs[ins[1]] >> p & 1 for p in range(n)][slice(ins[2], ins[3])]
            r = [sum(b << p for p, b in enumerate(bs))]
        elif k == 'idx':
            n = types[ins[1]][2]
            r = [vs[ins[1]] >> ins[2] % n & 1]
        elif k == 'setbit':
            n = types[ins[1]][2]
            b = vs[ins[3][1]] if ins[3][0] == 'bit' else ins[3][1]
            p = ins[2] % n
            r = [vs[ins[1]] & ~(1 << p) | b << p]
        elif k == 'concat':
            r = [vs[ins[1]] | vs[ins[2]] << types[ins[1]][2]]
        elif k in ('zext', 'sext', 'ext'):
            _, f, n = types[ins[1]]
            s = k == 'sext' or k == 'ext' and f == 'S'
            v = vs[ins[1]]
            r = [gen.sgn(v, n) & gen.mask(n + ins[2]) if s else v]
        elif k == 'repeat':
            n = types[ins[1]][2]
            r = [sum(vs[ins[1]] << p * n for p in range(ins[2]))]
        elif k == 'adc':
            n = types[ins[1]][2]
            c = vs[ins[3][1]] if ins[3][0] == 'bit' else ins[3][1]
            s = vs[ins[1]] + vs[ins[2]] + c
            r = [s & gen.mask(n), s >> n]
        else:
            raise HarnessError(k)
        types.extend(rt)
        vs.extend(r)
    return types, vs


# ------------------------------------------------------------ the interpreter
class Backend:
    """names: Bit, and BV/U/S unsized vector types"""

    def __init__(self, name):
        import hwtypes as h
        self.name = name
        if name == 'concrete':
            self.Bit, ts = h.Bit, (h.BitVector, h.UIntVector, h.SIntVector)
        elif name == 'smt':
            self.Bit = h.SMTBit
            ts = h.SMTBitVector, h.SMTUIntVector, h.SMTSIntVector
        else:
            self.Bit = h.z3Bit
            ts = h.z3BitVector, h.z3UIntVector, h.z3SIntVector
        self.vec = dict(zip(FAMS3, ts))

    def T(self, t):
        return self.Bit if t[0] == 'bit' else self.vec[t[1]][t[2]]


def run_backend(be, prog, inputs_values):
    """inputs_values: one library value per input.  Returns all values."""
    import hwtypes as h
    inputs, instrs = prog
    types = [('bit',) if i[0] == 'bit' else ('vec', i[1], i[2]) for i in inputs]
    xs = list(inputs_values)
    for ins in instrs:
        num = [bv.num(o) for o in ins]
        k = ins[0]
        rt = result_types(types, ins)
        if k == 'const':
            F, n, v = be.vec[ins[1]], ins[2], num[3]
            r = [F[n](v) if v % 3 == 0 else F[n].make_constant(v) if v % 3 == 1 else
                 F[n + 1](v).make_constant(v, n)]
        elif k == 'frombit':
            r = [be.vec[ins[1]][ins[2]](xs[ins[3]])]
        elif k == 'cast':
            r = [be.vec[ins[1]][ins[2]](xs[ins[3]])]
        elif k == 'frombits':
            r = [be.vec[ins[1]][len(ins[2])]([xs[b] for b in ins[2]])]
        elif k == 'bitop':
            r = [gen.PYOP[ins[1]](xs[ins[2]], xs[ins[3]])]
        elif k == 'bitconst':
            o = bool(ins[3]) if ins[4] else ins[3]
            r = [gen.PYOP[ins[1]](o, xs[ins[2]]) if ins[5] == 'l' else
                 gen.PYOP[ins[1]](xs[ins[2]], o)]
        elif k == 'bitnot':
            r = [~xs[ins[1]]]
        elif k in ('itebit', 'ite', 'itevec'):
            r = [xs[ins[1]].ite(xs[ins[2]], xs[ins[3]])]
        elif k == 'bin':
            r = [getattr(xs[ins[2]], ins[1])(xs[ins[3]])]
        elif k == 'oper':
            r = [gen.PYOP[ins[1]](xs[ins[2]], xs[ins[3]])]
        elif k == 'operint':
            r = [gen.PYOP[ins[1]](num[3], xs[ins[2]]) if ins[4] == 'l' else
                 gen.PYOP[ins[1]](xs[ins[2]], num[3])]
        elif k == 'un':
            x = xs[ins[2]]
            r = [~x if ins[1] == '~' else -x if ins[1] == '-' else getattr(x, ins[1])()]
        elif k == 'rot':
            r = [getattr(xs[ins[2]], ins[1])(num[3])]
        elif k == 'cmp':
            r = [getattr(xs[ins[2]], ins[1])(xs[ins[3]])]
        elif k == 'cmpoper':
            r = [gen.PYOP[ins[1]](xs[ins[2]], xs[ins[3]])]
        elif k == 'cmpint':
            r = [gen.PYOP[ins[1]](xs[ins[2]], num[3])]
        elif k == 'comp':
            r = [xs[ins[1]].bvcomp(xs[ins[2]])]
        elif k == 'overflow':
            r = [h.overflow(*(xs[q] for q in ins[1:]))]
        elif k == 'slice':
            r = [xs[ins[1]][num[2]:num[3]]]
        elif k == 'idx':
            r = [xs[ins[1]][num[2]]]
        elif k == 'setbit':
            y = type(xs[ins[1]])(xs[ins[1]])
            y[num[2]] = xs[ins[3][1]] if ins[3][0] == 'bit' else ins[3][1]
            r = [y]
        elif k == 'concat':
            r = [xs[ins[1]].concat(xs[ins[2]])]
        elif k in ('zext', 'sext', 'ext', 'repeat'):
            r = [getattr(xs[ins[1]], k)(num[2])]
        elif k == 'adc':
            c = xs[ins[3][1]] if ins[3][0] == 'bit' else ins[3][1]
            r = xs[ins[1]].adc(xs[ins[2]], c)
            if not (isinstance(r, tuple) and len(r) == 2):
                raise Violation(f'adc returned {r!r}')
        else:
            raise HarnessError(k)
        for x, t in zip(r, rt):
            if type(x) is not be.T(t):
                raise Violation(f'{ins!r} gave {x!r} of type {type(x)!r}, '
                                f'expected {be.T(t)!r}')
        types.extend(rt)
        xs.extend(r)
    return xs


def uses_sdiv(prog):
    inputs, instrs = prog
    types = [('bit',) if i[0] == 'bit' else ('vec', i[1], i[2]) for i in inputs]
    for ins in instrs:
        if ins[0] == 'bin' and ins[1] in ('bvsdiv', 'bvsrem'):
            return True
        if ins[0] in ('oper', 'operint') and ins[1] in ('//', '%') \
                and types[ins[2]][1] == 'S':
            return True
        types.extend(result_types(types, ins))
    return False
