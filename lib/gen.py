"""Generators shared by the checks.  They produce plain literals only and never
call the code under test."""
import ast
import functools
import os

from hypothesis import strategies as st

from . import boot


# ------------------------------------------------------------ source dictionary
@functools.lru_cache(None)
def dictionary():
    """ints and identifiers-like strings that occur in the code under test: a
    threshold compared against in the code is worth generating around"""
    ints, strs = set(), set()
    d = os.path.join(boot.REPO, 'hwtypes')
    for root, _, files in sorted(os.walk(d)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, f)) as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if type(v) is int and abs(v) < 1 << 70:
                        ints.update((v - 1, v, v + 1))
                        if v < 200:
                            ints.update(((1 << abs(v)) - 1, 1 << abs(v)))
                    elif type(v) is str and 0 < len(v) < 24 and v.isidentifier():
                        strs.add(v)
    return tuple(sorted(ints)), tuple(sorted(strs))


def dict_ints(lo, hi):
    return [i for i in dictionary()[0] if lo <= i <= hi]


BOUNDARY = (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129)

BIG = (255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1100, 2048)


def width(lo=1, hi=200):
    """by default now and then far beyond 200"""
    small = list(range(max(lo, 1), min(9, hi + 1)))
    opts = [st.sampled_from(small), st.sampled_from(small)]
    if hi > 8:
        opts.append(st.integers(9, min(hi, 40)))
        b = [w for w in BOUNDARY + tuple(dict_ints(lo, hi)) if lo <= w <= hi]
        if b:
            opts.append(st.sampled_from(sorted(set(b))))
    if hi == 200:
        opts.append(st.integers(41, 230).map(
            lambda w: w if w <= hi else BIG[w % len(BIG)]))
    elif hi > 40:
        opts.append(st.integers(41, hi))
    return st.one_of(opts)


def specials(n):
    m = (1 << n) - 1
    h = 1 << (n - 1) if n else 0
    alt = int('01' * n, 2) if n else 0
    vals = [0, 1, 2, 3, m, m - 1, h, h - 1, h + 1, n, n - 1, n + 1,
            1 << (n // 2), alt & m, (alt << 1) & m]
    out = []
    for v in vals:
        v &= m
        if v not in out:
            out.append(v)
    return out


def value(n):
    """an n-bit pattern"""
    m = (1 << n) - 1
    if n <= 3:
        return st.integers(0, m)
    opts = [st.sampled_from(specials(n)), st.integers(0, m), st.integers(0, m),
            st.integers(0, n - 1).map(lambda i: 1 << i),
            st.integers(0, min(m, 2 * n))]
    d = dict_ints(-m, m)
    if d:
        opts.append(st.sampled_from(d).map(lambda v: v & m))
    return st.one_of(opts)


@st.composite
def value_pair(draw, n):
    """two n-bit patterns, correlated often enough for equality, carries and
    sign boundaries to matter"""
    m = (1 << n) - 1
    a = draw(value(n))
    k = draw(st.integers(0, 9))
    if k == 0:
        b = a
    elif k == 1:
        b = (a + draw(st.sampled_from([1, -1, 2, -2]))) & m
    elif k == 2:
        b = ~a & m
    elif k == 3:
        b = -a & m
    elif k == 4:
        b = a ^ (1 << draw(st.integers(0, n - 1)))
    elif k == 5:
        b = draw(st.integers(0, min(m, 2 * n + 1)))
    else:
        b = draw(value(n))
    if draw(st.booleans()):
        a, b = b, a
    return a, b


def int_for(n):
    """a Python int handed to an n-bit type: in range, negative, oversized"""
    m = (1 << n) - 1
    return st.one_of(
        value(n), value(n).map(lambda v: -v),
        st.sampled_from([m + 1, m + 2, -m, -m - 1, -m - 2, 2 * m + 1, -1]),
        st.integers(-(4 << n), 4 << n))


def small_ext():
    return st.one_of(st.integers(0, 9), st.sampled_from([16, 31, 32, 33, 63, 64]))


# ------------------------------------------------------------ arithmetic model
def mask(n):
    return (1 << n) - 1


def sgn(v, n):
    return v - (1 << n) if n and v >> (n - 1) & 1 else v


class BV:
    """reference semantics of n-bit vectors, on Python ints"""
    @staticmethod
    def shl(a, b, n): return 0 if b >= n else a << b & mask(n)
    @staticmethod
    def lshr(a, b, n): return 0 if b >= n else a >> b
    @staticmethod
    def ashr(a, b, n): return sgn(a, n) >> min(b, n) & mask(n)

    @staticmethod
    def rol(a, b, n):
        b %= n or 1
        return (a << b | a >> (n - b)) & mask(n)

    @staticmethod
    def ror(a, b, n):
        b %= n or 1
        return (a >> b | a << (n - b)) & mask(n)

    @staticmethod
    def udiv(a, b, n): return mask(n) if b == 0 else a // b
    @staticmethod
    def urem(a, b, n): return a if b == 0 else a % b

    @staticmethod
    def sdiv_floor(a, b, n):
        sa, sb = sgn(a, n), sgn(b, n)
        return mask(n) if sb == 0 else sa // sb & mask(n)

    @staticmethod
    def srem_floor(a, b, n):
        sa, sb = sgn(a, n), sgn(b, n)
        return a if sb == 0 else sa % sb & mask(n)

    @staticmethod
    def sdiv_trunc(a, b, n):
        """SMT-LIB bvsdiv"""
        sa, sb = sgn(a, n), sgn(b, n)
        if sb == 0:
            return 1 if sa < 0 else mask(n)
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & mask(n)

    @staticmethod
    def srem_trunc(a, b, n):
        """SMT-LIB bvsrem"""
        sa, sb = sgn(a, n), sgn(b, n)
        if sb == 0:
            return a
        r = abs(sa) % abs(sb)
        return (-r if sa < 0 else r) & mask(n)


BIN = {      # name -> (a, b, n) -> int, n-bit results
    'bvadd': lambda a, b, n: (a + b) & mask(n),
    'bvsub': lambda a, b, n: (a - b) & mask(n),
    'bvmul': lambda a, b, n: (a * b) & mask(n),
    'bvand': lambda a, b, n: a & b,
    'bvor': lambda a, b, n: a | b,
    'bvxor': lambda a, b, n: a ^ b,
    'bvnand': lambda a, b, n: ~(a & b) & mask(n),
    'bvnor': lambda a, b, n: ~(a | b) & mask(n),
    'bvxnor': lambda a, b, n: ~(a ^ b) & mask(n),
    'bvshl': BV.shl, 'bvlshr': BV.lshr, 'bvashr': BV.ashr,
    'bvrol': BV.rol, 'bvror': BV.ror,
    'bvudiv': BV.udiv, 'bvurem': BV.urem,
    'bvsdiv': BV.sdiv_floor, 'bvsrem': BV.srem_floor,
}
UN = {
    'bvnot': lambda a, n: ~a & mask(n),
    'bvneg': lambda a, n: -a & mask(n),
}
CMP = {
    'bveq': lambda a, b, n: a == b, 'bvne': lambda a, b, n: a != b,
    'bvult': lambda a, b, n: a < b, 'bvule': lambda a, b, n: a <= b,
    'bvugt': lambda a, b, n: a > b, 'bvuge': lambda a, b, n: a >= b,
    'bvslt': lambda a, b, n: sgn(a, n) < sgn(b, n),
    'bvsle': lambda a, b, n: sgn(a, n) <= sgn(b, n),
    'bvsgt': lambda a, b, n: sgn(a, n) > sgn(b, n),
    'bvsge': lambda a, b, n: sgn(a, n) >= sgn(b, n),
}
# Python operator symbol -> (unsigned method, signed method)
OPER = {
    '+': ('bvadd', 'bvadd'), '-': ('bvsub', 'bvsub'), '*': ('bvmul', 'bvmul'),
    '&': ('bvand', 'bvand'), '|': ('bvor', 'bvor'), '^': ('bvxor', 'bvxor'),
    '<<': ('bvshl', 'bvshl'), '>>': ('bvlshr', 'bvashr'),
    '//': ('bvudiv', 'bvsdiv'), '%': ('bvurem', 'bvsrem'),
}
OPERCMP = {
    '==': ('bveq', 'bveq'), '!=': ('bvne', 'bvne'),
    '<': ('bvult', 'bvslt'), '<=': ('bvule', 'bvsle'),
    '>': ('bvugt', 'bvsgt'), '>=': ('bvuge', 'bvsge'),
}
import operator as _o  # noqa: E402
PYOP = {'+': _o.add, '-': _o.sub, '*': _o.mul, '&': _o.and_, '|': _o.or_,
        '^': _o.xor, '<<': _o.lshift, '>>': _o.rshift, '//': _o.floordiv,
        '%': _o.mod, '==': _o.eq, '!=': _o.ne, '<': _o.lt, '<=': _o.le,
        '>': _o.gt, '>=': _o.ge}
