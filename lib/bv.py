"""Helpers over the concrete bit-vector API (looked up lazily, so that a broken
tree fails inside a check and not while the check is being loaded)."""
import functools

from hypothesis import strategies as st

from .harness import Violation, require

FAMS = ('BV', 'U', 'S', 'MyBV', 'MyU', 'MyS')
SIGNED = ('S', 'MyS')


@functools.lru_cache(None)
def fam(name):
    import hwtypes as h
    base = {'BV': h.BitVector, 'U': h.UIntVector, 'S': h.SIntVector,
            'MyBV': h.BitVector, 'MyU': h.UIntVector, 'MyS': h.SIntVector}[name]
    if name.startswith('My'):
        return type(base)(name, (base,), {'__hash__': base.__hash__})
    return base


class Int(int):
    """numbers of a class of their own"""


def num(k):
    """a number equal to k, now and then of a class of its own"""
    return Int(k) if type(k) is int and k % 3 == 2 else k


@functools.lru_cache(None)
def viewed(F):
    """a subclass of F with an integer view of its own"""
    return type(F)('Viewed' + F.__name__, (F,), {
        '__hash__': F.__hash__, '__int__': lambda self: 5 - 3 * self.as_uint()})


def fams():
    return st.sampled_from(FAMS + ('BV', 'U', 'S'))


def make(name, n, v):
    return fam(name)[n](v)


def same(r, T, v, *what):
    """r is exactly the T holding bit pattern v"""
    if type(r) is not T:
        raise Violation(f'{" ".join(map(str, what))}: result {r!r} has type '
                        f'{type(r)!r}, expected {T!r}')
    got = r.as_uint()
    if type(got) is not int or got != v:
        raise Violation(f'{" ".join(map(str, what))}: got {got!r}, expected {v}')


def same_bit(r, v, *what):
    import hwtypes as h
    if type(r) is not h.Bit:
        raise Violation(f'{" ".join(map(str, what))}: result {r!r} has type '
                        f'{type(r)!r}, expected Bit')
    if bool(r) is not bool(v):
        raise Violation(f'{" ".join(map(str, what))}: got {r!r}, expected {bool(v)}')


def unchanged(x, T, v, what):
    require(type(x) is T and x.as_uint() == v, what, 'changed its operand to', x)
