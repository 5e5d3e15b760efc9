"""Very many types (or names) alive at once."""
import gc
import random

from hypothesis import strategies as st

from .harness import require


def cases(lo=40, hi=1500):
    """(how many, a seed)"""
    return lambda: st.tuples(st.integers(lo, hi), st.integers(0, 999))


def enumerated(*ns):
    return lambda tier: [(n, i) for i in range(1 if tier == 'quick' else 8) for n in ns]


def check(make, index):
    """index(i, rng): the arguments of the i-th; make(*args): the object, the same one
    whenever it is made again while alive"""
    def run(case, ctx):
        n, seed = case
        rng = random.Random(seed)
        keys = list(dict.fromkeys(index(i, rng) for i in range(n)))
        rng.shuffle(keys)
        held = {k: make(*k) for k in keys}
        ctx.label(f'{len(held) // 500 * 500}+')
        require(len({id(t) for t in held.values()}) == len(held),
                'two of the', len(held), 'are one')
        rng.shuffle(keys)
        for k in keys:
            require(make(*k) is held[k], 'made', k, 'again while', len(held), 'are held:',
                    'another')
        # the same after most are dropped
        for k in keys[:len(keys) * rng.randint(0, 9) // 10]:
            del held[k]
        gc.collect()
        rng.shuffle(keys)
        again = [(k, make(*k)) for k in keys]
        for k, t in again:
            require(k not in held or held[k] is t, 'made', k, 'after a collection: another')
        require(len({id(t) for _, t in again}) == len(again), 'two are one')
    return run
