"""Scenario factories over random histories of public operations."""
from harness.core import *
from harness.common import *
from harness import hist as H, oracle as O


def history(prop, name, kinds, invs, n=1200, parts=None, only=None, length=None, spec=True, **kw):
    """Apply random operations drawn from `kinds`; after each one check the invariants `invs` of the stored state and
    (for the operations in `only`, default all) that exactly the specified content changed (`parts`: which tables)."""
    kinds = list(kinds)

    class Hist:
        def gen(rng, i):
            return H.gen_history(rng, kinds, length and rng.randint(*length), **kw)

        def check(c):
            H.run(c, [H.ALL_INV[i] for i in invs], O.Step(parts, only) if spec else None)
    return scenario(prop, name, n=n)(Hist)
