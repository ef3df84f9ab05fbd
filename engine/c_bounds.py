"""Contracts of the helpers that compute bounds of lengths (saturating arithmetic)."""
from core import *
from spec import *
from contract import *
import z3
T_ = 'github.com/protolambda/zssz/types.'

class Bound(Contract):
    fn = None
    optional = True           # a helper: where it does not exist, its callers are verified with whatever they call
    def __init__(self):
        self.name = T_ + self.fn
        super().__init__()
    def setup(self, v, st):
        a, b = fresh('a'), fresh('b')
        st.add(a >= 0, a < U64, b >= 0, b < U64)
        return [(st, [a, b])]
    def havoc(self, c):
        r = fresh(self.fn); c.new.add(r >= 0, r < U64); c.res = [r]
    def post(self, c):
        return [Cl('SIZE', self.what, Eq(c.res[0], satu(self.val(I_(c.args[0]), I_(c.args[1])))))]

class AddBounds(Bound):
    fn, what = 'addBounds', 'the sum, or the largest length if it does not fit'
    def val(self, a, b): return a + b

class MulBounds(Bound):
    fn, what = 'mulBounds', 'the product, or the largest length if it does not fit'
    def val(self, a, b): return I_(Mul(a, b))

ALL = [AddBounds, MulBounds]
