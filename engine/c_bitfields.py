"""Contracts of package bitfields (property C14)."""
from core import *
from spec import *
from contract import *
import z3
P = 'github.com/protolambda/zssz/bitfields.'

def byteslice(v, st, name='b'):
    """an arbitrary byte slice"""
    n = fresh(name + '_len'); cap = fresh(name + '_cap')
    st.add(n >= 0, n <= cap, cap < ADDR)
    u8 = v.p.tbystr.get('uint8', v.p.tbystr.get('byte'))
    o = v.new_obj(st, {'kind': 'array', 'elem': u8, 'len': None, 'str': 'backing'}, fresh(name, BA))
    return SliceV(Ptr(o), 0, n, cap)

def contents(st, s):
    return st.mem[s.base.obj]

class BF(Contract):
    fn = None
    params = ()      # kinds: 'b' byte slice, 'u64', 'u8', 'bool'
    def __init__(self):
        self.name = P + self.fn
        super().__init__()
    def setup(self, v, st):
        args = []
        for k in self.params:
            if k == 'b': args.append(byteslice(v, st))
            elif k == 'bool': args.append(fresh('v', Bo))
            else:
                x = fresh('x'); args.append(x)
                st.add(x >= 0, x < (U64 if k == 'u64' else 256))
        return [(st, args)]
    def havoc(self, c):
        if self.ret == 'u64':
            r = fresh(self.fn); c.new.add(r >= 0, r < U64); c.res = [r]
        elif self.ret == 'bool': c.res = [fresh(self.fn, Bo)]
        elif self.ret == 'err': c.res = [ErrV(fresh(self.fn, Bo))]
        else: c.res = []
    def A(self, c, n): return c.args[n]

def last_of(c, s):
    """last byte of a slice argument, in the old state"""
    return c.v.byte_src(c.old, s)(I_(s.len) - 1)

def bl_ok(n, last, limit):
    return And(n >= 1, last != 0, 8 * (n - 1) + bidx(last) <= limit)

class BitIndex(BF):
    fn = 'BitIndex'; params = ('u8',); ret = 'u64'
    unroll = True
    def post(self, c): return [Cl('BITS', 'result is the position of the highest set bit', Eq(c.res[0], bidx(I_(c.args[0]))))]

class GetBit(BF):
    fn = 'GetBit'; params = ('b', 'u64'); ret = 'bool'
    def pre(self, c): return [('BITS', 'bit index within the bytes', I_(c.args[1]) / 8 < c.args[0].len)]
    def post(self, c):
        i = I_(c.args[1]); src = c.v.byte_src(c.old, c.args[0])
        return [Cl('BITS', 'returns bit i', Eq(c.res[0], bitq(src(i / 8), i % 8) == 1))]

class SetBit(BF):
    fn = 'SetBit'; params = ('b', 'u64', 'bool'); ret = None
    def pre(self, c): return [('BITS', 'bit index within the bytes', I_(c.args[1]) / 8 < c.args[0].len)]
    def may_change(self, c): return {c.args[0].base.obj}, set()
    def havoc(self, c):
        s = c.args[0]; c.new.mem[s.base.obj] = fresh('set', BA); c.res = []
    def post(self, c):
        i = I_(c.args[1]); s = c.args[0]
        o, n = contents(c.old, s), c.v.named(c.new, contents(c.new, s))
        j = z3.Int('j'); q = z3.Int('q')
        return [Cl('BITS', 'all other bytes unchanged', z3.ForAll([j], z3.Implies(j != i / 8, rb(n, j) == rb(o, j)), patterns=[rb(n, j)])),
                Cl('BITS', 'bit i set to v, the other bits unchanged',
                   [Eq(bitq(rb(n, i / 8), z3.IntVal(q)), z3.If(i % 8 == q, z3.If(c.args[2], 1, 0), bitq(rb(o, i / 8), z3.IntVal(q)))) for q in range(8)])]

class BitlistLen(BF):
    fn = 'BitlistLen'; params = ('b',); ret = 'u64'
    def post(self, c):
        n = I_(c.args[0].len); last = last_of(c, c.args[0])
        return [Cl('BITS', 'length of the bitlist', Eq(c.res[0], z3.If(n == 0, 0, 8 * (n - 1) + bidx(last))))]

class BitlistCheck(BF):
    fn = 'BitlistCheck'; params = ('b', 'u64'); ret = 'err'
    def post(self, c):
        n = I_(c.args[0].len); last = last_of(c, c.args[0])
        return [Cl('BITS', 'accepts exactly the valid bitlists', Eq(c.res[0].isnil, bl_ok(n, last, I_(c.args[1]))))]

class BitlistCheckByteLen(BF):
    fn = 'BitlistCheckByteLen'; params = ('u64', 'u64'); ret = 'err'
    def post(self, c):
        n, lim = I_(c.args[0]), I_(c.args[1])
        return [Cl('BITS', 'accepts 1..limit/8+1 bytes', Eq(c.res[0].isnil, And(n >= 1, n <= lim / 8 + 1)))]

class BitlistCheckLastByte(BF):
    fn = 'BitlistCheckLastByte'; params = ('u8', 'u64'); ret = 'err'
    def post(self, c):
        b, lim = I_(c.args[0]), I_(c.args[1])
        return [Cl('BITS', 'delimiter present and not beyond the limit', Eq(c.res[0].isnil, And(b != 0, bidx(b) <= lim)))]

class BitvectorCheck(BF):
    fn = 'BitvectorCheck'; params = ('b', 'u64'); ret = 'err'
    def post(self, c):
        n = I_(c.args[0].len); last = last_of(c, c.args[0]); bits = I_(c.args[1])
        return [Cl('BITS', 'accepts exactly the valid bitvectors',
                   Eq(c.res[0].isnil, And(n == (bits + 7) / 8, Or(n == 0, bits % 8 == 0, last < p2of(bits % 8)))))]

class BitvectorCheckByteLen(BF):
    fn = 'BitvectorCheckByteLen'; params = ('u64', 'u64'); ret = 'err'
    def post(self, c):
        return [Cl('BITS', 'accepts ceil(n/8) bytes', Eq(c.res[0].isnil, I_(c.args[0]) == (I_(c.args[1]) + 7) / 8))]

class BitvectorCheckLastByte(BF):
    fn = 'BitvectorCheckLastByte'; params = ('u8', 'u64'); ret = 'err'
    def post(self, c):
        b, n = I_(c.args[0]), I_(c.args[1])
        return [Cl('BITS', 'unused bits are zero', Eq(c.res[0].isnil, And(n != 0, Or(n % 8 == 0, b < p2of(n % 8)))))]

class IsZeroBitlist(BF):
    fn = 'IsZeroBitlist'; params = ('b',); ret = 'bool'
    def post(self, c):
        s = c.args[0]; n = I_(s.len); src = c.v.byte_src(c.old, s); last = last_of(c, s); j = z3.Int('j')
        zero = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - 1), src(j) == 0), patterns=[src(j)])
        return [Cl('BITS', 'true exactly if no bit besides the delimiter is set',
                   Eq(c.res[0], Or(n == 0, And(zero, Or(last == 0, last == p2of(bidx(last)))))))]
    def templates(self, v, L, ivs):
        s = self.ctx.args[0]; src = v.byte_src(self.ctx.old, s); j = z3.Int('j')
        return [('the first k bytes are 0', lambda st, env, k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), src(j) == 0), patterns=[src(j)])),
                ('the k bytes before the last are 0', lambda st, env, k: z3.ForAll([j], z3.Implies(z3.And(j >= I_(s.len) - 1 - k, j >= 0, j < I_(s.len) - 1), src(j) == 0), patterns=[src(j)]))]

ALL = [BitIndex, GetBit, SetBit, BitlistLen, BitlistCheck, BitlistCheckByteLen, BitlistCheckLastByte,
       BitvectorCheck, BitvectorCheckByteLen, BitvectorCheckLastByte, IsZeroBitlist]
