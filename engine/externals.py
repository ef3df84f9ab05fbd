"""Handlers for functions outside the module (trusted models, listed in the evidence)."""
from core import *
from spec import *
import exec as X
import z3

EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d

@ext('fmt.Errorf', 'errors.New')
def _err(v, st, args, line):
    return [(st, [ErrV(False)])]

@ext('fmt.Sprintf')
def _sprintf(v, st, args, line):
    return [(st, [TxtV(fresh('fmt', Txt))])]

@ext('runtime.KeepAlive')
def _ka(v, st, args, line):
    return [(st, [])]

def put_le(w):
    def f(v, st, args, line):
        b, x = args[-2], args[-1]
        v.oblige(st, 'SAFE', 'PutUint: slice long enough', Cmp('>=', b.len, w), line)
        st.add(Cmp('>=', b.len, w))
        bs = v.bytes_of(st, x, w)
        v.write_range(st, b, w, lambda j: pick(bs, j), line, 'PutUint')
        return [(st, [])]
    return f

def pick(bs, j):
    if isinstance(j, int): return bs[j]
    r = I_(bs[-1])
    for q in reversed(range(len(bs) - 1)): r = z3.If(j == q, I_(bs[q]), r)
    return r

def get_le(w):
    def f(v, st, args, line):
        b = args[-1]
        v.oblige(st, 'SAFE', 'Uint: slice long enough', Cmp('>=', b.len, w), line)
        st.add(Cmp('>=', b.len, w))
        src = v.byte_src(st, b)
        return [(st, [v.compose(st, [src(z3.IntVal(q)) for q in range(w)])])]
    return f

for w, n in ((2, '16'), (4, '32'), (8, '64')):
    EXT['(encoding/binary.littleEndian).PutUint' + n] = put_le(w)
    EXT['(encoding/binary.littleEndian).Uint' + n] = get_le(w)

def bit_length(w):
    """math/bits.LenN: the least r with x < 2^r"""
    def f(v, st, args, line):
        x = args[0]
        if isinstance(x, int): return [(st, [x.bit_length()])]
        if w <= 16:
            r = z3.IntVal(w)
            for q in reversed(range(w)): r = z3.If(x < (1 << q), z3.IntVal(q), r)
            return [(st, [r])]
        r = fresh('bitlen')
        st.add(r >= 0, r <= w, x < pow2(r), (r == 0) == (x == 0), z3.Implies(r >= 1, pow2(r - 1) <= x))
        return [(st, [r])]
    return f

def leading_zeros(w):
    def f(v, st, args, line):
        (st, (r,)), = bit_length(w)(v, st, args, line)
        return [(st, [w - r])]
    return f

for w, n in ((8, '8'), (16, '16'), (32, '32'), (64, '64'), (64, '')):
    EXT['math/bits.Len' + n] = bit_length(w)
    EXT['math/bits.LeadingZeros' + n] = leading_zeros(w)

@ext('math/bits.Add64', 'math/bits.Add')
def _add64(v, st, args, line):
    t = I_(args[0]) + I_(args[1]) + I_(args[2])
    v.oblige(st, 'SAFE', 'Add64: the carry is 0 or 1', Cmp('<=', args[2], 1), line)
    r, c = fresh('sum'), fresh('carry')
    st.add(c >= 0, c <= 1, r >= 0, r < U64, r + c * U64 == t)
    return [(st, [r, c])]

@ext('math/bits.Sub64', 'math/bits.Sub')
def _sub64(v, st, args, line):
    t = I_(args[0]) - I_(args[1]) - I_(args[2])
    v.oblige(st, 'SAFE', 'Sub64: the borrow is 0 or 1', Cmp('<=', args[2], 1), line)
    r, c = fresh('diff'), fresh('borrow')
    st.add(c >= 0, c <= 1, r >= 0, r < U64, r - c * U64 == t)
    return [(st, [r, c])]

@ext('math/bits.Mul64', 'math/bits.Mul')
def _mul64(v, st, args, line):
    hi, lo = fresh('hi'), fresh('lo')
    st.add(hi >= 0, hi < U64, lo >= 0, lo < U64, hi * U64 + lo == I_(Mul(args[0], args[1])))
    return [(st, [hi, lo])]

@ext('math/bits.TrailingZeros8')
def _tz8(v, st, args, line):
    r = z3.IntVal(8)
    for q in reversed(range(8)): r = z3.If((I_(args[0]) / (1 << q)) % 2 == 1, z3.IntVal(q), r)
    return [(st, [r])]

GLOBALS = {}
