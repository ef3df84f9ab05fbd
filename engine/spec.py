"""Specification vocabulary: abstract type structures (the SSZ interface contract) and the
mathematical definition of every kind (serialization, validity, sizes, roots)."""
from core import *
import z3

# ---- abstract type structures: what the SSZ interface promises about an arbitrary element type d
isfix = F('isfix', Desc, Bo)
flen = F('flen', Desc, I); minl = F('minl', Desc, I); maxl = F('maxl', Desc, I)
fmin = F('fmin', Desc, I); fmax = F('fmax', Desc, I); memsz = F('memsz', Desc, I)
V = F('V', Heap, Desc, I, Val)               # the value of type d at an address
Ty = F('Ty', Heap, Desc, I, Bo)              # the memory at an address holds a (Go-typed) value of type d
Mm = F('Mm', Desc, Val, Str, I, I, Bo)       # W[a,b) is the serialization of the value
valid = F('valid', Desc, Val, Bo)            # the value respects all limits and validity rules
decd = F('decd', Desc, Val, Bo)              # valid, and no list in it has elements of size zero (these cannot be decoded)
size = F('size', Desc, Val, I)
can = F('can', Desc, Str, I, I, Bo)          # W[a,b) is the serialization of some valid value
root = F('root', Hf, Desc, Val, BA)
# merkle
combi = F('combi', Hf, BA, BA, BA)
mixin = F('mixin', Hf, BA, I, BA)
LF = z3.DeclareSort('LF')                    # leaf functions
leaf = F('leaf', LF, I, BA)
mroot = F('mroot', Hf, LF, I, I, BA)         # Merkle root of count leaves padded to limit
idx = F('idx', I, I)                         # instantiation marker
S = z3.Const('S', Str)                       # the input stream (what the reader delivers, in order)
SER = z3.Const('SER', Str)                   # the serialization being written
AV = z3.Const('AV', I)                       # the reader delivers S[0..AV) and then fails or ends
# reflect
rkind = F('rkind', RT, I); relem = F('relem', RT, RT); rptr = F('rptr', RT, RT)
rlen = F('rlen', RT, I); rsize = F('rsize', RT, I); rlimit = F('rlimit', RT, I); rbitlen = F('rbitlen', RT, I)
rimpl = F('rimpl', RT, RT, Bo); rnf = F('rnf', RT, I)
sd = F('sd', RT, Desc)                       # the type structure the factory gives for a Go type
LISTT = z3.Const('LISTT', RT); BITLISTT = z3.Const('BITLISTT', RT); BITVECTORT = z3.Const('BITVECTORT', RT)
BYTESLICE = z3.Const('BYTESLICE', RT)

BIG = 1 << 62
ADDR = 1 << 48            # the address space
U32 = 1 << 32

def satu(x):
    """a length bound as an unsigned 64-bit integer: the largest one if it does not fit"""
    return z3.If(I_(x) < U64, I_(x), z3.IntVal(U64 - 1))

class All:
    """forall lo <= j < hi: body(j)"""
    def __init__(self, lo, hi, body): self.lo, self.hi, self.body = lo, hi, body

def mark(*ts):
    return [idx(I_(t)) == 0 for t in ts]

def hyps(items, v=None):
    out = []
    for it in items:
        if isinstance(it, All):
            j = z3.Int('j')
            b = it.body(j)
            if isinstance(b, list): b = And(*[x for x in b])
            out.append(z3.ForAll([j], z3.Implies(z3.And(I_(it.lo) <= j, j < it.hi), B_(b)), patterns=[idx(j)]))
        elif it is not True:
            out.append(B_(it))
    return out

def goals(items):
    """-> [(extra hypotheses, goal)]"""
    out = []
    for it in items:
        if isinstance(it, All):
            j = fresh('sk')
            b = it.body(j)
            for x in (b if isinstance(b, list) else [b]):
                out.append(([I_(it.lo) <= j, j < it.hi] + mark(j), x))
        else:
            out.append(([], it))
    return out

def offm(W, x, v):
    """the 4 bytes of W at x are the little-endian form of v"""
    return And(*([at(W, x + q) == lb(v, q) for q in range(4)] + [v >= 0, v < U32, v == LE4(W, x)]))

def LE4(W, x):
    return at(W, x) + 256 * at(W, x + 1) + 65536 * at(W, x + 2) + 16777216 * at(W, x + 3)

def lbytes_def(v, w):
    return Imp(And(v >= 0, v < (1 << (8 * w))), v == sum(lb(v, q) * (1 << (8 * q)) for q in range(w)))

def abs_axioms():
    d = z3.Const('d', Desc); v = z3.Const('v', Val); W = z3.Const('W', Str); a, b, j, n = z3.Ints('a b j n')
    t = z3.Const('t', RT)
    FA = z3.ForAll
    return [
        FA([d], z3.And(minl(d) >= 0, minl(d) <= maxl(d), minl(d) < BIG, flen(d) >= 0, flen(d) <= minl(d)), patterns=[minl(d)]),
        FA([d], z3.And(minl(d) >= 0, minl(d) <= maxl(d), minl(d) < BIG, flen(d) >= 0, flen(d) <= minl(d)), patterns=[maxl(d)]),
        FA([d], z3.And(minl(d) >= 0, minl(d) <= maxl(d), minl(d) < BIG, flen(d) >= 0, flen(d) <= minl(d)), patterns=[flen(d)]),
        FA([d], z3.Implies(isfix(d), z3.And(minl(d) == flen(d), maxl(d) == flen(d), fmin(d) == flen(d), fmax(d) == flen(d))), patterns=[isfix(d)]),
        FA([d], z3.And(fmin(d) >= 0, fmin(d) <= fmax(d), fmin(d) < BIG), patterns=[fmin(d)]),
        FA([d], z3.And(fmin(d) >= 0, fmin(d) <= fmax(d), fmin(d) < BIG), patterns=[fmax(d)]),
        FA([d], z3.And(memsz(d) >= 0, memsz(d) < BIG, z3.Implies(z3.And(isfix(d), flen(d) > 0), memsz(d) > 0)), patterns=[memsz(d)]),
        FA([d, v, W, a, b], z3.Implies(Mm(d, v, W, a, b), b == a + size(d, v)), patterns=[Mm(d, v, W, a, b)]),
        FA([d, v], z3.And(size(d, v) >= 0, z3.Implies(valid(d, v), z3.And(minl(d) <= size(d, v), size(d, v) <= maxl(d))),
                          z3.Implies(isfix(d), size(d, v) == flen(d))), patterns=[size(d, v)]),
        FA([d, v], z3.Implies(decd(d, v), valid(d, v)), patterns=[decd(d, v)]),
        FA([d, W, a, b], z3.Implies(can(d, W, a, b), z3.And(b - a >= minl(d), b - a <= maxl(d))), patterns=[can(d, W, a, b)]),
        # Go types
        FA([t], z3.And(rsize(t) >= 0, rsize(t) < (1 << 48)), patterns=[rsize(t)]),
        FA([t], z3.And(rlen(t) >= 0, rlen(t) < (1 << 48)), patterns=[rlen(t)]),
        FA([t], z3.And(rlimit(t) >= 0, rlimit(t) < U64), patterns=[rlimit(t)]),
        FA([t], z3.And(rbitlen(t) >= 0, rbitlen(t) < U64), patterns=[rbitlen(t)]),
        FA([t], z3.And(rkind(t) >= 0, rkind(t) <= 26), patterns=[rkind(t)]),
        FA([t], relem(rptr(t)) == t, patterns=[rptr(t)]),
        FA([t], memsz(sd(t)) == rsize(t), patterns=[sd(t)]),
        rkind(relem(BYTESLICE)) == 8, rsize(relem(BYTESLICE)) == 1,
        FA([t], z3.Implies(z3.Or(rkind(t) == 1, rkind(t) == 8), rsize(t) == 1), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 9, rsize(t) == 2), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 10, rsize(t) == 4), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 11, rsize(t) == 8), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 22, rsize(t) == 8), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 23, rsize(t) == 24), patterns=[rkind(t)]),
        FA([t], z3.Implies(rkind(t) == 17, rsize(t) == mul(rlen(t), rsize(relem(t)))), patterns=[rkind(t)]),
        FA([j], idx(j) == 0, patterns=[idx(j)]),
        at(S, 0) == at(S, 0), AV >= 0, AV < BIG * 2,
    ]

KIND = {'bool': 1, 'uint8': 8, 'uint16': 9, 'uint32': 10, 'uint64': 11, 'array': 17, 'ptr': 22, 'slice': 23, 'struct': 25}

def bidx(v):
    """position of the highest set bit of a byte, 0 for 0"""
    return z3.If(v >= 128, 7, z3.If(v >= 64, 6, z3.If(v >= 32, 5, z3.If(v >= 16, 4, z3.If(v >= 8, 3, z3.If(v >= 4, 2, z3.If(v >= 2, 1, z3.IntVal(0))))))))

def p2of(b, n=9):
    r = z3.IntVal(1 << (n - 1))
    for q in reversed(range(n - 1)):
        r = z3.If(b == q, z3.IntVal(1 << q), r)
    return r

def bitq(x, q):
    """bit q (a term 0..7) of the byte x"""
    r = (x / 128) % 2
    for k in reversed(range(7)):
        r = z3.If(q == k, (x / (1 << k)) % 2, r)
    return r
