"""Symbolic execution / verification-condition generation over go/ssa (JSON from tools/ssadump).

Every function under contract is executed symbolically, once, over all inputs: loops are cut at
their header with inductive invariants (found among contract-supplied templates), calls to functions
with a contract use the contract only, all other functions of the module are inlined, everything
outside the module is a declared external (see externals.py).  Machine integers are mathematical
integers with explicit wrap-around."""
import json, time, itertools, os
import z3

def _multipattern(*a, _mk=z3.MultiPattern):
    # z3.MultiPattern drops the terms it is given before the pattern refers to them; a keeps them alive
    return _mk(*a)
z3.MultiPattern = _multipattern

U64 = 1 << 64
I63 = 1 << 63

# ---------------------------------------------------------------- sorts and functions
Heap = z3.DeclareSort('Heap')
Desc = z3.DeclareSort('Desc')
Val = z3.DeclareSort('Val')
Str = z3.DeclareSort('Str')      # a byte stream (the input or the output)
BA = z3.DeclareSort('BA')        # contents of a fixed byte array
RT = z3.DeclareSort('RT')        # reflect.Type
Hf = z3.DeclareSort('Hf')        # a hash function / MerkleFn
Txt = z3.DeclareSort('Txt')      # strings
I = z3.IntSort()
Bo = z3.BoolSort()

def F(name, *sorts):
    return z3.Function(name, *sorts)

B = F('B', Heap, I, I)           # byte at address
Wd = F('Wd', Heap, I, I)         # 8-byte word at address
at = F('at', Str, I, I)          # byte of a stream
rb = F('rb', BA, I, I)           # byte of an array
ba_zero = z3.Const('ba_zero', BA)
ba_set = F('ba_set', BA, I, I, BA)
mul = F('mul', I, I, I)
divi = F('divi', I, I, I)
modi = F('modi', I, I, I)
pow2 = F('pow2', I, I)
sh = F('sh', I, I, I)            # x >> j
lb = F('lb', I, I, I)            # i-th little-endian byte of x
LE = z3.Const('LE', Bo)          # the machine is little-endian

def axioms():
    x, y, n, i, j, k, e = z3.Ints('x y n i j k e')
    b = z3.Const('b', BA)
    h = z3.Const('h', Heap); w = z3.Const('w', Str)
    FA = z3.ForAll
    ax = [
        FA([h, x], z3.And(B(h, x) >= 0, B(h, x) < 256), patterns=[B(h, x)]),
        FA([h, x], z3.And(Wd(h, x) >= -I63, Wd(h, x) < U64), patterns=[Wd(h, x)]),
        FA([w, x], z3.And(at(w, x) >= 0, at(w, x) < 256), patterns=[at(w, x)]),
        FA([b, x], z3.And(rb(b, x) >= 0, rb(b, x) < 256), patterns=[rb(b, x)]),
        FA([x], rb(ba_zero, x) == 0, patterns=[rb(ba_zero, x)]),
        FA([b, i, x, j], z3.Implies(z3.And(x >= 0, x < 256), rb(ba_set(b, i, x), j) == z3.If(i == j, x, rb(b, j))),
           patterns=[rb(ba_set(b, i, x), j)]),
        # products of non-negative numbers
        FA([x, y], z3.Implies(z3.And(x >= 0, y >= 0), mul(x, y) >= 0), patterns=[mul(x, y)]),
        FA([y], mul(0, y) == 0, patterns=[mul(0, y)]),
        FA([x, y], z3.Implies(x == 0, mul(x, y) == 0), patterns=[mul(x, y)]),
        FA([x, y], z3.Implies(y == 0, mul(x, y) == 0), patterns=[mul(x, y)]),
        FA([x, y], z3.Implies(x == 1, mul(x, y) == y), patterns=[mul(x, y)]),
        FA([x, y], z3.Implies(y == 1, mul(x, y) == x), patterns=[mul(x, y)]),
        FA([x, y], z3.Implies(z3.And(x >= 1, y >= 0), mul(x, y) >= y), patterns=[mul(x, y)]),
        FA([x, n, e], z3.Implies(z3.And(e >= 0, x < n), mul(x, e) + e <= mul(n, e)),
           patterns=[z3.MultiPattern(mul(x, e), mul(n, e))]),
        FA([x, n, e], z3.Implies(n == x + 1, mul(n, e) == mul(x, e) + e),
           patterns=[z3.MultiPattern(mul(x, e), mul(n, e))]),
        FA([x, n, e], z3.Implies(z3.And(x >= 0, n >= 0, e >= 0, x <= n), mul(e, x) <= mul(e, n)),
           patterns=[z3.MultiPattern(mul(e, x), mul(e, n))]),
        FA([x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(modi(x, y) >= 0, modi(x, y) < y, divi(x, y) >= 0, divi(x, y) <= x, z3.Implies(y >= 2, 2 * divi(x, y) <= x),
                                                            mul(divi(x, y), y) + modi(x, y) == x)), patterns=[divi(x, y)]),
        FA([x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(modi(x, y) >= 0, modi(x, y) < y, modi(x, y) <= x,
                                                            mul(divi(x, y), y) + modi(x, y) == x)), patterns=[modi(x, y)]),
        FA([n, e, y], z3.Implies(z3.And(n >= 0, e > 0, y == mul(n, e)), z3.And(divi(y, e) == n, modi(y, e) == 0)),
           patterns=[z3.MultiPattern(mul(n, e), divi(y, e)), z3.MultiPattern(mul(n, e), modi(y, e))]),
        # shifts of non-negative numbers
        FA([j], pow2(j) >= 1, patterns=[pow2(j)]),
        pow2(0) == 1,
        FA([x, y], mul(x, y) == mul(y, x), patterns=[mul(x, y)]),
        FA([x], sh(x, 0) == x, patterns=[sh(x, 0)]),
        FA([x, j], z3.Implies(x >= 0, z3.And(sh(x, j) >= 0, sh(x, j) <= x)), patterns=[sh(x, j)]),
        FA([x, i], z3.And(lb(x, i) >= 0, lb(x, i) < 256), patterns=[lb(x, i)]),
    ]
    for q in range(0, 65):
        ax.append(pow2(q) == 1 << q)
    return ax

_AX = None
def AX():
    global _AX
    if _AX is None:
        _AX = axioms()
    return _AX

_ctr = itertools.count()
def fresh(name, sort=None):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort if sort is not None else I)

def isz(x):
    return isinstance(x, z3.ExprRef)

def I_(x):
    if isinstance(x, bool):
        raise TypeError('bool as int')
    return z3.IntVal(x) if isinstance(x, int) else x

def B_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]

def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]

def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def Imp(a, b):
    if a is True: return b
    if a is False: return True
    if b is True: return True
    return z3.Implies(a, B_(b))

def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) or isinstance(b, bool):
        return z3.If(c, B_(a), B_(b))
    return z3.If(c, I_(a) if isinstance(a, int) else a, I_(b) if isinstance(b, int) else b)

def Eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    if isinstance(a, int): a = z3.IntVal(a)
    if isinstance(b, int): b = z3.IntVal(b)
    if a.eq(b): return True
    return a == b

def Cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = I_(a), I_(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

def Mul(a, b):
    """product of two integers, symbolic products through the axiomatised mul"""
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isz(a) and z3.is_int_value(a): a = a.as_long()
    if isz(b) and z3.is_int_value(b): b = b.as_long()
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): return a * b if a not in (0, 1) else (0 if a == 0 else b)
    if isinstance(b, int): return a * b if b not in (0, 1) else (0 if b == 0 else a)
    return mul(a, b)

def Div(a, b):
    if isinstance(a, int) and isinstance(b, int): return a // b
    if isinstance(b, int):
        if b > 1 and isz(a) and a.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
            return a.arg(0) / z3.IntVal(a.arg(1).as_long() * b)
        return I_(a) / z3.IntVal(b) if b != 1 else a
    return divi(I_(a), b)

def Mod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    if isinstance(b, int): return I_(a) % z3.IntVal(b) if b != 1 else 0
    return modi(I_(a), b)

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('obj', 'path')
    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path
    def __repr__(self): return 'Ptr(%s%r)' % (self.obj, self.path)

class SliceV:
    """base: Ptr to an array object, ('user', addr) memory behind unsafe pointers, or None (nil slice)"""
    __slots__ = ('base', 'off', 'len', 'cap')
    def __init__(self, base, off, len, cap):
        self.base, self.off, self.len, self.cap = base, off, len, cap
    def __repr__(self): return 'Slice(%r,%s,%s,%s)' % (self.base, self.off, self.len, self.cap)

class StructV:
    __slots__ = ('f',)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return 'Struct%r' % (self.f,)

class TupV:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)

class IfaceV:      # interface holding a value of a known dynamic type
    __slots__ = ('typ', 'val')
    def __init__(self, typ, val): self.typ, self.val = typ, val
    def __repr__(self): return 'Iface(%s,%r)' % (self.typ, self.val)

class AbsI:        # abstract interface value: kind in 'ssz','merkle','reader','writer','rtype',...
    __slots__ = ('kind', 't', 'x')
    def __init__(self, kind, t, x=None): self.kind, self.t, self.x = kind, t, x
    def __repr__(self): return 'AbsI(%s,%s)' % (self.kind, self.t)

class ErrV:        # error value, nil iff isnil
    __slots__ = ('isnil',)
    def __init__(self, isnil): self.isnil = isnil
    def __repr__(self): return 'Err(nil=%s)' % self.isnil

class NilV:        # nil func / interface
    def __repr__(self): return 'nil'
NIL = NilV()

class JunkV:       # a value that must not be looked at (left over from an earlier iteration)
    def __repr__(self): return 'junk'
JUNK = JunkV()

class Clo:
    __slots__ = ('fn', 'bind')
    def __init__(self, fn, bind=()): self.fn, self.bind = fn, tuple(bind)
    def __repr__(self): return 'Clo(%s)' % self.fn

class AbsFn:
    __slots__ = ('tag', 'data')
    def __init__(self, tag, data=None): self.tag, self.data = tag, data
    def __repr__(self): return 'AbsFn(%s)' % self.tag

class TxtV:        # string: concrete python str, or abstract term
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Txt(%r)' % (self.s,)

class SeqV:
    """contents of an array object whose elements are structs: get(i) -> value"""
    __slots__ = ('get', 'key')
    def __init__(self, get, key): self.get, self.key = get, key

class Unsupported(Exception):
    pass

class Undecided(Exception):
    """the verifier cannot go on with this function"""
    pass

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('pc', 'mem', 'g', 'own', 'tags')
    def __init__(self):
        self.pc = []        # z3 facts
        self.mem = {}       # object id -> content
        self.g = {}         # ghosts: H, rpos, wpos, ...
        self.own = []       # accessible user memory [(lo, hi)]
        self.tags = {}
    def copy(self):
        s = State()
        s.pc = list(self.pc); s.mem = dict(self.mem); s.g = dict(self.g); s.own = list(self.own); s.tags = dict(self.tags)
        return s
    def add(self, *fs):
        for f in fs:
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            self.pc.append(f)

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.funcs, self.methods = d['types'], d['funcs'], d['methods']
        self.tbystr = {t['str']: i for i, t in enumerate(self.types)}
        for f in self.funcs.values():
            self._loops(f)
    def T(self, i): return self.types[i]
    def _loops(self, f):
        bl = f['blocks']
        n = len(bl)
        f['loops'] = {}
        if not n: return
        # dominators
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = bl[b]['preds']
                nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        for b in range(n):
            for s in bl[b]['succs']:
                if s in dom[b]:
                    body = f['loops'].setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(bl[x]['preds'])

BASIC = {'uint8': (0, 8), 'byte': (0, 8), 'uint16': (0, 16), 'uint32': (0, 32), 'uint64': (0, 64), 'uint': (0, 64), 'uintptr': (0, 64),
         'int8': (1, 8), 'int16': (1, 16), 'int32': (1, 32), 'rune': (1, 32), 'int64': (1, 64), 'int': (1, 64),
         'untyped int': (1, 64), 'untyped rune': (1, 32)}
def rng(basic):
    s, w = BASIC[basic]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

def wrap(t, basic, st=None):
    lo, hi = rng(basic)
    if isinstance(t, int):
        m = t & ((1 << BASIC[basic][1]) - 1)
        return m - (1 << BASIC[basic][1]) if m > hi else m
    M = hi - lo + 1
    return z3.If(t > hi, t - M, z3.If(t < lo, t + M, t))   # for sums/differences of in-range values

def wrapmod(t, basic):
    lo, hi = rng(basic)
    if isinstance(t, int): return wrap(t, basic)
    M = hi - lo + 1
    if lo == 0:
        return z3.If(z3.And(t >= 0, t <= hi), t, t % M)
    r = t % M
    return z3.If(z3.And(t >= lo, t <= hi), t, z3.If(r > hi, r - M, r))
