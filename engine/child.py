"""The contract of an arbitrary element type (the SSZ interface): what the methods of every kind are verified to do
is what a composite may use about its elements.  This is the induction over the nesting of types."""
from core import *
from spec import *
import exec as X
import world
from world import T_
import z3

def needs(v, st, d, p, line):
    H = st.g['H']
    v.oblige(st, 'SAFE', 'element memory holds a value of the element type', Ty(H, d, p), line)
    v.oblige(st, 'SAFE', 'element memory is part of the value', v.in_own(st, p, memsz(d)), line)
    st.add(Ty(H, d, p))

def c_sizeof(v, st, recv, args, line):
    d, p = recv.t, I_(args[0])
    needs(v, st, d, p, line)
    r = size(d, V(st.g['H'], d, p))
    st.add(r < BIG)
    return [(st, [r])]

def c_encode(v, st, recv, args, line):
    d, (ew, p) = recv.t, args
    W = world.W; p = I_(p)
    needs(v, st, d, p, line)
    H = st.g['H']; val = V(H, d, p); w0 = st.g['wpos']; n = size(d, val)
    v.oblige(st, 'WFAIL', 'no write after a failed write', Not(st.g['failed']), line)
    v.oblige(st, 'ENC', 'the element is the next part of the serialization', Mm(d, val, SER, w0, w0 + n), line)
    v.oblige(st, 'PRE', 'element size fits an offset', n < U32, line)
    n0 = W.written(v, st, ew)
    W.havoc_ew(v, st, ew)
    w1 = st.g['wpos'] = fresh('wpos'); st.g['failed'] = fresh('failed', Bo)
    n1 = W.written(v, st, ew); ok = fresh('eok', Bo)
    st.add(z3.Implies(ok, w1 == w0 + n), ok == z3.Not(st.g['failed']), w1 >= w0, w1 <= w0 + n, I_(n1) - n0 == w1 - w0)
    return [(st, [ErrV(ok)])]

def dec_common(v, st, d, dr, line):
    W = world.W
    for n, f in enumerate(W.dr_inv(v, st, dr)):
        v.oblige(st, 'PRE', 'call of an element: reader invariant %d' % n, f, line)
        st.add(B_(f))
    i0, mx, fz, rd = W.dr(v, st, dr)
    if not isinstance(fz, bool): raise Unsupported('reader in unknown mode')
    return I_(i0), I_(mx), fz, rd

def conf_facts(v, st, dr, i0, mx, r0, ok):
    i1 = I_(world.W.dr(v, st, dr)[0]); r1 = st.g['rpos']
    st.add(i0 <= i1, i1 <= mx, r0 <= r1, r1 <= r0 + (mx - i0), z3.Implies(ok, z3.And(r1 - r0 == i1 - i0, r1 <= AV)))
    return i1, r1

def heap_after(v, st, d, p):
    """a heap in which only the value of type d at p changed (what it owns included)"""
    H = st.g['H']; H2 = fresh('H', Heap); ms = memsz(d)
    x = z3.Int('x'); d2 = z3.Const('d2', Desc)
    def keep(n): return z3.And(z3.Or(x + n <= p, x >= p + ms, ms <= 0), B_(v.in_own(st, x, n)))
    st.add(z3.ForAll([x], z3.Implies(keep(1), B(H2, x) == B(H, x)), patterns=[B(H2, x)]),
           z3.ForAll([x], z3.Implies(keep(8), Wd(H2, x) == Wd(H, x)), patterns=[Wd(H2, x)]),
           z3.ForAll([d2, x], z3.Implies(keep(memsz(d2)), V(H2, d2, x) == V(H, d2, x)), patterns=[V(H2, d2, x)]),
           z3.ForAll([d2, x], z3.Implies(keep(memsz(d2)), Ty(H2, d2, x) == Ty(H, d2, x)), patterns=[Ty(H2, d2, x)]),
           Ty(H2, d, p))
    st.g['H'] = H2
    st.tags['userstore'] = True
    return H2

def c_decode(v, st, recv, args, line):
    d, (dr, p) = recv.t, args
    W = world.W; p = I_(p)
    i0, mx, fz, rd = dec_common(v, st, d, dr, line)
    needs(v, st, d, p, line)
    r0 = st.g['rpos']
    if fz: v.oblige(st, 'PRE', 'call of an element: FuzzMinLen bytes are within the limit', mx - i0 >= fmin(d), line)
    else: v.oblige(st, 'PRE', 'call of an element: variable-size elements start their own scope', z3.Or(isfix(d), i0 == 0), line)
    v.oblige(st, 'PRE', 'call of an element: bounded span', mx - i0 < BIG * 2, line)
    H2 = heap_after(v, st, d, p)
    W.havoc_dr(v, st, dr); st.g['rpos'] = fresh('rpos')
    v.type_of_dr(st, dr) if hasattr(v, 'type_of_dr') else None
    ok = fresh('dok', Bo)
    i1, r1 = conf_facts(v, st, dr, i0, mx, r0, ok)
    val = V(H2, d, p)
    st.add(z3.Implies(ok, decd(d, val)))
    if fz:
        cc = AV >= r0 + (mx - i0)
        st.add(z3.Implies(cc, ok), z3.Implies(ok, z3.And(i1 - i0 >= fmin(d), i1 - i0 <= fmax(d))))
    else:
        st.add(z3.Implies(ok, Mm(d, val, S, r0, r1)))
        complete(st, d, r0, i0, mx, ok, i1)
    return [(st, [ErrV(ok)])]

def complete(st, d, r0, i0, mx, ok, i1):
    for fx, w in ((isfix(d), flen(d)), (z3.Not(isfix(d)), mx - i0)):
        st.add(z3.Implies(z3.And(fx, can(d, S, r0, r0 + w), mx - i0 >= w, AV >= r0 + w), z3.And(ok, i1 == i0 + w)))

def c_drycheck(v, st, recv, args, line):
    d, (dr,) = recv.t, args
    i0, mx, fz, rd = dec_common(v, st, d, dr, line)
    if fz: raise Unsupported('DryCheck in fuzz mode')
    v.oblige(st, 'PRE', 'call of an element: variable-size elements start their own scope', z3.Or(isfix(d), i0 == 0), line)
    r0 = st.g['rpos']
    world.W.havoc_dr(v, st, dr); st.g['rpos'] = fresh('rpos')
    ok = fresh('dok', Bo)
    i1, r1 = conf_facts(v, st, dr, i0, mx, r0, ok)
    st.add(z3.Implies(ok, can(d, S, r0, r1)))
    complete(st, d, r0, i0, mx, ok, i1)
    return [(st, [ErrV(ok)])]

def c_htr(v, st, recv, args, line):
    d, (h, p) = recv.t, args
    if not (isinstance(h, AbsI) and h.kind == 'merkle'): raise Unsupported('hash function %r' % (h,))
    needs(v, st, d, I_(p), line)
    v.oblige(st, 'PRE', 'call of an element: the value is within its limits', valid(d, V(st.g['H'], d, I_(p))), line)
    return [(st, [root(h.t, d, V(st.g['H'], d, I_(p)))])]

def of(f): return lambda v, st, recv, args, line: [(st, [f(recv.t)])]
def ofsat(f): return lambda v, st, recv, args, line: [(st, [satu(f(recv.t))])]

frefuse = F('frefuse', RT, Bo)     # the factory refuses the type

class FactoryC:
    """types.SSZFactory called for an element type: an error, or the type structure of that type"""
    name = T_ + 'SSZFactory'
    def apply(self, v, st, args, line):
        t = world.rt(args[0])
        s2 = st.copy()
        st.add(z3.Not(frefuse(t))); s2.add(frefuse(t))
        return [(st, [AbsI('ssz', sd(t)), ErrV(True)]), (s2, [NIL, ErrV(False)])]

def setup(v):
    for m, f in (('IsFixed', isfix), ('FixedLen', flen), ('MinLen', minl), ('FuzzMinLen', fmin)):
        v.invokes[('ssz', m)] = of(f)
    for m, f in (('MaxLen', maxl), ('FuzzMaxLen', fmax)): v.invokes[('ssz', m)] = ofsat(f)
    v.invokes.update({('ssz', 'SizeOf'): c_sizeof, ('ssz', 'Encode'): c_encode, ('ssz', 'Decode'): c_decode, ('ssz', 'DryCheck'): c_drycheck,
                      ('ssz', 'HashTreeRoot'): c_htr})
    v.contracts = dict(v.contracts); v.contracts[FactoryC.name] = FactoryC()
