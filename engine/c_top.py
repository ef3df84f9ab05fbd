"""Package zssz: the functions users call, for an arbitrary type structure (the SSZ interface contract)."""
from core import *
from spec import *
from contract import *
import world, child
from world import M
import z3

D = z3.Const('D', Desc)
REND = z3.Const('REND', I)                   # an unlimited reader
sroot = F('sroot', Hf, Desc, Val, BA)        # SigningRoot

def c_signing(v, st, recv, args, line):
    h, p = args
    if not (isinstance(h, AbsI) and h.kind == 'merkle'): raise Unsupported('hash function %r' % (h,))
    child.needs(v, st, recv.t, I_(p), line)
    return [(st, [sroot(h.t, recv.t, V(st.g['H'], recv.t, I_(p)))])]

class Top(Contract):
    fn = None
    def __init__(self):
        self.name = M.rstrip('/') + '.' + self.fn
        super().__init__()
    def value(self, v, st):
        """an arbitrary value of the type, passed as a pointer in an interface"""
        H = fresh('H', Heap); st.g['H'] = H
        p = fresh('p')
        st.add(p > 0, p + memsz(D) < ADDR, Ty(H, D, p))
        st.own = [(p, p + memsz(D))]
        self.p = p
        return AbsI('any', p)
    def reader(self, v, st):
        st.g['rpos'] = fresh('rpos0')
        st.add(st.g['rpos'] >= 0, st.g['rpos'] <= AV, REND >= AV + U64)
        n = fresh('bytesLen'); st.add(n >= 0, n < I63)
        self.n = n
        return AbsI('reader', REND), n
    def val(self, st): return V(st.g['H'], D, self.p)

class Reading(Top):
    def consumed(self, c, ok):
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']
        return [Cl('CONF', 'at most bytesLen bytes are taken from the reader', And(r0 <= r1, r1 <= r0 + self.n))]
    def accepted(self, c):
        """the input is complete: a hypothesis"""
        r0 = c.old.g['rpos']
        return [can(D, S, r0, r0 + self.n), AV >= r0 + self.n]

class Decode(Reading):
    fn = 'Decode'
    def setup(self, v, st):
        val = self.value(v, st); r, n = self.reader(v, st)
        return [(st, [r, n, val, AbsI('ssz', D)])]
    def may_change(self, c): return set(), {'H', 'rpos'}
    def post(self, c):
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']; ok = B_(c.res[0].isnil)
        return self.consumed(c, ok) + [
            Cl('CONF', 'success: exactly bytesLen bytes are consumed', And(r1 == r0 + self.n, r1 <= AV), [ok]),
            Cl('SOUND', 'success: the bytes are the serialization of the value', Mm(D, self.val(c.new), S, r0, r0 + self.n), [ok]),
            Cl('SOUND', 'success: the value is valid', decd(D, self.val(c.new)), [ok]),
            Cl('COMPL', 'the serialization of a valid value is accepted', ok, self.accepted(c)),
            Cl('SAFE', 'the destination holds a value of its type', Ty(c.new.g['H'], D, self.p))]

class DryCheck(Reading):
    fn = 'DryCheck'
    def setup(self, v, st):
        r, n = self.reader(v, st)
        return [(st, [r, n, AbsI('ssz', D)])]
    def may_change(self, c): return set(), {'rpos'}
    def post(self, c):
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']; ok = B_(c.res[0].isnil)
        return self.consumed(c, ok) + [
            Cl('CONF', 'success: exactly bytesLen bytes are consumed', And(r1 == r0 + self.n, r1 <= AV), [ok]),
            Cl('SOUND', 'success: the bytes are the serialization of some valid value', can(D, S, r0, r0 + self.n), [ok]),
            Cl('COMPL', 'the serialization of a valid value is accepted', ok, self.accepted(c))]

class DecodeFuzzBytes(Reading):
    fn = 'DecodeFuzzBytes'
    def setup(self, v, st):
        val = self.value(v, st); r, n = self.reader(v, st)
        return [(st, [r, n, val, AbsI('ssz', D)])]
    def may_change(self, c): return set(), {'H', 'rpos'}
    def post(self, c):
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']; n, e = c.res; ok = B_(e.isnil)
        return self.consumed(c, ok) + [
            Cl('FUZZ', 'enough input: no error', ok, [self.n >= fmin(D), AV >= r0 + self.n]),
            Cl('FUZZ', 'less than FuzzMinLen: an error, nothing read', And(Not(ok), r1 == r0), [self.n < fmin(D)]),
            Cl('FUZZ', 'success: the count of bytes read is exact', And(I_(n) == r1 - r0, r1 <= AV), [ok]),
            Cl('FUZZ', 'reads at least FuzzMinLen and at most FuzzMaxLen', And(I_(n) >= fmin(D), I_(n) <= fmax(D)), [ok]),
            Cl('FUZZ', 'leaves a valid value', decd(D, self.val(c.new)), [ok]),
            Cl('SAFE', 'the destination holds a value of its type', Ty(c.new.g['H'], D, self.p))]

class SizeOf(Top):
    fn = 'SizeOf'
    def setup(self, v, st): return [(st, [self.value(v, st), AbsI('ssz', D)])]
    def post(self, c): return [Cl('SIZE', 'the size of the serialization', Eq(c.res[0], size(D, self.val(c.old))))]

class Encode(Top):
    fn = 'Encode'
    def setup(self, v, st):
        val = self.value(v, st)
        st.g['wpos'] = fresh('wpos0'); st.g['failed'] = False
        n = size(D, self.val(st))
        st.add(st.g['wpos'] >= 0, st.g['wpos'] < BIG, n < U32, Mm(D, self.val(st), SER, st.g['wpos'], st.g['wpos'] + n))
        return [(st, [AbsI('writer', None), val, AbsI('ssz', D)])]
    def may_change(self, c): return set(), {'wpos', 'failed'}
    def post(self, c):
        w0, w1 = c.old.g['wpos'], c.new.g['wpos']; n, e = c.res; ok = B_(e.isnil)
        sz = size(D, self.val(c.old))
        return [Cl('ENC', 'success: the whole serialization is written', w1 == w0 + sz, [ok]),
                Cl('WFAIL', 'an error exactly if the writer failed', Eq(ok, Not(c.new.g['failed']))),
                Cl('WFAIL', 'a prefix of the serialization is written', And(w1 >= w0, w1 <= w0 + sz)),
                Cl('WFAIL', 'the returned count is the number of bytes written', Eq(I_(n), w1 - w0))]

class HashTreeRoot(Top):
    fn = 'HashTreeRoot'
    def setup(self, v, st):
        val = self.value(v, st); st.add(valid(D, self.val(st)))
        return [(st, [AbsI('merkle', z3.Const('hasher', Hf)), val, AbsI('ssz', D)])]
    def post(self, c): return [Cl('HTR', 'the root of the value', c.res[0] == root(c.args[0].t, D, self.val(c.old)))]

class SigningRoot(HashTreeRoot):
    fn = 'SigningRoot'
    def post(self, c): return [Cl('HTR', 'the signing root of the value', c.res[0] == sroot(c.args[0].t, D, self.val(c.old)))]

frefuse = child.frefuse
class GetSSZ(Top):
    fn = 'GetSSZ'
    def setup(self, v, st):
        self.t = z3.Const('T', RT)
        return [(st, [AbsI('anyof', rptr(self.t))])]
    def may_panic(self, v, st): return v.valid(st, frefuse(self.t))
    def post(self, c):
        r = c.res[0]
        return [Cl('FACT', 'panics exactly for refused types', Not(frefuse(self.t))),
                Cl('FACT', 'the type structure of the type', isinstance(r, AbsI) and r.t == sd(self.t))]

ALL = [Decode, DryCheck, DecodeFuzzBytes, SizeOf, Encode, HashTreeRoot, SigningRoot, GetSSZ]

def typeof(v, st, args, line):
    if isinstance(args[0], AbsI) and args[0].kind == 'anyof': return [(st, [AbsI('rtype', args[0].t)])]
    raise Unsupported('reflect.TypeOf')

def setup(v):
    v.invokes[('ssz', 'SigningRoot')] = c_signing
    v.externals['reflect.TypeOf'] = typeof
