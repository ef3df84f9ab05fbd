"""The kinds of SSZ types: what each is by definition (serialization, validity, sizes, roots, memory layout),
and the contracts of every method of the SSZ interface for every kind.  The receiver of a method is whatever
types.SSZFactory builds for an arbitrary Go type of the kind (its body is executed symbolically)."""
from core import *
from spec import *
from contract import *
import exec as X
import world
from world import M, T_
import z3

TT = z3.Const('T', RT)           # the Go type
EL = relem(TT)                   # its element type
ED = sd(EL)                      # the type structure of its element

class Rng:
    """forall lo <= x < hi: body(x), instantiated by the given pattern"""
    def __init__(self, lo, hi, body, pat): self.lo, self.hi, self.body, self.pat = lo, hi, body, pat
    def hyp(self):
        x = z3.Int('x')
        b = self.body(x)
        if isinstance(b, list): b = And(*b)
        return z3.ForAll([x], z3.Implies(z3.And(I_(self.lo) <= x, x < self.hi), B_(b)), patterns=[self.pat(x)])
    def goal(self):
        x = fresh('sk')
        b = self.body(x)
        return [([I_(self.lo) <= x, x < self.hi], g) for g in (b if isinstance(b, list) else [b])]

def hdr(H, p): return Wd(H, p), Wd(H, p + 8), Wd(H, p + 16)

def slice_wf(H, p, ms):
    d, n, c = hdr(H, p)
    sz = Mul(c, ms)
    return [n >= 0, n <= c, c < BIG, d >= 0, d + sz < ADDR, z3.Implies(c > 0, d > 0), I_(sz) >= 0]

class Kind:
    name = None
    rk = None                # reflect kind
    fixed = True
    var_start = True         # variable-size kinds are decoded from index 0 of their scope
    composite = False
    def facts(self): return []
    # sizes
    def flen(self): raise NotImplementedError
    def minl(self): return self.flen()
    def maxl(self): return self.flen()
    def fmin(self): return self.flen()
    def fmax(self): return self.flen()
    def memsz(self): return rsize(TT)
    def isfixed(self): return self.fixed
    # memory
    def wf(self, H, p): return []
    def own(self, H, p): return []
    # meaning
    def size(self, H, p): return I_(self.flen())
    def Mser(self, H, p, W, a, b): raise NotImplementedError
    def valid(self, H, p): return []
    def dvalid(self, H, p):
        """valid, and without lists of zero-size elements (which Decode refuses)"""
        return self.valid(H, p)
    def can(self, W, a, b): raise NotImplementedError
    def alloc_ok(self, n, span): return False
    # proof hints
    def enc_templates(self, c, v, L, ivs): return []
    def dec_templates(self, c, v, L, ivs): return []

# ---------------------------------------------------------------- basic kinds
def elb(H, p, q, w):
    """byte q of the little-endian form of the w-byte integer at p"""
    return B(H, p + q) if w == 1 else z3.If(LE, B(H, p + q), B(H, p + (w - 1 - q)))

class Bool(Kind):
    name, rk, w = 'bool', 1, 1
    def flen(self): return 1
    def wf(self, H, p): return [B(H, p) <= 1]
    def Mser(self, H, p, W, a, b): return [b == a + 1, at(W, a) == B(H, p)]
    def valid(self, H, p): return [B(H, p) <= 1]
    def can(self, W, a, b): return [b == a + 1, at(W, a) <= 1]
    def root(self, H, p): return [('bytes', lambda q: z3.If(q == 0, B(H, p), z3.IntVal(0)))]

class Uint(Kind):
    def __init__(self, rk, w): self.rk, self.w, self.name = rk, w, 'uint%d' % (8 * w)
    def flen(self): return self.w
    def Mser(self, H, p, W, a, b): return [b == a + self.w] + [at(W, a + q) == elb(H, p, q, self.w) for q in range(self.w)]
    def can(self, W, a, b): return [b == a + self.w]

# ---------------------------------------------------------------- byte strings
class Bytes(Kind):
    name, rk, fixed = 'byte list', 24 - 1, False
    rk = 23
    def facts(self): return [rkind(EL) == 8, z3.Not(rimpl(rptr(TT), BITLISTT))]
    def flen(self): return 0
    def minl(self): return 0
    def maxl(self): return rlimit(TT)
    def fmin(self): return 8
    def fmax(self): return 8 + rlimit(TT)
    def wf(self, H, p): return slice_wf(H, p, 1)
    def own(self, H, p): return [(Wd(H, p), Wd(H, p) + Wd(H, p + 16))]
    def size(self, H, p): return Wd(H, p + 8)
    def Mser(self, H, p, W, a, b):
        d, n, c = hdr(H, p)
        return [b == a + n, Rng(a, a + n, lambda x: at(W, x) == B(H, d + (x - a)), lambda x: at(W, x))]
    def valid(self, H, p): return [Wd(H, p + 8) <= rlimit(TT)]
    def can(self, W, a, b): return [b >= a, b - a <= rlimit(TT)]
    def alloc_ok(self, n, span): return [n <= rlimit(TT), n <= span]

class BytesN(Kind):
    name, rk = 'byte vector', 17
    def facts(self): return [rkind(EL) == 8, z3.Not(rimpl(rptr(TT), BITVECTORT)), rsize(TT) == rlen(TT)]
    def flen(self): return rlen(TT)
    def Mser(self, H, p, W, a, b):
        n = rlen(TT)
        return [b == a + n, Rng(a, a + n, lambda x: at(W, x) == B(H, p + (x - a)), lambda x: at(W, x))]
    def can(self, W, a, b): return [b == a + rlen(TT)]

from c_bitfields import bl_ok
class Bitlist(Bytes):
    name = 'bitlist'
    def facts(self): return [rkind(EL) == 8, rimpl(rptr(TT), BITLISTT)]
    def minl(self): return 1
    def maxl(self): return rlimit(TT) / 8 + 1
    def fmin(self): return 9
    def fmax(self): return 8 + rlimit(TT) / 8 + 1
    def valid(self, H, p):
        d, n, c = hdr(H, p)
        return [bl_ok(n, B(H, d + n - 1), rlimit(TT))]
    def can(self, W, a, b): return [bl_ok(b - a, at(W, b - 1), rlimit(TT))]
    def alloc_ok(self, n, span): return [n <= rlimit(TT) / 8 + 1, n <= span]

class Bitvector(BytesN):
    name = 'bitvector'
    def facts(self): return [rkind(EL) == 8, rimpl(rptr(TT), BITVECTORT), rsize(TT) == rlen(TT)]
    def pad(self, last):
        n = rbitlen(TT)
        return Or(n == 0, n % 8 == 0, last < p2of(n % 8))
    def valid(self, H, p): return [self.pad(B(H, p + rlen(TT) - 1))]
    def can(self, W, a, b): return [b == a + rlen(TT), self.pad(at(W, b - 1))]

# ---------------------------------------------------------------- series of basic elements
class BasicVector(Kind):
    def __init__(self, ename, erk, w):
        self.ename, self.erk, self.w = ename, erk, w
        self.name = 'vector of ' + ename; self.rk = 17
    def facts(self): return [rkind(EL) == self.erk, rsize(EL) == self.w, rsize(TT) == self.w * rlen(TT), rlen(TT) < (1 << 44)]
    def flen(self): return self.w * rlen(TT)
    def perm(self, j):
        w = self.w
        if w == 1: return j
        return z3.If(LE, j, j - j % w + (w - 1 - j % w))
    def data(self, H, p): return p, rlen(TT)
    def Mser(self, H, p, W, a, b):
        d, n = self.data(H, p)
        L = self.w * n
        return [b == a + L, Rng(a, a + L, lambda x: at(W, x) == B(H, d + self.perm(x - a)), lambda x: at(W, x))]
    def valid(self, H, p):
        d, n = self.data(H, p)
        if self.ename != 'bool': return []
        return [Rng(d, d + n, lambda x: B(H, x) <= 1, lambda x: B(H, x))]
    def can(self, W, a, b):
        L = self.w * rlen(TT)
        return [b == a + L] + ([Rng(a, b, lambda x: at(W, x) <= 1, lambda x: at(W, x))] if self.ename == 'bool' else [])
    def dec_templates(self, c, v, L, ivs):
        r0 = c.old.g['rpos']; p = c.args[-1]; w = self.w
        out = []
        x = z3.Int('x')
        H0 = L.st0.g['H']
        def data(st): return self.data(H0, p)[0]
        def done(st, env, k):
            d = data(st); H = st.g['H']
            return z3.ForAll([x], z3.Implies(z3.And(x >= d, x < d + w * k), B(H, x) == at(S, r0 + self.perm(x - d))), patterns=[B(H, x)])
        if v.same(L.st0.g['H'], L.hs.g['H']):
            pass
        else:
            out.append(('elements read so far', done))
            n = self.data(H0, p)[1]
            def below(st, env, k):
                d = data(st); H = st.g['H']
                return z3.ForAll([x], z3.Implies(z3.Or(x < d, x >= d + w * n, n <= 0), B(H, x) == B(H0, x)), patterns=[B(H, x)])
            def words(st, env, k):
                d = data(st); H = st.g['H']
                return z3.ForAll([x], z3.Implies(z3.Or(x + 8 <= d, x >= d + w * n, n <= 0), Wd(H, x) == Wd(H0, x)), patterns=[Wd(H, x)])
            out += [('bytes outside the elements unchanged', below), ('words outside the elements unchanged', words)]
            if self.ename == 'bool':
                def fixd(st, env, k):
                    d = data(st); H = st.g['H']
                    return z3.ForAll([x], z3.Implies(z3.And(x >= d, x < d + k), B(H, x) <= 1), patterns=[B(H, x)])
                out.append(('valid so far', fixd))
        if self.ename == 'bool':
            def vals(st, env, k):
                return z3.ForAll([x], z3.Implies(z3.And(x >= r0, x < r0 + k), at(S, x) <= 1), patterns=[at(S, x)])
            out.append(('valid bytes so far', vals))
        return out

class BasicList(BasicVector):
    fixed = False
    def __init__(self, ename, erk, w):
        super().__init__(ename, erk, w)
        self.name = 'list of ' + ename; self.rk = 23
    def facts(self): return [rkind(EL) == self.erk, rsize(EL) == self.w]
    def data(self, H, p): return Wd(H, p), Wd(H, p + 8)
    def flen(self): return 0
    def minl(self): return 0
    def maxl(self): return self.w * rlimit(TT)
    def fmin(self): return 8
    def fmax(self): return 8 + self.w * rlimit(TT)
    def size(self, H, p): return self.w * Wd(H, p + 8)
    def wf(self, H, p): return slice_wf(H, p, self.w)
    def own(self, H, p): return [(Wd(H, p), Wd(H, p) + self.w * Wd(H, p + 16))]
    def valid(self, H, p): return [Wd(H, p + 8) <= rlimit(TT)] + super().valid(H, p)
    def can(self, W, a, b):
        return [b >= a, (b - a) % self.w == 0, b - a <= self.w * rlimit(TT)] + \
               ([Rng(a, b, lambda x: at(W, x) <= 1, lambda x: at(W, x))] if self.ename == 'bool' else [])
    def alloc_ok(self, n, span): return [n <= rlimit(TT), self.w * n <= span]

LEAFS = [Bool(), Uint(8, 1), Uint(9, 2), Uint(10, 4), Uint(11, 8), Bytes(), BytesN(), Bitlist(), Bitvector()] + \
        [c(*a) for c in (BasicVector, BasicList) for a in (('bool', 1, 1), ('uint16', 9, 2), ('uint32', 10, 4), ('uint64', 11, 8))]

ALL_KINDS = LEAFS
def all_kinds():
    import composite, container
    return LEAFS + composite.COMPOSITES + container.CONTAINERS

# ---------------------------------------------------------------- method contracts
class KM(Contract):
    method = None
    fams = None
    def __init__(self, kind):
        self.kind = kind
        self.label = 'types: %s: %s' % (kind.name, self.method)
        super().__init__()
        self.name = None
    def structures(self, v, st):
        """the type structures the factory builds for the types of the kind"""
        k = self.kind
        st.add(rkind(TT) == k.rk)
        st.add(*hyps(k.facts()))
        st.own = list(st.own)
        if hasattr(k, 'prep_struct'): k.prep_struct(v, st)
        rec, v.record = v.record, 0
        cur, v.cur = v.cur, (k.cons() if hasattr(k, 'cons') else v.cur)
        try:
            f = v.p.funcs.get(T_ + 'SSZFactory')
            if f is None: raise Undecided('types.SSZFactory does not exist')
            outs = v.run(f, st, [AbsI('rtype', TT)])
        finally: v.record = rec; v.cur = cur
        res = []
        for s, vals in outs:
            ssz, err = vals
            if not isinstance(err, ErrV): raise Unsupported('result of SSZFactory')
            if err.isnil is not True:
                s.add(B_(err.isnil))
                if err.isnil is False or not v.feasible(s): continue
            s.tags['selfobjs'] = tuple(s.mem)
            if hasattr(k, 'trim'): k.trim(s, self.method, getattr(self, 'fuzz', False))
            res.append((s, ssz))
        if not res: raise Undecided('the factory refuses every type of the kind')
        return res
    def verify(self, v):
        v.cur = None
        return self.verify_method(v, self.structures(v, X.State()))
    def verify_method(self, v, structs):
        nret = 0; ok = False; some = False
        for st, ssz in structs:
            if not isinstance(ssz, IfaceV): raise Unsupported('type structure %r' % (ssz,))
            fn = (v.p.methods.get(ssz.typ) or {}).get(self.method)
            if fn is None: raise Undecided('no method %s' % self.method)
            self.name = self.inline_self = fn
            v.immutable |= set(st.mem)
            v.cur = self
            f = v.p.funcs[fn]
            for st1, args in self.setup(v, st.copy()):
                c = Ctx(v, self, st1, [ssz.val] + args)
                self.ctx = c
                self.prepare(c)
                for fam, name, g in self.pre(c): st1.add(*hyps([g]))
                if not v.feasible(st1, None, 3000): continue     # not a structure this contract is about
                some = True
                v.depth = 0
                outs = v.run(f, st1.copy(), c.args)
                for s, vals in outs:
                    nret += 1
                    if not ok and v.check(s.pc, None, 2000) != z3.unsat: ok = True
                    c2 = Ctx(v, self, st1, c.args); c2.new = s; c2.res = vals; c2.x = c.x
                    self.finish(c2)
        if not some: raise Undecided('contradictory precondition')
        if nret == 0 or not ok: raise Undecided('no path reaches a return')
        return nret
    def prepare(self, c): pass
    def pool(self, v, L): return self.kind.pool(v, L) if hasattr(self.kind, 'pool') else []
    def memory(self, v, st, own=True):
        """an arbitrary value of the type at an arbitrary address"""
        k = self.kind
        H = fresh('H', Heap); st.g['H'] = H
        p = fresh('p'); ms = I_(k.memsz())
        st.add(p > 0, ms >= 0, p + ms < ADDR)
        st.add(*khyps(k.wf(H, p)))
        st.own = [(p, p + ms)] + [r for r in k.own(H, p)]
        for lo, hi in k.own(H, p): st.add(z3.Or(I_(hi) <= lo, I_(hi) <= p, I_(lo) >= p + ms))
        st.add(*typed(k, H, p))
        return H, p

def typed(k, H, p):
    return k.typed(H, p) if hasattr(k, 'typed') else []

def khyps(items): return hyps([it.hyp() if isinstance(it, Rng) else it for it in items])
import contract as _ct
_h0, _g0 = _ct.hyps, _ct.goals
def _hyps(items, v=None): return _h0([it.hyp() if isinstance(it, Rng) else it for it in items])
def _goals(items):
    out = []
    for it in items:
        if isinstance(it, Rng): out.extend(it.goal())
        else: out.extend(_g0([it]))
    return out
_ct.hyps, _ct.goals = _hyps, _goals
hyps, goals = _hyps, _goals

class Info(KM):
    """IsFixed, FixedLen, MinLen, MaxLen, FuzzMinLen, FuzzMaxLen"""
    method = 'IsFixed, FixedLen, MinLen, MaxLen, FuzzMinLen, FuzzMaxLen'
    def setup(self, v, st): return [(st, [])]
    def verify(self, v):
        structs = self.structures(v, X.State())
        n = 0
        for self.method, self.spec in INFO:
            n += self.verify_method(v, [(s.copy(), x) for s, x in structs])
        self.method = Info.method
        return n
    def post(self, c):
        want = getattr(self.kind, self.spec)()
        if self.spec in ('maxl', 'fmax'): want = satu(want)
        return [Cl('SIZE', self.method + ' as defined', Eq(c.res[0], want))]

class SizeOf(KM):
    method = 'SizeOf'
    def setup(self, v, st):
        H, p = self.memory(v, st)
        if hasattr(self.kind, 'nonnil'): st.add(*self.kind.nonnil(H, p))
        if hasattr(self.kind, 'prep_enc'): self.kind.prep_enc(v, st, H, p)
        st.add(*khyps(self.kind.size_hyps(H, p)) if hasattr(self.kind, 'size_hyps') else [])
        return [(st, [p])]
    def post(self, c):
        return [Cl('SIZE', 'SizeOf is the size of the serialization', Eq(c.res[0], self.kind.size(c.old.g['H'], c.args[1])))]
    def templates(self, v, L, ivs): return self.kind.size_templates(self.ctx, v, L, ivs) if hasattr(self.kind, 'size_templates') else []

class Encode(KM):
    method = 'Encode'
    def setup(self, v, st):
        H, p = self.memory(v, st)
        if hasattr(self.kind, 'nonnil'): st.add(*self.kind.nonnil(H, p))
        if hasattr(self.kind, 'prep_enc'): self.kind.prep_enc(v, st, H, p)
        ew = world.W.mk_ew(v, st)
        return [(st, [ew, p])]
    def pre(self, c):
        k = self.kind; H = c.old.g['H']; p = c.args[2]; w0 = c.old.g['wpos']
        n = I_(k.size(H, p))
        return [('PRE', 'pre', x) for x in k.Mser(H, p, SER, w0, w0 + n) + [n >= 0, n < U32, Not(c.old.g['failed'])]]
    def may_change(self, c): return {c.args[1].obj}, {'wpos', 'failed'}
    def post(self, c):
        W = world.W; k = self.kind
        w0, w1 = c.old.g['wpos'], c.new.g['wpos']
        n = I_(k.size(c.old.g['H'], c.args[2])); ok = B_(c.res[0].isnil)
        n0, n1 = W.written(c.v, c.old, c.args[1]), W.written(c.v, c.new, c.args[1])
        return [Cl('ENC', 'success: the whole serialization is written', w1 == w0 + n, [ok]),
                Cl('WFAIL', 'an error exactly if the writer failed', Eq(ok, Not(c.new.g['failed']))),
                Cl('WFAIL', 'a prefix of the serialization is written', And(w1 >= w0, w1 <= w0 + n)),
                Cl('WFAIL', 'the count of written bytes is exact', Eq(I_(n1) - n0, w1 - w0))]
    def templates(self, v, L, ivs):
        c = self.ctx; w0 = c.old.g['wpos']; W = world.W
        out = [('no write failed', lambda st, env, k: Not(st.g['failed'])),
               ('count of written bytes', lambda st, env, k: Eq(I_(W.written(v, st, c.args[1])) - W.written(v, c.old, c.args[1]), st.g['wpos'] - w0))]
        if isinstance(getattr(self.kind, 'w', None), int):
            w = self.kind.w
            out.append(('elements written', lambda st, env, k: Eq(st.g['wpos'], w0 + w * k)))
        return out + scaled(self.kind, v, L, ivs) + self.kind.enc_templates(c, v, L, ivs)

def scaled(kind, v, L, ivs):
    """integers that advance by the element size"""
    out = []
    w = getattr(kind, 'w', None)
    for name, get, leaf in ivs:
        e = get(L.st0, L.eenv)
        if isinstance(w, int) and w > 1:
            out.append(('%s == entry + %d k' % (name, w), lambda st, env, k, get=get, e=e: Eq(get(st, env), I_(e) + w * k)))
    return out

class Decode(KM):
    method = 'Decode'
    def __init__(self, kind, fuzz):
        super().__init__(kind)
        self.fuzz = fuzz
        self.label += ' (fuzz mode)' if fuzz else ''
    def setup(self, v, st):
        k = self.kind
        H, p = self.memory(v, st)
        dr = world.W.mk_dr(v, st, fuzz=self.fuzz, start=False)
        return [(st, [dr, p])]
    def prepare(self, c):
        v, st, k = c.v, c.old, self.kind
        i0, mx, fz, rd = world.W.dr(v, st, c.args[1])
        r0 = st.g['rpos']
        fx = B_(k.isfixed())
        if self.fuzz:
            if hasattr(k, 'fuzz_facts'): st.add(*k.fuzz_facts())
            st.add(I_(mx) - i0 < BIG, I_(mx) - i0 >= I_(k.fmin()))
            cc = fresh('fuzzable', Bo); c.x['cc'] = cc
            st.add(z3.Implies(cc, AV >= r0 + (I_(mx) - i0)))
        else:
            st.add(z3.Implies(z3.Not(fx), I_(i0) == 0))
            W = c.x['W'] = z3.If(fx, I_(k.flen()), I_(mx) - i0)
            cc = fresh('complete', Bo); c.x['cc'] = cc
            for g in hyps(k.can(S, r0, r0 + W)): st.add(z3.Implies(cc, g))
            st.add(z3.Implies(cc, z3.And(I_(mx) - i0 >= W, AV >= r0 + W)))
            if hasattr(k, 'prep_dec'): k.prep_dec(c)
    def may_change(self, c): return {c.args[1].obj}, {'rpos', 'H'}
    def conf(self, c):
        W = world.W; v = c.v
        a, b = W.dr(v, c.old, c.args[1]), W.dr(v, c.new, c.args[1])
        i0, i1, mx = I_(a[0]), I_(b[0]), I_(a[1])
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']
        ok = B_(c.res[0].isnil)
        return [Cl('CONF', 'reads stay within the limit', And(i0 <= i1, i1 <= mx, r0 <= r1, r1 <= r0 + (mx - i0))),
                Cl('CONF', 'success: the index counts what was read', r1 - r0 == i1 - i0, [ok]),
                Cl('CONF', 'success: everything read was delivered', r1 <= AV, [ok]),
                Cl('CONF', 'limit, mode and source of the reader unchanged', And(Eq(a[1], b[1]), Eq(a[2], b[2]), isinstance(b[3], AbsI) and Eq(a[3].t, b[3].t)))]
    def post(self, c):
        k = self.kind; v = c.v
        H, p = c.new.g['H'], c.args[2]
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']
        i0 = I_(world.W.dr(v, c.old, c.args[1])[0]); i1 = I_(world.W.dr(v, c.new, c.args[1])[0])
        ok = B_(c.res[0].isnil)
        cls = self.conf(c)
        cls.append(Cl('SAFE', 'memory stays well formed', k.wf(H, p)))
        if self.fuzz:
            cc = c.x['cc']
            cls += [Cl('FUZZ', 'enough input: no error', ok, [cc]),
                    Cl('FUZZ', 'reads at least FuzzMinLen and at most FuzzMaxLen', And(i1 - i0 >= I_(k.fmin()), i1 - i0 <= I_(k.fmax())), [ok]),
                    Cl('FUZZ', 'leaves a valid value', k.dvalid(H, p), [ok])]
        else:
            cc = c.x['cc']
            cls += [Cl('SOUND', 'success: the input read is the serialization of the value', (k.Mwit if hasattr(k, 'Mwit') else k.Mser)(H, p, S, r0, r1), [ok]),
                    Cl('SOUND', 'success: the value is valid', k.dvalid(H, p), [ok]),
                    Cl('COMPL', 'the serialization of a valid value is accepted', And(ok, i1 == i0 + c.x['W']), [cc])]
        return cls
    def on_alloc(self, v, st, n, t, line):
        c = self.ctx
        i0, mx, fz, rd = world.W.dr(v, c.old, c.args[1])
        a = (self.kind.fuzz_alloc_ok if self.fuzz and hasattr(self.kind, 'fuzz_alloc_ok') else self.kind.alloc_ok)(I_(n), I_(mx) - i0)
        for q, g in enumerate(a if isinstance(a, list) else [a]):
            v.oblige(st, 'ALLOC', 'no more elements allocated than limit and length allow.%d' % q, g, line)
    def templates(self, v, L, ivs):
        c = self.ctx; k = self.kind
        r0 = c.old.g['rpos']; i0 = world.W.dr(v, c.old, c.args[1])[0]
        out = [('index follows the input', lambda st, env, n: Eq(I_(world.W.dr(v, st, c.args[1])[0]) - i0, st.g['rpos'] - r0)),
               ('within the limit', lambda st, env, n: And(I_(world.W.dr(v, st, c.args[1])[0]) >= i0, Cmp('<=', world.W.dr(v, st, c.args[1])[0], world.W.dr(v, st, c.args[1])[1]))),
               ('within the input', lambda st, env, n: st.g['rpos'] <= AV)]
        e = L.st0.g['rpos']
        if isinstance(getattr(k, 'w', None), int):
            w = k.w
            out.append(('elements consumed', lambda st, env, n: Eq(st.g['rpos'], e + w * n)))
        return out + scaled(k, v, L, ivs) + k.dec_templates(c, v, L, ivs)

class DryCheck(Decode):
    method = 'DryCheck'
    def __init__(self, kind):
        super().__init__(kind, False)
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        return [(st, [world.W.mk_dr(v, st, fuzz=False)])]
    def may_change(self, c): return {c.args[1].obj}, {'rpos'}
    def post(self, c):
        k = self.kind; v = c.v
        r0, r1 = c.old.g['rpos'], c.new.g['rpos']
        i0 = I_(world.W.dr(v, c.old, c.args[1])[0]); i1 = I_(world.W.dr(v, c.new, c.args[1])[0])
        ok = B_(c.res[0].isnil)
        return self.conf(c) + [
            Cl('SOUND', 'success: the input read is the serialization of some valid value', k.can(S, r0, r1), [ok]),
            Cl('COMPL', 'the serialization of a valid value is accepted', And(ok, i1 == i0 + c.x['W']), [c.x['cc']])]
    def templates(self, v, L, ivs):
        c = self.ctx; k = self.kind
        c2 = Ctx(v, self, c.old, c.args + [z3.IntVal(0)]); c2.x = c.x
        save = self.ctx
        self.ctx = c2
        try: return Decode.templates(self, v, L, ivs)
        finally: self.ctx = save

INFO = [('IsFixed', 'isfixed'), ('FixedLen', 'flen'), ('MinLen', 'minl'), ('MaxLen', 'maxl'), ('FuzzMinLen', 'fmin'), ('FuzzMaxLen', 'fmax')]
def contracts(kinds):
    info, sizeof, enc, dec, fuzz, dry = [], [], [], [], [], []
    for k in kinds:
        info.append(Info(k)); sizeof.append(SizeOf(k)); enc.append(Encode(k)); dec.append(Decode(k, False)); fuzz.append(Decode(k, True)); dry.append(DryCheck(k))
    return dict(info=info, sizeof=sizeof, encode=enc, decode=dec, fuzz=fuzz, drycheck=dry)
