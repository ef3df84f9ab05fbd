"""The properties as stated, derived from the contracts of the functions of package zssz (their postconditions are the
hypotheses, taken from c_top) and the laws of serializations (c_laws)."""
from core import *
from spec import *
from contract import *
import exec as X
import c_top, c_laws, c_merkle
from c_laws import eqv, nz
from c_top import D, REND, sroot
import z3


class Theorem(Contract):
    name = None
    def __init__(self, prop, label, fn):
        self.prop, self.fn = prop, fn
        self.label = 'theorem (%s): %s' % (prop, label)
        super().__init__()
    def verify(self, v):
        v.cur = None
        self.v, self.st = v, X.State()
        self.fn(self)
        if v.check(self.st.pc, None, 2000) == z3.unsat: raise Undecided('contradictory hypotheses')
        return 1
    # --- a call of a function of the package: its precondition is met by assumption (setup), its postcondition is assumed
    def call(self, cls, before=None):
        v = self.v; inst = cls(); st = self.st
        st.g = dict(st.g)
        (st1, args), = inst.setup(v, st)
        self.st = st = st1
        c = Ctx(v, inst, st.copy(), args)
        inst.ctx = c
        if before: before(inst, c)
        c.old = st.copy()
        c.new = st.copy()
        objs, ghosts = inst.may_change(c)
        for g in ghosts:
            x = c.new.g.get(g)
            c.new.g[g] = fresh(g, x.sort() if isz(x) else Bo)
        c.res = self.results(cls)
        for cl in inst.post(c):
            hs = hyps(cl.hyp)
            for g in hyps(cl.goal): st.add(Imp(And(*hs), g) if hs else g)
        return inst, c
    def results(self, cls):
        err = ErrV(fresh('ok', Bo))
        n = fresh('n')
        return {c_top.Decode: [err], c_top.DryCheck: [err], c_top.DecodeFuzzBytes: [n, err], c_top.Encode: [n, err], c_top.SizeOf: [n],
                c_top.HashTreeRoot: [fresh('root', BA)], c_top.SigningRoot: [fresh('root', BA)]}[cls]
    def ob(self, name, goal, hyp=()):
        s = self.st.copy(); s.add(*hyps(hyp))
        self.v.oblige(s, 'THM', name, B_(goal))

def val(inst, st): return V(st.g['H'], D, inst.p)
def ok(c): return B_(c.res[-1].isnil)

# laws, for the type D (proved for every kind by induction)
def acceptable(W, x, a, b): return z3.And(z3.Implies(z3.And(Mm(D, x, W, a, b), decd(D, x)), can(D, W, a, b)), z3.Implies(z3.And(nz(D), valid(D, x)), decd(D, x)))
def injective(W, x, y, a, b): return z3.Implies(z3.And(nz(D), Mm(D, x, W, a, b), Mm(D, y, W, a, b)), eqv(D, x, y))
def determined(x, W, a, W2, a2, q):
    n = size(D, x)
    return z3.Implies(z3.And(Mm(D, x, W, a, a + n), Mm(D, x, W2, a2, a2 + n), 0 <= q, q < n), at(W, a + q) == at(W2, a2 + q))
def transfer(x, W, a, W2, a2, n):
    """if the n bytes are the same"""
    return z3.Implies(Mm(D, x, W, a, a + n), Mm(D, x, W2, a2, a2 + n))

def t_roundtrip(t):
    e, ce = t.call(c_top.Encode)
    x = val(e, ce.old); w0, w1 = ce.old.g['wpos'], ce.new.g['wpos']
    t.st.add(ok(ce), valid(D, x), nz(D))
    n = size(D, x)
    d, cd = t.call(c_top.Decode, lambda inst, c: t.st.add(inst.n == w1 - w0, AV >= t.st.g['rpos'] + (w1 - w0)))
    r0 = cd.old.g['rpos']
    y = val(d, cd.new)
    # the input is what was written
    t.st.add(transfer(x, SER, w0, S, r0, n))
    t.st.add(acceptable(S, x, r0, r0 + n), injective(S, x, y, r0, r0 + n))
    t.ob('decoding what was encoded succeeds', ok(cd))
    t.ob('and gives the value back', eqv(D, x, y))
    t.ob('and consumes all of it', cd.new.g['rpos'] == r0 + n)

def t_canonical(t):
    d, cd = t.call(c_top.Decode)
    r0, r1 = cd.old.g['rpos'], cd.new.g['rpos']
    H2 = cd.new.g['H']; y = V(H2, D, d.p)
    t.st.add(ok(cd))
    t.ob('the value respects every limit', valid(D, y))
    # re-encoding the value
    e, ce = t.call(c_top.Encode, lambda inst, c: t.st.add(val(inst, t.st) == y, inst.p == d.p))
    w0, w1 = ce.old.g['wpos'], ce.new.g['wpos']
    q = fresh('q')
    t.st.add(ok(ce), determined(y, SER, w0, S, r0, q))
    t.ob('re-encoding gives as many bytes', w1 - w0 == d.n)
    t.ob('re-encoding gives the same bytes', at(SER, w0 + q) == at(S, r0 + q), [0 <= q, q < d.n])

def t_drycheck(t):
    d, cd = t.call(c_top.Decode)
    k, ck = t.call(c_top.DryCheck, lambda inst, c: t.st.add(inst.n == d.n, t.st.g['rpos'] == cd.old.g['rpos']))
    r0 = cd.old.g['rpos']
    t.st.add(acceptable(S, val(d, cd.new), r0, r0 + d.n))
    t.ob('what Decode accepts DryCheck accepts', ok(ck), [ok(cd)])
    t.ob('what DryCheck accepts Decode accepts', ok(cd), [ok(ck)])

def t_sizes(t):
    e, ce = t.call(c_top.Encode)
    s, cs = t.call(c_top.SizeOf, lambda inst, c: t.st.add(val(inst, t.st) == val(e, ce.old)))
    x = val(e, ce.old)
    t.st.add(ok(ce))
    t.ob('SizeOf is the number of bytes written', I_(cs.res[0]) == ce.new.g['wpos'] - ce.old.g['wpos'])
    t.ob('MinLen <= size <= MaxLen', z3.And(minl(D) <= size(D, x), size(D, x) <= maxl(D)), [valid(D, x)])
    t.ob('fixed-size types: MinLen, MaxLen, FixedLen and the size are equal', z3.And(minl(D) == size(D, x), maxl(D) == size(D, x), flen(D) == size(D, x)), [isfix(D)])

def t_fuzz(t):
    d, cd = t.call(c_top.DecodeFuzzBytes)
    t.st.add(d.n >= fmin(D), AV >= cd.old.g['rpos'] + d.n)
    y = val(d, cd.new)
    t.ob('fuzz mode succeeds', ok(cd))
    t.ob('between FuzzMinLen and FuzzMaxLen bytes are read, and no more than the declared length',
         z3.And(cd.new.g['rpos'] - cd.old.g['rpos'] >= fmin(D), cd.new.g['rpos'] - cd.old.g['rpos'] <= fmax(D), cd.new.g['rpos'] - cd.old.g['rpos'] <= d.n))
    e, ce = t.call(c_top.Encode, lambda inst, c: t.st.add(val(inst, t.st) == y))
    t.st.add(ok(ce), nz(D))
    n = size(D, y); w0 = ce.old.g['wpos']
    d2, c2 = t.call(c_top.Decode, lambda inst, c: t.st.add(inst.n == n, AV >= t.st.g['rpos'] + n))
    r0 = c2.old.g['rpos']
    t.st.add(transfer(y, SER, w0, S, r0, n), acceptable(S, y, r0, r0 + n), injective(S, y, val(d2, c2.new), r0, r0 + n))
    t.ob('the value can be encoded and decoded', z3.And(ok(c2), eqv(D, y, val(d2, c2.new))))

def t_confined(t):
    for cls in (c_top.Decode, c_top.DryCheck, c_top.DecodeFuzzBytes):
        d, cd = t.call(cls)
        r0, r1 = cd.old.g['rpos'], cd.new.g['rpos']
        t.ob('%s takes at most the declared length from the reader' % cls.fn, z3.And(r1 >= r0, r1 - r0 <= d.n))
        if cls is not c_top.DecodeFuzzBytes:
            t.ob('%s: success means that exactly the declared length was taken' % cls.fn, r1 - r0 == d.n, [ok(cd)])
            t.ob('%s: success means that the reader delivered all of it' % cls.fn, AV >= r1, [ok(cd)])

def t_writer(t):
    e, ce = t.call(c_top.Encode)
    w0, w1 = ce.old.g['wpos'], ce.new.g['wpos']; failed = B_(ce.new.g['failed'])
    n = size(D, val(e, ce.old))
    t.ob('an error exactly if a write failed', ok(ce) == z3.Not(failed))
    t.ob('the count is the number of bytes accepted', I_(ce.res[0]) == w1 - w0)
    t.ob('without a failure all of the serialization is written', w1 - w0 == n, [z3.Not(failed)])
    t.ob('a prefix', z3.And(w1 >= w0, w1 - w0 <= n))

def t_signing(t):
    """two trees whose leaves agree except for the last; with and without it"""
    h = z3.Const('h', Hf); A, Bf = z3.Consts('A B', LF); n = z3.Int('n')
    i, j, l = z3.Ints('i j l')
    nd = c_merkle.node
    t.st.add(n >= 0)
    same = lambda f, g, c: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), leaf(f, i) == leaf(g, i)), patterns=[leaf(f, i)])
    # a node depends on the leaves below the count only (induction over its height)
    base = [same(A, Bf, n), c_merkle.nodedef(h, A, n, z3.IntVal(0), j), c_merkle.nodedef(h, Bf, n, z3.IntVal(0), j), j >= 0]
    t.ob('trees with the same leaves are the same: height 0', nd(h, A, n, 0, j) == nd(h, Bf, n, 0, j), base)
    t.ob('trees with the same leaves are the same: step', nd(h, A, n, l + 1, j) == nd(h, Bf, n, l + 1, j),
         [l >= 0, j >= 0, c_merkle.nodedef(h, A, n, l + 1, j), c_merkle.nodedef(h, Bf, n, l + 1, j),
          z3.ForAll([i], z3.Implies(i >= 0, nd(h, A, n, l, i) == nd(h, Bf, n, l, i)), patterns=[nd(h, A, n, l, i)])])
    # so the root of the tree over the first n leaves is the same for A (all fields) and B (the last one left out, or changed)
    allsame = z3.ForAll([l, i], z3.Implies(z3.And(l >= 0, i >= 0), nd(h, A, n, l, i) == nd(h, Bf, n, l, i)), patterns=[nd(h, A, n, l, i)])
    t.ob('the root without the last field does not depend on it', c_merkle.tree_root(h, A, n, n) == c_merkle.tree_root(h, Bf, n, n),
         [allsame, c_merkle.depthof(n) >= 0])

def contracts():
    return {'thm': [Theorem(*a) for a in (
        ('C02', 'decoding an encoded value gives the value back', t_roundtrip),
        ('C03', 'what Decode accepts is canonical', t_canonical),
        ('C04', 'DryCheck accepts exactly what Decode accepts', t_drycheck),
        ('C05', 'sizes and bounds', t_sizes),
        ('C13', 'fuzz mode yields valid values', t_fuzz),
        ('C10', 'reads are confined', t_confined),
        ('C11', 'writer faults', t_writer),
        ('C07', 'the signing root does not depend on the last field', t_signing))]}
