"""The laws of serializations, proved for every kind by induction over the nesting of types (the hypotheses about the
elements are the same laws).  With the contracts of the methods they give the properties as stated: a round trip gives the
value back (C02), what Decode accepts is canonical (C03), DryCheck accepts the same inputs (C04), sizes have bounds (C05)."""
from kinds import *
import kinds, composite, container, c_fact
from composite import _cs
import exec as X
import z3

eqv = F('eqv', Desc, Val, Val, Bo)           # equal values (nil and empty slices being equal)
nz = F('nz', Desc, Bo)                       # no lists of zero-size elements inside
W1, W2 = z3.Consts('W1 W2', Str)

class Laws(Contract):
    name = None
    law = None
    def __init__(self, kind):
        self.kind = kind
        self.label = 'laws: %s: %s' % (kind.name, self.title)
        super().__init__()
    def verify(self, v):
        k = self.kind
        v.cur = None
        st = X.State()
        st.add(rkind(TT) == k.rk, *hyps(k.facts()))
        st.add(z3.Not(c_fact.refuse(k)))         # supported types
        if hasattr(k, 'prep_struct'):
            rec = v.record
            k.prep_struct(v, st)
            drop = ['cons'] + ([] if self.bounds else ['MIN', 'MAX', 'FMIN', 'FMAX'])
            ids = {f.get_id() for c in drop for f in k.cons_facts[c] if z3.is_quantifier(f)}
            st.pc = [f for f in st.pc if f.get_id() not in ids]
        self.v, self.st = v, st
        self.prove(k)
        if v.check(self.st.pc, None, 2000) == z3.unsat: raise Undecided('contradictory hypotheses')
        return 1
    bounds = False
    # ---
    def value(self, n='', enc=True):
        """an arbitrary value; for series with the partial sums of the sizes of its parts"""
        k, st = self.kind, self.st
        H, p = fresh('H' + n, Heap), fresh('p' + n)
        st.add(p > 0, p < ADDR)
        st.add(*khyps(k.wf(H, p)))
        if hasattr(k, 'nonnil'): st.add(*k.nonnil(H, p))
        k.CS = None
        if hasattr(k, 'prep_enc'): k.prep_enc(self.v, st, H, p)
        return H, p, getattr(k, 'CS', None)
    def use(self, val):
        if val[2] is not None: self.kind.CS = val[2]
        return val[0], val[1]
    def ser(self, val, W, a):
        """hypotheses: W holds the serialization of the value from a on; returns its end"""
        H, p = self.use(val)
        b = fresh('b')
        self.st.add(*khyps(self.kind.Mser(H, p, W, a, b)))
        return b
    def ob(self, name, goal, hyp=(), st=None):
        s = (st or self.st).copy(); s.add(*hyps(hyp))
        for it in (goal if isinstance(goal, list) else [goal]):
            for h, g in goals([it]):
                s2 = s.copy(); s2.add(*h)
                self.v.oblige(s2, 'LAW', name, g)
    def induct(self, name, claim, lo, hi, down=False, hyp=lambda i: []):
        """claim(i) for all lo <= i <= hi, by induction (hyp(i): instances of the hypotheses about part i)"""
        st = self.st; lo, hi = I_(lo), I_(hi)
        i = fresh('sk')
        st.add(*mark(lo, hi))
        self.ob(name + ': start', claim(hi if down else lo), [lo <= hi])
        s = st.copy(); s.add(lo <= i, i < hi, *mark(i, i + 1)); s.add(*hyp(i))
        s.add(B_(claim(i + 1 if down else i)))
        self.v.oblige(s, 'LAW', name + ': step', B_(claim(i if down else i + 1)))
        j = z3.Int('j')
        st.add(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j <= hi), B_(claim(j))), patterns=[idx(j)]))
        st.add(Imp(lo <= hi, claim(lo)), Imp(lo <= hi, claim(hi)))
    @property
    def n(self): return lambda val: I_(self.kind.n(val[0], val[1]))

    def is_series(self): return isinstance(self.kind, composite.Series)
    def pos(self, k, a, n, CS): return lambda i: a + k.FO(n) + CS(i)

def tt(*ts):
    """the terms occur (for the instantiation of quantifiers)"""
    return [fresh('t', t.sort()) == t for t in ts]

class Determined(Laws):
    """two serializations of a value are the same bytes"""
    title = 'two serializations of a value are equal'
    def prove(self, k):
        st = self.st
        val = self.value(); H, p = self.use(val)
        a1, a2, x = fresh('a1'), fresh('a2'), fresh('x')
        b1 = self.ser(val, W1, a1); b2 = self.ser(val, W2, a2)
        same = at(W1, a1 + x) == at(W2, a2 + x)
        def IH(d, vl, c1, c2, ln):
            y = x - (c1 - a1)
            return [z3.Implies(z3.And(Mm(d, vl, W1, c1, c1 + ln), Mm(d, vl, W2, c2, c2 + ln), 0 <= y, y < ln), same)]
        st.add(x >= 0)
        if isinstance(k, composite.PtrK):
            self.ob('same bytes', same, [x < b1 - a1] + IH(ED, k.val(H, p), a1, a2, b1 - a1) + tt(size(ED, k.val(H, p))))
            return
        if not self.is_series():
            if hasattr(k, 'w') and not isinstance(k, BasicVector) or isinstance(k, Bool):
                for q in range(k.w): self.ob('same bytes', same, [x == q])
                self.ob('same bytes: number', x < k.w, [x < b1 - a1])
            else: self.ob('same bytes', same, [x < b1 - a1])
            self.ob('same length', b1 - a1 == b2 - a2)
            return
        n = self.n(val); CS = val[2]; FO = k.FO
        e = lambda i: k.e(i); vl = lambda i: k.val(H, p, i)
        fixi = lambda i: IH(e(i), vl(i), a1 + FO(i), a2 + FO(i), flen(e(i)))
        vari = lambda i: IH(e(i), vl(i), a1 + FO(n) + CS(i), a2 + FO(n) + CS(i), size(e(i), vl(i)))
        def offs(i):
            # the four bytes of an offset
            out = []
            for q in range(4):
                out.append(z3.Implies(z3.And(B_(k.isv(i)), x == FO(i) + q), z3.And(at(W1, a1 + x) == at(W1, a1 + FO(i) + q), at(W2, a2 + x) == at(W2, a2 + FO(i) + q))))
            return out
        self.induct('same fixed part', lambda i: z3.Implies(x < FO(i), same), 0, n, hyp=lambda i: fixi(i) + offs(i))
        self.induct('same variable part', lambda i: z3.Implies(x < FO(n) + CS(i), same), 0, n, hyp=lambda i: vari(i))
        self.ob('same bytes', same, [x < b1 - a1])
        self.ob('same length', b1 - a1 == b2 - a2)

class Injective(Laws):
    """equal serializations are of equal values"""
    title = 'equal serializations are of equal values'
    def prove(self, k):
        st = self.st
        v1, v2 = self.value('1'), self.value('2')
        a = fresh('a')
        b = self.ser(v1, W1, a); b2 = self.ser(v2, W1, a)
        st.add(b == b2)
        H1, p1, CS1 = v1; H2, p2, CS2 = v2
        IH = lambda d, x, y, c, ln: [z3.Implies(z3.And(nz(d), Mm(d, x, W1, c, c + ln), Mm(d, y, W1, c, c + ln)), eqv(d, x, y))]
        if isinstance(k, composite.PtrK):
            x, y = k.val(H1, p1), k.val(H2, p2)
            self.ob('equal values', eqv(ED, x, y), [nz(ED)] + IH(ED, x, y, a, b - a) + tt(size(ED, x), size(ED, y)))
            return
        if not self.is_series():
            j = fresh('j')
            if isinstance(k, BasicVector):
                (d1, n1), (d2, n2) = k.data(H1, p1), k.data(H2, p2)
                self.ob('same length', Eq(n1, n2))
                self.ob('same bytes', B(H1, d1 + j) == B(H2, d2 + j), [0 <= j, j < k.w * n1] + tt(at(W1, a + k.perm(j))) + [k.perm(k.perm(j)) == j, k.perm(j) >= 0, k.perm(j) < k.w * n1])
                self.ob('the order of bytes', z3.And(k.perm(k.perm(j)) == j, k.perm(j) >= 0, k.perm(j) < k.w * n1), [0 <= j, j < k.w * n1])
            elif isinstance(k, (Bytes, BytesN)):
                if isinstance(k, Bytes):
                    self.ob('same length', Wd(H1, p1 + 8) == Wd(H2, p2 + 8))
                    d1, d2, n = Wd(H1, p1), Wd(H2, p2), Wd(H1, p1 + 8)
                else: d1, d2, n = p1, p2, rlen(TT)
                self.ob('same bytes', B(H1, d1 + j) == B(H2, d2 + j), [0 <= j, j < n] + tt(at(W1, a + j)))
            else:
                self.ob('same bytes', z3.And(*[B(H1, p1 + q) == B(H2, p2 + q) for q in range(k.w)]), tt(*[elb(H, p, q, k.w) for H, p in ((H1, p1), (H2, p2)) for q in range(k.w)]))
            return
        n1, n2 = self.n(v1), self.n(v2)
        if isinstance(k, composite.ListK):
            if k.fixed: st.add(flen(ED) > 0)
            self.same_count(k, n1, n2, a, b, v1, v2)
        st.add(n1 == n2); n = n1
        e = k.e; x = lambda i: k.val(H1, p1, i); y = lambda i: k.val(H2, p2, i); FO = k.FO
        self.induct('the parts start at the same places', lambda i: CS1(i) == CS2(i), 0, n, down=True)
        i = fresh('i')
        sz = tt(size(e(i), x(i)), size(e(i), y(i)))
        hyp = [0 <= i, i < n, nz(e(i))] + mark(i, i + 1) + sz
        isv = B_(k.isv(i))
        self.ob('equal parts', eqv(e(i), x(i), y(i)), hyp + [z3.Not(isv)] + IH(e(i), x(i), y(i), a + FO(i), flen(e(i))))
        pos = lambda CS: a + FO(n) + CS(i)
        self.ob('equal parts', eqv(e(i), x(i), y(i)), hyp + [isv, CS1(i + 1) == CS2(i + 1)] + IH(e(i), x(i), y(i), pos(CS1), size(e(i), x(i))))
    def same_count(self, k, n1, n2, a, b, v1, v2):
        st = self.st
        if k.fixed:
            CS1, CS2 = v1[2], v2[2]
            m1, m2 = k.FO(n1), k.FO(n2)
            self.ob('same length', n1 == n2, [CS1(n1) == 0, CS2(n2) == 0] + tt(divi(m1, flen(ED)), divi(m2, flen(ED))))
        else:
            z = z3.IntVal(0)
            self.ob('same length', n1 == n2, mark(z) + [v1[2](0) == 0, v2[2](0) == 0, v1[2](n1) >= 0, v2[2](n2) >= 0, n1 >= 0, n2 >= 0])

class Acceptable(Laws):
    """the serialization of a valid value satisfies the condition under which inputs are accepted"""
    title = 'serializations of valid values are acceptable'
    def prove(self, k):
        st = self.st
        val = self.value(); H, p = self.use(val)
        a = fresh('a')
        b = self.ser(val, W1, a)
        st.add(*khyps(k.dvalid(H, p)))
        IH = lambda d, x, c, c2: [z3.Implies(z3.And(Mm(d, x, W1, c, c2), decd(d, x)), can(d, W1, c, c2))]
        if isinstance(k, composite.PtrK):
            self.ob('acceptable', k.can(W1, a, b), IH(ED, k.val(H, p), a, b))
            return
        if not self.is_series():
            hint = []
            if isinstance(k, (Bytes, BytesN)):
                d, n = (Wd(H, p), Wd(H, p + 8)) if isinstance(k, Bytes) else (p, rlen(TT))
                hint = tt(at(W1, b - 1), B(H, d + n - 1)) + [z3.Implies(b - 1 >= a, at(W1, b - 1) == B(H, d + (b - 1 - a)))]
                self.ob('the last byte', z3.Implies(b - 1 >= a, at(W1, b - 1) == B(H, d + (b - 1 - a))), tt(at(W1, b - 1)))
            if isinstance(k, BasicVector) and k.ename == 'bool':
                x = fresh('x')
                d, n = k.data(H, p)
                self.ob('booleans', at(W1, x) <= 1, [x >= a, x < b] + tt(B(H, d + (x - a))))
                cs = [c for c in k.can(W1, a, b) if not isinstance(c, Rng)]
            else: cs = k.can(W1, a, b)
            self.ob('acceptable', cs, hint)
            return
        n = self.n(val); CS = val[2]; FO, NV = k.FO, k.NV
        if isinstance(k, composite.ListK):
            cn = k.can_n(W1, a, b)
            hint = ([CS(n) == 0] + tt(divi(k.FO(n), flen(ED)))) if k.fixed else mark(z3.IntVal(0)) + [CS(0) == 0, CS(n) >= 0]
            self.ob('the number of elements', cn == n, hint)
            st.add(cn == n)
        P = k.positions(W1, a, b, n)
        self.induct('the offsets are the positions', lambda i: P(NV(i)) == a + FO(n) + CS(i), 0, n, down=True, hyp=lambda i: tt(k.vidx(NV(i))))
        z = z3.IntVal(0)
        st.add(CS(0) == 0, *mark(z))
        e = k.e; x = lambda i: k.val(H, p, i)
        for c in k.can(W1, a, b):
            if isinstance(c, All): continue
            self.ob('the first offset and the length', c, [n >= 0])
        i = fresh('i')
        hyp = [0 <= i, i < n] + mark(i, i + 1)
        isv = B_(k.isv(i))
        self.ob('acceptable parts', can(e(i), W1, a + FO(i), a + FO(i) + flen(e(i))), hyp + [z3.Not(isv)] + IH(e(i), x(i), a + FO(i), a + FO(i) + flen(e(i))))
        p0, p1 = P(NV(i)), P(NV(i) + 1)
        q0 = a + FO(n) + CS(i); q1 = q0 + size(e(i), x(i))
        self.ob('acceptable parts: position', z3.And(p0 == q0, p1 == q1), hyp + [isv, NV(i + 1) == NV(i) + 1, P(NV(i + 1)) == p1])
        self.ob('acceptable parts', can(e(i), W1, p0, p1), hyp + [isv, p0 == q0, p1 == q1] + IH(e(i), x(i), q0, q1))
        self.ob('counting', NV(i + 1) == NV(i) + 1, hyp + [isv])

class Valid(Laws):
    """values without lists of zero-size elements"""
    title = 'valid values that can be decoded'
    expect_obls = False      # kinds without validity rules
    def prove(self, k):
        st = self.st
        val = self.value(); H, p = self.use(val)
        i = fresh('i')
        d, x = (ED, k.val(H, p)) if isinstance(k, composite.PtrK) else (k.e(i), k.val(H, p, i)) if self.is_series() else (None, None)
        hint = tt(decd(d, x), valid(d, x)) if d is not None else []
        z = [nz(d)] if d is not None else []
        IH = [z3.Implies(z3.And(nz(d), valid(d, x)), decd(d, x))] if d is not None else []
        if isinstance(k, composite.ListK) and k.fixed: z.append(flen(ED) > 0)      # the definition of nz
        if not self.is_series():
            self.ob('what can be decoded is valid', k.valid(H, p), khyps(k.dvalid(H, p)) + hint)
            self.ob('valid values can be decoded', k.dvalid(H, p), khyps(k.valid(H, p)) + z + IH)
            return
        n = self.n(val); rng = [0 <= i, i < n, idx(i) == 0]
        self.ob('what can be decoded is valid: parts', valid(d, x), khyps(k.dvalid(H, p)) + hint + rng)
        self.ob('valid values can be decoded: parts', decd(d, x), khyps(k.valid(H, p)) + z + IH + rng)
        for c in k.valid(H, p):
            if not isinstance(c, All): self.ob('what can be decoded is valid', c, khyps(k.dvalid(H, p)))
        for c in k.dvalid(H, p):
            if not isinstance(c, All): self.ob('valid values can be decoded', c, khyps(k.valid(H, p)) + z)

class Bounds(Laws):
    """sizes lie between the bounds of the type"""
    title = 'bounds of sizes'
    bounds = True
    def prove(self, k):
        st = self.st
        mn, mx, fl, f0, f1 = (I_(x) for x in (k.minl(), k.maxl(), k.flen(), k.fmin(), k.fmax()))
        if isinstance(k, composite.ListK): st.add(rlimit(TT) >= 0)
        if isinstance(k, container.Container): self.struct(k)
        if isinstance(k, composite.PtrK): st.add(*tt(minl(ED), maxl(ED), flen(ED), fmin(ED), fmax(ED)))
        else: st.add(*tt(minl(ED), maxl(ED), flen(ED), fmin(ED), fmax(ED)))
        if isinstance(k, composite.VectorK):
            self.mulmono('products grow', rlen(TT), [flen(ED), minl(ED), maxl(ED), 4 + minl(ED), 4 + maxl(ED), fmin(ED), fmax(ED)])
            if not k.fixed: st.add(4 * rlen(TT) == mul(rlen(TT), z3.IntVal(4))); self.four(rlen(TT))
        self.ob('0 <= FixedLen <= MinLen <= MaxLen', z3.And(fl >= 0, fl <= mn, mn <= mx))
        self.ob('0 <= FuzzMinLen <= FuzzMaxLen', z3.And(f0 >= 0, f0 <= f1))
        fx = B_(k.isfixed())
        self.ob('fixed-size types: all bounds are equal', z3.And(mn == fl, mx == fl, f0 == fl, f1 == fl), [fx])
        ms = I_(k.memsz())
        if isinstance(k, container.Container) and k.fixed:
            c = container
            self.induct('fields with bytes take memory', lambda i: z3.Implies(k.sums['FO'](i) > 0, ms > 0), 0, c.NF(c.D0),
                        hyp=lambda i: tt(memsz(c.CFD(c.D0, i)), c.CFOFF(c.D0, i), flen(c.CFD(c.D0, i))))
        self.ob('fixed-size types with bytes take memory', ms > 0, [fx, fl > 0] + (tt(memsz(ED), mul(rlen(TT), rsize(EL))) if not isinstance(k, container.Container) else []))
        val = self.value(); H, p = self.use(val)
        if isinstance(k, composite.PtrK): sz = size(ED, k.val(H, p))
        else: sz = I_(k.size(H, p))
        if self.is_series(): self.series(k, val)
        V_ = khyps(k.valid(H, p))
        self.ob('sizes are not negative', sz >= 0)
        self.ob('fixed-size types: the size', sz == fl, [fx])
        self.ob('MinLen <= size <= MaxLen', z3.And(mn <= sz, sz <= mx), V_)
        # acceptable inputs
        a, b = fresh('a'), fresh('b')
        if self.is_series():
            return self.acceptable(k, a, b, mn, mx)
        self.ob('acceptable inputs have a length within the bounds', z3.And(mn <= b - a, b - a <= mx), khyps(k.can(W1, a, b)))
    def four(self, n): pass
    def mulmono(self, name, n, xs):
        """n x <= n y for x <= y"""
        x, y, m = fresh('x'), fresh('y'), fresh('m')
        self.ob(name, mul(m, x) <= mul(m, y), [m >= 0, 0 <= x, x <= y] + tt(mul(x, m), mul(y, m)))
        for x in xs:
            for y in xs:
                if not x.eq(y): self.st.add(z3.Implies(z3.And(n >= 0, 0 <= x, x <= y), mul(n, x) <= mul(n, y)))
    def struct(self, k):
        n = container.NF(container.D0); S_ = k.sums; FD = k.e
        h = lambda i: tt(minl(FD(i)), maxl(FD(i)), flen(FD(i)), fmin(FD(i)), fmax(FD(i)))
        self.induct('sums of the bounds', lambda i: z3.And(0 <= S_['FO'](i), S_['FO'](i) <= S_['MIN'](i), S_['MIN'](i) <= S_['MAX'](i), 0 <= S_['FMIN'](i), S_['FMIN'](i) <= S_['FMAX'](i)), 0, n, hyp=h)
        if k.fixed:
            self.induct('sums of the bounds of fixed-size fields', lambda i: z3.And(S_['FO'](i) == S_['MIN'](i), S_['MIN'](i) == S_['MAX'](i), S_['FMIN'](i) == S_['FO'](i), S_['FMAX'](i) == S_['FO'](i)), 0, n, hyp=h)
    def partial(self, k, i):
        """bounds of the first i parts"""
        if isinstance(k, container.Container): return k.sums['MIN'](i), k.sums['MAX'](i)
        if k.fixed: return k.FO(i), k.FO(i)
        return mul(i, 4 + minl(ED)), mul(i, 4 + maxl(ED))
    def series(self, k, val):
        H, p = self.use(val); n = self.n(val); CS = val[2]
        st = self.st
        i = z3.Int('i')
        vh = hyps([All(0, n, lambda i: valid(k.e(i), k.val(H, p, i)))])
        lo = lambda i: self.partial(k, i)[0]; hi = lambda i: self.partial(k, i)[1]
        sv = self.st; self.st = sv.copy(); self.st.add(*vh)
        claim = lambda i: z3.And(lo(i) <= k.FO(i) + CS(i), k.FO(i) + CS(i) <= hi(i))
        self.induct('sizes of the first parts', claim, 0, n, hyp=lambda i: tt(size(k.e(i), k.val(H, p, i)), minl(k.e(i)), maxl(k.e(i))))
        self.st = sv
        sv.add(Imp(And(*vh), claim(n)))
        self.limits(k, n)
    def limits(self, k, n):
        st = self.st
        if isinstance(k, composite.ListK):
            x = flen(ED) if k.fixed else 4 + maxl(ED)
            self.ob('a longer list is larger', mul(n, x) <= mul(rlimit(TT), x), [0 <= n, n <= rlimit(TT)])
            st.add(z3.Implies(z3.And(0 <= n, n <= rlimit(TT)), mul(n, x) <= mul(rlimit(TT), x)))
    def acceptable(self, k, a, b, mn, mx):
        st = self.st
        n = I_(k.can_n(W1, a, b)); FO, NV = k.FO, k.NV
        N_ = fresh('n'); st.add(N_ == n)
        st.add(*khyps(k.can(W1, a, b)))
        n = N_
        P = k.positions(W1, a, b, n)
        lo = lambda i: self.partial(k, i)[0]; hi = lambda i: self.partial(k, i)[1]
        claim = lambda i: z3.And(P(NV(i)) - a >= FO(n) + lo(i) - FO(i), P(NV(i)) - a <= FO(n) + hi(i) - FO(i))
        st.add(n >= 0)
        self.induct('positions of acceptable parts', claim, 0, n, hyp=lambda i: tt(minl(k.e(i)), maxl(k.e(i))))
        self.limits(k, n)
        self.ob('acceptable inputs have a length within the bounds', z3.And(mn <= b - a, b - a <= mx), [claim(n)])

class Witness(Laws):
    """the condition Decode establishes (positions given by the offsets in the input) is the serialization condition"""
    title = 'offsets that are accepted are those of the serialization'
    def prove(self, k):
        st = self.st
        val = self.value(); H, p = self.use(val)
        a, b = fresh('a'), fresh('b')
        st.add(b >= a, b - a < U32)       # offsets have 32 bits
        st.add(*khyps(k.Mwit(H, p, W1, a, b)))
        n = self.n(val); CS = val[2]; FO, NV, e = k.FO, k.NV, k.e; x = lambda i: k.val(H, p, i)
        P = k.positions(W1, a, b, n)
        self.induct('the positions', lambda i: P(NV(i)) == a + FO(n) + CS(i), 0, n, hyp=lambda i: tt(k.vidx(NV(i)), size(e(i), x(i))))
        self.ob('the length', b == a + FO(n) + CS(n), tt(P(NV(n))))
        i = fresh('i')
        hyp = [0 <= i, i < n] + mark(i, i + 1)
        isv = B_(k.isv(i))
        self.ob('fixed-size parts', Mm(e(i), x(i), W1, a + FO(i), a + FO(i) + flen(e(i))), hyp + [z3.Not(isv)])
        q0 = a + FO(n) + CS(i); q1 = q0 + size(e(i), x(i))
        self.ob('positions of variable-size parts', z3.And(P(NV(i)) == q0, P(NV(i) + 1) == q1), hyp + [isv] + tt(P(NV(i + 1))))
        self.ob('variable-size parts', Mm(e(i), x(i), W1, q0, q1), hyp + [isv, P(NV(i)) == q0, P(NV(i) + 1) == q1])
        w = FO(n) + CS(i); y = a + FO(i)
        self.ob('offsets', LE4(W1, y) == w, hyp + [isv, P(NV(i)) == q0] + tt(k.vidx(NV(i))))
        lbs = [w == sum(lb(w, q) * (1 << (8 * q)) for q in range(4))]
        self.ob('offsets fit 32 bits', z3.And(w >= 0, w < U32), hyp + [LE4(W1, y) == w])
        self.ob('bytes of offsets', B_(offm(W1, y, w)), hyp + [LE4(W1, y) == w, w >= 0, w < U32] + lbs)

class Transfer(Laws):
    """whether bytes are the serialization of a value (or acceptable) depends on these bytes alone"""
    title = 'serializations depend on their bytes alone'
    def prove(self, k):
        st = self.st
        val = self.value(); H, p = self.use(val)
        a1, a2 = fresh('a1'), fresh('a2'); L = fresh('len')
        st.add(L >= 0)
        x = z3.Int('x')
        sv = self.st
        same = [z3.ForAll([x], z3.Implies(z3.And(a1 <= x, x < a1 + L), at(W1, x) == at(W2, x - a1 + a2)), patterns=[at(W1, x)]),
                z3.ForAll([x], z3.Implies(z3.And(a2 <= x, x < a2 + L), at(W2, x) == at(W1, x - a2 + a1)), patterns=[at(W2, x)])]
        st.add(*same)
        st0 = st.copy()
        st.add(*khyps(k.Mser(H, p, W1, a1, a1 + L)))
        IH = lambda d, vl, o, ln: [z3.Implies(z3.And(Mm(d, vl, W1, a1 + o, a1 + o + ln), 0 <= o, ln >= 0, o + ln <= L), Mm(d, vl, W2, a2 + o, a2 + o + ln))]
        JH = lambda d, o, o2: [z3.Implies(z3.And(can(d, W1, a1 + o, a1 + o2), 0 <= o, o <= o2, o2 <= L), can(d, W2, a2 + o, a2 + o2))]
        if isinstance(k, composite.PtrK):
            vl = k.val(H, p)
            self.ob('the same value', Mm(ED, vl, W2, a2, a2 + L), IH(ED, vl, z3.IntVal(0), L))
            self.ob('acceptable', can(ED, W2, a2, a2 + L), [can(ED, W1, a1, a1 + L)] + JH(ED, z3.IntVal(0), L), st0)
            return
        if not self.is_series():
            self.ob('the same value', k.Mser(H, p, W2, a2, a2 + L))
            last = tt(at(W2, a2 + L - 1), at(W1, a1 + L - 1))
            y = fresh('y')
            if any(isinstance(c, Rng) for c in k.can(W1, a1, a1 + L)):
                self.ob('acceptable: booleans', at(W2, a2 + y) <= 1, khyps(k.can(W1, a1, a1 + L)) + [0 <= y, y < L] + tt(at(W1, a1 + y)), st0)
            self.ob('acceptable', [c for c in k.can(W2, a2, a2 + L) if not isinstance(c, Rng)], khyps(k.can(W1, a1, a1 + L)) + last, st0)
            return
        n = self.n(val); CS = val[2]; FO, NV, e = k.FO, k.NV, k.e; vl = lambda i: k.val(H, p, i)
        i = fresh('i'); isv = B_(k.isv(i))
        self.fixed_grows(k, n, st); 
        hyp = [0 <= i, i < n] + mark(i, i + 1, n, z3.IntVal(0)) + tt(size(e(i), vl(i)))
        self.ob('the length', L == FO(n) + CS(n))
        o = FO(n) + CS(i); ln = size(e(i), vl(i))
        room = [FO(i) >= 0, FO(i + 1) <= FO(n), CS(i) >= 0, CS(i + 1) <= CS(n), CS(n) >= 0, FO(n) >= 0]
        self.ob('room for the parts', z3.And(*room), hyp)
        hyp = hyp + room
        self.ob('fixed-size parts', Mm(e(i), vl(i), W2, a2 + FO(i), a2 + FO(i) + flen(e(i))), hyp + [z3.Not(isv)] + IH(e(i), vl(i), FO(i), flen(e(i))))
        self.ob('variable-size parts', Mm(e(i), vl(i), W2, a2 + o, a2 + o + ln), hyp + [isv] + IH(e(i), vl(i), o, ln))
        self.ob('offsets', B_(offm(W2, a2 + FO(i), o)), hyp + [isv] + tt(*[at(W2, a2 + FO(i) + q) for q in range(4)]))
        # acceptable
        self.st = st0
        st0.add(*khyps(k.can(W1, a1, a1 + L)))
        n1 = I_(k.can_n(W1, a1, a1 + L)); n = fresh('n'); st0.add(n == n1)
        n2 = I_(k.can_n(W2, a2, a2 + L))
        st0.add(n >= 0)
        self.fixed_grows(k, n, st0)
        b1, b2 = a1 + L, a2 + L
        P1, P2 = k.positions(W1, a1, b1, n), k.positions(W2, a2, b2, n)
        z = z3.IntVal(0); st0.add(*mark(z, n))
        # positions grow, from the fixed part to the end
        self.induct('positions are not before the end of the fixed part', lambda i: P1(NV(i)) - a1 >= FO(n), 0, n, hyp=lambda i: tt(minl(e(i))))
        self.induct('positions are not beyond the end', lambda i: P1(NV(i)) - a1 <= L, 0, n, down=True, hyp=lambda i: tt(minl(e(i))))
        self.ob('the fixed part fits', FO(n) <= L, tt(P1(NV(z)), P1(NV(n))))
        st0.add(FO(n) <= L)
        word = lambda y: tt(*[at(W, a + y + q) for q in range(4) for W, a in ((W1, a1), (W2, a2))])
        if isinstance(k, composite.ListK) and not k.fixed:
            st0.add(*word(z))
            self.ob('the first offset', z3.Implies(L > 0, LE4(W1, a1) == LE4(W2, a2)), [z3.Implies(L > 0, L >= 4)])
            self.ob('a first offset fits', z3.Implies(L > 0, L >= 4), [FO(n) == 4 * n])
            st0.add(z3.Implies(L > 0, LE4(W1, a1) == LE4(W2, a2)))
        self.ob('the number of elements', n2 == n)
        i = fresh('i'); isv = B_(k.isv(i))
        hyp = [0 <= i, i < n] + mark(i, i + 1)
        m = fresh('m')
        y = FO(k.vidx(m))
        N_ = NV(n)
        if isinstance(k, container.Container): vf = [z3.And(k.vidx(m) >= 0, k.vidx(m) < n, z3.Not(isfix(e(k.vidx(m)))))] + mark(k.vidx(m), k.vidx(m) + 1)
        else: vf = mark(m, m + 1)
        self.ob('offsets lie in the fixed part', z3.And(y >= 0, y + 4 <= FO(n)), [0 <= m, m < N_] + vf)
        self.ob('the same positions', P1(m) - a1 == P2(m) - a2, [0 <= m, m <= N_, z3.Implies(m < N_, z3.And(y >= 0, y + 4 <= FO(n)))] + word(y))
        o1, o2 = P1(NV(i)) - a1, P1(NV(i) + 1) - a1
        eq = lambda j: P1(j) - a1 == P2(j) - a2
        self.ob('fixed-size parts', can(e(i), W2, a2 + FO(i), a2 + FO(i) + flen(e(i))), hyp + [z3.Not(isv), FO(i) >= 0, FO(i) + flen(e(i)) <= FO(n)] + tt(flen(e(i))) + JH(e(i), FO(i), FO(i) + flen(e(i))))
        self.ob('room for acceptable parts', z3.And(FO(i) >= 0, FO(i) + flen(e(i)) <= FO(n)), hyp + [z3.Not(isv)])
        self.ob('counting', NV(i + 1) == NV(i) + 1, hyp + [isv])
        self.ob('variable-size parts', can(e(i), W2, P2(NV(i)), P2(NV(i) + 1)), hyp + [isv, NV(i + 1) == NV(i) + 1, eq(NV(i)), eq(NV(i) + 1)] + JH(e(i), o1, o2) + tt(P1(NV(i + 1)), minl(e(i))))
        for c in k.can(W2, a2, b2):
            if not isinstance(c, All): self.ob('the first offset and the length', c, [n2 == n, eq(NV(z))])
    def fixed_grows(self, k, n, st):
        if isinstance(k, composite.Uniform):
            if k.fixed:
                i = z3.Int('i')
                # mul(i, e) + e <= mul(n, e) for i < n: instances of the axioms of products
                st.add(z3.ForAll([i], mul(i + 1, flen(ED)) == mul(i + 1, flen(ED)), patterns=[idx(i)]))
                st.add(*tt(mul(n, flen(ED)), flen(ED)))

def contracts(ks):
    out = {'laws': [L(k) for k in ks for L in (Determined, Injective, Acceptable, Valid, Bounds, Transfer)],
           'wit': [Witness(k) for k in ks if isinstance(k, composite.Series) and k.fixed is not True] + [Witness(k) for k in ks if isinstance(k, composite.Series) and k.fixed is True]}
    return out
