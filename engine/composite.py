"""Composite kinds: vectors and lists of arbitrary elements, pointers, containers."""
from kinds import *
import child

def FAi(lo, hi, body):
    """forall lo <= j < hi: body(j), for use in loop invariants"""
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(I_(lo) <= j, j < I_(hi), idx(j) == 0), B_(body(j))), patterns=[idx(j)])

def mono(v, st, name, f, lo, hi, cond=True, delta=None, pat=None, facts=None):
    """induction: if f(j) (+ delta) <= f(j+1) for lo <= j < hi then f(lo) + (j-lo) delta <= f(j) <= f(hi) for lo <= j <= hi"""
    sk = fresh('sk')
    s = st.copy(); s.add(I_(lo) <= sk, sk < I_(hi), idx(sk) == 0, idx(sk + 1) == 0, B_(cond), *(facts(sk) if facts else []))
    v.oblige(s, 'PRE', 'lemma: %s grows at every step' % name, f(sk) + (I_(delta) if delta is not None else 0) <= f(sk + 1))
    j = z3.Int('j')
    st.add(idx(I_(lo)) == 0, idx(I_(hi)) == 0)
    c = z3.And(f(I_(lo)) <= f(j), f(j) <= f(I_(hi)))
    if delta is not None: c = z3.And(c, f(I_(lo)) + mul(j - lo if not (isinstance(lo, int) and lo == 0) else j, I_(delta)) <= f(j))
    st.add(Imp(cond, z3.ForAll([j], z3.Implies(z3.And(I_(lo) <= j, j <= I_(hi)), c), patterns=[pat(j) if pat is not None else idx(j)])))
    st.add(z3.Implies(B_(cond) if not isinstance(cond, bool) else z3.BoolVal(cond), z3.Implies(I_(lo) <= I_(hi), f(I_(lo)) <= f(I_(hi)))))

def offg(W, x, v):
    """the offset stored in W at x is v (equivalent to offm; the form used for conclusions)"""
    return LE4(W, x) == v

class Series(Kind):
    """n parts, part i of type e(i) at address A(H, p, i): the parts of fixed size and the offsets of the others come first,
    part i at FO(i); the parts of variable size follow in order.  NV(i): how many of the first i parts have variable size,
    vidx(m): the m-th of these."""
    composite = True
    uniform = False
    def n(self, H, p): raise NotImplementedError
    def cap(self, H, p): return self.n(H, p)
    def e(self, i): raise NotImplementedError
    def A(self, H, p, i): raise NotImplementedError
    def FO(self, i): raise NotImplementedError
    def NV(self, i): raise NotImplementedError
    def vidx(self, m): raise NotImplementedError
    def isv(self, i): raise NotImplementedError        # python bool or formula
    def val(self, H, p, i): return V(H, self.e(i), self.A(H, p, i))
    def marks(self): return []
    # --- sizes of values
    def prep_enc(self, v, st, H, p):
        """the partial sums of the sizes of the variable-size parts"""
        CS = self.CS = F('CS!%d' % next(_cs), I, I)
        i = z3.Int('i')
        step = Ite(self.isv(i), size(self.e(i), self.val(H, p, i)), 0)
        n = I_(self.n(H, p))
        st.add(CS(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, CS(i + 1) == CS(i) + step), patterns=[idx(i)]))
        st.add(*mark(0, n))
        mono(v, st, 'the total size of the first parts', CS, 0, n)
        if self.fixed is True:
            # no part has variable size
            sk = fresh('sk'); s = st.copy(); s.add(0 <= sk, sk < n, idx(sk) == 0, CS(sk) == 0)
            v.oblige(s, 'PRE', 'lemma: fixed-size parts only', CS(sk + 1) == 0)
            st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), CS(i) == 0), patterns=[idx(i)]), CS(n) == 0)
    def size(self, H, p): return self.FO(I_(self.n(H, p))) + self.CS(I_(self.n(H, p)))
    def size_hyps(self, H, p): return [self.size(H, p) < BIG]
    # --- meaning
    def parts(self, n, body_fix, body_var):
        """the clauses about all fixed-size / variable-size parts"""
        def b(i):
            v = self.isv(i)
            if v is True: return body_var(i)
            if v is False: return body_fix(i)
            return [Imp(Not(v), x) for x in body_fix(i)] + [Imp(v, x) for x in body_var(i)]
        return All(0, n, b)
    def positions(self, W, a, b, n):
        """where the m-th variable-size part starts, according to the offsets in W[a,b)"""
        N = self.NV(I_(n))
        return lambda m: z3.If(I_(m) < N, a + LE4(W, a + self.FO(self.vidx(m))), b)
    def Mser(self, H, p, W, a, b):
        n = I_(self.n(H, p)); FO, CS = self.FO, self.CS
        hd = FO(n)
        pos = lambda i: a + hd + CS(i)
        return [b == a + hd + CS(n),
                self.parts(n, lambda i: [Mm(self.e(i), self.val(H, p, i), W, a + FO(i), a + FO(i) + flen(self.e(i)))],
                           lambda i: [offm(W, a + FO(i), hd + CS(i)), Mm(self.e(i), self.val(H, p, i), W, pos(i), pos(i) + size(self.e(i), self.val(H, p, i)))])]
    def Mwit(self, H, p, W, a, b):
        """the same with the positions given by the offsets themselves"""
        n = I_(self.n(H, p)); FO = self.FO
        P = self.positions(W, a, b, n)
        NV = self.NV
        return [P(NV(z3.IntVal(0))) == a + FO(n),
                self.parts(n, lambda i: [Mm(self.e(i), self.val(H, p, i), W, a + FO(i), a + FO(i) + flen(self.e(i)))],
                           lambda i: [Mm(self.e(i), self.val(H, p, i), W, P(NV(i)), P(NV(i) + 1))])]
    def valid(self, H, p): return [All(0, self.n(H, p), lambda i: valid(self.e(i), self.val(H, p, i)))]
    def dvalid(self, H, p): return [All(0, self.n(H, p), lambda i: decd(self.e(i), self.val(H, p, i)))]
    def can_n(self, W, a, b): return self.n(None, None)
    def can(self, W, a, b):
        n = I_(self.can_n(W, a, b)); FO, NV = self.FO, self.NV
        P = self.positions(W, a, b, n)
        return self.can_hdr(W, a, b, n) + [P(NV(z3.IntVal(0))) == a + FO(n),
                self.parts(n, lambda i: [can(self.e(i), W, a + FO(i), a + FO(i) + flen(self.e(i)))],
                           lambda i: [can(self.e(i), W, P(NV(i)), P(NV(i) + 1))])]
    def can_hdr(self, W, a, b, n): return [n >= 0]
    def wf(self, H, p): return [All(0, self.cap(H, p), lambda i: Ty(H, self.e(i), self.A(H, p, i)))]

    # --- loop invariants
    def memsteps(self, v, L, ivs): return []
    def enc_templates(self, c, v, L, ivs):
        H = c.old.g['H']; p = c.args[2]; n = I_(self.n(H, p)); CS, FO = self.CS, self.FO
        e = L.st0.g['wpos']
        out = [('fixed-size parts and offsets written', lambda st, env, k: st.g['wpos'] == e + FO(k)),
               ('variable-size parts written', lambda st, env, k: st.g['wpos'] == e + CS(k))]
        for q, (na, ga, la) in enumerate(ivs):
            for nb, gb, lb_ in ivs[:q]:
                out.append(('%s + %s is the next offset' % (na, nb), lambda st, env, k, ga=ga, gb=gb: ga(st, env) + gb(st, env) == FO(n) + CS(k)))
        return out + self.memsteps(v, L, ivs)
    def size_templates(self, c, v, L, ivs):
        CS, FO = self.CS, self.FO
        out = []
        for name, get, leaf in ivs:
            e = get(L.st0, L.eenv)
            out.append(('%s advances by the sizes' % name, lambda st, env, k, get=get, e=e: get(st, env) == I_(e) + CS(k)))
            if hasattr(self, 'n'):
                n = I_(self.n(c.old.g['H'], c.args[1])); L.hs.add(*mark(n - L.k, n - L.k - 1))
                out.append(('%s advances by the sizes, last part first' % name, lambda st, env, k, get=get, e=e: get(st, env) == I_(e) + CS(n) - CS(n - k)))
            out.append(('%s advances by the sizes with offsets' % name, lambda st, env, k, get=get, e=e: get(st, env) == I_(e) + FO(k) + CS(k)))
        return out + self.memsteps(v, L, ivs)

    def prep_dec(self, c):
        v, st = c.v, c.old
        r0 = st.g['rpos']; cc = c.x['cc']; W = c.x['W']
        n = I_(self.can_n(S, r0, r0 + W))
        P = self.positions(S, r0, r0 + W, n)
        N = I_(self.NV(n)); NV = self.NV
        pp = F('pos!%d' % next(_cs), I, I); m = z3.Int('m')
        st.add(*mark(0, n))
        if self.uniform:
            st.add(z3.ForAll([m], pp(m) == P(m), patterns=[idx(m)]), *mark(N))
            mono(v, st, 'the position of the variable-size parts', pp, 0, N, z3.And(cc, n >= 0), delta=self.delta())
        else:
            st.add(z3.ForAll([m], pp(m) == P(m), patterns=[pp(m)]))
            st.add(z3.ForAll([m], z3.And(pp(NV(m)) == P(NV(m)), pp(NV(m) + 1) == P(NV(m) + 1)), patterns=[idx(m)]))
            mono(v, st, 'the position of the variable-size parts', pp, 0, N, z3.And(cc, n >= 0), delta=self.delta(), pat=pp,
                 facts=lambda sk: mark(self.vidx(sk)))
        c.x['pos'] = pp; c.x['n'] = n
    def delta(self): return None
    def span(self, c):
        return c.x['W'] if 'W' in c.x else None
    def dec_templates(self, c, v, L, ivs):
        k0 = self
        dry = len(c.args) < 3 or not ('H' in L.st0.g) or v.same(L.st0.g['H'], L.hs.g['H'])
        fuzz = c.c.fuzz
        r0 = c.old.g['rpos']; p = c.args[2]; H0 = L.st0.g['H']; cc = c.x['cc']
        er = L.st0.g['rpos']
        FO, NV = self.FO, self.NV
        out = []
        # what was read so far
        if not fuzz:
            W = c.x['W']; pp = c.x['pos']
            offs = lambda m: LE4(S, r0 + FO(self.vidx(m)))
            for src, get in array_vars(v, L):
                def arr(st, env, k, get=get):
                    s = get(st, env); a = v.get_path(st.mem[s.base.obj], s.base.path) if s.base is not None else None
                    if a is None: return I_(s.len) == 0
                    j = z3.Int('j')
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < I_(s.len), idx(j) == 0), z3.Select(a, I_(s.off) + j) == offs(j)), patterns=[idx(j)])
                out.append(('%s holds the offsets' % src, arr))
                def filled(st, env, k, d, get=get):
                    s = get(st, env); a = v.get_path(st.mem[s.base.obj], s.base.path) if s.base is not None else None
                    if a is None: return I_(s.len) == 0
                    j = z3.Int('j')
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NV(k + d), j < I_(s.len), idx(j) == 0), z3.Select(a, I_(s.off) + j) == offs(j)), patterns=[idx(j)])
                if not isinstance(getattr(get(L.hs, L.henv), 'len', None), int) and v.same(get(L.hs, L.henv).len, get(L.st0, L.eenv).len):
                    out.append(('the first entries of %s are the offsets' % src, lambda st, env, k, f=filled: f(st, env, k, 0)))
                    out.append(('the first entries of %s are the offsets +1' % src, lambda st, env, k, f=filled: f(st, env, k, 1)))
                out.append(('%s has an offset for every variable-size part so far' % src, lambda st, env, k, get=get: I_(get(st, env).len) == NV(k)))
                out.append(('%s has an offset for every variable-size part so far +1' % src, lambda st, env, k, get=get: I_(get(st, env).len) == NV(k + 1)))
            out.append(('fixed-size parts and offsets read', lambda st, env, k: st.g['rpos'] == r0 + FO(k)))
            out.append(('fixed-size parts and offsets read +1', lambda st, env, k: st.g['rpos'] == r0 + FO(k + 1)))
            def up(k, st, i):
                return z3.If(NV(i) + 1 == NV(k), st.g['rpos'], r0 + offs(NV(i) + 1))
            def nn(st, env): return I_(self.n(H0, p) if not dry else c.x['n'])
            hd = lambda: FO(I_(self.dec_n(c, L, dry)))
            out.append(('complete input: positions', lambda st, env, k: z3.Implies(cc, st.g['rpos'] == pp(NV(k)))))
            out.append(('no variable-size part yet', lambda st, env, k: z3.Implies(NV(k) == 0, st.g['rpos'] == r0 + hd())))
            out.append(('first offset', lambda st, env, k: z3.Implies(NV(k) > 0, offs(z3.IntVal(0)) == hd())))
        if not fuzz:
            def fixr(st, env, k): return FAi(0, k, lambda i: Imp(Not(self.isv(i)), can(self.e(i), S, r0 + FO(i), r0 + FO(i) + flen(self.e(i)))))
            def varr(st, env, k): return FAi(0, k, lambda i: Imp(self.isv(i), can(self.e(i), S, r0 + offs(NV(i)), up(k, st, i))))
            if dry:
                out += [('fixed-size parts checked', fixr), ('variable-size parts checked', varr)]
        if not dry:
            def Ai(i): return self.A(H0, p, i)
            def vl(st, i): return V(st.g['H'], self.e(i), Ai(i))
            if not fuzz:
                out.append(('fixed-size parts decoded', lambda st, env, k: FAi(0, k, lambda i: Imp(Not(self.isv(i)), Mm(self.e(i), vl(st, i), S, r0 + FO(i), r0 + FO(i) + flen(self.e(i)))))))
                out.append(('fixed-size parts stay decoded', lambda st, env, k: FAi(0, self.n(H0, p), lambda i: Imp(Not(self.isv(i)), Mm(self.e(i), vl(st, i), S, r0 + FO(i), r0 + FO(i) + flen(self.e(i)))))))
                out.append(('variable-size parts decoded', lambda st, env, k: FAi(0, k, lambda i: Imp(self.isv(i), Mm(self.e(i), vl(st, i), S, r0 + offs(NV(i)), up(k, st, i))))))
                out.append(('fixed-size parts valid', lambda st, env, k: FAi(0, k, lambda i: Imp(Not(self.isv(i)), decd(self.e(i), vl(st, i))))))
                out.append(('fixed-size parts stay valid', lambda st, env, k: FAi(0, self.n(H0, p), lambda i: Imp(Not(self.isv(i)), decd(self.e(i), vl(st, i))))))
                out.append(('variable-size parts valid', lambda st, env, k: FAi(0, k, lambda i: Imp(self.isv(i), decd(self.e(i), vl(st, i))))))
            else:
                out.append(('parts valid', lambda st, env, k: FAi(0, k, lambda i: decd(self.e(i), vl(st, i)))))
            out.append(('parts hold values', lambda st, env, k: FAi(0, self.cap(H0, p), lambda i: Ty(st.g['H'], self.e(i), Ai(i)))))
            out += self.hdr_templates(c, v, L)
        if fuzz: out += self.fuzz_templates(c, v, L, ivs)
        return out + self.memsteps(v, L, ivs)
    def dec_n(self, c, L, dry): return self.n(L.st0.g['H'], c.args[2])
    def hdr_templates(self, c, v, L): return []
    def fuzz_templates(self, c, v, L, ivs):
        """SF(k): the sum of FuzzMinLen of the first k parts"""
        i_ = lambda st: I_(world.W.dr(v, st, c.args[1])[0])
        mx = I_(world.W.dr(v, c.old, c.args[1])[1]); cc = c.x['cc']
        H0 = L.st0.g['H']; p = c.args[2]; n = I_(self.n(H0, p))
        e = i_(L.st0)
        SF, SX = self.SF, self.SX
        out = [('enough left for the other parts', lambda st, env, k: mx - i_(st) >= SF(n) - SF(k)),
               ('fuzz input consumed', lambda st, env, k: z3.And(i_(st) - e >= SF(k), i_(st) - e <= SX(k)))]
        for name, get, leaf in ivs:
            out.append(('%s is what the other parts need' % name, lambda st, env, k, get=get: get(st, env) == SF(n) - SF(k)))
        return out
import itertools as _it
_cs = _it.count()

def array_vars(v, L):
    """slices of integers that live across the loop"""
    out = []
    def isarr(st, s): return isinstance(s, SliceV) and (s.base is None or isinstance(s.base, Ptr) and not s.base.obj.startswith('G:') and z3.is_array(v.get_path(st.mem[s.base.obj], s.base.path)) if isinstance(s, SliceV) and not isinstance(s.base, tuple) else False)
    for nm, x in L.henv.items():
        if isinstance(x, SliceV) and isinstance(x.base, Ptr) and not x.base.obj.startswith('G:') and x.base.obj in L.hs.mem:
            c = v.get_path(L.hs.mem[x.base.obj], x.base.path)
            if isz(c) and z3.is_array(c) and c.sort() == z3.ArraySort(I, I):
                out.append((nm, lambda st, env, nm=nm: env[nm]))
    for o, c in L.hs.mem.items():
        if isinstance(c, SliceV) and isinstance(c.base, Ptr) and c.base.obj in L.hs.mem:
            d = v.get_path(L.hs.mem[c.base.obj], c.base.path)
            if isz(d) and z3.is_array(d) and d.sort() == z3.ArraySort(I, I):
                out.append((o, lambda st, env, o=o: st.mem[o]))
    return out

# ---------------------------------------------------------------- vectors and lists of arbitrary elements
class Uniform(Series):
    """all parts of one type"""
    uniform = True
    def e(self, i): return ED
    def base(self, H, p): raise NotImplementedError
    def A(self, H, p, i): return self.base(H, p) + mul(i, memsz(ED))
    def FO(self, i): return mul(i, flen(ED)) if self.fixed else 4 * i
    def NV(self, i): return z3.IntVal(0) if self.fixed else i
    def vidx(self, m): return m
    def isv(self, i): return not self.fixed
    def delta(self): return None if self.fixed else flen(ED)
    def SF(self, k): return mul(k, fmin(ED))
    def SX(self, k): return mul(k, fmax(ED))
    def memsteps(self, v, L, ivs):
        out = []
        for name, get, leaf in ivs:
            e = get(L.st0, L.eenv)
            out.append(('%s advances by the element memory size' % name, lambda st, env, k, get=get, e=e: get(st, env) == I_(e) + mul(k, memsz(ED))))
        return out
    def basic_facts(self):
        return [z3.And(*[rkind(EL) != q for q in (1, 8, 9, 10, 11)]), isfix(ED) if self.fixed else z3.Not(isfix(ED)),
                flen(ED) < BIG, memsz(ED) == rsize(EL)]

class VectorK(Uniform):
    rk = 17
    def __init__(self, fixed):
        self.fixed = fixed; self.name = 'vector of %s-size elements' % ('fixed' if fixed else 'variable')
    def facts(self):
        n = rlen(TT)
        return self.basic_facts() + [mul(n, flen(ED)) < BIG, mul(n, 4 + minl(ED)) < BIG, mul(n, fmin(ED)) < BIG, 4 * n < BIG]
    def n(self, H, p): return rlen(TT)
    def base(self, H, p): return p
    def flen(self): return mul(rlen(TT), flen(ED)) if self.fixed else 4 * rlen(TT)
    def minl(self): return self.flen() if self.fixed else mul(rlen(TT), 4 + minl(ED))
    def maxl(self): return self.flen() if self.fixed else mul(rlen(TT), 4 + maxl(ED))
    def fmin(self): return mul(rlen(TT), fmin(ED))
    def fmax(self): return mul(rlen(TT), fmax(ED))
    def alloc_ok(self, n, span): return [n <= rlen(TT), 4 * n <= span]
    def root_leaves(self, H, p): return rlen(TT), rlen(TT), lambda h, i: root(h, ED, self.val(H, p, i))

class ListK(Uniform):
    rk = 23
    isfixed = lambda self: False
    def __init__(self, fixed):
        self.fixed = fixed; self.name = 'list of %s-size elements' % ('fixed' if fixed else 'variable')
    def facts(self):
        n = rlimit(TT)
        return self.basic_facts() + [rimpl(rptr(TT), LISTT)]
    def n(self, H, p): return Wd(H, p + 8)
    def cap(self, H, p): return Wd(H, p + 16)
    def base(self, H, p): return Wd(H, p)
    def flen(self): return z3.IntVal(0)
    def minl(self): return z3.IntVal(0)
    def maxl(self): return mul(rlimit(TT), flen(ED)) if self.fixed else mul(rlimit(TT), 4 + maxl(ED))
    def fmin(self): return z3.IntVal(8)
    def fmax(self): return 8 + mul(rlimit(TT), fmax(ED))
    def wf(self, H, p): return slice_wf(H, p, memsz(ED)) + super().wf(H, p)
    def own(self, H, p): return [(Wd(H, p), Wd(H, p) + mul(Wd(H, p + 16), memsz(ED)))]
    def valid(self, H, p): return [Wd(H, p + 8) <= rlimit(TT)] + super().valid(H, p)
    def dvalid(self, H, p): return [Wd(H, p + 8) <= rlimit(TT)] + ([flen(ED) > 0] if self.fixed else []) + super().dvalid(H, p)
    def can_n(self, W, a, b):
        return divi(b - a, flen(ED)) if self.fixed else z3.If(b == a, 0, LE4(W, a) / 4)
    def can_hdr(self, W, a, b, n):
        if self.fixed: return [b >= a, flen(ED) > 0, mul(n, flen(ED)) == b - a, n >= 0, n <= rlimit(TT)]
        return [b >= a, n <= rlimit(TT), z3.Implies(b > a, z3.And(LE4(W, a) % 4 == 0, n > 0, LE4(W, a) == 4 * n))]
    def fuzz_facts(self): return [fmin(ED) > 0]
    def fuzz_alloc_ok(self, n, span): return [n <= rlimit(TT), mul(n, fmin(ED)) <= span, n <= span]
    def alloc_ok(self, n, span): return [n <= rlimit(TT), mul(n, flen(ED)) <= span if self.fixed else 4 * n <= span]
    def hdr_templates(self, c, v, L):
        H0 = L.st0.g['H']; p = c.args[2]
        return [('slice header unchanged', lambda st, env, k: And(*[Wd(st.g['H'], p + q) == Wd(H0, p + q) for q in (0, 8, 16)]))]
    def root_leaves(self, H, p): return Wd(H, p + 8), rlimit(TT), lambda h, i: root(h, ED, self.val(H, p, i))

class PtrK(Kind):
    name, rk, composite = 'pointer', 22, True
    fixed = None
    def facts(self): return [memsz(ED) == rsize(EL), mul(0, 0) == 0]
    def isfixed(self): return isfix(ED)
    def flen(self): return flen(ED)
    def minl(self): return minl(ED)
    def maxl(self): return maxl(ED)
    def fmin(self): return fmin(ED)
    def fmax(self): return fmax(ED)
    def q(self, H, p): return Wd(H, p)
    def wf(self, H, p):
        q = Wd(H, p)
        return [q >= 0, q + memsz(ED) < ADDR, z3.Implies(q != 0, Ty(H, ED, q))]
    def own(self, H, p): return [(Wd(H, p), z3.If(Wd(H, p) != 0, Wd(H, p) + memsz(ED), 0))]
    def nonnil(self, H, p): return [Wd(H, p) != 0]
    def val(self, H, p): return V(H, ED, Wd(H, p))
    def size(self, H, p): return size(ED, self.val(H, p))
    def size_hyps(self, H, p): return [self.size(H, p) < BIG]
    def Mser(self, H, p, W, a, b): return [Mm(ED, self.val(H, p), W, a, b)]
    def valid(self, H, p): return [valid(ED, self.val(H, p))]
    def dvalid(self, H, p): return [decd(ED, self.val(H, p))]
    def can(self, W, a, b): return [can(ED, W, a, b)]
    def alloc_ok(self, n, span): return []

COMPOSITES = [VectorK(True), VectorK(False), ListK(True), ListK(False), PtrK()]
