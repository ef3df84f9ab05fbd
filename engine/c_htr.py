"""Hash-tree-roots of every kind (properties C06, C07): contracts of HashTreeRoot and SigningRoot.
The leaves of a tree are a function of the index (spec_leaves); at the call of merkle.Merkleize the leaf function given
to it is executed for an arbitrary index and has to return the leaf of that index."""
from kinds import *
import kinds, composite, container, world
import c_merkle

LK = z3.Const('leaves', LF)          # the leaves of the tree of the value, by definition

def strip(last):
    """a byte without its highest set bit"""
    return last - p2of(bidx(last), 8)

def series_byte(k, H, p):
    """byte j of the packed contents, how many there are, and how many there may be"""
    T = TT
    if isinstance(k, Bitvector): L = rlen(T); return (lambda j, q: B(H, p + j)), L, L
    if isinstance(k, Bitlist):
        d, n, c = hdr(H, p)
        bits = bitlen(k, H, p); L = (bits + 7) / 8
        return (lambda j, q: z3.If(j == n - 1, strip(B(H, d + j)), B(H, d + j))), L, None
    if isinstance(k, BytesN): L = rlen(T); return (lambda j, q: B(H, p + j)), L, L
    if isinstance(k, Bytes): return (lambda j, q: B(H, Wd(H, p) + j)), Wd(H, p + 8), rlimit(T)
    if isinstance(k, BasicVector):
        d, n = k.data(H, p)
        L = k.w * n
        return (lambda j, q: B(H, d + z3.If(LE, j, j - q % k.w + (k.w - 1 - q % k.w)))), L, (k.w * rlimit(T) if isinstance(k, BasicList) else L)
    raise Unsupported('leaves of ' + k.name)

def bitlen(k, H, p):
    d, n, c = hdr(H, p)
    return 8 * (n - 1) + bidx(B(H, d + n - 1))

def mixed(k, H, p):
    """the length mixed into the root, if any"""
    if isinstance(k, Bitlist): return bitlen(k, H, p)
    if isinstance(k, (Bytes, BasicList)) and not isinstance(k, BytesN) or isinstance(k, composite.ListK): return Wd(H, p + 8)
    return None

class Tree:
    """the tree of a value: count leaves, padded to limit; leaf i is given byte by byte, or as a chunk"""
    def __init__(self, k, H, p, h, signing=False):
        self.byte = self.chunk = None
        if isinstance(k, container.Container):
            n = NF_()
            self.count = z3.If(n == 0, z3.IntVal(0), n - 1) if signing else n
            self.limit = self.count
        elif isinstance(k, composite.VectorK): self.count = self.limit = rlen(TT)
        elif isinstance(k, composite.ListK): self.count, self.limit = Wd(H, p + 8), rlimit(TT)
        else:
            f, L, M_ = series_byte(k, H, p)
            self.byte = lambda i, q: z3.If(32 * i + q < L, f(32 * i + q, q), z3.IntVal(0))      # q: 0..31
            self.count = (L + 31) / 32
            self.limit = (rlimit(TT) + 255) / 256 if M_ is None else (M_ + 31) / 32
            return
        self.chunk = lambda i: root(h, k.e(i), k.val(H, p, i))

def NF_(): return container.NF(container.D0)

def apply_merkleize(self, v, st, args, line):
    h, count, limit, leaf = args
    cur = v.cur
    if not isinstance(cur, HTR) or cur.tree is None: raise Unsupported('Merkleize called outside of HashTreeRoot')
    if not (isinstance(h, AbsI) and h.kind == 'merkle'): raise Unsupported('hash function %r' % (h,))
    v.oblige(st, 'SAFE', 'no more leaves than the limit', Cmp('<=', count, limit), line)
    st.add(B_(Cmp('<=', count, limit)))
    t = cur.tree
    s = st.copy()
    i = fresh('i'); s.add(i >= 0, i < I_(count), idx(i) == 0)
    if v.feasible(s, None, 1000):
        for s3, (r,) in v.call_value(s, leaf, [i], line):
            for o in st.mem:
                if not v.same(st.mem[o], s3.mem.get(o)): v.oblige(s3, 'FRAME', 'the leaf function modifies nothing', False, line)
            for g in st.g:
                if not v.same(st.g[g], s3.g[g]): v.oblige(s3, 'FRAME', 'the leaf function modifies nothing', Eq(st.g[g], s3.g[g]), line)
            if not isinstance(r, SliceV): raise Unsupported('leaf %r' % (r,))
            v.oblige(s3, 'HTR', 'a leaf has 32 bytes', Eq(r.len, 32), line)
            s3.add(B_(Eq(r.len, 32)))
            if r.base is None: continue
            if isinstance(r.base, tuple):
                a = r.base[1] if isinstance(r.off, int) and r.off == 0 else r.base[1] + r.off
                v.user_access(s3, a, 32, 'leaf', line)
            if t.chunk is not None:
                if isinstance(r.base, Ptr) and r.off == 0:
                    b = v.get_path(s3.mem[r.base.obj], r.base.path)
                    v.oblige(s3, 'HTR', 'leaf i is the root of part i', b == t.chunk(i), line)
                else: raise Unsupported('shape of a leaf')
            else:
                src = v.byte_src(s3, r)
                for q in range(32):
                    v.oblige(s3, 'HTR', 'leaf i has the bytes 32 i to 32 i + 31, zero beyond the end', I_(src(z3.IntVal(q))) == t.byte(i, q), line)
    return [(st, [mroot(h.t, LK, I_(count), I_(limit))])]
c_merkle.Merkleize.apply = apply_merkleize

class HTR(KM):
    method = 'HashTreeRoot'
    signing = False
    tree = None
    def setup(self, v, st):
        k = self.kind
        H, p = self.memory(v, st)
        if hasattr(k, 'nonnil'): st.add(*k.nonnil(H, p))
        st.add(*khyps(k.valid(H, p)))
        h = AbsI('merkle', z3.Const('hasher', Hf))
        self.tree = None
        if not isinstance(k, (Bool, Uint, composite.PtrK)): self.tree = Tree(k, H, p, h.t, self.signing)
        return [(st, [h, p])]
    def post(self, c):
        k = self.kind; H = c.old.g['H']; p = c.args[2]; h = c.args[1].t; r = c.res[0]
        if isinstance(k, composite.PtrK):
            return [Cl('HTR', 'the root of the value pointed to', r == root(h, ED, k.val(H, p)))]
        if self.tree is None:
            q = fresh('q')
            return [Cl('HTR', 'the bytes of the number, little-endian', [rb(r, i) == elb(H, p, i, k.w) for i in range(k.w)]),
                    Cl('HTR', 'zeros up to 32 bytes', rb(r, q) == 0, [q >= k.w, q < 32])]
        t = self.tree
        want = mroot(h, LK, t.count, t.limit)
        m = mixed(k, H, p)
        if m is not None: want = mixin(h, want, m)
        return [Cl('HTR', 'the root of the tree of its chunks' + (' with the length mixed in' if m is not None else ''), r == want)]

class SigningRoot(HTR):
    method = 'SigningRoot'
    signing = True

def contracts(ks):
    return {'htr': [HTR(k) for k in ks], 'signing': [SigningRoot(k) for k in ks if isinstance(k, container.Container)]}
