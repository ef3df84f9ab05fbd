"""Package merkle and the hash helpers (properties C08, C09): contracts of GetDepth, Merkleize, ConstructProof,
HashFn.Combi, HashFn.MixIn and InitZeroHashes, and the theory of padded binary trees they are proved against."""
from core import *
from spec import *
from contract import *
from world import M, Z, H64
import world
import exec as X
import z3

# node(h, lf, c, l, i): node i at height l of the tree over c leaves followed by zero chunks without end
node = F('node', Hf, LF, I, I, I, BA)
depthof = F('depthof', I, I)                 # least d with v <= 2^d, but 1 for v = 1 (a documented special case of GetDepth)
zc = F('zc', Hf, Bo)                         # htr.ZeroHashes was built with this hash function
h_, l_, c_ = z3.Const('h', Hf), z3.Const('lf', LF), z3.Int('c')
MAXD = 64

def NN(c, l):
    """how many nodes at height l have a leaf below them: ceil(c / 2^l)"""
    return z3.If(c == 0, z3.IntVal(0), sh(c - 1, l) + 1)

def nodedef(h, lf, c, l, i):
    """the definition of node"""
    return z3.And(z3.Implies(l == 0, node(h, lf, c, l, i) == z3.If(i < c, leaf(lf, i), Z(0))),
                  z3.Implies(l > 0, node(h, lf, c, l, i) == combi(h, node(h, lf, c, l - 1, 2 * i), node(h, lf, c, l - 1, 2 * i + 1))))

def shdef(x, j):
    return z3.And(sh(x, 0) == x, z3.Implies(j >= 0, sh(x, j + 1) == sh(x, j) / 2))

def depthdef(v):
    d = depthof(v)
    return z3.And(d >= 0, d <= MAXD, v <= pow2(d), z3.Implies(v <= 1, d == v), z3.Implies(v >= 2, z3.And(d > 0, pow2(d - 1) < v)))

def canon(b):
    q = z3.Int('q')
    return z3.ForAll([q], z3.Implies(z3.Or(q < 0, q >= 32), rb(b, q) == 0), patterns=[rb(b, q)])

diff = F('diff', BA, BA, I)
def ext(a, b):
    """two arrays with the same bytes are equal (both are [32]byte)"""
    d = diff(a, b)
    return z3.Or(a == b, z3.And(d >= 0, d < 32, rb(a, d) != rb(b, d)))

def axioms():
    """proved from the definitions by the lemma units below"""
    x, y, i, j, k, m, a, b = z3.Ints('x y i j k m a b')
    h, lf, c = h_, l_, c_
    FA = z3.ForAll; MP = z3.MultiPattern
    ok = z3.And(x >= 0, j >= 0)
    nd = lambda l, i: node(h, lf, c, l, i)
    return [
        FA([x, j, k], z3.Implies(z3.And(x >= 0, j >= 0, k == j + 1), sh(x, k) == sh(x, j) / 2), patterns=[MP(sh(x, j), sh(x, k))]),
        FA([j], z3.Implies(j >= 0, sh(0, j) == 0), patterns=[sh(0, j)]),
        FA([x, y, j], z3.Implies(z3.And(0 <= x, x <= y, j >= 0), sh(x, j) <= sh(y, j)), patterns=[MP(sh(x, j), sh(y, j))]),
        FA([x, y, j], z3.Implies(z3.And(0 <= x, y == x + 1, j >= 0), sh(y, j) <= sh(x, j) + 1), patterns=[MP(sh(x, j), sh(y, j))]),
        FA([x, j, k], z3.Implies(z3.And(x >= 0, 0 <= j, j <= k), sh(x, k) <= sh(x, j)), patterns=[MP(sh(x, j), sh(x, k))]),
        FA([a, b, k, m], z3.Implies(z3.And(a >= 0, b >= 0, k >= 0, k <= m, sh(a, k) == sh(b, k)), sh(a, m) == sh(b, m)), patterns=[MP(sh(a, k), sh(b, k), sh(a, m), sh(b, m))]),
        FA([a, b, k, m], z3.Implies(z3.And(a >= 0, b >= 0, k >= 0, k < m, sh(a, k) / 2 == sh(b, k) / 2), sh(a, m) == sh(b, m)), patterns=[MP(sh(a, k), sh(b, k), sh(a, m), sh(b, m))]),
        FA([x, j], z3.Implies(z3.And(x >= 0, j >= 0, j <= MAXD), (sh(x, j) == 0) == (x < pow2(j))), patterns=[MP(sh(x, j), pow2(j))]),
        FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= MAXD), 2 * pow2(i) <= pow2(j)), patterns=[MP(pow2(i), pow2(j))]),
        FA([x, j], z3.Implies(z3.And(j >= 0, j <= depthof(x), x >= 2, x < U64, x == pow2(depthof(x))), sh(x - 1, j) + 1 == sh(x, j)), patterns=[MP(depthof(x), sh(x, j))]),
        # trees
        FA([h, lf, c, i], z3.Implies(z3.And(i >= 0, i < c), nd(0, i) == leaf(lf, i)), patterns=[nd(0, i)]),
        FA([h, lf, c, i], z3.Implies(z3.And(i >= 0, i < c), nd(0, i) == leaf(lf, i)), patterns=[MP(leaf(lf, i), zch(h, lf, c))]),
        FA([h, lf, c, j, i], z3.Implies(z3.And(zc(h), c >= 0, j >= 0, i >= NN(c, j)), nd(j, i) == Z(j)), patterns=[nd(j, i)]),
        FA([h, lf, c, j, k, a, b], z3.Implies(z3.And(j >= 0, k == j, a >= 0, a % 2 == 0, b == a + 1), combi(h, nd(j, a), nd(k, b)) == nd(j + 1, a / 2)),
           patterns=[combi(h, nd(j, a), nd(k, b))]),
        FA([h, lf, c, j, k, a], z3.Implies(z3.And(zc(h), c >= 0, j >= 0, k == j, a >= 0, a % 2 == 0, a + 1 >= NN(c, j)), combi(h, nd(j, a), Z(k)) == nd(j + 1, a / 2)),
           patterns=[combi(h, nd(j, a), Z(k))]),
        FA([x], z3.Implies(z3.And(x >= 0, x < U64), depthdef(x)), patterns=[depthof(x)]),
        FA([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < U64), depthof(x) <= depthof(y)), patterns=[MP(depthof(x), depthof(y))]),
        FA([x], z3.Implies(z3.And(x >= 0, x < U64), sh(x, depthof(x)) == z3.If(x == pow2(depthof(x)), z3.IntVal(1), z3.IntVal(0))), patterns=[depthof(x)]),
        FA([x], z3.Implies(z3.And(x >= 2, x < U64), z3.And(sh(x - 1, depthof(x)) == 0, sh(x - 1, depthof(x) - 1) >= 1)), patterns=[depthof(x)]),
        Z(0) == ba_zero,
    ]
zch = F('zch', Hf, LF, I, Bo)                # marks the tree at hand
def tree_root(h, lf, count, limit):
    """the Merkle root of count leaves, padded with zero chunks to limit leaves"""
    return z3.If(limit == 0, Z(0), node(h, lf, count, z3.If(limit == 1, z3.IntVal(0), depthof(limit)), 0))

# ---------------------------------------------------------------- lemmas
class Lemma(Contract):
    """a statement about the specification alone: obligations, no code"""
    name = None
    expect_obls = True
    def __init__(self, label, fn, ax=()):
        self.label = 'lemma: ' + label; self.fn = fn; self.ax = list(ax)
        super().__init__()
    def verify(self, v):
        v.cur = self
        v.ax = list(AX()) + self.ax; v._solver = None
        for name, hyp, goal in self.fn():
            st = X.State(); st.add(*hyp)
            v.oblige(st, 'PRE', name, goal)
        return 1

def lemmas():
    x, y, a, b = z3.Ints('x y a b')
    j, k, m = z3.Ints('j k m')
    N = lambda *t: [q >= 0 for q in t]
    d = lambda *ps: [shdef(p, q) for p, q in ps]
    FAj = lambda vs, body, pats: z3.ForAll(vs, body, patterns=pats)
    def shifts():
        out = []
        # by induction on j
        out.append(('non-negative: 0', N(x) + d((x, j)), sh(x, 0) >= 0))
        out.append(('non-negative: step', N(x, j) + d((x, j)) + [sh(x, j) >= 0], sh(x, j + 1) >= 0))
        out.append(('monotone: 0', N(x) + [x <= y] + d((x, j), (y, j)), sh(x, 0) <= sh(y, 0)))
        out.append(('monotone: step', N(x, j) + [x <= y, sh(x, j) <= sh(y, j)] + d((x, j), (y, j)), sh(x, j + 1) <= sh(y, j + 1)))
        out.append(('successor: 0', N(x) + [y == x + 1] + d((x, j), (y, j)), sh(y, 0) <= sh(x, 0) + 1))
        out.append(('successor: step', N(x, j) + [sh(y, j) <= sh(x, j) + 1] + d((x, j), (y, j)), sh(y, j + 1) <= sh(x, j + 1) + 1))
        out.append(('decreasing in the distance: step', N(x, j) + [sh(x, j) >= 0] + d((x, j)), sh(x, j + 1) <= sh(x, j)))
        out.append(('decided by the higher bits: step', N(a, b, m) + [sh(a, m) == sh(b, m)] + d((a, m), (b, m)), sh(a, m + 1) == sh(b, m + 1)))
        for q in range(MAXD):
            out.append(('low bits all ones: %d' % q, N(x) + [sh(x, q) == x / (1 << q), sh(x + 1, q) == (x + 1) / (1 << q)], (x % (1 << q) == (1 << q) - 1) == (sh(x + 1, q) == sh(x, q) + 1)))
        out.append(('decided by the next bits', N(a, b, m) + [sh(a, m) / 2 == sh(b, m) / 2] + d((a, m), (b, m)), sh(a, m + 1) == sh(b, m + 1)))
        out.append(('of zero: step', N(x, j) + [x == 0, sh(x, j) == 0] + d((x, j)), sh(x, j + 1) == 0))
        for q in range(MAXD + 1):
            # sh(x, q) is x / 2^q, and so 0 exactly if x < 2^q
            out.append(('quotient: %d' % q, N(x) + ([sh(x, 0) == x] if q == 0 else [sh(x, q - 1) == x / (1 << (q - 1)), sh(x, q) == sh(x, q - 1) / 2]), sh(x, q) == x / (1 << q)))
            out.append(('zero: %d' % q, N(x) + [sh(x, q) == x / (1 << q)], (sh(x, q) == 0) == (x < (1 << q))))
        return out
    h, lf, c = h_, l_, c_
    nd = lambda l, i: node(h, lf, c, l, i)
    i = z3.Int('i')
    def trees():
        ZD = lambda q: Z(q + 1) == combi(h, Z(q), Z(q))
        out = [('a node without leaves is a zero hash: 0', N(c, i) + [i >= NN(c, 0), shdef(c - 1, z3.IntVal(0)), nodedef(h, lf, c, z3.IntVal(0), i)], nd(0, i) == Z(0)),
               ('a node without leaves is a zero hash: step', N(c, i, j) + [i >= NN(c, j + 1), shdef(c - 1, j), nodedef(h, lf, c, j + 1, i), ZD(j),
                    FAj([m], z3.Implies(m >= NN(c, j), nd(j, m) == Z(j)), [nd(j, m)])], nd(j + 1, i) == Z(j + 1)),
               ('two nodes make a node', N(c, a, j) + [a % 2 == 0, b == a + 1, nodedef(h, lf, c, j + 1, a / 2)], combi(h, nd(j, a), nd(j, b)) == nd(j + 1, a / 2)),
               ('a node and a zero hash make a node', N(c, a, j) + [a % 2 == 0, a + 1 >= NN(c, j), nodedef(h, lf, c, j + 1, a / 2),
                    FAj([m], z3.Implies(m >= NN(c, j), nd(j, m) == Z(j)), [nd(j, m)])], combi(h, nd(j, a), Z(j)) == nd(j + 1, a / 2))]
        return out
    def depths():
        # depthof(v) exists; its value in terms of shifts
        v, w = z3.Ints('v w')
        out = []
        for q in range(MAXD + 1):
            out.append(('depth %d' % q, [v >= (2 if q else 1), v <= (1 << q)] + ([v > (1 << (q - 1))] if q else []) + [(sh(v - 1, e) == 0) == (v - 1 < (1 << e)) for e in (q, q - 1) if e >= 0] + [sh(v - 1, e) >= 0 for e in (q, q - 1) if e >= 0],
                        z3.And(sh(v - 1, q) == 0, sh(v - 1, q - 1) >= 1) if q else sh(v - 1, q) == 0))
        out.append(('monotone', [0 <= v, v <= w, w < U64, depthdef(v), depthdef(w)] + [pow2(q) == (1 << q) for q in range(MAXD + 1)] + [FAj([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= MAXD), pow2(a) <= pow2(b)), [z3.MultiPattern(pow2(a), pow2(b))])], depthof(v) <= depthof(w)))
        out.append(('of one', [shdef(v, z3.IntVal(0)), v == 1], sh(v, 1) == 0))
        for q in range(MAXD):
            out.append(('of a power of two: %d' % q, [v >= 0, z3.Or(*[v == (1 << e) for e in range(q, MAXD)]), sh(v, q) == v / (1 << q), sh(v - 1, q) == (v - 1) / (1 << q)], sh(v - 1, q) + 1 == sh(v, q)))
        for q in range(MAXD + 1):
            out.append(('of itself %d' % q, [v >= 0, v <= (1 << q), sh(v, q) == v / (1 << q)], sh(v, q) == z3.If(v == (1 << q), z3.IntVal(1), z3.IntVal(0))))
        out.append(('some depth up to 64 fits', N(v) + [v < U64], z3.Or(v <= 1, *[z3.And(v <= (1 << q), v > (1 << (q - 1))) for q in range(1, MAXD + 1)])))
        return out
    def proofs():
        # folding a branch of siblings, from the leaf upwards, gives the root
        # fold(0) = node(0, index); fold(l+1) = combi(fold(l), sibling) or combi(sibling, fold(l)) by bit l of the index
        index = z3.Int('index'); f = F('fold', I, BA)
        s = sh(index, j)
        step = f(j + 1) == z3.If(s % 2 == 1, combi(h, nd(j, sib(s)), f(j)), combi(h, f(j), nd(j, sib(s))))
        return [('the fold of a branch: step', N(c, index, j) + [s >= 0, shdef(index, j), f(j) == nd(j, s), step, nodedef(h, lf, c, j + 1, sh(index, j + 1))], f(j + 1) == nd(j + 1, sh(index, j + 1))),
                ('the sibling', N(a), z3.And(sib(a) >= 0, sib(a) != a, sib(a) / 2 == a / 2))]
    return [Lemma('shifts', shifts), Lemma('padded trees', trees), Lemma('depth of a tree', depths), Lemma('Merkle branches', proofs)]

def sib(s): return s + 1 - 2 * (s % 2)

# ---------------------------------------------------------------- code
class Merk(Contract):
    def begin(self, v, st):
        v.ax = v.ax + axioms(); v._solver = None

class GetDepth(Merk):
    name = M + 'merkle.GetDepth'
    unroll = True
    def setup(self, v, st):
        x = fresh('v'); st.add(x >= 0, x < U64)
        return [(st, [x])]
    def havoc(self, c):
        r = fresh('depth'); c.new.add(r >= 0, r < 256); c.res = [r]
    def post(self, c):
        x = I_(c.args[0]); d = I_(c.res[0])
        return [Cl('HTR', 'the power of two is large enough', z3.And(d >= 0, d <= MAXD, x <= pow2(d))),
                Cl('HTR', 'the power of two is the least', z3.If(x <= 1, d == x, pow2(d - 1) < x)),
                Cl('HTR', 'depth', d == depthof(x))]

def consts_at(v, L, wide=False):
    """integers that do not change in the loop"""
    out = []
    seen = set()
    types = {i['name']: i['type'] for b in L.f['blocks'] for i in b['instrs'] if i.get('name')}
    types.update({q['name']: q['type'] for q in L.f['params']}); types.update(v.objtype)
    def put(nm, x, get):
        if isinstance(x, int) and not isinstance(x, bool): return
        t = types.get(nm)
        if wide and t is not None and v.T(t if isinstance(t, int) else 0).get('basic') in ('uint8', 'byte', 'bool'): return
        if isz(x) and x.sort() == I and not v.ishavoc(x) and z3.is_const(x) and x.get_id() not in seen:
            seen.add(x.get_id()); out.append((nm, x))
    for nm, x in L.henv.items(): put(nm, x, None)
    for o, c in L.hs.mem.items(): put(o, c, None)
    return out

def arrays_at(v, L):
    """changed arrays of chunks: name, get(st) -> z3 array"""
    out = []
    for o, c in L.hs.mem.items():
        if isz(c) and z3.is_array(c) and c.sort() == z3.ArraySort(I, BA) and o in L.st0.mem and not v.same(c, L.st0.mem[o]):
            out.append((o, lambda st, env, o=o: st.mem[o]))
    for nm, x in L.henv.items():
        if isz(x) and x.sort() == z3.ArraySort(I, BA) and v.ishavoc(x): out.append((nm, lambda st, env, nm=nm: env[nm]))
    return out

def chunks_at(v, L):
    out = []
    for o, c in L.hs.mem.items():
        if isz(c) and c.sort() == BA and o in L.st0.mem and not v.same(c, L.st0.mem[o]): out.append((o, lambda st, env, o=o: st.mem[o]))
    for nm, x in L.henv.items():
        if isz(x) and x.sort() == BA and v.ishavoc(x): out.append((nm, lambda st, env, nm=nm: env[nm]))
    return out

def acyclic(f):
    """no way back into a block"""
    seen, done = set(), set()
    def go(b):
        if b in done: return True
        if b in seen: return False
        seen.add(b)
        ok = all(go(x) for x in f['blocks'][b]['succs'])
        done.add(b)
        return ok
    return not f['blocks'] or go(0)

def tests_bits(v, f, body, depth=0):
    """bit operations in these blocks, or in functions without a loop that they call"""
    defs = {i['name']: i for b in f['blocks'] for i in b['instrs'] if i.get('name')}
    for b in body:
        for i in f['blocks'][b]['instrs']:
            if i['op'] == 'BinOp' and i['tok'] in ('&', '|', '^', '&^', '>>', '<<', '%'): return True
            if i['op'] == 'Call' and depth < 3:
                fn = i['call'].get('fn', {})
                if fn.get('k') == 'reg' and defs.get(fn['name'], {}).get('op') == 'MakeClosure': fn = defs[fn['name']]['fn']
                g = v.p.funcs.get(fn.get('name')) if fn.get('k') == 'func' else None
                if fn.get('k') == 'func' and g is None and fn['name'].startswith('math/bits.'): return True
                if g is not None and acyclic(g) and tests_bits(v, g, range(len(g['blocks'])), depth + 1): return True
    return False

class Merkleize(Merk):
    name = M + 'merkle.Merkleize'
    weight = 50
    proof = False
    def setup(self, v, st):
        h = z3.Const('hasher', Hf); lf = z3.Const('leafs', LF)
        c, l = fresh('count'), fresh('limit')
        st.add(c >= 0, c < U64, l >= 0, l < U64, zc(h), zch(h, lf, c))
        st.add(*mark(0, c))
        return [(st, [AbsI('merkle', h), c, l, AbsFn('leafs', lf)])]
    def may_panic(self, v, st):
        a = self.ctx.args
        return v.valid(st, Cmp('>', a[1], a[2]))
    def post(self, c):
        h, n, l, f = c.args[0].t, c.args[1], c.args[2], c.args[3].data
        r = c.res[0]
        return [Cl('HTR', 'more leaves than the limit are refused', n <= l),
                Cl('HTR', 'the root of the padded tree', r == tree_root(h, f, n, l))]
    def templates(self, v, L, ivs):
        a = self.ctx.args
        h, n, f = a[0].t, a[1], a[3].data
        nd = lambda l, i: node(h, f, n, I_(l), I_(i))
        out = []
        cs = consts_at(v, L); arr = arrays_at(v, L); chs = chunks_at(v, L)
        m = z3.Int('m')
        bits = tests_bits(v, L.f, L.body)
        for nm, get in chs:
            for wn, w in cs:
                out.append(('%s is node(k, %s >> k)' % (nm, wn), lambda st, env, k, get=get, w=w: get(st, env) == nd(k, sh(w, k))))
        for wn, w in consts_at(v, L, True) if bits else []:
            out.append(('the bits of %s below k are ones' % wn, lambda st, env, k, w=w: z3.And(sh(w + 1, k) == sh(w, k) + 1, sh(w, k) >= 0,
                        z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < k), sh(w + 1, m) % 2 == 0), patterns=[sh(w + 1, m)]))))
        for nm, get in chs if not bits else []:
            for xn, xg, _ in ivs:
                out.append(('%s is the root of the first leaves at %s' % (nm, xn), lambda st, env, k, get=get, xg=xg: get(st, env) == nd(xg(st, env), 0)))
        for an, get in arr:
            for xn, xg, _ in ivs:
                out.append(('%s holds the left siblings of %s' % (an, xn), lambda st, env, k, get=get, xg=xg: allm(lambda m: z3.Implies(sh(xg(st, env), m) % 2 == 1,
                            z3.Select(get(st, env), m) == nd(m, sh(xg(st, env), m) - 1)), lambda m: z3.Select(get(st, env), m) if z3.is_const(get(st, env)) else sh(xg(st, env), m))))
                out.append(('%s holds the root of the first leaves at %s' % (an, xn), lambda st, env, k, get=get, xg=xg: z3.Select(get(st, env), xg(st, env)) == nd(xg(st, env), 0)))
        return out + self.more(v, L, ivs, nd, cs, arr)
    def more(self, v, L, ivs, nd, cs, arr): return []

class ConstructProof(Merkleize):
    name = M + 'merkle.ConstructProof'
    weight = 90
    proof = True
    def setup(self, v, st):
        r = super().setup(v, st)
        x = fresh('index'); st.add(x >= 0, x < U64)
        return [(st, r[0][1] + [x])]
    def may_panic(self, v, st):
        a = self.ctx.args
        return v.valid(st, z3.Or(I_(a[1]) > I_(a[2]), I_(a[4]) >= I_(a[2])))
    def target(self, c, m):
        h, n, l, f, x = c.args[0].t, c.args[1], c.args[2], c.args[3].data, c.args[4]
        return node(h, f, n, m, sib(sh(x, m)))
    def post(self, c):
        h, n, l, f, x = c.args[0].t, c.args[1], c.args[2], c.args[3].data, c.args[4]
        r = c.res[0]; ln = I_(r.len)
        out = [Cl('PROOF', 'more leaves than the limit and an index beyond it are refused', z3.And(n <= l, x < l)),
               Cl('PROOF', 'one entry for every level of the tree', ln == z3.If(l <= 1, z3.IntVal(0), depthof(l)))]
        if isinstance(r.base, Ptr):
            arr = c.v.get_path(c.new.mem[r.base.obj], r.base.path)
            m = fresh('m')
            out.append(Cl('PROOF', 'the branch has the siblings of the path from the leaf to the root',
                          z3.Implies(z3.And(m >= 0, m < ln), z3.Select(arr, m + I_(r.off)) == self.target(c, m))))
        return out
    def more(self, v, L, ivs, nd, cs, arr):
        a = self.ctx.args
        h, n, l, f, x = a[0].t, a[1], a[2], a[3].data, a[4]
        d = depthof(l)
        S = lambda m: sib(sh(x, m))
        tgt = lambda m: nd(m, S(m))
        out = [('%s is at most %s' % (xn, wn), lambda st, env, k, xg=xg, w=w: I_(xg(st, env)) <= w) for xn, xg, _ in ivs for wn, w in cs]
        for an, get in arr:
            def put(nm, cond, dep=lambda st, env: None):
                out.append((nm, lambda st, env, k, get=get: allm(lambda m: z3.Implies(m < d, z3.Select(get(st, env), m) == z3.If(cond(st, env, k, m), tgt(m), Z(m))),
                                                                 lambda m: z3.Select(get(st, env), m) if z3.is_const(get(st, env)) else sh(x, m))))
            for xn, xg, _ in ivs:
                put('%s has the siblings before %s' % (an, xn), lambda st, env, k, m, xg=xg: sh(I_(xg(st, env)), m) > S(m))
                put('%s has the siblings up to height %s' % (an, xn), lambda st, env, k, m, xg=xg: m <= I_(xg(st, env)))
            for wn, w in cs:
                put('%s has the siblings below height k before the end of %s' % (an, wn), lambda st, env, k, m, w=w: sh(w, m) + z3.If(m < k, z3.IntVal(1), z3.IntVal(0)) > S(m))
        return out

def allm(body, pat):
    m = z3.Int('m')
    return z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= MAXD), body(m)), patterns=[pat(m)])

def leafs_call(v, st, lf, args, line):
    """the leaf function given to Merkleize: a chunk for every index below the count"""
    i = I_(args[0])
    n = v.cur.ctx.args[1]
    v.oblige(st, 'HTR', 'leaves are asked for by index below the count', z3.And(i >= 0, i < n), line)
    st.add(i >= 0, i < n)
    u = v.p.tbystr.get('[32]uint8', v.p.tbystr.get('[32]byte'))
    o = v.new_obj(st, u, leaf(lf, i))
    return [(st, [SliceV(Ptr(o), 0, 32, 32)])]

# ---------------------------------------------------------------- hashing
HTRP = M + 'htr.'
lenchunk = F('lenchunk', I, BA)              # an integer as 32 little-endian bytes
def lenchunk_ax():
    n, q = z3.Ints('n q')
    return z3.ForAll([n], z3.And(*[rb(lenchunk(n), e) == (lb(n, e) if e < 8 else z3.IntVal(0)) for e in range(32)]), patterns=[lenchunk(n)])

class HashFnCombi(Contract):
    name = '(' + HTRP + 'HashFn).Combi'
    def setup(self, v, st):
        a, b = z3.Consts('a b', BA)
        return [(st, [AbsFn('hashfn', z3.Const('hashfn', Hf)), a, b])]
    def post(self, c):
        return [Cl('HTR', 'the hash of the two chunks', c.res[0] == world.H64(c.args[0].data, c.args[1], c.args[2]))]
class HashFnMixIn(Contract):
    name = '(' + HTRP + 'HashFn).MixIn'
    def begin(self, v, st):
        v.ax = v.ax + [lenchunk_ax()]; v._solver = None
    def setup(self, v, st):
        n = fresh('i'); st.add(n >= 0, n < U64, *[lb(n, q) == (n / (1 << (8 * q))) % 256 for q in range(8)])     # what lb means
        return [(st, [AbsFn('hashfn', z3.Const('hashfn', Hf)), z3.Const('a', BA), n])]
    def post(self, c):
        r, n = c.res[0], I_(c.args[2])
        out = []; hyp = []
        if isz(r) and z3.is_app(r) and r.decl().name() == 'H64':
            y = r.arg(2); hyp = [rb(y, q) == (lb(n, q) if q < 8 else z3.IntVal(0)) for q in range(32)]
            out.append(Cl('HTR', 'the second half of the input is the integer', hyp))
        if hyp:
            w = fresh('w'); x = z3.Int('x')
            out.append(Cl('HTR', 'the second half of the input, byte by byte', z3.Implies(z3.And(w >= 0, w < 32), rb(y, w) == rb(lenchunk(n), w)), hyp + [rb(lenchunk(n), 0) == lb(n, 0)]))
            hyp = hyp + [z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < 32), rb(y, x) == rb(lenchunk(n), x)), patterns=[rb(y, x)])]
        return out + [Cl('HTR', 'the hash of the chunk and the integer', r == world.H64(c.args[0].data, c.args[1], lenchunk(n)), hyp)]

zz = F('zz', Hf, I, BA)                      # the zero hashes of a hash function
class InitZeroHashes(Contract):
    name = HTRP + 'InitZeroHashes'
    def begin(self, v, st):
        h, j, k = h_, z3.Int('j'), z3.Int('k')
        v.ax = v.ax + [z3.ForAll([h], zz(h, 0) == ba_zero, patterns=[zz(h, 0)]),
                       z3.ForAll([h, j, k], z3.Implies(z3.And(j >= 0, k == j + 1), zz(h, k) == world.H64(h, zz(h, j), zz(h, j))), patterns=[z3.MultiPattern(zz(h, j), zz(h, k))])]
        v._solver = None
        v.writable_globals = (HTRP + 'ZeroHashes',)
    def setup(self, v, st):
        out = []
        for empty in (True, False):
            s = st.copy(); G = 'G:' + HTRP + 'ZeroHashes'
            s.mem[G] = SliceV(None, 0, 0, 0)
            if not empty:                    # whatever an earlier initialisation has left
                n = fresh('n'); s.add(n >= 0, n < 1 << 40)
                e = v.p.tbystr.get('[32]uint8', v.p.tbystr.get('[32]byte'))
                o = v.new_obj(s, {'kind': 'array', 'elem': e, 'len': None, 'str': 'backing'}, fresh('table', z3.ArraySort(I, BA)))
                v.objlen = dict(getattr(v, 'objlen', {}), **{o: n})
                s.mem[G] = SliceV(Ptr(o), 0, n, n)
            out.append((s, [AbsFn('hashfn', z3.Const('hashfn', Hf))]))
        return out
    def may_change(self, c): return {'G:' + HTRP + 'ZeroHashes'}, set()
    def templates(self, v, L, ivs):
        h = self.ctx.args[0].data; out = []
        for an, get in arrays_at(v, L):
            for xn, xg, _ in ivs:
                out.append(('%s holds the zero hashes up to %s' % (an, xn), lambda st, env, k, get=get, xg=xg: allm(
                    lambda m: z3.Implies(m <= I_(xg(st, env)), z3.Select(get(st, env), m) == zz(h, m)), lambda m: z3.Select(get(st, env), m) if z3.is_const(get(st, env)) else zz(h, m))))
        return out
    def post(self, c):
        h = c.args[0].data
        g = c.new.mem['G:' + HTRP + 'ZeroHashes']
        m = fresh('m')
        out = [Cl('HTR', 'zero hashes for 0 to 64 levels', Eq(g.len, 65))]
        if isinstance(g.base, Ptr):
            arr = c.v.get_path(c.new.mem[g.base.obj], g.base.path)
            at = lambda q: z3.Select(arr, I_(g.off) + q)
            for q in range(65):
                out.append(Cl('HTR', 'every zero hash is the hash of the two below it', at(q) == zz(h, q), [at(q - 1) == zz(h, q - 1)] if q else []))
        return out

def setup(v):
    v.absfn = dict(v.absfn); v.absfn['hashfn'] = world.hashfn_call
    v.absfn['leafs'] = leafs_call
