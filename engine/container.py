"""Structs: which SSZ fields they have (omit, squash and embedding included), and their kind."""
from composite import *
from composite import _cs
import world
from world import T_, rfname, rftype, rftag, rfoff, rfanon, iscont
import c_tags
from contract import *
from c_tags import hastag, txt

# --- the fields of the type structure of a struct (in order, squashed ones included)
NF = F('NF', Desc, I)                 # how many
CFD = F('CFD', Desc, I, Desc)         # the type structure of each
CFOFF = F('CFOFF', Desc, I, I)        # the offset of each in the memory of the struct

D0 = sd(TT)
def omit(i): return hastag(rftag(TT, i), txt('ssz'), txt('omit'))
def forced(i): return hastag(rftag(TT, i), txt('ssz'), txt('squash'))
def squashed(i): return z3.And(z3.Or(rfanon(TT, i), forced(i)), iscont(sd(rftype(TT, i))))
C = F('C', I, I)                      # SSZ fields of the first i Go fields
fidx = F('fidx', I, I)                # the Go field an SSZ field comes from

def cont_axioms():
    d = z3.Const('d', Desc); t = z3.Const('t', RT); q, r, i, j = z3.Ints('q r i j')
    FA = z3.ForAll
    return [
        FA([d], z3.And(NF(d) >= 0, NF(d) < (1 << 44)), patterns=[NF(d)]),
        FA([t], z3.And(rnf(t) >= 0, rnf(t) < (1 << 40)), patterns=[rnf(t)]),
        FA([t], iscont(sd(t)) == (rkind(t) == 25), patterns=[iscont(sd(t))]),
    ]

def layout(d):
    """fields lie in the memory of the struct, one after the other"""
    q, r = z3.Ints('q r')
    return [z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < NF(d)), z3.And(CFOFF(d, q) >= 0, CFOFF(d, q) + memsz(CFD(d, q)) <= memsz(d))), patterns=[CFOFF(d, q)]),
            z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < r, r < NF(d)), CFOFF(d, q) + memsz(CFD(d, q)) <= CFOFF(d, r)),
                      patterns=[z3.MultiPattern(CFOFF(d, q), CFOFF(d, r))])]

def struct_defs(v, st):
    """the definition of the fields of the type structure of T, and what follows from it"""
    i, q, r = z3.Ints('i q r'); d = z3.Const('d', Desc)
    n = rnf(TT)
    n0 = len(st.pc)
    cnt = lambda i: z3.If(omit(i), 0, z3.If(squashed(i), NF(sd(rftype(TT, i))), 1))
    FA = z3.ForAll
    st.add(C(0) == 0, FA([i], z3.Implies(i >= 0, C(i + 1) == C(i) + cnt(i)), patterns=[idx(i)]), *mark(0, n))
    mono(v, st, 'the number of fields', C, 0, n)
    st.add(NF(D0) == C(n))
    # which Go field an SSZ field comes from (exists, as C grows from 0 to NF)
    st.add(FA([q], z3.Implies(z3.And(0 <= q, q < NF(D0)), z3.And(0 <= fidx(q), fidx(q) < n, C(fidx(q)) <= q, q < C(fidx(q) + 1), idx(fidx(q)) == 0, idx(fidx(q) + 1) == 0)), patterns=[fidx(q)]))
    def defs(q, i):
        ft = sd(rftype(TT, i))
        return z3.And(CFD(D0, q) == z3.If(squashed(i), CFD(ft, q - C(i)), ft),
                      CFOFF(D0, q) == z3.If(squashed(i), rfoff(TT, i) + CFOFF(ft, q - C(i)), rfoff(TT, i)))
    for pat in (CFD(D0, q), CFOFF(D0, q)):
        st.add(FA([q, i], z3.Implies(z3.And(0 <= i, i < n, C(i) <= q, q < C(i + 1)), defs(q, i)), patterns=[z3.MultiPattern(pat, idx(i))]))
    # Go struct layout
    st.add(FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(rfoff(TT, i) >= 0, rfoff(TT, i) + rsize(rftype(TT, i)) <= rsize(TT))), patterns=[rfoff(TT, i)]),
           FA([i, r], z3.Implies(z3.And(0 <= i, i < r, r < n), rfoff(TT, i) + rsize(rftype(TT, i)) <= rfoff(TT, r)), patterns=[z3.MultiPattern(rfoff(TT, i), rfoff(TT, r))]))
    # the layout of T follows from that of its fields
    s = st.copy()
    a, b = fresh('sk'), fresh('sk')
    s.add(0 <= a, a < NF(D0), idx(a) == 0)
    inner = lambda dd: layout(dd)
    for x in (a, b): s.add(*layout(sd(rftype(TT, fidx(x)))))
    s.add(idx(fidx(a)) == 0)
    v.oblige(s, 'PRE', 'lemma: fields lie in the memory of the struct', z3.And(CFOFF(D0, a) >= 0, CFOFF(D0, a) + memsz(CFD(D0, a)) <= rsize(TT)))
    s.add(a < b, b < NF(D0), idx(fidx(b)) == 0, idx(b) == 0)
    monoC(v, st, s, n)
    v.oblige(s, 'PRE', 'lemma: fields do not overlap', CFOFF(D0, a) + memsz(CFD(D0, a)) <= CFOFF(D0, b))
    defs_only = st.pc[n0:]
    st.add(NF(D0) == C(n), C(n) >= 0, memsz(D0) == rsize(TT))
    st.add(*layout(D0))
    return defs_only

def monoC(v, st, s, n):
    """C(i) <= C(j) for i <= j (induction over j)"""
    i, j = z3.Ints('i j')
    a, b = fresh('sk'), fresh('sk')
    t = st.copy(); t.add(0 <= a, a <= b, b < n, idx(a) == 0, idx(b) == 0, idx(b + 1) == 0, C(a) <= C(b))
    v.oblige(t, 'PRE', 'lemma: the number of fields grows', C(a) <= C(b + 1))
    s.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), C(i) <= C(j)), patterns=[z3.MultiPattern(idx(i), idx(j))]))

# --- values of the engine
def squash_fields(v, st, recv, args, line):
    """SquashFields of an element type: its fields (verified for structs, the only kind that has the method)"""
    d = recv.t
    fi = v.p.types[v.p.tbystr[T_ + 'ContainerField']]['fields']
    def get(j): return fields_value(v, fi, CFD(d, I_(j)), CFOFF(d, I_(j)))
    o = v.new_obj(st, {'kind': 'array', 'elem': v.p.tbystr[T_ + 'ContainerField'], 'len': None, 'str': 'backing'}, SeqV(get, ('sqf', str(d))))
    v.immutable.add(o)
    v.sqf[o] = d
    st.add(NF(d) >= 0)
    st.add(*layout(d))
    return [(st, [SliceV(Ptr(o), 0, NF(d), NF(d))])]

def ptrfn(v, st, off, args, line):
    return [(st, [I_(args[0]) + off])]

def setup(v):
    v.sqf = {}
    v.invokes[('squash', 'SquashFields')] = squash_fields
    v.absfn = dict(v.absfn); v.absfn['ptrfn'] = ptrfn

class Cons:
    """what may be used as loop invariants in the construction of type structures"""
    inline_self = None
    def __init__(self, kind): self.kind = kind
    def may_panic(self, v, st): return False
    def on_alloc(self, *a): pass
    def on_make(self, *a): pass
    def pool(self, v, L): return self.kind.cons_pool(v, L) if hasattr(self.kind, 'cons_pool') else []
    def templates(self, v, L, ivs): return self.kind.cons_templates(v, L, ivs) if hasattr(self.kind, 'cons_templates') else []

def seq_templates(v, L, fdf, offs):
    """for every slice of fields: what its elements may be.  fdf: [(name, j -> type structure)], offs: [(name, j -> offset)]"""
    out = []
    for name, get, s0 in v.seq_vars(L):
        e = v.seq_get(L.hs, s0, z3.Int('j'))
        if not isinstance(e, StructV): continue
        for n, x in enumerate(e.f):
            def leaf(st, env, j, n=n, get=get):
                s = get(st, env)
                y = v.seq_get(st, s, j)
                return None if y is None else y.f[n]
            def cand(cname, body, n=n, get=get, leaf=leaf, name=name):
                def g(st, env, k, first=False):
                    s = get(st, env)
                    n = z3.If(I_(k) < I_(s.len), I_(k), I_(s.len)) if first else I_(s.len)
                    if s.base is None: return Eq(s.len, 0)
                    j = z3.Int('j'); y = leaf(st, env, j)
                    if isinstance(y, NilV): return Eq(n, 0)
                    t = v.norm_fn(y).data if isinstance(y, (AbsFn, Clo)) else y.t if isinstance(y, AbsI) else y
                    pats = [idx(j)]
                    if isz(t) and z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(j): pats.append(t)
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, idx(j) == 0), B_(body(y, j))), patterns=pats)
                out.append(('%s.%d: %s' % (name, n, cname), g))
                if v.same(get(L.st0, L.eenv).len, s0.len): out.append(('%s.%d, written so far: %s' % (name, n, cname), lambda st, env, k, g=g: g(st, env, k, True)))
            if isinstance(x, AbsI):
                for fn, f in fdf: cand(fn, lambda y, j, f=f: y.t == f(j))
            elif isinstance(x, (AbsFn, Clo)):
                for fn, f in offs: cand(fn, lambda y, j, f=f: v.norm_fn(y).data == f(j))
            elif isz(x) and x.sort() == Bo:
                for fn, f in fdf: cand('isfix ' + fn, lambda y, j, f=f: B_(y) == isfix(f(j)))
    return out

class GetFields(Contract):
    """types.getFields: the SSZ fields that come from one Go field"""
    name = T_ + 'getFields'
    optional = True           # unexported: where it does not exist, NewSSZContainer is verified with whatever it calls
    def kinds_pool(self): return [('C', C)]
    def setup(self, v, st):
        st.add(rkind(TT) == 25)
        struct_defs(v, st)
        i = fresh('i')
        st.add(0 <= i, i < rnf(TT), *mark(i, i + 1))
        (s, (fld,)), = world.rt_field(v, st, AbsI('rtype', TT), [i], 0)
        p = v.new_obj(s, v.p.tbystr['reflect.StructField'], fld)
        self.kind = CONTAINERS[0]
        return [(s, [Clo(T_ + 'SSZFactory'), Ptr(p)])]
    def index(self, v, st, p):
        ti = v.p.tbystr['reflect.StructField']
        n = next(n for n, f in enumerate(v.T(ti)['fields']) if f['name'] == 'Type')
        t = world.rt(v.get_path(st.mem[p.obj], p.path + (n,)))
        if not (z3.is_app(t) and t.decl().eq(rftype) and t.arg(0).eq(TT)): raise Unsupported('getFields of another type')
        return t.arg(1)
    def apply(self, v, st, args, line):
        i = self.index(v, st, args[1])
        if not (isinstance(args[0], Clo) and args[0].fn == T_ + 'SSZFactory'): raise Unsupported('another factory')
        ti = v.p.tbystr[T_ + 'ContainerField']
        fi = v.p.types[ti]['fields']
        def get(j):
            d, o = CFD(D0, C(i) + I_(j)), CFOFF(D0, C(i) + I_(j))
            return fields_value(v, fi, d, o)
        o = v.new_obj(st, {'kind': 'array', 'elem': ti, 'len': None, 'str': 'backing'}, SeqV(get, ('gf', str(i))))
        v.immutable.add(o)
        n = C(i + 1) - C(i)
        s2 = st.copy()
        st.add(*mark(i, i + 1)); st.add(n >= 0, z3.Not(bad(i)))
        s2.add(*mark(i, i + 1)); s2.add(bad(i))
        return [(st, [SliceV(Ptr(o), 0, n, n), ErrV(True)]), (s2, [SliceV(None, 0, 0, 0), ErrV(False)])]
    def post(self, c):
        v = c.v
        out, err = c.res
        ok = B_(err.isnil)
        i = self.index(v, c.old, c.args[1])
        cls = [Cl('FACT', 'success: as many fields as defined', Eq(out.len, C(i + 1) - C(i)), [ok]),
               Cl('FACT', 'success: the field is supported', Not(bad(i)), [ok]),
               Cl('FACT', 'an error: the field is not supported', bad(i), [Not(ok)])]
        if out.base is None: return cls
        j = fresh('sk')
        y = v.seq_get(c.new, out, j)
        x = C(i) + j
        hyp = [ok, z3.And(0 <= j, j < I_(out.len), idx(j) == 0)]
        d, o, fx = field_parts(v, y)
        return cls + [Cl('FACT', 'success: the type structures of the fields', d == CFD(D0, x), hyp),
                      Cl('FACT', 'success: the offsets of the fields', I_(o) == CFOFF(D0, x), hyp),
                      Cl('FACT', 'success: fixed-size flags', B_(fx) == isfix(CFD(D0, x)), hyp)]
    def pool(self, v, L): return []
    def templates(self, v, L, ivs): return CONTAINERS[0].cons_templates(v, L, ivs)

def refused(i):
    """a field that is to be squashed, but has no fields"""
    return z3.And(z3.Not(omit(i)), forced(i), z3.Not(iscont(sd(rftype(TT, i)))))

def bad(i):
    """the field makes the struct unsupported"""
    return z3.And(z3.Not(omit(i)), z3.Or(child.frefuse(rftype(TT, i)), refused(i)))

def fields_value(v, fi, d, o):
    out = []
    for f in fi:
        t = v.T(f['type'])
        if v.isssz(t): out.append(AbsI('ssz', d))
        elif t['kind'] == 'func' or v.T(f['type'])['str'].endswith('FieldPtrFn'): out.append(AbsFn('ptrfn', o))
        elif t['kind'] == 'basic' and t['basic'] == 'bool': out.append(isfix(d))
        elif t['kind'] == 'basic' and t['basic'] == 'string': out.append(TxtV(fresh('fname', Txt)))
        else: raise Unsupported('ContainerField.' + f['name'])
    return StructV(out)

def field_parts(v, y):
    """type structure, offset, fixed-size flag"""
    d = o = fx = None
    for x in y.f:
        if isinstance(x, AbsI) and x.kind == 'ssz': d = x.t
        elif isinstance(x, (AbsFn, Clo)): o = v.norm_fn(x).data
        elif isz(x) and x.sort() == Bo or isinstance(x, bool): fx = x
    return d, o, fx

class Container(Series):
    rk = 25
    def __init__(self, fixed):
        self.fixed = fixed
        self.name = 'struct without variable-size fields' if fixed else 'struct with variable-size fields'
        self.sums = {}
    def facts(self): return []
    def cons(self): return Cons(self)
    def prep_struct(self, v, st):
        """definitions: sums over the fields, in order"""
        n = NF(D0)
        self.cons_facts = {'cons': struct_defs(v, st)}
        i, m = z3.Ints('i m')
        FD = lambda i: CFD(D0, i)
        steps = {
            'FO': lambda i: z3.If(isfix(FD(i)), flen(FD(i)), 4),
            'NV': lambda i: z3.If(isfix(FD(i)), z3.IntVal(0), z3.IntVal(1)),
            'MIN': lambda i: z3.If(isfix(FD(i)), flen(FD(i)), 4 + minl(FD(i))),
            'MAX': lambda i: z3.If(isfix(FD(i)), flen(FD(i)), 4 + maxl(FD(i))),
            'FMIN': lambda i: fmin(FD(i)),
            'FMAX': lambda i: fmax(FD(i)),
        }
        q = next(_cs)
        self.sums = {k: F('%s!%d' % (k, q), I, I) for k in steps}
        for k, s in steps.items():
            f = self.sums[k]
            n0 = len(st.pc)
            st.add(f(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, f(i + 1) == f(i) + s(i)), patterns=[idx(i)]))
            self.cons_facts[k] = st.pc[n0:]
        st.add(*mark(0, n))
        # sizes of types are below 2^62
        for k in ('FO', 'MAX', 'FMAX', 'NV', 'MIN', 'FMIN'):
            n0 = len(st.pc)
            if k not in ('MAX', 'FMAX'): st.add(self.sums[k](n) < BIG - 8)
            mono(v, st, 'the sum %s over the first fields' % k, self.sums[k], 0, n)
            self.cons_facts[k] += st.pc[n0:]
        NV = self.sums['NV']
        self._vidx = vx = F('vidx!%d' % q, I, I)
        st.add(NV(n) == 0 if self.fixed else NV(n) > 0)
        # enumeration of the variable-size fields
        st.add(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < NV(n)), z3.And(0 <= vx(m), vx(m) < n, z3.Not(isfix(FD(vx(m)))), NV(vx(m)) == m)), patterns=[vx(m)]),
               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(isfix(FD(i)))), vx(NV(i)) == i), patterns=[idx(i)]))
        sk = fresh('sk'); s = st.copy(); s.add(0 <= sk, sk < n, idx(sk) == 0, idx(sk + 1) == 0, z3.Not(isfix(FD(sk))))
        v.oblige(s, 'PRE', 'lemma: variable-size fields are counted', NV(sk) + 1 <= NV(n))
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(isfix(FD(i)))), NV(i) + 1 <= NV(n)), patterns=[idx(i)]))
        if self.fixed:
            sk = fresh('sk'); s = st.copy(); s.add(0 <= sk, sk < n, idx(sk) == 0, idx(sk + 1) == 0)
            v.oblige(s, 'PRE', 'lemma: no field has variable size', isfix(FD(sk)))
            st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), isfix(FD(i))), patterns=[idx(i)]))
    def trim(self, st, method, fuzz):
        """forgets what only the construction needed"""
        if len(method) > 20: return
        drop = ['cons', 'MIN', 'MAX'] + ([] if fuzz else ['FMIN', 'FMAX'])
        ids = {f.get_id() for k in drop for f in self.cons_facts[k] if z3.is_quantifier(f)}
        st.pc = [f for f in st.pc if f.get_id() not in ids]
    def n(self, H, p): return NF(D0)
    def e(self, i): return CFD(D0, i)
    def A(self, H, p, i): return p + CFOFF(D0, i)
    def FO(self, i): return self.sums['FO'](i)
    def NV(self, i): return self.sums['NV'](i)
    def SF(self, i): return self.sums['FMIN'](i)
    def SX(self, i): return self.sums['FMAX'](i)
    def vidx(self, m): return self._vidx(m)
    def isv(self, i): return z3.Not(isfix(CFD(D0, i)))
    def flen(self): return self.FO(NF(D0))
    def minl(self): return self.sums['MIN'](NF(D0))
    def maxl(self): return self.sums['MAX'](NF(D0))
    def fmin(self): return self.SF(NF(D0))
    def fmax(self): return self.SX(NF(D0))
    def alloc_ok(self, n, span): return []
    # construction
    def cons_pool(self, v, L):
        return [(k, f) for k, f in self.sums.items()] + [('C', C)] + [(k + ', as 64 bits', lambda j, f=self.sums[k]: satu(f(j))) for k in ('MAX', 'FMAX')]
    def cons_templates(self, v, L, ivs):
        ds = []
        for x in list(L.eenv.values()):
            for y in (x.v if isinstance(x, TupV) else [x]):
                if isinstance(y, SliceV) and isinstance(y.base, Ptr) and y.base.obj in v.sqf: ds.append(v.sqf[y.base.obj])
                if isinstance(y, AbsI) and y.kind == 'squash': ds.append(y.t)
        offs = []
        def rf(x):
            if isinstance(x, StructV):
                for y in x.f: rf(y)
            elif isz(x) and z3.is_app(x) and x.decl().eq(rfoff) and not any(o.eq(x) for o in offs): offs.append(x)
        for c in L.st0.mem.values(): rf(c)
        for x in L.eenv.values(): rf(x)
        fdf = [('field', lambda j: CFD(D0, j))] + [('field of an element', lambda j, d=d: CFD(d, j)) for d in ds[:2]]
        off = [('offset', lambda j: CFOFF(D0, j))] + [('offset in an element', lambda j, d=d, o=o: o + CFOFF(d, j)) for d in ds[:2] for o in offs[:3]]
        return seq_templates(v, L, fdf, off)
    def pool(self, v, L): return [('FO', self.sums['FO']), ('NV', self.sums['NV'])]

CONTAINERS = [Container(True), Container(False)]
