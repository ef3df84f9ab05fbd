"""The environment of the code under verification: readers, writers, reflection, allocation, and the
contract of an arbitrary element type (the SSZ interface).  Everything here is either a trusted model of
something outside the module or an interface contract that every kind is verified against."""
from core import *
from spec import *
import exec as X
import externals
import z3

M = 'github.com/protolambda/zssz/'
DRT = '*' + M + 'dec.DecodingReader'
DRM = '(*' + M + 'dec.DecodingReader).'
EWM = '(*' + M + 'enc.EncodingWriter).'
T_ = M + 'types.'

class World:
    """layout of the reader and writer objects, discovered by executing their constructors and getters"""
    def __init__(self, prog):
        self.p = prog
        self.dr_paths = self.ew_paths = None

    # ------------------------------------------------------------ DecodingReader
    def raw_dr(self, v, st, kind='limited'):
        rend = fresh('rend')
        outs = v.run(v.p.funcs[M + 'dec.NewDecodingReader'], st, [AbsI('reader', rend, kind)])
        assert len(outs) == 1
        st2, (p,) = outs[0]
        st2.mem[p.obj] = self.havoc_value(v, st2, st2.mem[p.obj], v.objtype[p.obj], 'dr')
        return st2, p, rend

    def havoc_value(self, v, st, c, ti, name, keep=()):
        t = v.T(ti)
        if isinstance(c, StructV):
            return StructV([self.havoc_value(v, st, x, f['type'], name + '_' + f['name'], [k[1:] for k in keep if k and k[0] == n]) if not any(k == (n,) for k in keep) else x
                            for n, (x, f) in enumerate(zip(c.f, t['fields']))])
        if () in keep: return c
        if isinstance(c, (int, bool)) or (isz(c) and c.sort() in (I, Bo, BA)): return v.symval(ti, name, st)
        return c

    def dr_layout(self, v):
        if self.dr_paths is None:
            r = v.record; v.record = 0
            try:
                st, p, _ = self.raw_dr(v, X.State())
                d = {}
                for key, m in (('i', 'Index'), ('max', 'Max'), ('fuzz', 'IsFuzzMode')):
                    outs = v.run(v.p.funcs[DRM + m], st.copy(), [p])
                    if len(outs) != 1: raise Undecided('shape of DecodingReader.' + m)
                    t = outs[0][1][0]
                    path = [q for q, leaf in v.leaves(st.mem[p.obj]) if isz(leaf) and leaf.eq(t)]
                    if len(path) != 1: raise Undecided('DecodingReader.%s is not a field' % m)
                    d[key] = path[0]
                d['input'] = next(q for q, leaf in v.leaves(st.mem[p.obj]) if isinstance(leaf, AbsI))
                self.dr_paths = d
            finally: v.record = r
        return self.dr_paths

    def mk_dr(self, v, st, fuzz=None, start=False):
        """an arbitrary reader satisfying the reader invariant -> (ptr)"""
        L = self.dr_layout(v)
        st2, p, rend = self.raw_dr(v, st)
        assert st2 is st
        if fuzz is not None:
            st.mem[p.obj] = v.set_path(st, st.mem[p.obj], L['fuzz'], fuzz)
        if 'rpos' not in st.g:
            st.g['rpos'] = fresh('rpos0'); st.add(st.g['rpos'] >= 0, st.g['rpos'] <= AV)
        i, mx, fz, rd = self.dr(v, st, p)
        if start:
            st.mem[p.obj] = v.set_path(st, st.mem[p.obj], L['i'], 0)
            i = 0
        st.add(*[B_(x) for x in self.dr_inv(v, st, p)])
        return p

    def dr(self, v, st, p):
        if not isinstance(p, Ptr): raise Unsupported('reader %r' % (p,))
        L = self.dr_layout(v); c = v.get_path(st.mem[p.obj], p.path)
        g = lambda k: v.get_path(c, L[k])
        return g('i'), g('max'), g('fuzz'), g('input')

    def dr_inv(self, v, st, p):
        i, mx, fz, rd = self.dr(v, st, p)
        if not isinstance(rd, AbsI): raise Unsupported('reader input %r' % (rd,))
        return [Cmp('<=', 0, i), Cmp('<=', i, mx), Cmp('<', mx, I63), rd.t - st.g['rpos'] >= I_(mx) - i, st.g['rpos'] >= 0, st.g['rpos'] <= AV]

    def havoc_dr(self, v, st, p, keep=('max', 'fuzz', 'input')):
        L = self.dr_layout(v)
        c = v.get_path(st.mem[p.obj], p.path)
        ti = v.objtype[p.obj]
        assert not p.path
        n = self.havoc_value(v, st, c, ti, 'dr', [L[k] for k in keep])
        st.mem[p.obj] = n

    # ------------------------------------------------------------ EncodingWriter
    def raw_ew(self, v, st):
        outs = v.run(v.p.funcs[M + 'enc.NewEncodingWriter'], st, [AbsI('writer', None)])
        assert len(outs) == 1
        st2, (p,) = outs[0]
        st2.mem[p.obj] = self.havoc_value(v, st2, st2.mem[p.obj], v.objtype[p.obj], 'ew')
        return st2, p

    def ew_layout(self, v):
        if self.ew_paths is None:
            r = v.record; v.record = 0
            try:
                st, p = self.raw_ew(v, X.State())
                outs = v.run(v.p.funcs[EWM + 'Written'], st.copy(), [p])
                t = outs[0][1][0]
                path = [q for q, leaf in v.leaves(st.mem[p.obj]) if isz(leaf) and leaf.eq(t)]
                if len(path) != 1: raise Undecided('EncodingWriter.Written is not a field')
                self.ew_paths = {'n': path[0]}
            finally: v.record = r
        return self.ew_paths

    def mk_ew(self, v, st):
        self.ew_layout(v)
        st2, p = self.raw_ew(v, st)
        assert st2 is st
        st.g['wpos'] = fresh('wpos0'); st.add(st.g['wpos'] >= 0, st.g['wpos'] < BIG)
        st.g['failed'] = False
        n = self.written(v, st, p)
        st.add(n >= 0, n < BIG)
        return p

    def written(self, v, st, p):
        return v.get_path(v.get_path(st.mem[p.obj], p.path), self.ew_layout(v)['n'])

    def havoc_ew(self, v, st, p):
        st.mem[p.obj] = self.havoc_value(v, st, st.mem[p.obj], v.objtype[p.obj], 'ew')

W = None     # set by setup()

# ---------------------------------------------------------------- io
def reader_read(v, st, recv, args, line):
    """io.Reader.Read: 0 <= n <= len(p); bytes in order; an error only once everything deliverable was delivered"""
    p = args[0]
    n = fresh('n'); e = fresh('rerr', Bo)
    r0 = st.g['rpos']
    end = z3.If(AV < recv.t, AV, recv.t)
    lim = fresh('lim'); st.add(lim == z3.If(end < r0, r0, end))
    st.add(n >= 0, n <= I_(p.len), r0 + n <= lim)
    st.add(z3.Implies(e, r0 + n == lim))
    v.write_range(st, p, n, lambda j: at(S, r0 + j), line, 'Read')
    st.g['rpos'] = r0 + n
    return [(st, [n, ErrV(z3.Not(e))])]

def io_copyn(v, st, args, line):
    dst, src, n = args
    if not (isinstance(dst, AbsI) and dst.kind == 'discard'): raise Unsupported('io.CopyN destination')
    if not (isinstance(src, AbsI) and src.kind == 'reader'): raise Unsupported('io.CopyN source')
    v.oblige(st, 'SAFE', 'io.CopyN count not negative', Cmp('>=', n, 0), line)
    st.add(Cmp('>=', n, 0))
    r0 = st.g['rpos']
    end = z3.If(AV < src.t, AV, src.t)
    m = fresh('n'); e = fresh('cerr', Bo)
    st.add(m >= 0, m <= I_(n), e == (m < I_(n)), z3.Implies(m < I_(n), z3.Or(r0 + m == end, z3.And(m == 0, end <= r0))), z3.Or(m == 0, r0 + m <= end))
    st.g['rpos'] = r0 + m
    return [(st, [m, ErrV(z3.Not(e))])]

def io_readfull(v, st, args, line):
    """io.ReadFull: all of buf, or an error once everything deliverable was delivered"""
    r, p = args
    if not (isinstance(r, AbsI) and r.kind == 'reader'): raise Unsupported('io.ReadFull source')
    n = fresh('n'); r0 = st.g['rpos']
    end = z3.If(AV < r.t, AV, r.t)
    lim = fresh('lim'); st.add(lim == z3.If(end < r0, r0, end))
    st.add(n >= 0, n <= I_(p.len), r0 + n <= lim, z3.Implies(n < I_(p.len), r0 + n == lim))
    v.write_range(st, p, n, lambda j: at(S, r0 + j), line, 'Read')
    st.g['rpos'] = r0 + n
    return [(st, [n, ErrV(Eq(n, p.len))])]

def io_limitreader(v, st, args, line):
    r, n = args
    if not (isinstance(r, AbsI) and r.kind == 'reader'): raise Unsupported('io.LimitReader')
    v.oblige(st, 'SAFE', 'io.LimitReader count not negative', Cmp('>=', n, 0), line)
    st.add(Cmp('>=', n, 0))
    e = fresh('rend')
    st.add(e == z3.If(r.t <= st.g['rpos'] + n, r.t, st.g['rpos'] + n))
    return [(st, [AbsI('reader', e, 'limited')])]

def writer_write(v, st, recv, args, line):
    """io.Writer.Write: 0 <= n <= len(p); an error if n < len(p)"""
    p = args[0]
    w0 = st.g['wpos']
    v.oblige(st, 'WFAIL', 'no write after a failed write', Not(st.g['failed']), line)
    src = v.byte_src(st, p)
    if isinstance(p.base, tuple):
        v.user_access(st, p.base[1] if isinstance(p.off, int) and p.off == 0 else p.base[1] + p.off, p.len, 'written bytes', line)
    L = I_(p.len)
    if isinstance(p.len, int) and p.len <= 64:
        for q in range(p.len):
            v.oblige(st, 'ENC', 'written bytes are the serialization', src(z3.IntVal(q)) == at(SER, w0 + q), line)
    else:
        j = fresh('j')
        s2 = st.copy(); s2.add(j >= 0, j < L, idx(j) == 0)
        v.oblige(s2, 'ENC', 'written bytes are the serialization', src(j) == at(SER, w0 + j), line)
    n = fresh('n'); e = fresh('werr', Bo)
    st.add(n >= 0, n <= L, z3.Implies(n < L, e))
    st.g['wpos'] = w0 + n
    st.g['failed'] = Or(st.g['failed'], e)
    return [(st, [n, ErrV(z3.Not(e))])]

# ---------------------------------------------------------------- reflection and allocation
def rt(x):
    if isinstance(x, AbsI) and x.kind == 'rtype': return x.t
    raise Unsupported('reflect.Type %r' % (x,))

def r_(f):
    return lambda v, st, recv, args, line: [(st, [f(recv.t)])]

def rt_implements(v, st, recv, args, line):
    # a pointer type's method set; list types are recognised by their Limit method
    return [(st, [rimpl(recv.t, rt(args[0]))])]

def rt_field(v, st, recv, args, line):
    i = args[0]
    v.oblige(st, 'SAFE', 'field index in range', And(Cmp('<=', 0, i), Cmp('<', i, rnf(recv.t))), line)
    ti = v.p.tbystr['reflect.StructField']
    i = I_(i)
    vals = []
    for f in v.T(ti)['fields']:
        n = f['name']
        if n == 'Name': vals.append(TxtV(rfname(recv.t, i)))
        elif n == 'Type': vals.append(AbsI('rtype', rftype(recv.t, i)))
        elif n == 'Tag': vals.append(TxtV(rftag(recv.t, i)))
        elif n == 'Offset':
            vals.append(rfoff(recv.t, i)); st.add(rfoff(recv.t, i) >= 0, rfoff(recv.t, i) + rsize(rftype(recv.t, i)) <= rsize(recv.t))
        elif n == 'Anonymous': vals.append(rfanon(recv.t, i))
        elif n == 'PkgPath': vals.append(TxtV(fresh('pkgpath', Txt)))
        elif n == 'Index': vals.append(SliceV(None, 0, 0, 0))
        else: raise Unsupported('reflect.StructField.' + n)
    return [(st, [StructV(vals)])]

rfname = F('rfname', RT, I, Txt); rftype = F('rftype', RT, I, RT); rftag = F('rftag', RT, I, Txt)
rfoff = F('rfoff', RT, I, I); rfanon = F('rfanon', RT, I, Bo)

def reflect_ptrto(v, st, args, line): return [(st, [AbsI('rtype', rptr(rt(args[0])))])]
def reflect_new(v, st, args, line): return [(st, [AbsI('rvalue', ('new', rt(args[0])))])]
def rv_elem(v, st, args, line):
    k, t = args[0].t
    if k != 'new': raise Unsupported('reflect.Value.Elem')
    return [(st, [AbsI('rvalue', ('zeroof', t))])]
def rv_interface(v, st, args, line):
    k, t = args[0].t
    if k != 'zeroof': raise Unsupported('reflect.Value.Interface')
    return [(st, [AbsI('typednil', t)])]
def rv_pointer(v, st, args, line):
    k, t = args[0].t
    if k == 'slice': return [(st, [t])]
    if k == 'new':
        a = alloc(v, st, rsize(t), line)
        return [(st, [a])]
    raise Unsupported('reflect.Value.Pointer')
def reflect_makeslice(v, st, args, line):
    t, ln, cp = rt(args[0]), args[1], args[2]
    v.oblige(st, 'SAFE', 'reflect.MakeSlice lengths', And(Cmp('<=', 0, ln), Cmp('<=', ln, cp)), line)
    st.add(And(Cmp('<=', 0, ln), Cmp('<=', ln, cp)))
    if v.cur: v.cur.on_alloc(v, st, cp, t, line)
    # an allocation that the machine cannot satisfy panics; it is bounded by on_alloc
    n = mul(I_(cp), rsize(relem(t)))
    for w in (1, 2, 4, 8): st.add(z3.Implies(rsize(relem(t)) == w, n == w * I_(cp)))
    a = alloc(v, st, n, line)
    return [(st, [AbsI('rvalue', ('slice', a))])]

def alloc(v, st, n, line):
    """fresh zeroed memory"""
    a = fresh('blk'); H = st.g['H']
    st.add(a > 0, I_(n) >= 0, a + n < ADDR)
    for lo, hi in st.own: st.add(z3.Or(a + n <= lo, a >= hi))
    x = z3.Int('x')
    st.add(z3.ForAll([x], z3.Implies(z3.And(x >= a, x < a + n), B(H, x) == 0), patterns=[B(H, x)]))
    st.add(z3.ForAll([x], z3.Implies(z3.And(x >= a, x + 8 <= a + n), Wd(H, x) == 0), patterns=[Wd(H, x)]))
    d = z3.Const('d', Desc)
    st.add(z3.ForAll([d, x], z3.Implies(z3.And(x >= a, x + memsz(d) <= a + n), Ty(H, d, x)), patterns=[Ty(H, d, x)]))
    st.own = st.own + [(a, a + n)]
    st.tags['allocs'] = st.tags.get('allocs', ()) + ((a, n),)
    return a

def typednil_limit(v, st, recv, args, line):
    st.add(relem_ptr(recv.t))
    return [(st, [rlimit(relem(recv.t))])]
def typednil_bitlen(v, st, recv, args, line): return [(st, [rbitlen(relem(recv.t))])]
def relem_ptr(t): return z3.BoolVal(True)

# ---------------------------------------------------------------- hashing
def merkle_combi(v, st, recv, args, line):
    return [(st, [combi(recv.t, args[0], args[1])])]
def merkle_mixin(v, st, recv, args, line):
    return [(st, [mixin(recv.t, args[0], I_(args[1]))])]
Z = F('Z', I, BA)
def hashfn_call(v, st, data, args, line):
    b = args[0]
    src = v.byte_src(st, b)
    v.oblige(st, 'HTR', 'hash input has 64 bytes', Eq(b.len, 64), line)
    x, y = fresh('hl', BA), fresh('hr', BA)
    q = z3.Int('q')
    st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < 32), z3.And(rb(x, q) == src(q))), patterns=[rb(x, q)]))
    st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < 32), z3.And(rb(y, q) == src(32 + q))), patterns=[rb(y, q)]))
    # the hash is a function of the first 32 bytes of each half
    A, C = z3.Consts('A C', BA)
    differ = lambda a, c: z3.And(hdiff(a, c) >= 0, hdiff(a, c) < 32, rb(a, hdiff(a, c)) != rb(c, hdiff(a, c)))
    st.add(z3.ForAll([A, C], z3.Or(H64(data, x, y) == H64(data, A, C), differ(x, A), differ(y, C)), patterns=[H64(data, A, C)]))
    return [(st, [H64(data, x, y)])]
hdiff = F('hdiff', BA, BA, I)
H64 = F('H64', Hf, BA, BA, BA)

# ---------------------------------------------------------------- globals
def g_le(v, st): return LE
def g_rtype(c): return lambda v, st: AbsI('rtype', c)
def g_zero(v, st):
    o = 'Gobj:ZeroHashes'
    if o not in st.mem:
        i = z3.Int('i')
        st.mem[o] = z3.Const('zerohashes', z3.ArraySort(I, BA))
        v.objtype[o] = {'kind': 'array', 'elem': v.p.tbystr['[32]uint8'] if '[32]uint8' in v.p.tbystr else v.p.tbystr['[32]byte'], 'len': 65, 'str': 'backing'}
        v.immutable.add(o)
        for q in range(65): st.add(z3.Select(st.mem[o], q) == Z(q))
        st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= 64), z3.Select(st.mem[o], i) == Z(i)), patterns=[z3.Select(st.mem[o], i)]))
    return SliceV(Ptr(o), 0, 65, 65)

def setup(v):
    """installs the environment in a verifier"""
    v.externals = dict(externals.EXT)
    v.externals.update({
        'io.CopyN': io_copyn, 'io.ReadFull': io_readfull, 'io.LimitReader': io_limitreader,
        'reflect.PtrTo': reflect_ptrto, 'reflect.PointerTo': reflect_ptrto, 'reflect.New': reflect_new,
        '(reflect.Value).Elem': rv_elem, '(reflect.Value).Interface': rv_interface, '(reflect.Value).Pointer': rv_pointer,
        '(reflect.Value).UnsafePointer': rv_pointer, 'reflect.MakeSlice': reflect_makeslice,
    })
    v.invokes = {
        ('reader', 'Read'): reader_read, ('writer', 'Write'): writer_write,
        ('rtype', 'Kind'): r_(rkind), ('rtype', 'Elem'): r_(lambda t: AbsI('rtype', relem(t))),
        ('rtype', 'Len'): r_(rlen), ('rtype', 'Size'): r_(rsize), ('rtype', 'NumField'): r_(rnf),
        ('rtype', 'Implements'): rt_implements, ('rtype', 'Field'): rt_field, ('rtype', 'String'): r_(lambda t: TxtV(fresh('str', Txt))),
        ('typednil', 'Limit'): typednil_limit, ('typednil', 'BitLen'): typednil_bitlen,
        ('merkle', 'Combi'): merkle_combi, ('merkle', 'MixIn'): merkle_mixin,
    }
    v.globals = {
        M + 'util/endianness.IsLittleEndian': g_le,
        M + 'types.bitlistMeta': g_rtype(BITLISTT), M + 'types.bitvectorMeta': g_rtype(BITVECTORT),
        M + 'types.listType': g_rtype(LISTT), M + 'util/ptrutil.bytesSliceTyp': g_rtype(BYTESLICE),
        'io/ioutil.Discard': lambda v, st: AbsI('discard', None), 'io.Discard': lambda v, st: AbsI('discard', None),
        M + 'htr.ZeroHashes': g_zero, 'io.EOF': lambda v, st: ErrV(False),
        'encoding/binary.LittleEndian': lambda v, st: StructV([]),
    }
    v.assert_handler = lambda st, x, t, i, line: asserts(v, st, x, t, i, line)

SSZ_METHODS = ('FuzzMinLen', 'FuzzMaxLen', 'MinLen', 'MaxLen', 'FixedLen', 'IsFixed', 'DryCheck', 'SizeOf', 'Encode', 'Decode', 'HashTreeRoot', 'Pretty')
iscont = F('iscont', Desc, Bo)     # the type structure of a struct

def asserts(v, st, x, t, i, line):
    if not isinstance(x, AbsI): return None
    ok = {'writer': 'io.Writer', 'reader': 'io.Reader'}.get(x.kind)
    if t['str'] == ok: r = (x, True)
    elif x.kind == 'reader' and x.x == 'limited': r = (NIL, False)
    elif x.kind == 'typednil': r = (x, True)
    elif x.kind == 'ssz' and t['kind'] == 'interface' and set(t.get('methods') or ['?']) <= set(SSZ_METHODS): r = (x, True)
    elif x.kind == 'ssz' and t['str'] == T_ + 'SquashableFields': r = (AbsI('squash', x.t), iscont(x.t))
    else: raise Unsupported('type assertion of abstract %s to %s' % (x.kind, t['str']))
    if r is None: return None
    if i['commaok']: return TupV(r)
    if not r[1]: raise Unsupported('failing type assertion')
    return r[0]
