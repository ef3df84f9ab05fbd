"""Contracts of packages dec and enc (C10, C11; used by every kind)."""
from core import *
from spec import *
from contract import *
import world
from world import M, DRM, EWM
import z3

class DecC(Contract):
    inline = False
    fn = None
    def __init__(self):
        self.name = DRM + self.fn
        super().__init__()
    def w(self): return world.W
    def dr(self, c, which='old', n=0):
        return world.W.dr(c.v, getattr(c, which), c.args[n])
    def pre(self, c):
        return [('PRE', 'reader invariant %d' % k, f) for k, f in enumerate(world.W.dr_inv(c.v, c.old, c.args[0]))]
    def may_change(self, c): return {c.args[0].obj}, {'rpos'}
    def inv(self, c):
        return [Cl('CONF', 'reader invariant kept', world.W.dr_inv(c.v, c.new, c.args[0])),
                Cl('CONF', 'limit, mode and source of the reader unchanged', self.same_conf(c))]
    def same_conf(self, c):
        a, b = self.dr(c), self.dr(c, 'new')
        return And(Eq(a[1], b[1]), Eq(a[2], b[2]), isinstance(b[3], AbsI) and Eq(a[3].t, b[3].t))

def rdfacts(c):
    W = world.W
    i0, mx, fz, rd = W.dr(c.v, c.old, c.args[0])
    i1 = W.dr(c.v, c.new, c.args[0])[0]
    return I_(i0), I_(i1), I_(mx), c.old.g['rpos'], c.new.g['rpos']

def consume(c, L, err):
    """the clauses of consuming L > 0 bytes"""
    i0, i1, mx, r0, r1 = rdfacts(c)
    ok = B_(err)
    return [
        Cl('CONF', 'beyond the limit: an error, nothing consumed', And(z3.Not(ok), i1 == i0, r1 == r0), [i0 + L > mx]),
        Cl('CONF', 'success exactly if the bytes are available', Eq(ok, AV >= r0 + L), [i0 + L <= mx]),
        Cl('CONF', 'success: L bytes consumed', And(i1 == i0 + L, r1 == r0 + L), [ok]),
        Cl('CONF', 'failure: at most the requested bytes consumed', And(i0 <= i1, i1 <= i0 + L, i1 <= mx, r0 <= r1, r1 <= r0 + L)),
    ]

class Read(DecC):
    fn = 'Read'
    def setup(self, v, st):
        out = []
        for var in ('user', 'obj', 'self'):
            s = st.copy()
            s.g['H'] = fresh('H', Heap)
            dr = world.W.mk_dr(v, s)
            if var == 'self':
                # a part of an array inside the reader itself (scratch space)
                ti = v.objtype[dr.obj]
                path = next(((n,) for n, f in enumerate(v.T(ti)['fields']) if v.isbytearr(v.T(f['type']))), None)
                if path is None: continue
                ln = v.T(v.T(ti)['fields'][path[0]]['type'])['len']
                n = fresh('n'); s.add(n >= 0, n <= ln)
                p = SliceV(Ptr(dr.obj, path), 0, n, ln)
            elif var == 'obj':
                from c_bitfields import byteslice
                p = byteslice(v, s, 'p')
            else:
                a, n = fresh('a'), fresh('n')
                s.add(a >= 0, n >= 0, a + n < ADDR)
                s.own = [(a, a + n)]
                p = SliceV(('user', a), 0, n, n)
            out.append((s, [dr, p]))
        return out
    def may_change(self, c):
        p = c.args[1]
        return {c.args[0].obj} | ({p.base.obj} if isinstance(p.base, Ptr) else set()), {'rpos', 'H'}
    def pre(self, c):
        p = c.args[1]
        r = super().pre(c)
        if isinstance(p.base, tuple):
            a = p.base[1] if isinstance(p.off, int) and p.off == 0 else p.base[1] + p.off
            r.append(('SAFE', 'destination within the value being decoded', Or(Cmp('<=', p.len, 0), c.v.in_own(c.old, a, p.len))))
        return r
    def havoc(self, c):
        v, st, p = c.v, c.new, c.args[1]
        world.W.havoc_dr(v, st, c.args[0], ('max', 'fuzz', 'input') if p.base is None or isinstance(p.base, tuple) or p.base.obj != c.args[0].obj else ('max', 'fuzz', 'input'))
        st.g['rpos'] = fresh('rpos')
        if isinstance(p.base, tuple):
            a = I_(p.base[1]) if isinstance(p.off, int) and p.off == 0 else p.base[1] + p.off
            H = st.g['H']
            v.new_heap(st, a, a + p.len)
            st.tags['userstore'] = True
            if isinstance(p.len, int) and p.len == 0 or v.valid(c.old, Eq(p.len, 0), 200): st.g['H'] = H
        elif p.base is not None:
            old = v.get_path(c.old.mem[p.base.obj], p.base.path)
            new = fresh('rd', BA)
            st.mem[p.base.obj] = v.set_path(st, st.mem[p.base.obj], p.base.path, new)
        c.res = [fresh('n'), ErrV(fresh('rok', Bo))]
    def post(self, c):
        v, p = c.v, c.args[1]
        i0, i1, mx, r0, r1 = rdfacts(c)
        L = I_(p.len); ok = B_(c.res[1].isnil)
        cls = [Cl('CONF', 'nothing to read: no effect', And(ok, i1 == i0, r1 == r0), [L == 0])]
        for cl in consume(c, L, ok):
            cl.hyp.append(L > 0); cls.append(cl)
        cls += self.inv(c)
        x = z3.Int('x')
        if p.base is None: return cls
        src_new, src_old = v.byte_src(c.new, p), None
        if isinstance(p.base, tuple):
            a = I_(p.base[1]) if isinstance(p.off, int) and p.off == 0 else p.base[1] + p.off
            H, H2 = c.old.g['H'], c.new.g['H']
            cls.append(Cl('READ', 'the bytes read are the next bytes of the input',
                          z3.ForAll([x], z3.Implies(z3.And(x >= a, x < a + L), B(H2, x) == at(S, r0 + x - a)), patterns=[B(H2, x)]), [ok]))
            cls.append(Cl('FRAME', 'bytes outside the destination unchanged',
                          z3.ForAll([x], z3.Implies(z3.Or(x < a, x >= a + L), B(H2, x) == B(H, x)), patterns=[B(H2, x)])))
            cls.append(Cl('FRAME', 'words outside the destination unchanged',
                          z3.ForAll([x], z3.Implies(z3.Or(x + 8 <= a, x >= a + L), Wd(H2, x) == Wd(H, x)), patterns=[Wd(H2, x)])))
        else:
            oldc = v.named(c.old if c.old is not c.new else c.new, v.get_path(c.old.mem[p.base.obj], p.base.path))
            newc = v.named(c.new, v.get_path(c.new.mem[p.base.obj], p.base.path))
            off = I_(p.off)
            if isinstance(p.len, int) and p.len <= 8:
                cls.append(Cl('READ', 'the bytes read are the next bytes of the input', [rb(newc, off + q) == at(S, r0 + q) for q in range(p.len)], [ok]))
            else:
                cls.append(Cl('READ', 'the bytes read are the next bytes of the input',
                          z3.ForAll([x], z3.Implies(z3.And(x >= off, x < off + L), rb(newc, x) == at(S, r0 + x - off)), patterns=[rb(newc, x)]), [ok]))
            cls.append(Cl('FRAME', 'bytes outside the destination unchanged',
                          z3.ForAll([x], z3.Implies(z3.Or(x < off, x >= off + L), rb(newc, x) == rb(oldc, x)), patterns=[rb(newc, x)])))
        return cls
    def templates(self, v, L, ivs):
        c = self.ctx; p = c.args[1]
        r0 = c.old.g['rpos']
        out = []
        done = lambda st: st.g['rpos'] - r0
        for name, get, leaf in ivs:
            e = get(L.st0, L.eenv)
            out.append(('%s advances with the input' % name, lambda st, env, k, get=get, e=e: Eq(get(st, env), e + done(st))))
            out.append(('%s is the missing amount' % name, lambda st, env, k, get=get: Eq(get(st, env), I_(p.len) - done(st))))
        i0, mx, fz, rd = self.dr(c)
        out.append(('no more than requested', lambda st, env, k: And(done(st) >= 0, done(st) <= I_(p.len))))
        out.append(('within the input', lambda st, env, k: And(st.g['rpos'] <= AV)))
        x = z3.Int('x')
        if isinstance(p.base, tuple):
            a = I_(p.base[1]); H = c.old.g['H']
            def f1(st, env, k): return z3.ForAll([x], z3.Implies(z3.And(x >= a, x < a + done(st)), B(st.g['H'], x) == at(S, r0 + x - a)), patterns=[B(st.g['H'], x)])
            def f2(st, env, k): return z3.ForAll([x], z3.Implies(z3.Or(x < a, x >= a + p.len), B(st.g['H'], x) == B(H, x)), patterns=[B(st.g['H'], x)])
            def f3(st, env, k): return z3.ForAll([x], z3.Implies(z3.Or(x + 8 <= a, x >= a + p.len), Wd(st.g['H'], x) == Wd(H, x)), patterns=[Wd(st.g['H'], x)])
            out += [('read so far', f1), ('bytes outside', f2), ('words outside', f3)]
        else:
            oldc = v.named(L.st0, v.get_path(c.old.mem[p.base.obj], p.base.path))
            def cont(st): return v.named(st, v.get_path(st.mem[p.base.obj], p.base.path))
            def f1(st, env, k):
                n = cont(st); return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < done(st)), rb(n, x) == at(S, r0 + x)), patterns=[rb(n, x)])
            def f2(st, env, k):
                n = cont(st); return z3.ForAll([x], z3.Implies(z3.Or(x < 0, x >= I_(p.len)), rb(n, x) == rb(oldc, x)), patterns=[rb(n, x)])
            out += [('read so far', f1), ('bytes outside', f2)]
        return out

class Simple(DecC):
    """reads of a fixed number of bytes returning an integer; inlined at call sites"""
    inline = True
    width = 1
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        return [(st, [world.W.mk_dr(v, st)])]
    def post(self, c):
        i0, i1, mx, r0, r1 = rdfacts(c)
        ok = B_(c.res[1].isnil)
        val = sum(at(S, r0 + q) * (1 << (8 * q)) for q in range(self.width)) if self.width > 1 else at(S, r0)
        return consume(c, z3.IntVal(self.width), ok) + self.inv(c) + [Cl('READ', 'little-endian value of the next bytes', Eq(c.res[0], val), [ok])]

class ReadByte(Simple): fn = 'ReadByte'; width = 1
class ReadUint16(Simple): fn = 'ReadUint16'; width = 2
class ReadUint32(Simple): fn = 'ReadUint32'; width = 4
class ReadUint64(Simple): fn = 'ReadUint64'; width = 8
class ReadOffset(Simple): fn = 'ReadOffset'; width = 4

class Skip(DecC):
    fn = 'Skip'; inline = True
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        n = fresh('n'); st.add(n >= 0, n < I63)
        return [(st, [world.W.mk_dr(v, st), n])]
    def post(self, c):
        L = I_(c.args[1]); ok = B_(c.res[1].isnil)
        i0, i1, mx, r0, r1 = rdfacts(c)
        cls = [Cl('CONF', 'nothing to skip: no effect', And(ok, i1 == i0, r1 == r0), [L == 0])]
        for cl in consume(c, L, ok): cl.hyp.append(L > 0); cls.append(cl)
        return cls + self.inv(c)

class Scope(DecC):
    fn = 'Scope'; inline = True
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        n = fresh('n'); st.add(n >= 0, n < I63)
        return [(st, [world.W.mk_dr(v, st), n])]
    def may_change(self, c): return set(), set()
    def post(self, c):
        i0, i1, mx, r0, r1 = rdfacts(c)
        n = I_(c.args[1]); r, e = c.res
        cls = [Cl('CONF', 'a scope is granted exactly if it fits', Eq(e.isnil, mx - i0 >= n))]
        if isinstance(r, Ptr) and r.obj in c.new.mem:
            i, m, f, rd = world.W.dr(c.v, c.new, r)
            end = z3.If(AV < rd.t, AV, rd.t)
            cls += [Cl('CONF', 'the scope starts at 0 and ends at count, in normal mode', And(Eq(i, 0), Eq(m, n), Eq(f, False)), [B_(e.isnil)]),
                    Cl('CONF', 'the scope reads from the same input and no further than count bytes', isinstance(rd, AbsI) and rd.t == r0 + n, [B_(e.isnil)])]
        else:
            cls += [Cl('CONF', 'no scope only with an error', z3.Not(B_(e.isnil)))]
        return cls

class Getter(DecC):
    inline = True
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        return [(st, [world.W.mk_dr(v, st)])]
    def may_change(self, c): return set(), set()
class GetBytesSpan(Getter):
    fn = 'GetBytesSpan'
    def post(self, c):
        i, m, f, rd = self.dr(c); return [Cl('CONF', 'the span is max - index', Eq(c.res[0], I_(m) - i))]
class EnableFuzzMode(Getter):
    fn = 'EnableFuzzMode'
    def may_change(self, c): return {c.args[0].obj}, set()
    def post(self, c):
        a, b = self.dr(c), self.dr(c, 'new')
        return [Cl('CONF', 'only the mode changes', And(Eq(b[2], True), Eq(a[0], b[0]), Eq(a[1], b[1]), Eq(a[3].t, b[3].t)))]
class UpdateIndexFromScoped(Getter):
    fn = 'UpdateIndexFromScoped'
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        a = world.W.mk_dr(v, st); b = world.W.mk_dr(v, st)
        st.add(I_(world.W.dr(v, st, a)[0]) + world.W.dr(v, st, b)[0] <= world.W.dr(v, st, a)[1])
        return [(st, [a, b])]
    def may_change(self, c): return {c.args[0].obj}, set()
    def post(self, c):
        a, b, o = self.dr(c), self.dr(c, 'new'), self.dr(c, 'old', 1)
        return [Cl('CONF', 'the index advances by what the scope consumed', And(Eq(b[0], I_(a[0]) + o[0]), Eq(a[1], b[1]), Eq(a[2], b[2]), Eq(a[3].t, b[3].t)))]
class NewDecodingReader(Getter):
    fn = 'NewDecodingReader'
    def __init__(self):
        self.name = M + 'dec.NewDecodingReader'
        self.inline_self = self.name
    def setup(self, v, st):
        st.g['rpos'] = fresh('rpos')
        r = fresh('rend'); return [(st, [AbsI('reader', r)])]
    def pre(self, c): return []
    def post(self, c):
        i, m, f, rd = world.W.dr(c.v, c.new, c.res[0])
        return [Cl('CONF', 'starts at 0, unlimited, in normal mode, over the given input', And(Eq(i, 0), Eq(m, U64 - 1), Eq(f, False), Eq(rd.t, c.args[0].t)))]

# ---------------------------------------------------------------- enc
class EncC(Contract):
    inline = True
    fn = None
    def __init__(self):
        self.name = EWM + self.fn
        super().__init__()
    def may_change(self, c): return {c.args[0].obj}, {'wpos', 'failed'}
    def bytes_pre(self, c, L, byte):
        """the bytes that will be written are the next bytes of the serialization"""
        w0 = c.old.g['wpos']
        j = z3.Int('j')
        return [('PRE', 'a', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), byte(j) == at(SER, w0 + j)), patterns=[idx(j)])), ('PRE', 'b', Not(c.old.g['failed']))]
    def wpost(self, c, L, err):
        W = world.W
        w0, w1 = c.old.g['wpos'], c.new.g['wpos']
        ok = B_(err.isnil)
        n0, n1 = W.written(c.v, c.old, c.args[0]), W.written(c.v, c.new, c.args[0])
        return [Cl('ENC', 'success: all bytes written', w1 == w0 + L, [ok]),
                Cl('WFAIL', 'an error exactly if the writer failed', Eq(ok, Not(c.new.g['failed']))),
                Cl('WFAIL', 'never more than the bytes', And(w1 >= w0, w1 <= w0 + L)),
                Cl('WFAIL', 'the count of written bytes is exact', Eq(I_(n1) - n0, w1 - w0))]

class Write(EncC):
    fn = 'Write'
    def setup(self, v, st):
        from c_bitfields import byteslice
        out = []
        for var in ('user', 'obj'):
            s = st.copy(); s.g['H'] = fresh('H', Heap)
            ew = world.W.mk_ew(v, s)
            if var == 'user':
                a, n = fresh('a'), fresh('n'); s.add(a >= 0, n >= 0, a + n < ADDR); s.own = [(a, a + n)]
                p = SliceV(('user', a), 0, n, n)
            else: p = byteslice(v, s, 'p')
            out.append((s, [ew, p]))
        return out
    def pre(self, c): return self.bytes_pre(c, I_(c.args[1].len), c.v.byte_src(c.old, c.args[1]))
    def post(self, c): return self.wpost(c, I_(c.args[1].len), c.res[0])

class WriteByte(EncC):
    fn = 'WriteByte'
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        ew = world.W.mk_ew(v, st); x = fresh('x'); st.add(x >= 0, x < 256)
        return [(st, [ew, x])]
    def pre(self, c): return [('PRE', 'b', Not(c.old.g['failed'])), ('PRE', 'a', I_(c.args[1]) == at(SER, c.old.g['wpos']))]
    def post(self, c): return self.wpost(c, 1, c.res[0])

class WriteOffset(EncC):
    fn = 'WriteOffset'
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        ew = world.W.mk_ew(v, st); x, y = fresh('prev'), fresh('len'); st.add(x >= 0, y >= 0, x + y < U32)
        return [(st, [ew, x, y])]
    def pre(self, c):
        x = I_(c.args[1]) + c.args[2]
        return [('PRE', 'b', Not(c.old.g['failed'])), ('PRE', 'a', offm(SER, c.old.g['wpos'], x))]
    def post(self, c): return self.wpost(c, 4, c.res[1]) + [Cl('ENC', 'returns the offset written', Eq(c.res[0], I_(c.args[1]) + c.args[2]), [B_(c.res[1].isnil)])]

class WriteOffsetPanics(EncC):
    """offsets that do not fit 4 bytes are refused (by a panic), never written"""
    fn = 'WriteOffset'; label = 'enc.WriteOffset (offset too large)'; may_not_return = True
    def setup(self, v, st):
        st.g['H'] = fresh('H', Heap)
        ew = world.W.mk_ew(v, st); x, y = fresh('prev'), fresh('len'); st.add(x >= 0, y >= 0, x < U64, y < U64, x + y >= U32)
        st.g['failed'] = True      # any write at all would be a violation
        return [(st, [ew, x, y])]
    def may_panic(self, v, st): return True
    def post(self, c): return []

class NewEncodingWriter(EncC):
    fn = 'NewEncodingWriter'
    def __init__(self):
        self.name = M + 'enc.NewEncodingWriter'; self.inline_self = self.name
    def setup(self, v, st): return [(st, [AbsI('writer', None)])]
    def may_change(self, c): return set(), set()
    def post(self, c): return [Cl('WFAIL', 'nothing written yet', Eq(world.W.written(c.v, c.new, c.res[0]), 0))]

DEC = [Read, ReadByte, ReadUint16, ReadUint32, ReadUint64, ReadOffset, Skip, Scope, GetBytesSpan, EnableFuzzMode, UpdateIndexFromScoped, NewDecodingReader]
ENC = [Write, WriteByte, WriteOffset, WriteOffsetPanics, NewEncodingWriter]
