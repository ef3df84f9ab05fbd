from core import *
import z3, time, copy
idx_ = F('idx', I, I)
INTARR = z3.ArraySort(I, I)

class Outcome:
    """kind: 'ret' (vals), 'edge' (frm,to), """
    __slots__ = ('kind', 'st', 'vals', 'frm', 'to', 'env')
    def __init__(self, kind, st, vals=None, frm=None, to=None, env=None):
        self.kind, self.st, self.vals, self.frm, self.to, self.env = kind, st, vals, frm, to, env

def vframe(H, H2, lo, hi):
    from spec import V, memsz, Ty
    d = z3.Const('d', Desc); p = z3.Int('p'); lo, hi = I_(lo), I_(hi)
    return [z3.ForAll([d, p], z3.Implies(z3.Or(p + memsz(d) <= lo, p >= hi, hi <= lo, memsz(d) <= 0), V(H2, d, p) == V(H, d, p)), patterns=[V(H2, d, p)]),
            z3.ForAll([d, p], z3.Implies(z3.Or(p + memsz(d) <= lo, p >= hi, hi <= lo, memsz(d) <= 0), Ty(H2, d, p) == Ty(H, d, p)), patterns=[Ty(H2, d, p)])]

class Obl:
    __slots__ = ('fam', 'name', 'ok', 'time', 'backend', 'model', 'line', 'why', 'count')
    def __init__(self, fam, name, ok, t, backend, model=None, line=None, why=None):
        self.fam, self.name, self.ok, self.time, self.backend, self.model, self.line, self.why = fam, name, ok, t, backend, model, line, why

class Verifier:
    def __init__(self, prog, contracts, fams=None, timeout_ms=10000, extra_axioms=()):
        self.p = prog
        self.contracts = contracts        # full function name -> Contract ; plus interface handlers
        self.fams = fams                  # families whose clauses are to be proved (None = all)
        self.timeout = timeout_ms
        self.ax = list(AX()) + list(extra_axioms)
        self.obls = {}                    # key -> Obl   (deduplicated by clause name; conjunction over paths)
        self.record = 1                   # >0: obligations are recorded
        self.depth = 0
        self.paths = 0
        self.nobj = itertools.count()
        self.stats = {'solver_s': 0.0, 'queries': 0, 'loops': 0, 'inlined': set(), 'contracts_used': set(), 'externals': set()}
        self.objtype = {}
        self.dropcache = {}
        self.nopivot = set()
        self.allocs = []
        self.cur = None                   # current verification context (contract instance)
        self.assumed = set()
        self.deadline = None
        self._solver = None
        self.immutable = set()
        self.unrollmax = 70
        self.refuted = []

    # ------------------------------------------------------------ solving
    def solver(self):
        if self._solver is None:
            s = z3.Solver()
            s.set('auto_config', False); s.set('mbqi', False)
            s.add(*self.ax)
            self._solver = s
        return self._solver

    def check(self, pc, neg, ms, quick=False):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget of the function exhausted')
        full = int(ms * 3000 * self.scale)
        t = time.time()
        r = z3.unknown
        # resource limits, not wall-clock time, so that results do not depend on the load of the machine;
        # different search strategies, cheap attempts first
        for how, lim in (('inc', full),) if quick else [(h, min(l, full)) for h, l in (('inc', 1000000), ('simple', 1500000), ('prep', 2500000))] + [('inc', full), ('prep', full)]:
            r, why = self.attempt(how, pc, neg, lim, int(ms * 30 * self.scale))
            if r != z3.unknown or 'incomplete' in why: break
        self.gave_up = r == z3.unknown and 'incomplete' not in why
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        return r

    def attempt(self, how, pc, neg, rlimit, timeout):
        if how == 'inc': s = self.solver()
        else:
            s = z3.Solver() if how == 'prep' else z3.SimpleSolver()
            s.set('auto_config', False); s.set('mbqi', False)
        s.push() if how == 'inc' else s.add(*self.ax)
        try:
            s.set('rlimit', rlimit); s.set('timeout', timeout)
            s.add(*pc)
            if neg is not None: s.add(neg)
            r = s.check()
            return r, (s.reason_unknown() if r == z3.unknown else '')
        finally:
            if how == 'inc': s.pop()

    def valid(self, st, goal, ms=2000):
        if goal is True: return True
        if goal is False: goal = z3.BoolVal(False)
        return self.check(st.pc, z3.Not(goal), ms) == z3.unsat

    def feasible(self, st, cond=None, ms=300):
        return self.check(st.pc, cond, ms, True) != z3.unsat

    def oblige(self, st, fam, name, goal, line=None):
        """records an obligation; returns True if discharged (or not asked for)"""
        if not self.record: return True
        if self.fams is not None and fam not in self.fams: return True
        key = (fam, name)
        if goal is True:
            ok, t, be = True, 0.0, 'simplifier'
        else:
            g = z3.BoolVal(False) if goal is False else goal
            t0 = time.time()
            r = self.check(st.pc, z3.Not(g), self.timeout)
            be = 'z3'
            if r != z3.unsat and self.fallback:
                r2 = self.fallback(self.ax, st.pc, g, self.timeout)
                if r2: r, be = z3.unsat, r2
            ok = r == z3.unsat
            t = time.time() - t0
        o = self.obls.get(key)
        if o is None:
            self.obls[key] = Obl(fam, name, ok, t, be, line=line, why=None if ok else 'not discharged: %s' % (goal if goal is False else str(z3.simplify(g))[:1500]))
            self.obls[key].count = 1
        else:
            o.count += 1
            o.time += t
            if o.ok and not ok:
                o.ok = False; o.why = 'not discharged: %s' % str(goal)[:1500]; o.line = line
        if not ok and getattr(self, 'debug', False):
            print('FAILED', fam, name, line); print('   goal', goal)
        return ok
    fallback = None
    scale = 1.0

    # ------------------------------------------------------------ objects
    def new_obj(self, st, typ, content):
        o = 'o%d' % next(self.nobj)
        st.mem[o] = content
        self.objtype[o] = typ
        return o

    def T(self, i): return self.p.types[i]

    def sizeof(self, ti):
        t = self.T(ti); k = t['kind']
        if k == 'basic':
            b = t['basic']
            if b in ('bool',): return 1
            if b == 'string': return 16
            if b in ('Pointer', 'unsafe.Pointer'): return 8
            return BASIC[b][1] // 8
        if k in ('pointer', 'func', 'map', 'chan'): return 8
        if k == 'slice': return 24
        if k == 'interface': return 16
        if k == 'array': return t['len'] * self.sizeof(t['elem'])
        if k == 'struct':
            off = 0
            for f in t['fields']:
                a = self.align(f['type']); off = (off + a - 1) // a * a + self.sizeof(f['type'])
            a = self.align(ti)
            return (off + a - 1) // a * a
        raise Unsupported('sizeof ' + t['str'])
    def align(self, ti):
        t = self.T(ti); k = t['kind']
        if k == 'array': return self.align(t['elem'])
        if k == 'struct': return max([1] + [self.align(f['type']) for f in t['fields'] or []])
        return min(8, max(1, self.sizeof(ti)))
    def fieldoff(self, ti, idx):
        off = 0
        fs = self.T(ti)['fields']
        for n, f in enumerate(fs):
            a = self.align(f['type']); off = (off + a - 1) // a * a
            if n == idx: return off
            off += self.sizeof(f['type'])

    def isbytearr(self, t):
        return t['kind'] == 'array' and self.T(t['elem']).get('basic') in ('uint8', 'byte')

    def zero(self, ti):
        t = self.T(ti); k = t['kind']
        if k == 'basic':
            b = t['basic']
            if b == 'bool': return False
            if b == 'string': return TxtV('')
            if b in ('Pointer', 'unsafe.Pointer'): return 0
            return 0
        if k == 'pointer': return 0
        if k == 'slice': return SliceV(None, 0, 0, 0)
        if t['str'] == 'reflect.Value': return AbsI('rvalue', None)
        if k == 'struct': return StructV([self.zero(f['type']) for f in t['fields'] or []])
        if k == 'interface': return ErrV(True) if t['str'] == 'error' else NIL
        if k == 'func': return NIL
        if self.isbytearr(t): return ba_zero
        if k == 'array': return self.arrcontent(t['elem'], t.get('len') == 1)
        raise Unsupported('zero ' + t['str'])

    def arrcontent(self, eti, one=False):
        """contents of a zeroed backing array with elements of the type"""
        e = self.T(eti)
        if e.get('basic') in ('uint8', 'byte'): return ba_zero
        if e['kind'] == 'basic' and e['basic'] in BASIC: return z3.K(I, z3.IntVal(0))
        if self.isbytearr(e): return z3.K(I, ba_zero)
        z = self.zero(eti)
        return SeqV(lambda i: z, ('zero', eti) + (('one',) if one else ()))

    def symval(self, ti, name, st):
        """arbitrary value of a type"""
        t = self.T(ti); k = t['kind']
        if k == 'basic':
            b = t['basic']
            if b == 'bool': return fresh(name, Bo)
            if b == 'string': return TxtV(fresh(name, Txt))
            if b in ('Pointer', 'unsafe.Pointer'):
                x = fresh(name); st.add(x >= 0, x < U64); return x
            x = fresh(name); lo, hi = rng(b); st.add(x >= lo, x <= hi); return x
        if k == 'interface' and t['str'] == 'error': return ErrV(fresh(name + '_nil', Bo))
        if k == 'struct': return StructV([self.symval(f['type'], name + '_' + f['name'], st) for f in t['fields'] or []])
        if self.isbytearr(t): return fresh(name, BA)
        if k == 'tuple': return TupV([self.symval(e, name, st) for e in t['elems']])
        raise Unsupported('arbitrary value of ' + t['str'])

    # ------------------------------------------------------------ memory access
    def in_own(self, st, addr, n):
        return Or(*[And(Cmp('<=', lo, addr), Cmp('<=', addr + n if not (isinstance(addr, int) and isinstance(n, int)) else addr + n, hi)) for lo, hi in st.own])

    def user_access(self, st, addr, n, what, line):
        if self.record:
            z = Cmp('==' if False else '<=', n, 0)
            self.oblige(st, 'SAFE', 'mem:' + what, Or(z, self.in_own(st, addr, n)), line)

    def load_user(self, st, addr, ti, line):
        t = self.T(ti); k = t['kind']
        H = st.g['H']
        if k == 'basic':
            b = t['basic']
            if b in ('int', 'uintptr', 'unsafe.Pointer', 'Pointer', 'uint'):
                self.user_access(st, addr, 8, 'load word', line)
                v = Wd(H, I_(addr))
                lo, hi = rng(b) if b in BASIC else (0, U64 - 1)
                if b in ('uintptr', 'unsafe.Pointer', 'Pointer', 'uint'): st.add(v >= 0)
                else: st.add(v < I63)
                return v
            if b in ('uint8', 'byte'):
                self.user_access(st, addr, 1, 'load byte', line)
                return B(H, I_(addr))
            if b == 'bool':
                self.user_access(st, addr, 1, 'load bool', line)
                return B(H, I_(addr)) != 0
            if b in ('uint16', 'uint32', 'uint64'):
                w = BASIC[b][1] // 8
                self.user_access(st, addr, w, 'load uint', line)
                return self.compose(st, [Ite(LE, B(H, I_(addr) + q), B(H, I_(addr) + (w - 1 - q))) for q in range(w)])
        if k == 'pointer':
            self.user_access(st, addr, 8, 'load pointer', line)
            v = Wd(H, I_(addr)); st.add(v >= 0)
            return v
        if k == 'slice':
            self.user_access(st, addr, 24, 'load slice header', line)
            a = I_(addr)
            st.add(Wd(H, a) >= 0)
            return SliceV(('user', Wd(H, a)), 0, Wd(H, a + 8), Wd(H, a + 16))
        if k == 'struct':
            return StructV([self.load_user(st, addr + self.fieldoff(ti, n), f['type'], line) for n, f in enumerate(t['fields'] or [])])
        if self.isbytearr(t):
            self.user_access(st, addr, t['len'], 'load array', line)
            x = fresh('mem', BA); j = z3.Int('j')
            st.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t['len']), rb(x, j) == B(H, I_(addr) + j)), patterns=[rb(x, j)]))
            return x
        raise Unsupported('load of %s through an unsafe pointer' % t['str'])

    def compose(self, st, bytes_):
        """integer from little-endian list of bytes"""
        if all(isinstance(b, int) for b in bytes_):
            return sum(b << (8 * i) for i, b in enumerate(bytes_))
        u = fresh('u')
        tot = 0
        for q, b in enumerate(bytes_):
            st.add(lb(u, q) == I_(b))
            tot = tot + I_(b) * (1 << (8 * q))
        st.add(u == tot, u >= 0, u < (1 << (8 * len(bytes_))))
        return u

    def bytes_of(self, st, v, w):
        """little-endian bytes of v (0 <= v < 256^w)"""
        if isinstance(v, int):
            return [(v >> (8 * q)) & 255 for q in range(w)]
        tot = 0
        out = []
        for q in range(w):
            out.append(lb(v, q)); tot = tot + lb(v, q) * (1 << (8 * q))
        st.add(Imp(And(v >= 0, v < (1 << (8 * w))), v == tot))
        return out

    def new_heap(self, st, lo, hi, bytefn=None, wordfn=None):
        """heap with the bytes [lo,hi) changed; everything outside unchanged"""
        H = st.g['H']
        H2 = fresh('H', Heap)
        x = z3.Int('x'); d = z3.Const('d', Desc); p = z3.Int('p')
        lo, hi = I_(lo), I_(hi)
        inb = z3.And(x >= lo, x < hi)
        st.add(z3.ForAll([x], B(H2, x) == z3.If(inb, bytefn(x) if bytefn else B(H2, x), B(H, x)), patterns=[B(H2, x)]))
        st.add(z3.ForAll([x], z3.Implies(z3.Or(x + 8 <= lo, x >= hi, hi <= lo), Wd(H2, x) == Wd(H, x)), patterns=[Wd(H2, x)]))
        if wordfn is not None:
            st.add(Wd(H2, lo) == wordfn)
        self.heap_frame(st, H, H2, lo, hi)
        st.g['H'] = H2
        return H2

    def heap_frame(self, st, H, H2, lo, hi):
        for fr in self.frames:
            st.add(*fr(self, st, H, H2, lo, hi))
    frames = [lambda v, st, H, H2, lo, hi: vframe(H, H2, lo, hi)]

    def store_user(self, st, addr, ti, v, line):
        t = self.T(ti); k = t['kind']
        st.tags['userstore'] = True
        if k == 'basic':
            b = t['basic']
            if b in ('int', 'uintptr', 'unsafe.Pointer', 'Pointer', 'uint'):
                self.user_access(st, addr, 8, 'store word', line)
                self.new_heap(st, addr, addr + 8, None, I_(v)); return
            if b in ('uint8', 'byte'):
                self.user_access(st, addr, 1, 'store byte', line)
                self.new_heap(st, addr, addr + 1, lambda x: I_(v)); return
            if b == 'bool':
                self.user_access(st, addr, 1, 'store bool', line)
                self.new_heap(st, addr, addr + 1, lambda x: z3.If(B_(v), z3.IntVal(1), z3.IntVal(0))); return
            if b in ('uint16', 'uint32', 'uint64'):
                w = BASIC[b][1] // 8
                self.user_access(st, addr, w, 'store uint', line)
                bs = self.bytes_of(st, v, w)
                def bf(x, bs=bs):
                    r = I_(bs[0])
                    for q in range(w):
                        r = z3.If(x == I_(addr) + q, z3.If(LE, I_(bs[q]), I_(bs[w - 1 - q])), r)
                    return r
                self.new_heap(st, addr, addr + w, bf); return
        if k == 'pointer':
            self.user_access(st, addr, 8, 'store pointer', line)
            if isinstance(v, Ptr): raise Unsupported('storing a Go pointer into user memory')
            self.new_heap(st, addr, addr + 8, None, I_(v)); return
        if k == 'slice':
            if isinstance(v.base, Ptr): raise Unsupported('storing a slice into user memory')
            self.user_access(st, addr, 24, 'store slice header', line)
            data = v.base[1] + v.off if v.base else 0
            self.new_heap(st, addr, addr + 8, None, I_(data))
            self.new_heap(st, addr + 8, addr + 16, None, I_(v.len))
            self.new_heap(st, addr + 16, addr + 24, None, I_(v.cap)); return
        if k == 'struct':
            for n, f in enumerate(t['fields']):
                self.store_user(st, addr + self.fieldoff(ti, n), f['type'], v.f[n], line)
            return
        raise Unsupported('store of %s through an unsafe pointer' % t['str'])

    def get_path(self, c, path):
        for e in path:
            if isinstance(c, StructV):
                c = c.f[e]
            elif isinstance(c, SeqV):
                c = c.get(e[1])
            elif isinstance(c, AbsI) and c.kind == 'any' and e == 1:
                c = c.t          # the data word of an interface value
            elif isz(c) and c.sort() == BA:
                c = rb(c, I_(e[1]))
            elif isz(c) and z3.is_array(c):
                c = z3.Select(c, I_(e[1]))
            else:
                raise Unsupported('path into %r' % (c,))
        return c

    def set_path(self, st, c, path, v):
        if not path: return v
        e = path[0]
        if isinstance(c, StructV):
            f = list(c.f); f[e] = self.set_path(st, f[e], path[1:], v); return StructV(f)
        if isz(c) and c.sort() == BA:
            if len(path) != 1: raise Unsupported('path')
            v = I_(v)
            return ba_set(c, I_(e[1]), v)
        if isz(c) and z3.is_array(c):
            i = I_(e[1])
            if len(path) > 1:
                inner = self.set_path(st, z3.Select(c, i), path[1:], v)
                return z3.Store(c, i, inner)
            return z3.Store(c, i, I_(v) if isinstance(v, int) else v)
        if isinstance(c, SeqV):
            i = e[1]; old = c
            nv = self.set_path(st, old.get(i), path[1:], v)
            try: nv = self.norm_val(st, nv)
            except Unsupported: pass
            if old.key[-1] == 'one': return SeqV(lambda j: nv, ('set', old.key, id(nv), 'one'))     # the only element
            def get(j):
                if isinstance(i, int) and isinstance(j, int): return nv if i == j else old.get(j)
                if Eq(i, j) is True: return nv
                return self.ite_val(Eq(i, j), nv, old.get(j))
            return SeqV(get, ('set', old.key, str(i), id(nv)))
        raise Unsupported('store path into %r' % (c,))

    def ite_val(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, StructV): return StructV([self.ite_val(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, (int, bool)) or isz(a): return Ite(c, a, b)
        if isinstance(a, AbsI) and isinstance(b, AbsI) and a.kind == b.kind: return AbsI(a.kind, z3.If(c, a.t, b.t), a.x)
        if isinstance(a, TxtV) and isinstance(b, TxtV): return TxtV(z3.If(c, self.txt(a), self.txt(b)))
        if isinstance(a, (Clo, AbsFn)) and isinstance(b, (Clo, AbsFn)):
            a, b = self.norm_fn(a), self.norm_fn(b)
            return AbsFn('ptrfn', Ite(c, a.data, b.data))
        raise Unsupported('merge of %r and %r' % (a, b))

    def norm_fn(self, fn, mem=None):
        """a function value that adds a constant to a pointer, as its offset"""
        if isinstance(fn, AbsFn) and fn.tag == 'ptrfn': return fn
        if not isinstance(fn, Clo) or mem is None: raise Unsupported('function value %r' % (fn,))
        rec, self.record = self.record, 0
        try:
            p = fresh('pf'); st = State(); st.add(p >= 0, p < (1 << 48))
            def bounds(x):
                if isz(x) and x.sort() == I: st.add(x >= 0, x < (1 << 48))
                if isinstance(x, AbsFn) and isz(x.data): bounds(x.data)
                if isinstance(x, Clo):
                    for y in x.bind: bounds(y)
                if isinstance(x, Ptr) and not x.obj.startswith('G:'): bounds(self.get_path(mem[x.obj], x.path))
            bounds(fn)
            st.mem = dict(mem)
            outs = self.call_value(st, fn, [p], None)
        finally: self.record = rec
        if len(outs) != 1: raise Unsupported('field pointer function')
        r = outs[0][1]
        r = r[0] if isinstance(r, list) else r
        off = z3.simplify(I_(r) - p)
        def has(t): return t.eq(p) or any(has(x) for x in t.children())
        if has(off): raise Unsupported('field pointer function')
        return AbsFn('ptrfn', off)
    def norm_val(self, st, v):
        if isinstance(v, StructV): return StructV([self.norm_val(st, x) for x in v.f])
        if isinstance(v, Clo): return self.norm_fn(v, st.mem)
        return v

    def txt(self, v):
        if isinstance(v.s, str):
            return z3.Const('txt:' + v.s, Txt)
        return v.s

    def load(self, st, addr, ti, line):
        if isinstance(addr, Ptr):
            if addr.obj.startswith('G:'):
                return self.load_global(st, addr, ti, line)
            c = self.get_path(st.mem[addr.obj], addr.path)
            return self.reinterpret(st, c, ti, addr)
        if isinstance(addr, int) and addr == 0:
            self.oblige(st, 'SAFE', 'nil dereference', False, line); raise PathEnd()
        return self.load_user(st, addr, ti, line)

    def reinterpret(self, st, c, ti, addr):
        t = self.T(ti)
        if t['kind'] == 'slice' and isinstance(c, StructV):   # *(*[]byte)(unsafe.Pointer(sliceHeader))
            data, ln, cp = c.f[0], c.f[1], c.f[2]
            if isinstance(data, Ptr): raise Unsupported('slice header over a Go object')
            return SliceV(('user', data), 0, ln, cp)
        if t['kind'] == 'slice' and not isinstance(c, SliceV): raise Unsupported('reinterpretation as %s' % t['str'])
        if t['kind'] == 'struct' and not isinstance(c, StructV) and not (isinstance(c, AbsI) and c.kind == 'rvalue' and t['str'] == 'reflect.Value'): raise Unsupported('reinterpretation as %s' % t['str'])
        if t['kind'] == 'basic' and t['basic'] == 'bool' and isz(c) and c.sort() == I: return c != 0
        return c

    def store(self, st, addr, ti, v, line):
        if isinstance(addr, Ptr):
            if addr.obj.startswith('G:'):
                return self.store_global(st, addr, ti, v, line)
            t = self.T(ti)
            c = st.mem[addr.obj]
            old = self.get_path(c, addr.path) if addr.path else c
            w = self.intwidth(ti)
            if w and isz(old) is False and isinstance(old, StructV): raise Unsupported('reinterpreting store')
            if w > 1 and addr.path and addr.path[-1].__class__ is tuple and isz(self.get_path(c, addr.path[:-1])) and self.get_path(c, addr.path[:-1]).sort() == BA:
                # wide store into a byte array (endianness detection)
                bs = self.bytes_of(st, v, w)
                base = addr.path[-1][1]
                for q in range(w):
                    c = self.set_path(st, c, addr.path[:-1] + (('idx', base + q),), Ite(LE, bs[q], bs[w - 1 - q]))
                st.mem[addr.obj] = c
            else:
                st.mem[addr.obj] = self.set_path(st, c, addr.path, v)
            if addr.obj in self.immutable:
                self.oblige(st, 'FRAME', 'store to a read-only object', False, line)
            return
        if isinstance(addr, int) and addr == 0:
            self.oblige(st, 'SAFE', 'nil dereference', False, line); raise PathEnd()
        self.store_user(st, addr, ti, v, line)

    def intwidth(self, ti):
        t = self.T(ti)
        return BASIC[t['basic']][1] // 8 if t['kind'] == 'basic' and t['basic'] in BASIC else 0

    def load_global(self, st, addr, ti, line):
        key = 'G:' + addr.obj[2:]
        if key in st.mem:
            return self.get_path(st.mem[key], addr.path)
        h = self.globals.get(addr.obj[2:])
        if h is None:
            raise Unsupported('global ' + addr.obj)
        v = h(self, st)
        return self.get_path(v, addr.path) if addr.path else v
    globals = {}

    def store_global(self, st, addr, ti, v, line):
        name = addr.obj[2:]
        if name not in self.writable_globals:
            self.oblige(st, 'FRAME', 'store to global ' + name, False, line)
        key = 'G:' + name
        if addr.path:
            if key not in st.mem: raise Unsupported('partial store to a global')
            st.mem[key] = self.set_path(st, st.mem[key], addr.path, v)
        else:
            st.mem[key] = v
    writable_globals = ()

    # ------------------------------------------------------------ byte ranges
    def named(self, st, t):
        """a constant equal to the term (usable in patterns)"""
        if not isz(t) or z3.is_const(t): return t
        n = fresh('n', t.sort()); st.add(n == t)
        return n

    def byte_src(self, st, s):
        """function index -> byte of a byte slice, read in the present state"""
        if s.base is None: return lambda j: z3.IntVal(0)
        if isinstance(s.base, tuple):
            H = st.g['H']; a = s.base[1] + s.off if not (isinstance(s.off, int) and s.off == 0) else s.base[1]
            return lambda j: B(H, I_(a) + j)
        c0 = self.get_path(st.mem[s.base.obj], s.base.path)
        c = self.named(st, c0)
        off = s.off
        def get(j):
            if isinstance(off, int) and (isinstance(j, int) or z3.is_int_value(j)):
                j = off + (j if isinstance(j, int) else j.as_long())
                a = c0
                while z3.is_app(a) and a.decl().eq(ba_set.decl() if hasattr(ba_set, 'decl') else ba_set) and z3.is_int_value(a.arg(1)):
                    if a.arg(1).as_long() == j: return a.arg(2)
                    a = a.arg(0)
                return rb(a if z3.is_const(a) else c, z3.IntVal(j))
            return rb(c, I_(off) + j) if not (isinstance(off, int) and off == 0) else rb(c, I_(j))
        return get

    def write_range(self, st, dst, n, src, line, what='copy', whole=None):
        """dst[0:n] = src(0..n-1); whole: BA term equal to the whole source if known"""
        if dst.base is None: return
        if isinstance(dst.base, tuple):
            a = dst.base[1] if isinstance(dst.off, int) and dst.off == 0 else dst.base[1] + dst.off
            self.user_access(st, a, n, what, line)
            st.tags['userstore'] = True
            self.new_heap(st, a, a + n, lambda x: I_(src(x - I_(a))))
            return
        ob, path = dst.base.obj, dst.base.path
        c = self.get_path(st.mem[ob], path)
        if ob in self.immutable: self.oblige(st, 'FRAME', 'store to a read-only object', False, line)
        if whole is not None:
            new = whole
        elif isinstance(n, int) and isinstance(dst.off, int) and n <= 8:
            new = c
            for q in range(n): new = ba_set(new, z3.IntVal(dst.off + q), I_(src(q)))
        else:
            new = fresh('cpy', BA); j = z3.Int('j'); off = I_(dst.off)
            st.add(z3.ForAll([j], rb(new, j) == z3.If(z3.And(j >= off, j < off + n), I_(src(j - off)), rb(c, j)), patterns=[rb(new, j)]))
        st.mem[ob] = self.set_path(st, st.mem[ob], path, new)

    def arrlen(self, ob, path):
        """length of the array object a slice is based on, if static"""
        ti = self.objtype.get(ob)
        if ti is None: return None
        t = self.T(ti) if isinstance(ti, int) else ti
        for e in path:
            if t['kind'] == 'struct': t = self.T(t['fields'][e]['type'])
            else: t = self.T(t['elem'])
        return t.get('len')

    def go_copy(self, st, d, s, eti, line):
        e = self.T(eti)
        n = self.min_(st, d.len, s.len)
        if e.get('basic') in ('uint8', 'byte'):
            if isinstance(n, int) and n == 0: return n
            if isinstance(s.base, tuple):
                a = s.base[1] if isinstance(s.off, int) and s.off == 0 else s.base[1] + s.off
                self.user_access(st, a, n, 'copy from', line)
            whole = None
            if isinstance(n, int) and isinstance(d.base, Ptr) and isinstance(s.base, Ptr) and d.off == 0 and s.off == 0 and \
               self.alen(st, d.base) == n and self.alen(st, s.base) == n:
                whole = self.get_path(st.mem[s.base.obj], s.base.path)
            if isinstance(n, int) and isinstance(d.base, Ptr) and isinstance(s.base, Ptr) and d.off == 0 and self.alen(st, d.base) == n and whole is None and \
               getattr(self, 'ret_whole', None): pass
            self.write_range(st, d, n, self.byte_src(st, s), line, 'copy to', whole)
            return n
        raise Unsupported('copy of ' + e['str'])

    def alen(self, st, base):
        return self.arrlen(base.obj, base.path)

    def min_(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int): return min(a, b)
        if self.valid(st, Cmp('<=', a, b), 500): return a
        if self.valid(st, Cmp('<=', b, a), 500): return b
        return Ite(Cmp('<=', a, b), a, b)

    # ------------------------------------------------------------ functions
    def call_function(self, st, name, args, line, bind=()):
        """-> [(state, [results])]"""
        c = self.contracts.get(name)
        if c is not None and not (self.cur is not None and self.cur.inline_self == name):
            self.stats['contracts_used'].add(name)
            return c.apply(self, st, args, line)
        ext = self.externals.get(name)
        if ext is not None:
            self.stats['externals'].add(name)
            return ext(self, st, args, line)
        f = self.p.funcs.get(name)
        if f is None or not f['blocks']:
            raise Unsupported('call of ' + name)
        if not (f.get('pkg') or '').startswith('github.com/protolambda/zssz') and not f['synthetic'] and not f.get('parent'):
            raise Unsupported('call of ' + name)
        if self.depth > 0: self.stats['inlined'].add(name)
        return self.run(f, st, args, bind)
    externals = {}

    def run(self, f, st, args, bind=()):
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion in ' + f['name'])
        try:
            env = {}
            for p, a in zip(f['params'], args): env[p['name']] = a
            for p, a in zip(f['free'], bind): env['free:' + p['name']] = a
            outs = self.walk(f, [(0, None, st, env)], None, None)
            return [(o.st, o.vals) for o in outs]
        finally:
            self.depth -= 1

    def walk(self, f, work, stop, body):
        """explores from the work list; inside a loop (stop = header, body = its blocks) edges to the header
        and edges out of the body are returned as outcomes"""
        outs = []
        work = list(work)
        first = True
        while work:
            b, prev, st, env = work.pop()
            if stop is not None and not first:
                if b == stop or b not in body:
                    outs.append(Outcome('edge', st, frm=prev, to=b, env=env)); continue
            if b in f['loops'] and not (first and stop == b):
                for o in self.loop(f, b, prev, st, env):
                    if o.kind == 'ret': outs.append(o)
                    elif stop is not None and (o.to == stop or o.to not in body): outs.append(o)
                    else: work.append((o.to, o.frm, o.st, o.env))
                first = False
                continue
            first = False
            for r in self.block(f, b, prev, st, env):
                if r[0] == 'ret': outs.append(Outcome('ret', r[1], vals=r[2]))
                else:
                    _, st2, env2, nxt = r
                    work.append((nxt, b, st2, env2))
            if self.paths > 20000: raise Undecided('too many paths')
        return outs

    def block(self, f, b, prev, st, env):
        blk = f['blocks'][b]
        env = dict(env)
        # phis first, in parallel
        phis = {}
        ins = blk['instrs']
        n = 0
        while n < len(ins) and ins[n]['op'] == 'Phi':
            if prev == 'havoc':
                pass
            else:
                k = blk['preds'].index(prev)
                phis[ins[n]['name']] = self.val(ins[n]['edges'][k], env)
            n += 1
        if prev != 'havoc': env.update(phis)
        states = [(st, env)]
        return self.instrs(f, blk, n, st, env)

    def instrs(self, f, blk, n, st, env):
        ins = blk['instrs']
        while n < len(ins):
            i = ins[n]; op = i['op']
            line = i.get('line')
            if op == 'Jump':
                return [('go', st, env, blk['succs'][0])]
            if op == 'If':
                c = self.val(i['cond'], env)
                if isz(c):
                    c = z3.simplify(c)
                    if z3.is_true(c): c = True
                    elif z3.is_false(c): c = False
                if c is True: return [('go', st, env, blk['succs'][0])]
                if c is False: return [('go', st, env, blk['succs'][1])]
                out = []
                self.paths += 1
                ft = self.feasible(st, c)
                ff = self.feasible(st, z3.Not(c)) if ft else True
                if ft:
                    s1 = st.copy(); s1.add(c)
                    out.append(('go', s1, env, blk['succs'][0]))
                if ff:
                    s2 = st.copy() if ft else st
                    s2.add(z3.Not(c))
                    out.append(('go', s2, dict(env), blk['succs'][1]))
                return out
            if op == 'Return':
                return [('ret', st, [self.val(r, env) for r in i['results']])]
            if op == 'Panic':
                if not self.expect_panic(st, f, line):
                    self.oblige(st, 'SAFE', 'panic unreachable', False, line)
                return []
            try:
                if op == 'Defer':
                    self.defer(f, blk, i, env)
                    n += 1
                    continue
                if op == 'RunDefers' and env.get('$defers'):
                    # the last deferred call, then the others
                    call = env['$defers'][-1]
                    out = []
                    for s2, _ in self.do_call(f, {'call': call, 'line': line}, st, env):
                        e2 = dict(env); e2['$defers'] = env['$defers'][:-1]
                        out.extend(self.instrs(f, blk, n, s2, e2))
                    return out
                if op == 'Call':
                    res = self.do_call(f, i, st, env)
                    if len(res) == 1:
                        st, vals = res[0]
                        if i.get('name'): env[i['name']] = vals
                        n += 1
                        continue
                    out = []
                    for s2, v in res:
                        e2 = dict(env); e2[i['name']] = v
                        out.extend(self.instrs(f, blk, n + 1, s2, e2))
                    return out
                r = self.instr(f, i, op, st, env, line)
                if isinstance(r, list):   # forked
                    out = []
                    for s2, v in r:
                        e2 = dict(env); e2[i['name']] = v
                        out.extend(self.instrs(f, blk, n + 1, s2, e2))
                    return out
                if i.get('name') is not None: env[i['name']] = r
            except PathEnd:
                return []
            n += 1
        raise Unsupported('block without terminator')

    def defer(self, f, blk, i, env):
        """the operands of a deferred call are evaluated now, under names of their own"""
        b = next(n for n, x in enumerate(f['blocks']) if x is blk)
        seen, todo = set(), list(blk['succs'])
        while todo:
            x = todo.pop()
            if x == b: raise Unsupported('defer in a loop')
            if x not in seen: seen.add(x); todo += f['blocks'][x]['succs']
        c = dict(i['call']); q = len(env.get('$defers', []))
        def keep(o, nm):
            if o['k'] not in ('reg', 'param', 'free'): return o
            env[nm] = self.val(o, env)
            return dict(o, k='reg', name=nm)
        c['args'] = [keep(a, '$d%d.%d' % (q, n)) for n, a in enumerate(c['args'])]
        for w in ('fn', 'recv'):
            if w in c and c[w].get('k') in ('reg', 'param', 'free'): c[w] = keep(c[w], '$d%d.%s' % (q, w))
        env['$defers'] = env.get('$defers', []) + [c]

    def expect_panic(self, st, f, line):
        return self.cur is not None and self.cur.may_panic(self, st)

    def val(self, o, env):
        k = o['k']
        if k in ('reg', 'param'): return env[o['name']]
        if k == 'free': return env['free:' + o['name']]
        if k == 'const':
            t = self.T(o['type'])
            if o.get('nil'): return self.zero(o['type'])
            if 'int' in o:
                v = int(o['int'])
                return v
            if 'bool' in o: return o['bool']
            if 'string' in o: return TxtV(o['string'])
            raise Unsupported('constant')
        if k == 'func': return Clo(o['name'])
        if k == 'global': return Ptr('G:' + o['name'])
        raise Unsupported('operand ' + k)

    def instr(self, f, i, op, st, env, line):
        V = lambda key: self.val(i[key], env)
        if op == 'BinOp': return self.binop(i['tok'], V('x'), V('y'), i, st, line)
        if op == 'UnOp':
            x = V('x'); tok = i['tok']
            if tok == '*': return self.load(st, x, i['type'], line)
            if tok == '!': return Not(x)
            if tok == '-': return wrap(-x, self.T(i['type'])['basic'])
            if tok == '^':
                lo, hi = rng(self.T(i['type'])['basic'])
                n = (hi - x) if lo == 0 else -1 - x
                if isz(x) and x.get_id() in self.p2tag: self.notp2[n.get_id()] = (n,) + self.p2tag[x.get_id()]
                return n
            raise Unsupported('unop ' + tok)
        if op == 'Alloc':
            et = self.T(i['type'])['elem']
            o = self.new_obj(st, et, self.zero(et))
            return Ptr(o)
        if op == 'Store':
            et = i['val']['type'] if 'type' in i['val'] else None
            a = V('addr')
            at_ = self.T(i['addr']['type'])['elem']
            self.store(st, a, at_, V('val'), line)
            return None
        if op == 'FieldAddr':
            x = V('x')
            if isinstance(x, Ptr):
                if x.obj.startswith('G:'): return Ptr(x.obj, x.path + (i['field'],))
                c = self.get_path(st.mem[x.obj], x.path)
                if isinstance(c, SliceV):    # (*SliceHeader)(unsafe.Pointer(&slice))
                    raise Unsupported('slice header view of a Go slice')
                return Ptr(x.obj, x.path + (i['field'],))
            if isinstance(x, int) and x == 0:
                self.oblige(st, 'SAFE', 'nil dereference', False, line); raise PathEnd()
            ti = self.T(i['x']['type'])['elem']
            off = self.fieldoff(ti, i['field'])
            return x + off if off else x
        if op == 'Field':
            return V('x').f[i['field']]
        if op == 'IndexAddr':
            x, idx = V('x'), V('index')
            t = self.T(i['x']['type'])
            if t['kind'] == 'slice':
                self.oblige(st, 'SAFE', 'index in range', And(Cmp('<=', 0, idx), Cmp('<', idx, x.len)), line)
                st.add(And(Cmp('<=', 0, idx), Cmp('<', idx, x.len)))
                if x.base is None: raise PathEnd()
                if isinstance(x.base, tuple):
                    es = self.sizeof(t['elem'])
                    return x.base[1] + Mul(idx, es) + Mul(x.off, es)
                if isz(idx) and not x.base.obj.startswith('G:'):
                    c = st.mem.get(x.base.obj)
                    if isinstance(c, SeqV) or isz(c) and c.sort() == INTARR: st.add(idx_(idx) == 0)
                return Ptr(x.base.obj, x.base.path + (('idx', self.add_(x.off, idx)),))
            n = self.T(t['elem'])['len']
            self.oblige(st, 'SAFE', 'index in range', And(Cmp('<=', 0, idx), Cmp('<', idx, n)), line)
            st.add(And(Cmp('<=', 0, idx), Cmp('<', idx, n)))
            if isinstance(x, Ptr): return Ptr(x.obj, x.path + (('idx', idx),))
            return x + Mul(idx, self.sizeof(self.T(t['elem'])['elem']))
        if op == 'Index':
            x, idx = V('x'), V('index')
            t = self.T(i['x']['type'])
            if t['kind'] == 'array':
                self.oblige(st, 'SAFE', 'index in range', And(Cmp('<=', 0, idx), Cmp('<', idx, t['len'])), line)
                st.add(And(Cmp('<=', 0, idx), Cmp('<', idx, t['len'])))
                return self.get_path(x, (('idx', idx),))
            raise Unsupported('index')
        if op == 'Slice': return self.slice(i, V('x'), env, st, line)
        if op == 'MakeSlice':
            ln, cp = V('len'), V('cap')
            et = self.T(i['type'])['elem']
            self.oblige(st, 'SAFE', 'make length in range', And(Cmp('<=', 0, ln), Cmp('<=', ln, cp), Cmp('<', cp, 1 << 62)), line)
            st.add(And(Cmp('<=', 0, ln), Cmp('<=', ln, cp)))
            if self.cur: self.cur.on_make(self, st, cp, self.T(et), line)
            tt = {'kind': 'array', 'elem': et, 'len': cp if isinstance(cp, int) else None, 'str': 'backing'}
            o = self.new_obj(st, tt, self.arrcontent(et))
            return SliceV(Ptr(o), 0, ln, cp)
        if op in ('ChangeType', 'ChangeInterface'): return V('x')
        if op == 'Convert': return self.convert(i, V('x'), st, line)
        if op == 'MakeInterface':
            t = self.T(i['type'])
            x = V('x')
            if t['str'] == 'error': return ErrV(False)
            return IfaceV(self.T(i['x']['type'])['str'], x)
        if op == 'MakeClosure':
            return Clo(i['fn']['name'], [self.val(b, env) for b in i['bindings']])
        if op == 'Extract':
            x = V('x')
            if isinstance(x, TupV): return x.v[i['index']]
            return x[i['index']]
        if op == 'TypeAssert': return self.typeassert(i, V('x'), st, line)
        if op == 'Lookup' : raise Unsupported('lookup')
        if op == 'RunDefers': return None
        raise Unsupported('instruction ' + op)

    def add_(self, a, b):
        if isinstance(a, int) and a == 0: return b
        if isinstance(b, int) and b == 0: return a
        return a + b

    def slice(self, i, x, env, st, line):
        g = lambda k: None if i.get(k) is None else self.val(i[k], env)
        lo, hi, mx = g('low'), g('high'), g('max')
        t = self.T(i['x']['type'])
        if t['kind'] == 'pointer':   # array pointer
            n = self.T(t['elem'])['len']
            if not isinstance(x, Ptr): 
                base = ('user', x)
            else: base = x
            ln, cp, off = n, n, 0
        elif t['kind'] == 'slice':
            base, ln, cp, off = x.base, x.len, x.cap, x.off
        elif t['kind'] == 'basic':
            return self.strslice(x, lo, hi, st, line)
        else: raise Unsupported('slice of ' + t['str'])
        lo = 0 if lo is None else lo
        hi = ln if hi is None else hi
        mx = cp if mx is None else mx
        ok = And(Cmp('<=', 0, lo), Cmp('<=', lo, hi), Cmp('<=', hi, mx), Cmp('<=', mx, cp))
        self.oblige(st, 'SAFE', 'slice bounds in range', ok, line)
        st.add(ok)
        if base is None: return SliceV(None, 0, 0, 0)
        if isinstance(base, tuple):
            es = self.sizeof(t['elem'] if t['kind'] == 'slice' else self.T(t['elem'])['elem'])
            if es != 1: raise Unsupported('slice of user memory')
        sub = lambda a, b: a if isinstance(b, int) and b == 0 else a - b
        return SliceV(base, self.add_(off, lo), sub(hi, lo), sub(mx, lo))

    def strslice(self, x, lo, hi, st, line):
        if isinstance(x.s, str): raise Unsupported('slicing of a constant string')
        lo = 0 if lo is None else lo
        n = self.strlen(st, x); hi = n if hi is None else hi
        self.oblige(st, 'SAFE', 'string slice within bounds', And(Cmp('<=', 0, lo), Cmp('<=', lo, hi), Cmp('<=', hi, n)), line)
        st.add(And(Cmp('<=', 0, lo), Cmp('<=', lo, hi), Cmp('<=', hi, n)))
        if isinstance(lo, int) and lo == 0 and isz(hi) and hi.eq(n): return x
        return TxtV(F('substr', Txt, I, I, Txt)(x.s, I_(lo), I_(hi)))

    def typeassert(self, i, x, st, line):
        t = self.T(i['assert'])
        h = self.assert_handler(st, x, t, i, line)
        if h is not None: return h
        if isinstance(x, IfaceV):
            if t['kind'] == 'interface':
                ms = self.p.methods.get(x.typ, {})
                ok = all(m in ms for m in t.get('methods') or [])
                v = x
            else:
                ok = x.typ == t['str']; v = x.val
        elif x is NIL:
            ok = False; v = NIL
        else:
            raise Unsupported('type assertion on %r to %s' % (x, t['str']))
        if i['commaok']:
            return TupV([v if ok else (NIL if t['kind'] == 'interface' else self.zero(i['assert'])), ok])
        if not ok:
            self.oblige(st, 'SAFE', 'type assertion', False, line); raise PathEnd()
        return v
    def assert_handler(self, st, x, t, i, line):
        return None

    def convert(self, i, x, st, line):
        s, d = self.T(i['x']['type']), self.T(i['type'])
        if d['kind'] == 'basic' and d['basic'] in BASIC and s['kind'] == 'basic' and s['basic'] in BASIC:
            (sl, shi), (dl, dh) = rng(s['basic']), rng(d['basic'])
            if isinstance(x, int): return wrap(x, d['basic'])
            if dl <= sl and shi <= dh: return x
            if BASIC[s['basic']][1] <= BASIC[d['basic']][1]:
                # same or larger width, sign change
                M = dh - dl + 1
                if self.check(st.pc, z3.Not(z3.And(x >= dl, x <= dh)), 400) == z3.unsat: return x
                r = fresh('w')
                st.add(r == (z3.If(x < 0, x + M, x) if dl == 0 else z3.If(x > dh, x - M, x)), r >= dl, r <= dh)
                return r
            return self.ranged(st, x, d['basic'], wrapmod)
        ptrish = lambda t: t['kind'] == 'pointer' or (t['kind'] == 'basic' and t['basic'] in ('unsafe.Pointer', 'Pointer', 'uintptr'))
        if ptrish(s) and ptrish(d): return x
        if s['kind'] == 'basic' and s['basic'] == 'string': return AbsFn('bytes-of-string', x)
        if d['kind'] == 'basic' and d['basic'] == 'string': return TxtV(fresh('str', Txt))
        raise Unsupported('conversion %s -> %s' % (s['str'], d['str']))

    # ------------------------------------------------------------ arithmetic
    def binop(self, tok, x, y, i, st, line):
        xt = self.T(i['x']['type']); rt = self.T(i['type'])
        if tok in ('==', '!='):
            r = self.equal(x, y, st, xt)
            return r if tok == '==' else Not(r)
        if tok in ('<', '<=', '>', '>='):
            if isinstance(x, TxtV): raise Unsupported('string order')
            return Cmp(tok, x, y)
        if isinstance(x, TxtV): return TxtV(self.txt_cat(x, y))
        b = rt['basic']
        if b == 'bool': raise Unsupported('bool op')
        if b in ('unsafe.Pointer', 'Pointer'): b = 'uintptr'
        if isinstance(x, Ptr) or isinstance(y, Ptr): raise Unsupported('arithmetic on the address of a Go object')
        lo, hi = rng(b); w = BASIC[b][1]
        con = isinstance(x, int) and isinstance(y, int)
        if tok == '+': return self.ranged(st, x + y, b, wrap)
        if tok == '-':
            r = self.ranged(st, x - y, b, wrap)
            if isz(x) and x.get_id() in self.p2tag and isinstance(y, int) and y == 1 and isz(r) and w == 64:
                self.masktag[r.get_id()] = (r, self.p2tag[x.get_id()][1])
            return r
        if tok == '*':
            return self.ranged(st, Mul(x, y), b, wrapmod)
        if tok in ('/', '%'):
            if not isinstance(y, int):
                self.oblige(st, 'SAFE', 'division by zero', y != 0, line)
                st.add(y != 0)
            elif y == 0:
                self.oblige(st, 'SAFE', 'division by zero', False, line); raise PathEnd()
            if lo < 0:
                # signed: only used on non-negative operands here
                st2 = And(Cmp('>=', x, 0), Cmp('>', y, 0))
                if st2 is not True and not self.valid(st, st2): raise Unsupported('signed division')
            return Div(x, y) if tok == '/' else Mod(x, y)
        if tok == '<<':
            if isinstance(y, int):
                if isinstance(x, int): return wrap(x << y, b)
                if y >= w: return 0
                return self.ranged(st, x * (1 << y), b, wrapmod)
            if isinstance(x, int) and x == 1 and lo == 0:
                if w == 64:
                    v = z3.If(y < 64, pow2(y), z3.IntVal(0))
                    self.p2tag[v.get_id()] = (v, y)
                    return v
                v = self.shl_table(1, y, w)
                self.p2tag[v.get_id()] = (v, y)
                return v
            if isinstance(x, int) and w <= 8: return self.shl_table(x, y, w)
            if w == 64 and isinstance(x, int) and x == 1: pass
            return wrapmod(Mul(x, z3.If(y < w, pow2(y), z3.IntVal(0))), b)
        if tok == '>>':
            if lo < 0 and not self.valid(st, Cmp('>=', x, 0)): raise Unsupported('signed shift')
            if isinstance(y, int):
                if isinstance(x, int): return x >> y
                return Div(x, 1 << y) if y < w else 0
            if w <= 8: return self.shr_table(x, y, w)
            if isinstance(y, int) is False: return z3.If(y < w, sh(I_(x), y), z3.IntVal(0))
        if tok in ('&', '|', '^', '&^'): return self.bitop(tok, x, y, b, st, line)
        raise Unsupported('binop ' + tok)
    p2tag = {}; masktag = {}; notp2 = {}

    def ranged(self, st, t, b, wr):
        """machine result of an exact result t"""
        if isinstance(t, int): return wrap(t, b)
        if z3.is_int_value(t): return wrap(t.as_long(), b)
        lo, hi = rng(b)
        if self.check(st.pc, z3.Not(z3.And(t >= lo, t <= hi)), 400) == z3.unsat: return t
        r = fresh('w')
        st.add(r == wr(t, b), r >= lo, r <= hi)
        return r

    def shl_table(self, x, y, w):
        r = z3.IntVal(0)
        for q in reversed(range(w)):
            r = z3.If(y == q, z3.IntVal((x << q) & ((1 << w) - 1)), r)
        return r
    def shr_table(self, x, y, w):
        r = z3.IntVal(0)
        for q in reversed(range(w)):
            r = z3.If(y == q, I_(x) / (1 << q), r)
        return r

    def bitop(self, tok, x, y, b, st, line):
        lo, hi = rng(b); w = BASIC[b][1]
        if isinstance(x, int) and isinstance(y, int):
            r = {'&': x & y, '|': x | y, '^': x ^ y, '&^': x & ~y}[tok]
            return wrap(r, b)
        if lo < 0:
            pos = And(Cmp('>=', x, 0), Cmp('>=', y, 0))
            if pos is not True and not self.valid(st, pos): raise Unsupported('signed bit operation')
        if tok == '&^' and isz(y) and w > 8 and y.get_id() not in self.p2tag: return I_(x) - self.band(x, y, hi, st)
        if tok == '&^':
            n = hi - y
            if isz(y) and y.get_id() in self.p2tag: self.notp2[n.get_id()] = (n,) + self.p2tag[y.get_id()]
            return self.bitop('&', x, n, b, st, line)
        if isinstance(x, int): x, y = y, x
        if tok == '&' and isinstance(y, int):
            if y == 0: return 0
            if y == hi: return x
            # contiguous mask
            low = (y & -y).bit_length() - 1
            top = y >> low
            if top & (top + 1) == 0:
                n = top.bit_length()
                if low + n >= w: r = Div(x, 1 << low)
                else: r = Mod(Div(x, 1 << low), 1 << n)
                return r * (1 << low) if low else r
        if tok == '&' and not isinstance(y, int):
            for a, c in ((x, y), (y, x)):
                if c.get_id() in self.p2tag and w == 64:
                    j = self.p2tag[c.get_id()][1]
                    return z3.If(z3.And(j < 64, sh(a, j) % 2 == 1), pow2(j), z3.IntVal(0))
                if c.get_id() in self.masktag and w == 64:
                    # the low bits: all ones exactly if adding one carries into the higher bits
                    m, j = self.masktag[c.get_id()]
                    r = fresh('low')
                    st.add(r >= 0, r <= I_(a), r <= m, z3.Implies(z3.And(j >= 0, j < 64), (r == m) == (sh(a + 1, j) == sh(a, j) + 1)))
                    return r
        if tok == '&' and w == 8:
            for a, c in ((x, y), (y, x)):
                if not isz(c): continue
                bit = lambda a, j: (self.shr_table(a, j, 8)) % 2 == 1
                if c.get_id() in self.p2tag:
                    j = self.p2tag[c.get_id()][1]
                    return z3.If(z3.And(j < 8, bit(a, j)), c, z3.IntVal(0))
                if c.get_id() in self.notp2:
                    _, p, j = self.notp2[c.get_id()]
                    return a - z3.If(z3.And(j < 8, bit(a, j)), p, z3.IntVal(0))
        if tok in ('|', '^') and isinstance(y, int) and y == 0: return x
        if tok == '^' and isinstance(y, int) and lo == 0 and y & (y - 1) == 0:
            return x + (1 - 2 * Mod(Div(x, y), 2)) * y     # one bit flipped
        if tok == '|':
            # disjoint when one is a multiple of 2^q and the other is below 2^q
            for a, c in ((x, y), (y, x)):
                for q in (3, 8, 16, 4, 1, 2):
                    d = And(Cmp('<', c, 1 << q), Eq(Mod(a, 1 << q), 0))
                    if d is not False and self.valid(st, d, 300): return a + c
        if w <= 8:
            bx, by = z3.Int2BV(I_(x), 8), z3.Int2BV(I_(y), 8)
            r = {'&': bx & by, '|': bx | by, '^': bx ^ by}[tok]
            # bit by bit, to stay in linear arithmetic
            t = z3.IntVal(0)
            for q in range(8):
                xq = (I_(x) / (1 << q)) % 2 if not isinstance(x, int) else z3.IntVal((x >> q) & 1)
                yq = (I_(y) / (1 << q)) % 2 if not isinstance(y, int) else z3.IntVal((y >> q) & 1)
                c = {'&': z3.And(xq == 1, yq == 1), '|': z3.Or(xq == 1, yq == 1), '^': xq != yq}[tok]
                t = t + z3.If(c, z3.IntVal(1 << q), z3.IntVal(0))
            return t
        r = self.bitop_special(tok, x, y, b, st, line)
        if r is not None: return r
        a = self.band(x, y, hi, st)
        if tok == '^' and lo == 0:
            q = I_(x) + I_(y) - 2 * a
            st.add((q == 0) == (I_(x) == I_(y)), (q == 1) == (I_(x) == I_(y) + 1 - 2 * (I_(y) % 2)))
        return {'&': a, '|': I_(x) + I_(y) - a, '^': I_(x) + I_(y) - 2 * a}[tok]
    def band(self, x, y, hi, st):
        """x & y, known by its bounds only; x | y = x + y - (x & y) and x ^ y = (x | y) - (x & y)"""
        x, y = I_(x), I_(y)
        if x.get_id() > y.get_id(): x, y = y, x
        a = BAND(x, y)
        st.add(a >= 0, a <= x, a <= y, x + y - a <= hi, z3.Implies(x == y, a == x), z3.Implies(x == hi, a == y), z3.Implies(y == hi, a == x))
        return a
    def bitop_special(self, tok, x, y, b, st, line): return None

    def equal(self, x, y, st, t):
        if x is JUNK or y is JUNK: raise Unsupported('value of an earlier iteration')
        if isinstance(x, ErrV) and isinstance(y, ErrV):
            if y.isnil is True: return x.isnil
            if x.isnil is True: return y.isnil
            raise Unsupported('comparison of errors')
        if isinstance(x, NilV) or isinstance(y, NilV):
            o = y if isinstance(x, NilV) else x
            return isinstance(o, NilV)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr): return x.obj == y.obj and x.path == y.path
            return False
        if isinstance(x, SliceV) or isinstance(y, SliceV):
            o = x if isinstance(x, SliceV) and not (x.base is None) else y
            if o.base is None: return True
            if isinstance(o.base, tuple): return Eq(o.base[1], 0)
            return False
        if isinstance(x, TxtV):
            if isinstance(x.s, str) and isinstance(y.s, str): return x.s == y.s
            return Eq(self.txt(x), self.txt(y))
        if isz(x) and x.sort() == BA or isz(y) and y.sort() == BA:
            n = t['len']
            return And(*[rb(x, z3.IntVal(q)) == rb(y, z3.IntVal(q)) for q in range(n)])
        if isinstance(x, StructV): return And(*[self.equal(a, b, st, t) for a, b in zip(x.f, y.f)])
        if isinstance(x, (int, bool)) or isz(x): return Eq(x, y)
        raise Unsupported('comparison of %r' % (x,))

    def txt_cat(self, x, y):
        if isinstance(x.s, str) and isinstance(y.s, str): return x.s + y.s
        return fresh('cat', Txt)

    # ------------------------------------------------------------ calls
    def do_call(self, f, i, st, env):
        c = i['call']; line = i.get('line')
        args = [self.val(a, env) for a in c['args']]
        if 'invoke' in c:
            return self.one(self.invoke(st, self.val(c['recv'], env), c['invoke'], args, i, line), i)
        fn = c['fn']
        if fn['k'] == 'builtin': return self.one(self.builtin(st, fn['name'], args, c, i, line), i)
        if fn['k'] == 'func': return self.one(self.call_function(st, fn['name'], args, line), i)
        v = self.val(fn, env)
        return self.one(self.call_value(st, v, args, line), i)

    def one(self, outs, i):
        """results of a call instruction: a single value or a tuple"""
        res = []
        tup = 'type' in i and self.T(i['type'])['kind'] == 'tuple'
        for st, vals in outs:
            if isinstance(vals, list):
                if tup: v = TupV(vals)
                else: v = vals[0] if vals else None
            else: v = vals
            res.append((st, v))
        return res

    def call_value(self, st, v, args, line):
        if isinstance(v, Clo): return self.call_function(st, v.fn, args, line, v.bind)
        if isinstance(v, AbsFn):
            h = self.absfn.get(v.tag)
            if h: return h(self, st, v.data, args, line)
        if v is NIL:
            self.oblige(st, 'SAFE', 'call of nil function', False, line); return []
        raise Unsupported('call of %r' % (v,))
    absfn = {}

    def invoke(self, st, recv, name, args, i, line):
        if isinstance(recv, IfaceV):
            ms = self.p.methods.get(recv.typ)
            if ms is None or name not in ms: raise Unsupported('method %s of %s' % (name, recv.typ))
            return self.call_function(st, ms[name], [recv.val] + args, line)
        if isinstance(recv, AbsI):
            h = self.invokes.get((recv.kind, name))
            if h is None: raise Unsupported('method %s of abstract %s' % (name, recv.kind))
            return h(self, st, recv, args, line)
        if recv is NIL or (isinstance(recv, ErrV)):
            raise Unsupported('method on nil interface')
        raise Unsupported('invoke on %r' % (recv,))
    invokes = {}

    def builtin(self, st, name, args, c, i, line):
        if name == 'len':
            x = args[0]
            if isinstance(x, SliceV): return [(st, x.len)]
            if isinstance(x, TxtV): return [(st, self.strlen(st, x))]
            raise Unsupported('len')
        if name == 'cap': return [(st, args[0].cap)]
        if name == 'copy':
            et = self.T(c['args'][0]['type'])['elem']
            n = self.go_copy(st, args[0], args[1], et, line)
            return [(st, n)]
        if name == 'append': return self.append(st, args, c, line)
        if name in ('min', 'max'):
            r = args[0]
            for a in args[1:]: r = Ite(Cmp('<=' if name == 'min' else '>=', r, a), r, a)
            return [(st, r)]
        if name in ('String', 'Slice', 'StringData', 'SliceData', 'Add'): raise Unsupported('unsafe builtin ' + name)
        raise Unsupported('builtin ' + name)

    def strlen(self, st, x):
        if isinstance(x.s, str): return len(x.s)
        n = F('strlen', Txt, I)(x.s); st.add(n >= 0, n < I63); return n

    def append(self, st, args, c, line):
        s, t = args
        et = self.T(c['args'][0]['type'])['elem']
        e = self.T(et)
        if isinstance(t, AbsFn): raise Unsupported('append string')
        n = t.len
        tot = self.add_(s.len, n)
        if e['kind'] == 'struct': return self.append_structs(st, s, t, et, tot, line)
        outs = []
        if s.base is None: fits = False
        else:
            cond = Cmp('<=', tot, s.cap)
            fits = cond if isinstance(cond, bool) else (True if self.valid(st, cond, 1000) else (False if self.valid(st, Not(cond), 1000) else cond))
        for case in (True, False):
            if fits is (not case): continue
            s2 = st if fits is case else st.copy()
            if fits is not case: s2.add(fits if case else Not(fits))
            if case:
                ob, path, off = s.base.obj, s.base.path, s.off
                base = s.base; cap = s.cap
            else:
                if isinstance(tot, int) and tot == 0:
                    outs.append((s2, s)); continue
                cap = fresh('cap'); s2.add(cap >= tot, cap < (1 << 62))
                content = self.arrcontent(et)
                if s.base is not None:
                    if not isinstance(s.base, Ptr): raise Unsupported('append to user memory')
                    old = self.get_path(s2.mem[s.base.obj], s.base.path)
                    if s.off == 0: content = old
                    else: content = self.shift(old, s.off)
                o = self.new_obj(s2, {'kind': 'array', 'elem': et, 'len': None, 'str': 'backing'}, content)
                base = Ptr(o); off = 0
            if not isinstance(base, Ptr): raise Unsupported('append to user memory')
            # write the new elements
            cur = self.get_path(s2.mem[base.obj], base.path)
            if base.obj in self.immutable: self.oblige(s2, 'FRAME', 'append into a read-only object', False, line)
            src = None
            if t.base is not None:
                if not isinstance(t.base, Ptr): raise Unsupported('append of user memory')
                src = self.get_path(s2.mem[t.base.obj], t.base.path) if not t.base.obj.startswith('G:') else self.load_global(s2, t.base, None, line)
            if isinstance(n, int) and n <= 4:
                for q in range(n):
                    v = self.get_path(src, (('idx', self.add_(t.off, q)),))
                    cur = self.set_path(s2, cur, (('idx', self.add_(self.add_(off, s.len), q)),), v)
            elif src is not None:
                start = self.add_(off, s.len)
                if isz(src) and z3.is_array(src):
                    x = z3.Int('x')
                    cur = z3.Lambda([x], z3.If(z3.And(x >= I_(start), x < I_(start) + n), z3.Select(src, x - I_(start) + I_(t.off)), z3.Select(cur, x)))
                    nn = fresh('app', cur.sort())
                    s2.add(z3.ForAll([x], z3.Select(nn, x) == z3.If(z3.And(x >= I_(start), x < I_(start) + n), z3.Select(src, x - I_(start) + I_(t.off)), z3.Select(self.get_path(s2.mem[base.obj], base.path), x)), patterns=[z3.Select(nn, x)]))
                    cur = nn
                else:
                    cur = self.append_seq(s2, cur, start, src, t.off, n)
            s2.mem[base.obj] = self.set_path(s2, s2.mem[base.obj], base.path, cur)
            outs.append((s2, SliceV(base, off, tot, cap)))
        return outs

    def append_structs(self, st, s, t, et, tot, line):
        """appending to a slice of structs: the result is a new sequence (whether the backing array is reused
        cannot be observed, as no longer slice over the same array exists)"""
        if isinstance(t.len, int) and t.len == 0: return [(st, s)]
        for c in st.mem.values():
            for path, leaf in self.leaves(c):
                pass
        if isinstance(s.base, Ptr):
            for c in st.mem.values():
                for v in self.slices_of(c):
                    if isinstance(v.base, Ptr) and v.base.obj == s.base.obj and not self.same(v.len, s.len):
                        raise Unsupported('append to a shared backing array')
        cur = self.arrcontent(et) if s.base is None else self.get_path(st.mem[s.base.obj], s.base.path)
        off = 0 if s.base is None else s.off
        if not (isinstance(off, int) and off == 0): raise Unsupported('append re-slicing')
        src = self.get_path(st.mem[t.base.obj], t.base.path) if t.base is not None else self.arrcontent(et)
        toff = t.off if t.base is not None else 0
        if isinstance(t.len, int) and t.len == 1:
            v = self.norm_val(st, src.get(toff)); old = cur; start = s.len
            def get(j):
                if isinstance(start, int) and isinstance(j, int): return v if j == start else old.get(j)
                if Eq(I_(j), I_(start)) is True: return v
                if isinstance(start, int) and start == 0: return v    # the only element
                return self.ite_val(Eq(j, start), v, old.get(j))
            c = SeqV(get, ('app1', old.key, str(start), id(v)))
        elif isinstance(s.len, int) and s.len == 0:
            c = SeqV(lambda j: src.get(self.add_(toff, j)), ('cat0', src.key, str(toff)))
        else:
            old = cur; start = s.len
            c = SeqV(lambda j: self.ite_val(Cmp('<', j, start), old.get(j), src.get(self.add_(toff, j - start))), ('cat', old.key, src.key, str(start)))
        o = self.new_obj(st, {'kind': 'array', 'elem': et, 'len': None, 'str': 'backing'}, c)
        cap = fresh('cap'); st.add(cap >= I_(tot), cap < (1 << 62))
        return [(st, SliceV(Ptr(o), 0, tot, cap))]

    def slices_of(self, v):
        if isinstance(v, StructV):
            for x in v.f: yield from self.slices_of(x)
        elif isinstance(v, SliceV): yield v

    def append_seq(self, st, cur, start, src, soff, n):
        def get(j, cur=cur):
            c = And(Cmp('>=', j, start), Cmp('<', j, start + n))
            return self.ite_val(c, src.get(j - start + soff), cur.get(j))
        return SeqV(get, ('app', cur.key, src.key, str(start)))

    def shift(self, old, off):
        raise Unsupported('append re-slicing')

    # ------------------------------------------------------------ loops
    def leaves(self, v, path=()):
        """(path, leaf) pairs of a value"""
        if isinstance(v, StructV):
            for n, x in enumerate(v.f): yield from self.leaves(x, path + (n,))
        elif isinstance(v, TupV):
            for n, x in enumerate(v.v): yield from self.leaves(x, path + (n,))
        elif isinstance(v, SliceV):
            yield path + ('off',), v.off
            yield path + ('len',), v.len
            yield path + ('cap',), v.cap
            yield path + ('base',), v.base if not isinstance(v.base, tuple) else v.base[1]
        elif isinstance(v, ErrV): yield path + ('nil',), v.isnil
        else: yield path, v

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b and type(a) == type(b)
        if isz(a) and isz(b): return a.eq(b)
        if isz(a) and isinstance(b, int) and z3.is_int_value(a): return a.as_long() == b
        if isz(b) and isinstance(a, int) and z3.is_int_value(b): return b.as_long() == a
        if type(a) is not type(b): return False
        if isinstance(a, StructV): return len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, TupV): return len(a.v) == len(b.v) and all(self.same(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, SliceV):
            return self.same(a.base, b.base) and self.same(a.off, b.off) and self.same(a.len, b.len) and self.same(a.cap, b.cap)
        if isinstance(a, tuple): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, list): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr): return a.obj == b.obj and self.same(a.path, b.path)
        if isinstance(a, ErrV): return self.same(a.isnil, b.isnil)
        if isinstance(a, TxtV): return self.same(a.s, b.s)
        if isinstance(a, str): return a == b
        if isinstance(a, AbsI): return a.kind == b.kind and self.same(a.t, b.t)
        if isinstance(a, IfaceV): return a.typ == b.typ and self.same(a.val, b.val)
        if isinstance(a, Clo): return a.fn == b.fn and self.same(a.bind, b.bind)
        if isinstance(a, AbsFn): return a.tag == b.tag and self.same(a.data, b.data)
        if isinstance(a, SeqV): return a.key == b.key
        return a is b

    def join_havoc(self, a, b, name, st, basic=None):
        """value that covers a and b: equal parts kept, others arbitrary"""
        if self.same(a, b): return a
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV([self.join_havoc(x, y, name, st) for x, y in zip(a.f, b.f)])
        if isinstance(a, TupV) and isinstance(b, TupV):
            return TupV([self.join_havoc(x, y, name, st) for x, y in zip(a.v, b.v)])
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            base = self.join_havoc_base(a.base, b.base, name, st)
            off = self.join_havoc(a.off, b.off, name + '_off', st)
            ln = self.join_havoc(a.len, b.len, name + '_len', st)
            cp = self.join_havoc(a.cap, b.cap, name + '_cap', st)
            for x in (off, ln, cp):
                if isz(x): st.add(x >= 0, x < I63)
            if isz(ln) or isz(cp): st.add(I_(ln) <= I_(cp))       # true of every Go slice
            return SliceV(base, off, ln, cp)
        if isinstance(a, ErrV) and isinstance(b, ErrV): return ErrV(fresh(name + '_nil', Bo))
        isint = lambda x: isinstance(x, int) and not isinstance(x, bool) or (isz(x) and x.sort() == I)
        if isint(a) and isint(b): return fresh(name)
        isb = lambda x: isinstance(x, bool) or (isz(x) and x.sort() == Bo)
        if isb(a) and isb(b): return fresh(name, Bo)
        if isz(a) and isz(b) and a.sort() == b.sort(): return fresh(name, a.sort())
        if isinstance(a, AbsI) and isinstance(b, AbsI) and a.kind == b.kind and isz(a.t) and a.t.sort() == b.t.sort():
            return AbsI(a.kind, fresh(name, a.t.sort()), a.x)
        if isinstance(a, TxtV) and isinstance(b, TxtV): return TxtV(fresh(name, Txt))
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.havoc_seq(a, b, name, st)
        if name.startswith('m_'): return JUNK
        raise Undecided('loop variable %s changes between %r and %r' % (name, a, b))

    def havoc_seq(self, a, b, name, st): raise Undecided('sequence changed in a loop')

    def seq_of(self, base, *sts):
        """element type and contents of the backing array of a slice, if it holds structs"""
        if not isinstance(base, Ptr) or base.path: return None
        for s in sts:
            c = s.mem.get(base.obj)
            if isinstance(c, SeqV):
                t = self.objtype[base.obj]
                return (t if isinstance(t, dict) else self.T(t))['elem']
        return None

    def sym_seq(self, eti, name):
        """arbitrary contents: every leaf is a function of the index"""
        n = next(self.nobj)
        def mk(ti, nm):
            t = self.T(ti); kd = t['kind']
            if kd == 'struct':
                fs = [mk(f['type'], nm + '_' + f['name']) for f in t['fields']]
                return lambda j: StructV([g(j) for g in fs])
            if kd == 'interface' and self.isssz(t):
                fn = F('%s!%d' % (nm, n), I, self.DescSort); return lambda j: AbsI('ssz', fn(I_(j)))
            if kd == 'func':
                fn = F('%s!%d' % (nm, n), I, I); return lambda j: AbsFn('ptrfn', fn(I_(j)))
            if kd == 'basic' and t['basic'] == 'bool':
                fn = F('%s!%d' % (nm, n), I, Bo); return lambda j: fn(I_(j))
            if kd == 'basic' and t['basic'] == 'string':
                fn = F('%s!%d' % (nm, n), I, Txt); return lambda j: TxtV(fn(I_(j)))
            if kd == 'basic' and t['basic'] in BASIC:
                fn = F('%s!%d' % (nm, n), I, I); return lambda j: fn(I_(j))
            raise Undecided('sequence of ' + t['str'])
        return SeqV(mk(eti, name), ('sym', n))
    DescSort = Desc
    def isssz(self, t): return t['str'].endswith('types.SSZ')

    def join_havoc_base(self, a, b, name, st):
        if self.same(a, b): return a
        if self.joinctx is not None and (a is None or isinstance(a, Ptr)) and (b is None or isinstance(b, Ptr)):
            st0, sb, hs, extra, live = self.joinctx
            if isinstance(a, Ptr) and a.obj in extra: return a
            eti = self.seq_of(b, sb, st0)
            if eti is None: eti = self.seq_of(a, st0)
            if eti is not None:
                o = 'o%d' % next(self.nobj)
                extra[o] = ({'kind': 'array', 'elem': eti, 'len': None, 'str': 'backing'}, self.sym_seq(eti, 'q_' + name))
                return Ptr(o)
            if a is None and not b.path and b.obj not in st0.mem and z3.is_array(sb.mem[b.obj]) if isinstance(b, Ptr) and isz(sb.mem.get(b.obj)) else False:
                # an array of numbers that was allocated in the loop and has no other name
                if sum(1 for x in live for s in self.slices_of(x) if isinstance(s.base, Ptr) and s.base.obj == b.obj) == 1:
                    o = 'o%d' % next(self.nobj)
                    extra[o] = (self.objtype[b.obj], fresh('m_q_' + name, sb.mem[b.obj].sort()))
                    return Ptr(o)
        if isinstance(a, tuple) and isinstance(b, tuple): return ('user', self.join_havoc(a[1], b[1], name, st))
        raise Undecided('slice %s changes its backing array in a loop' % name)

    def loop(self, f, h, prev, st, env):
        self.stats['loops'] += 1
        body = f['loops'][h]
        r = self.try_unroll(f, h, body, prev, st, env)
        if r is not None: return r
        return self.cut_loop(f, h, body, prev, st, env)

    def phis(self, f, h):
        return [i for i in f['blocks'][h]['instrs'] if i['op'] == 'Phi']

    def enter(self, f, h, prev, env):
        """environment with the phis of the header evaluated for the edge from prev"""
        k = f['blocks'][h]['preds'].index(prev)
        new = {i['name']: self.val(i['edges'][k], env) for i in self.phis(f, h)}
        e = dict(env); e.update(new)
        return e

    def try_unroll(self, f, h, body, prev, st, env):
        """complete unrolling: where every test of the loop's exit condition is decided by constants, and (for the contracts
        that ask for it: functions on the bits of a machine word) where the solver shows that the loop has been left
        after at most unrollmax iterations"""
        conc = self.concrete_bound(f, h, body, prev, env, st)
        if not conc and not getattr(self.cur, 'unroll', False): return None
        save = {k: copy.copy(o) for k, o in self.obls.items()}
        work = [(prev, st.copy(), env)]
        outs = []
        n = 0
        try:
            while work:
                pv, s, e = work.pop()
                n += 1
                if n > self.unrollmax:
                    if not conc: self.obls = save
                    return None
                e2 = self.enter(f, h, pv, e)
                res = self.walk(f, [(h, 'havoc', s, e2)], h, body)
                for o in res:
                    if o.kind == 'edge' and o.to == h: work.append((o.frm, o.st, o.env))
                    else: outs.append(o)
            return outs
        except Undecided:
            if not conc: self.obls = save
            return None

    def concrete_bound(self, f, h, body, prev, env, st):
        """does the header's exit test compare an induction variable against a constant, both concrete on entry?"""
        e = self.enter(f, h, prev, env)
        blk = f['blocks'][h]
        ins = blk['instrs']
        if ins[-1]['op'] != 'If':
            # test may be at the end of a rotated loop: look at exit blocks
            cands = [b for b in body if f['blocks'][b]['instrs'][-1]['op'] == 'If' and any(s not in body for s in f['blocks'][b]['succs'])]
        else: cands = [h]
        for b in cands:
            bb = f['blocks'][b]
            if bb['instrs'][-1]['op'] != 'If': continue
            c = bb['instrs'][-1]['cond']
            if c['k'] != 'reg': continue
            d = next((i for i in bb['instrs'] if i.get('name') == c['name']), None)
            if d is None or d['op'] != 'BinOp' or d['tok'] not in ('<', '<=', '>', '>=', '!='): continue
            def ev(o, depth=0):
                if o['k'] == 'const': return int(o['int']) if 'int' in o else None
                v = e.get(o.get('name')) if o['k'] in ('reg', 'param') else (e.get('free:' + o['name']) if o['k'] == 'free' else None)
                if v is not None: return v if isinstance(v, int) else None
                i = next((i for i in bb['instrs'] if i.get('name') == o.get('name')), None)
                if i is None or depth > 3: return None
                if i['op'] == 'Call' and i['call'].get('fn', {}).get('name') == 'len' :
                    a = i['call']['args'][0]
                    s = e.get(a.get('name'))
                    if isinstance(s, SliceV) and isinstance(s.len, int): return s.len
                    return None
                if i['op'] == 'BinOp':
                    a, b_ = ev(i['x'], depth + 1), ev(i['y'], depth + 1)
                    return 0 if a is not None and b_ is not None else None
                if i['op'] == 'Convert': return ev(i['x'], depth + 1)
                if i['op'] == 'UnOp' and i['tok'] == '*':
                    return None
                return None
            if ev(d['x']) is not None and ev(d['y']) is not None: return True
        return False

    def walk_loop(self, f, h, s, henv, body, eenv):
        """paths through the body of a loop, from its header.  Where a header variable is an error or a flag with a
        known value on entry (err == nil, ok == true), the invariant is about the iterations in which it has that value:
        a path which changes it is followed through the header again, with its exact state, until it leaves the loop."""
        outs = self.walk(f, [(h, 'havoc', s, henv)], h, body)
        if (f['name'], h) in self.nopivot: return outs
        piv = []
        for i in self.phis(f, h):
            a, b = eenv[i['name']], henv[i['name']]
            if isinstance(a, ErrV) and a.isnil is True and self.same(a, b) or isinstance(a, bool) and isinstance(b, bool) and a == b: piv.append((i, a))
        if not piv: return outs
        res = []
        for o in outs:
            if not (o.kind == 'edge' and o.to == h): res.append(o); continue
            kk = f['blocks'][h]['preds'].index(o.frm)
            st, env, dead = o.st, dict(o.env), False
            for i, a in piv:
                ed = i['edges'][kk]
                v = self.val(ed, env)
                c = v.isnil if isinstance(a, ErrV) and isinstance(v, ErrV) else v
                if isinstance(v, ErrV) != isinstance(a, ErrV): raise Undecided('value of %s' % i.get('comment'))
                want = True if isinstance(a, ErrV) else a
                if isz(c):
                    c = z3.simplify(c)
                    c = True if z3.is_true(c) else False if z3.is_false(c) else c
                if isinstance(c, bool):
                    if c == want: continue
                    odd, dead = (st, env), True
                else:
                    eq = c if want else z3.Not(c)
                    odd = None
                    if self.feasible(st, z3.Not(eq)):
                        s2 = st.copy(); s2.add(z3.Not(eq)); odd = (s2, dict(env))
                        if ed['k'] == 'reg': odd[1][ed['name']] = ErrV(False) if isinstance(a, ErrV) else not a
                    if self.feasible(st, eq):
                        st = st.copy(); st.add(eq)
                        if ed['k'] == 'reg': env[ed['name']] = a
                    else: dead = True
                if odd is not None:
                    again = self.walk(f, [(h, o.frm) + odd], h, body)
                    if any(x.kind == 'edge' and x.to == h for x in again):
                        self.nopivot.add((f['name'], h))
                        return self.walk(f, [(h, 'havoc', s, henv)], h, body)
                    res.extend(again)
                if dead: break
            if not dead: res.append(Outcome('edge', st, frm=o.frm, to=h, env=env))
        return res

    def cut_loop(self, f, h, body, prev, st0, env0):
        rec, self.record = self.record, 0
        try:
            hst, henv, k, kept, info = self.infer(f, h, body, prev, st0, env0)
        finally:
            self.record = rec
        s = hst.copy()
        s.add(*[c for _, c in kept])
        if getattr(self, 'debug_loops', False):
            print('LOOP', f['name'], h, 'kept', [n for n, _ in kept])
        res = self.walk_loop(f, h, s, henv, body, info.eenv)
        self.loopinfo.append((f['name'], h, len(kept)))
        return [o for o in res if not (o.kind == 'edge' and o.to == h)]
    loopinfo = []

    def infer(self, f, h, body, prev, st0, env0):
        """inductive invariants of a loop: what changes is made arbitrary (cover), then the largest inductive
        subset of the candidate facts that hold on entry is kept.  Candidates may be assumed while the cover is
        computed; the cover is checked again under the facts that were kept."""
        phis = self.phis(f, h)
        eenv = self.enter(f, h, prev, env0)      # entry values
        k = fresh('k')
        floor, self.havoc_floor = self.havoc_floor, int(k.decl().name().rsplit('!', 1)[1])
        cover_env = {i['name']: eenv[i['name']] for i in phis}
        cover_mem = dict(st0.mem); cover_g = dict(st0.g)
        self_extra = {}
        names = {i['name']: (i.get('comment') or i['name']) for i in phis}
        save_join = self.joinctx
        entry_cache = {}
        drops = self.dropcache.setdefault((f['name'], h), {})
        def build():
            hs = st0.copy()
            hs.add(k >= 0, idx_(k) == 0, idx_(k + 1) == 0)
            henv = dict(eenv)
            for i in phis: henv[i['name']] = cover_env[i['name']]
            for o in cover_mem: hs.mem[o] = cover_mem[o]
            for o, (t, c) in self_extra.items():
                hs.mem[o] = c; self.objtype[o] = t
            for g in st0.g: hs.g[g] = cover_g[g]
            self.type_facts(f, phis, henv, hs)
            hs.add(*self.havoc_facts)
            return hs, henv
        def extend(outs, hs):
            changed = False
            for o in outs:
                if not (o.kind == 'edge' and o.to == h): continue
                e2 = self.enter(f, h, o.frm, o.env)
                self.joinctx = (st0, o.st, hs, self_extra, [e2[i['name']] for i in phis] + list(o.st.mem.values()))
                for i in phis:
                    a, b = cover_env[i['name']], e2[i['name']]
                    if not self.covers(a, b, k):
                        n = self.join_havoc(eenv[i['name']] if not self.ishavoc(a) else a, b, 'l_' + names[i['name']], hs) if not isinstance(a, SliceV) else \
                            self.rehavoc(eenv[i['name']], a, b, 'l_' + names[i['name']], hs)
                        if not self.same(n, a): cover_env[i['name']] = n; changed = True
                for ob in st0.mem:
                    a, b = cover_mem[ob], o.st.mem[ob]
                    if not self.same(a, b):
                        n = self.rehavoc(st0.mem[ob], a, b, 'm_' + str(ob), hs)
                        if not self.same(n, a): cover_mem[ob] = n; changed = True
                for g in st0.g:
                    a, b = cover_g[g], o.st.g[g]
                    if not self.same(a, b):
                        n = self.rehavoc(st0.g[g], a, b, 'g_' + g, hs)
                        if not self.same(n, a): cover_g[g] = n; changed = True
            return changed
        def live_candidates():
            hs, henv = build()
            if st0.g.get('H') is not None and not self.same(st0.g['H'], hs.g['H']):
                for fr in self.loop_frames: hs.add(*fr(self, st0, hs))
            L = LoopCtx(self, f, h, st0, hs, eenv, henv, phis, k, body)
            live = []
            for name, fn in self.candidates(L):
                if ' == ' in name and drops.get(name, 0) > 1: continue
                try: g = fn(st0, eenv, z3.IntVal(0))
                except Unsupported: continue
                if g is None: continue
                if isz(g):
                    key = g.get_id()
                    if key not in entry_cache: entry_cache[key] = (g, self.valid(st0, g, 1000))
                    ok = entry_cache[key][1]
                else: ok = g is True
                if ok: live.append((name, fn))
                elif getattr(self, 'debug_loops', False) and getattr(self, 'debug_drop', None) and self.debug_drop in name:
                    print('  entry fails', name); self.show(st0, g)
            return hs, henv, L, live
        try:
            optimistic = False
            for attempt in range(6):
                try:
                    for rnd in range(10):
                        if optimistic:
                            hs, henv, L, live = live_candidates()
                            s = hs.copy()
                            for name, fn in live: s.add(B_(fn(hs, henv, k)))
                        else:
                            hs, henv = build(); s = hs.copy()
                        outs = self.walk_loop(f, h, s, henv, body, eenv)
                        if not extend(outs, hs): break
                    else: raise Undecided('loop state does not stabilise')
                except (Undecided, Unsupported):
                    if optimistic or (self.deadline and time.time() > self.deadline): raise
                    optimistic = True
                    cover_env = {i['name']: eenv[i['name']] for i in phis}
                    cover_mem = dict(st0.mem); cover_g = dict(st0.g); self_extra.clear()
                    continue
                hs, henv, L, live = live_candidates()
                # inductive filter
                while True:
                    s = hs.copy()
                    for name, fn in live: s.add(B_(fn(hs, henv, k)))
                    outs = self.walk_loop(f, h, s, henv, body, eenv)
                    drop = set()
                    edges = [(o, self.enter(f, h, o.frm, o.env)) for o in outs if o.kind == 'edge' and o.to == h]
                    # facts about integers first: the others are not judged until these are right
                    for quantified in (False, True):
                        if drop: break
                        unclear = set()
                        for o, e2 in edges:
                            for n, (name, fn) in enumerate(live):
                                if n in drop or n in unclear: continue
                                g = fn(o.st, e2, k + 1)
                                if (isz(g) and has_quantifier(g)) != quantified: continue
                                if not self.valid(o.st, g, self.cand_ms):
                                    (unclear if self.gave_up else drop).add(n)
                                    if getattr(self, 'debug_loops', False): print('  drop', name, self.gave_up)
                                    if getattr(self, 'debug_drop', None) and self.debug_drop in name: self.show(o.st, g)
                        # where the solver ran out of resources it may succeed once the wrong ones are gone
                        if not drop: drop = unclear
                    for n in drop: drops[live[n][0]] = drops.get(live[n][0], 0) + 1
                    if not drop: break
                    live = [c for n, c in enumerate(live) if n not in drop]
                if not extend(outs, hs): break
            else: raise Undecided('loop state does not stabilise')
            kept = [(name, B_(fn(hs, henv, k))) for name, fn in live]
            return hs, henv, k, kept, L
        finally:
            self.joinctx = save_join
            self.havoc_floor = floor
    joinctx = None
    havoc_floor = 0
    def show(self, st, g):
        import itertools
        self.shown = getattr(self, 'shown', 0) + 1
        s = z3.Solver(); s.add(*self.ax); s.add(*st.pc); s.add(z3.Not(B_(g)))
        open('/tmp/dbgd/drop.%s.%d.smt2' % ("".join(ch if ch.isalnum() else "_" for ch in self.debug_drop).replace(' ', '_'), self.shown), 'w').write(s.to_smt2())
    cand_ms = 1500
    havoc_facts = []
    loop_frames = []

    def ishavoc(self, v):
        if v is JUNK: return True
        if isinstance(v, TxtV): v = v.s
        if isinstance(v, ErrV): v = v.isnil
        if not (isz(v) and z3.is_const(v)): return False
        n = v.decl().name()
        # made arbitrary for this loop, not for an earlier or enclosing one
        if '!' not in n or not n.rsplit('!', 1)[1].isdigit() or int(n.rsplit('!', 1)[1]) < self.havoc_floor: return False
        return ('l_' in v.decl().name() or 'm_' in v.decl().name() or 'g_' in v.decl().name()) and '!' in v.decl().name()

    def covers(self, a, b, k):
        return self.same(a, b) or self.ishavoc(a)

    def seq_vars(self, L):
        """accessors of every slice whose contents were made arbitrary: name, get(st, env) -> slice, leaf paths"""
        out = []
        def slices(v, path=()):
            if isinstance(v, StructV):
                for n, x in enumerate(v.f): yield from slices(x, path + (n,))
            elif isinstance(v, SliceV): yield path, v
        def at_path(v, path):
            for e in path: v = v.f[e]
            return v
        def sym(v): return isinstance(v.base, Ptr) and isinstance(L.hs.mem.get(v.base.obj), SeqV) and L.hs.mem[v.base.obj].key[0] == 'sym'
        phis = {i['name'] for i in L.phis}
        for nm, v in L.henv.items():
            if nm not in phis and isinstance(v, SliceV) and sym(v): out.append((nm, lambda st, env, v=v: v, v))
        for i in L.phis:
            for path, v in slices(L.henv[i['name']]):
                if sym(v): out.append((i.get('comment') or i['name'], lambda st, env, nm=i['name'], path=path: at_path(env[nm], path), v))
        for o, c in L.hs.mem.items():
            for path, v in slices(c):
                if sym(v): out.append(('%s%s' % (o, path), lambda st, env, o=o, path=path: at_path(st.mem[o], path), v))
        return out

    def seq_get(self, st, s, j):
        """element j of a slice of structs"""
        if s.base is None: return None
        return self.get_path(st.mem[s.base.obj], s.base.path + (('idx', self.add_(s.off, j)),))

    def rehavoc(self, entry, cover, back, name, st):
        """make the parts of cover that differ from back arbitrary"""
        if self.same(cover, back) or self.ishavoc(cover): return cover
        if isinstance(cover, SeqV) and isinstance(back, SeqV) and name.startswith('m_'):
            if cover.key[0] == 'sym' and not self.same(cover, entry): return cover
            t = self.objtype.get(name[2:])
            if t is None: raise Undecided('sequence changed in a loop')
            return self.sym_seq((t if isinstance(t, dict) else self.T(t))['elem'], name)
        if isinstance(cover, StructV) and isinstance(back, StructV):
            return StructV([self.rehavoc(e, c, b, name, st) for e, c, b in zip(entry.f, cover.f, back.f)])
        if isinstance(cover, SliceV) and isinstance(back, SliceV):
            n = SliceV(self.join_havoc_base(cover.base, back.base, name, st),
                          self.rehavoc(entry.off, cover.off, back.off, name + '_off', st),
                          self.rehavoc(entry.len, cover.len, back.len, name + '_len', st),
                          self.rehavoc(entry.cap, cover.cap, back.cap, name + '_cap', st))
            if isz(n.len) or isz(n.cap): st.add(I_(n.len) >= 0, I_(n.len) <= I_(n.cap))       # true of every Go slice
            return n
        if isinstance(cover, ErrV): return ErrV(fresh('m_err', Bo)) if not self.ishavoc(cover.isnil) else cover
        return self.join_havoc(cover, back, name, st)

    def type_facts(self, f, phis, env, st):
        for i in phis:
            t = self.T(i['type']); v = env[i['name']]
            if isz(v) and v.sort() == I and t['kind'] == 'basic':
                lo, hi = rng(t['basic']) if t['basic'] in BASIC else (0, U64 - 1)
                st.add(v >= lo, v <= hi)
            if isinstance(v, SliceV):
                for x in (v.off, v.len, v.cap):
                    if isz(x): st.add(x >= 0, x < I63)
                if isz(v.len) or isz(v.cap): st.add(Cmp('<=', v.len, v.cap))
        for o, c in st.mem.items():
            ti = self.objtype.get(o)
            if ti is None: continue
            self.mem_facts(c, ti if isinstance(ti, int) else None, st)

    def mem_facts(self, c, ti, st):
        if ti is None: return
        t = self.T(ti)
        if isz(c) and c.sort() == I and t['kind'] == 'basic':
            lo, hi = rng(t['basic']) if t['basic'] in BASIC else (0, U64 - 1)
            if self.ishavoc(c): st.add(c >= lo, c <= hi)
        elif isinstance(c, StructV) and t['kind'] == 'struct':
            for x, fl in zip(c.f, t['fields']): self.mem_facts(x, fl['type'], st)
        elif isinstance(c, SliceV):
            for x in (c.off, c.len, c.cap):
                if isz(x) and self.ishavoc(x): st.add(x >= 0, x < I63)

    def int_vars(self, L):
        """accessors of every havocked integer: name, get(st, env)"""
        out = []
        for i in L.phis:
            v = L.henv[i['name']]
            for path, leaf in self.leaves(v):
                if isz(leaf) and leaf.sort() == I and self.ishavoc(leaf):
                    def get(st, env, nm=i['name'], path=path):
                        return self.leaf_at(env[nm], path)
                    out.append(((i.get('comment') or i['name']) + (str(path) if path else ''), get, leaf))
        for o, c in L.hs.mem.items():
            for path, leaf in self.leaves(c):
                if isz(leaf) and leaf.sort() == I and self.ishavoc(leaf) and not self.unchanged(L.st0.mem.get(o), path, leaf):
                    def get(st, env, o=o, path=path): return self.leaf_at(st.mem[o], path)
                    out.append(('%s%s' % (o, path), get, leaf))
        for g, c in L.hs.g.items():
            if isz(c) and c.sort() == I and self.ishavoc(c) and not self.same(c, L.st0.g[g]):
                def get(st, env, g=g): return st.g[g]
                out.append((g, get, c))
        return out

    def unchanged(self, v, path, leaf):
        if v is None: return False
        return any(p == path and isz(x) and x.eq(leaf) for p, x in self.leaves(v))

    def leaf_at(self, v, path):
        for p, leaf in self.leaves(v):
            if p == path: return leaf
        raise Unsupported('shape of a loop variable changed')

    def candidates(self, L):
        c = []
        ivs = self.int_vars(L)
        pool = [('k', lambda k: k)]
        if self.cur: pool = pool + self.cur.pool(self, L)
        for name, get, leaf in ivs:
            e = get(L.st0, L.eenv)
            for tn, T in [('entry+k', lambda k, e=e: I_(e) + k), ('entry-k', lambda k, e=e: I_(e) - k), ('entry', lambda k, e=e: I_(e))] + pool + \
                         [('entry+' + n, lambda k, e=e, T=T: I_(e) + T(k)) for n, T in pool if n != 'k']:
                c.append(('%s == %s' % (name, tn), lambda st, env, k, get=get, T=T: Eq(get(st, env), T(k))))
        c.extend(self.compare_candidates(L))
        if self.cur: c.extend(self.cur.templates(self, L, ivs))
        return c

    def operand_eval(self, defs):
        """evaluation of the operands of a comparison at the head of the loop: header variables and what is computed from them"""
        def adr(a, st, env, depth):
            """the address an operand denotes"""
            pt = env.get(a.get('name')) if a['k'] in ('reg', 'param') and defs.get(a.get('name'), {}).get('op', 'Phi') == 'Phi' else (env.get('free:' + a['name']) if a['k'] == 'free' else None)
            if pt is not None: return pt
            i = defs.get(a.get('name'))
            if i is None or depth > 4: return None
            if i['op'] == 'FieldAddr':
                x = adr(i['x'], st, env, depth + 1)
                if isinstance(x, Ptr) and not x.obj.startswith('G:'): return Ptr(x.obj, x.path + (i['field'],))
                if isz(x): return x + self.fieldoff(self.T(i['x']['type'])['elem'], i['field'])
            if i['op'] == 'UnOp' and i['tok'] == '*':
                x = adr(i['x'], st, env, depth + 1)
                if isinstance(x, Ptr) and not x.obj.startswith('G:'): return self.get_path(st.mem[x.obj], x.path)
            return None
        def ev(o, st, env, depth=0):
            if o['k'] == 'const':
                if 'int' not in o: raise Unsupported('operand')
                return int(o['int'])
            if o['k'] == 'free': raise Unsupported('operand')
            i = defs.get(o.get('name'))
            if i is not None and i['op'] != 'Phi' and depth < 4:
                if i['op'] == 'Convert': return ev(i['x'], st, env, depth + 1)
                if i['op'] == 'Call' and i['call'].get('fn', {}).get('name') == 'len':
                    a = i['call']['args'][0]
                    s = env.get(a.get('name')) if a['k'] in ('reg', 'param') and defs.get(a.get('name'), {}).get('op', 'Phi') == 'Phi' else None
                    if s is None: s = adr(a, st, env, depth + 1)
                    if not isinstance(s, SliceV): raise Unsupported('operand')
                    return s.len
                if i['op'] == 'BinOp' and i['tok'] in ('+', '-'):
                    x, y = ev(i['x'], st, env, depth + 1), ev(i['y'], st, env, depth + 1)
                    return x + y if i['tok'] == '+' else x - y
                if i['op'] == 'UnOp' and i['tok'] == '*':
                    pt = adr(i['x'], st, env, depth + 1)
                    if isinstance(pt, Ptr) and not pt.obj.startswith('G:'): return self.get_path(st.mem[pt.obj], pt.path)
                    if isz(pt) and pt.sort() == I and self.T(i['type']).get('basic') in ('int', 'uint', 'uintptr', 'unsafe.Pointer', 'Pointer'): return Wd(st.g['H'], pt)
                raise Unsupported('operand')
            if o.get('name') in env: return env[o['name']]
            raise Unsupported('operand')
        return ev

    def compare_candidates(self, L):
        """for every comparison x < y made in the loop: x <= y and x >= y at the loop header"""
        out = []
        for b in sorted(L.body):
            ins = L.f['blocks'][b]['instrs']
            ev = self.operand_eval({i.get('name'): i for i in ins if i.get('name')})
            for d in ins:
                if d['op'] != 'BinOp' or d['tok'] not in ('<', '<=', '>', '>=', '!=', '=='): continue
                try:
                    x, y = ev(d['x'], L.hs, L.henv), ev(d['y'], L.hs, L.henv)
                except (Unsupported, KeyError): continue
                isint = lambda t: isinstance(t, int) and not isinstance(t, bool) or isz(t) and t.sort() == I
                if not (isint(x) and isint(y)) or isinstance(x, int) and isinstance(y, int): continue
                for tok in ('<=', '>='):
                    out.append(('%s %s %s' % (str(x)[:40], tok, str(y)[:40]), lambda st, env, k, d=d, ev=ev, tok=tok: Cmp(tok, ev(d['x'], st, env), ev(d['y'], st, env))))
                # counting to the bound inclusively: one past it on exit
                if d['tok'] in ('<=', '>='):
                    one = 1 if d['tok'] == '<=' else -1
                    out.append(('%s %s %s past' % (str(x)[:40], d['tok'], str(y)[:40]), lambda st, env, k, d=d, ev=ev, one=one: Cmp(d['tok'], ev(d['x'], st, env), ev(d['y'], st, env) + one)))
        return out

def has_quantifier(g, seen=None):
    if seen is None: seen = set()
    if g.get_id() in seen: return False
    seen.add(g.get_id())
    if z3.is_quantifier(g): return True
    return any(has_quantifier(x, seen) for x in g.children())

class LoopCtx:
    def __init__(self, v, f, h, st0, hs, eenv, henv, phis, k, body):
        self.v, self.f, self.h, self.st0, self.hs, self.eenv, self.henv, self.phis, self.k, self.body = v, f, h, st0, hs, eenv, henv, phis, k, body

BAND = z3.Function('bitand', z3.IntSort(), z3.IntSort(), z3.IntSort())
class PathEnd(Exception):
    pass
