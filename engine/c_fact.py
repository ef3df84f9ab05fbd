"""Which types the factory refuses (property C15).  What the structures it returns do is specified by the contracts of
the methods of every kind, which run the factory for an arbitrary type of the kind."""
from kinds import *
import kinds, composite, container, child
from child import frefuse
from container import bad
from c_tags import txt

class AnyStruct(container.Container):
    """structs with and without variable-size fields, refused ones included"""
    def __init__(self):
        super().__init__(True)
        self.name = 'struct'
    def prep_struct(self, v, st):
        container.struct_defs(v, st)
        i = z3.Int('i'); n = container.rnf(TT)
        bx = fresh('bx')
        R = self.R = fresh('refused', Bo)
        st.add(z3.Implies(R, z3.And(0 <= bx, bx < n, idx(bx) == 0, bad(bx))), *mark(0, n),
               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, bad(i)), R), patterns=[idx(i)]))
    def trim(self, *a): pass
    def cons_pool(self, v, L): return [('C', container.C)]
    def cons_templates(self, v, L, ivs):
        return super().cons_templates(v, L, ivs) + [('no field so far is refused', lambda st, env, k: composite.FAi(0, k, lambda j: z3.Not(bad(j))))]

class Other(Kind):
    name = 'types of other Go kinds'
    rk = None
    def facts(self): return [z3.And(*[rkind(TT) != q for q in (1, 8, 9, 10, 11, 17, 22, 23, 25)])]

def refuse(k):
    if isinstance(k, AnyStruct): return k.R
    if isinstance(k, Other): return z3.BoolVal(True)
    nolist = z3.Not(rimpl(rptr(TT), LISTT))
    if isinstance(k, composite.ListK): return z3.Or(frefuse(EL), nolist)
    if isinstance(k, (composite.VectorK, composite.PtrK)): return frefuse(EL)
    if isinstance(k, Bitvector): return (rbitlen(TT) + 7) / 8 != rlen(TT)
    if isinstance(k, BytesN) or isinstance(k, BasicVector) and not isinstance(k, BasicList): return z3.BoolVal(False)
    if isinstance(k, (Bytes, BasicList)): return nolist
    return z3.BoolVal(False)

# the Go type that implements the structures of a kind
class Factory(KM):
    method = 'SSZFactory'
    def structures(self, v, st): raise NotImplementedError
    def verify(self, v):
        k = self.kind
        st = X.State()
        if k.rk is not None: st.add(rkind(TT) == k.rk)
        facts = k.facts()
        if isinstance(k, composite.ListK): facts = [f for f in facts if not f.eq(rimpl(rptr(TT), LISTT))]
        st.add(*hyps(facts))
        v.cur = k.cons() if hasattr(k, 'cons') else container.Cons(k)
        if hasattr(k, 'prep_struct'): k.prep_struct(v, st)
        f = v.p.funcs.get(T_ + 'SSZFactory')
        if f is None: raise Undecided('types.SSZFactory does not exist')
        R = refuse(k)
        outs = v.run(f, st.copy(), [AbsI('rtype', TT)])
        if not outs: raise Undecided('no path reaches a return')
        for s, (ssz, err) in outs:
            if not isinstance(err, ErrV): raise Unsupported('result of SSZFactory')
            ok = B_(err.isnil)
            a = s.copy(); a.add(ok)
            v.oblige(a, 'FACT', 'a type structure is returned only for supported types', z3.Not(R))
            if err.isnil is not False and v.feasible(a): v.oblige(a, 'FACT', 'success: a type structure is returned', isinstance(ssz, (IfaceV, AbsI)))
            b = s.copy(); b.add(z3.Not(ok))
            v.oblige(b, 'FACT', 'supported types are not refused', R)
            for o in st.mem:
                if o in s.mem and not v.same(st.mem[o], s.mem[o]): v.oblige(s, 'FRAME', 'the factory modifies nothing', False)
            v.oblige(s, 'FRAME', 'the factory modifies nothing', True)
        return len(outs)

def contracts(ks):
    ks = [k for k in ks if not isinstance(k, container.Container)]
    return {'factory': [Factory(k) for k in ks + [AnyStruct(), Other()]]}
