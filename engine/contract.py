"""Contracts: preconditions, effects and postconditions, used both to verify a function and at its call sites."""
from core import *
from spec import *
import exec as X
import z3

class Cl:
    """a clause of a postcondition: hypotheses => goals, tagged with a family"""
    def __init__(self, fam, name, goal, hyp=()):
        self.fam, self.name, self.goal, self.hyp = fam, name, goal if isinstance(goal, list) else [goal], list(hyp)

class Ctx:
    def __init__(self, v, c, old, args):
        self.v, self.c, self.old, self.args = v, c, old, args
        self.new = old
        self.res = None
        self.x = {}

class Contract:
    name = None          # full function name
    label = None
    inline_self = None
    frame_ghosts = ()    # ghosts that may change
    frame_objs = ()
    panics = False
    may_not_return = False
    def on_alloc(self, v, st, n, t, line): pass
    def __init__(self):
        self.inline_self = self.name
    # --- to be provided
    def setup(self, v, st): raise NotImplementedError     # -> [(st, args)]
    def pre(self, c): return []                            # [(fam, name, formula)]
    def havoc(self, c): pass                               # changes c.new, sets c.res
    def post(self, c): return []
    def pool(self, v, L): return []
    def templates(self, v, L, ivs): return []
    def may_panic(self, v, st): return False
    def on_make(self, v, st, n, et, line): pass
    def may_change(self, c): return set(), set()           # objects, ghosts
    # --- call site
    def apply(self, v, st, args, line):
        c = Ctx(v, self, st.copy(), args)
        for fam, name, g in self.pre(c):
            for h, gg in goals([g]):
                s2 = st
                if h: s2 = st.copy(); s2.add(*h)
                v.oblige(s2, fam, 'call %s: %s' % (self.short(), name), gg, line)
        for _, _, g in self.pre(c):
            c.old.add(*hyps([g]))
        c.new = c.old.copy()
        self.havoc(c)
        for cl in self.post(c):
            hs = hyps(cl.hyp); gs = hyps(cl.goal)
            for g in gs:
                c.new.add(Imp(And(*hs), g) if hs else g)
        return [(c.new, c.res)]
    def short(self):
        return (self.label or self.name).split('/')[-1]
    # --- verification of the body
    def verify(self, v):
        v.cur = self
        st = X.State()
        self.begin(v, st)
        f = v.p.funcs.get(self.name)
        if f is None or not f['blocks']:
            if getattr(self, 'optional', False):
                v.expect_obls = False
                return 0
            raise Undecided('function %s does not exist' % self.name)
        nret = 0
        entries = self.setup(v, st)
        if not entries: raise Undecided('no feasible entry state')
        for st1, args in entries:
            c = Ctx(v, self, st1, args)
            self.ctx = c
            for fam, name, g in self.pre(c): st1.add(*hyps([g]))
            if not v.feasible(st1, None, 3000): raise Undecided('contradictory precondition')
            v.depth = 0
            outs = v.run(f, st1.copy(), args)
            for s, vals in outs:
                nret += 1
                c2 = Ctx(v, self, st1, args); c2.new = s; c2.res = vals; c2.x = c.x
                self.finish(c2)
        if self.may_not_return:
            v.oblige(st, 'ENC', 'does not return', nret == 0)
            return nret
        if nret == 0: raise Undecided('no path reaches a return')
        return nret
    def begin(self, v, st): pass
    def finish(self, c):
        v = c.v
        objs, ghosts = self.may_change(c)
        for o in c.old.mem:
            if o in objs or o in c.new.tags.get('fresh', ()): continue
            if o not in c.new.mem or not v.same(c.old.mem[o], c.new.mem[o]):
                # only parts declared by may_change paths
                if not self.changed_ok(c, o): v.oblige(c.new, 'FRAME', 'object %s unchanged' % self.objname(c, o), False)
        v.oblige(c.new, 'FRAME', 'only what the contract lists is modified', True)
        for g in c.old.g:
            if g not in ghosts and not v.same(c.old.g[g], c.new.g[g]):
                v.oblige(c.new, 'FRAME', 'ghost %s unchanged' % g, Eq(c.old.g[g], c.new.g[g]) if isz(c.new.g[g]) or isz(c.old.g[g]) else False)
        for cl in self.post(c):
            if v.fams is not None and cl.fam not in v.fams: continue
            hs = hyps(cl.hyp)
            n = 0
            for it in cl.goal:
                for h, g in goals([it]):
                    s = c.new.copy(); s.add(*hs); s.add(*h)
                    v.oblige(s, cl.fam, cl.name + ('' if len(cl.goal) == 1 else '.%d' % n), g)
                n += 1
    def changed_ok(self, c, o): return False
    def objname(self, c, o):
        for n, a in enumerate(c.args):
            if isinstance(a, Ptr) and a.obj == o: return 'argument %d' % n
        return 'pre-existing'
