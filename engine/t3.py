import z3, sys, time, traceback, re
from core import *; from spec import *; import exec as X, contract, externals, world, kinds, units
p = Prog(sys.argv[1] if sys.argv[1].endswith('.json') else '/tmp/ssa.json')
world.W = world.World(p)
reg = units.registry()
cons = units.callsite_contracts({k: reg[k] for k in ('bounds','bitfields','dec','enc','tags','merkle')})
grp = sys.argv[1].split(','); pat = sys.argv[2] if len(sys.argv)>2 else '.'
for g in grp:
  for c in reg[g]:
    if not re.search(pat, c.label or c.name): continue
    t=time.time()
    v = units.fresh_verifier(p, cons, None, 5000); v.debug=True; v.debug_loops='-l' in sys.argv
    for a in sys.argv:
        if a.startswith('-d'): v.debug_drop=a[2:]
    def fb(ax,pc,g,ms,v=v,cnt=[0]):
        cnt[0]+=1
        s=z3.Solver(); s.add(*ax); s.add(*pc); s.add(z3.Not(g)); open("/tmp/dbgd/fail.%s.%d.smt2"%(grp[0],cnt[0]),"w").write(s.to_smt2()); print("DUMP",cnt[0])
    if '-f' in sys.argv: v.fallback=fb
    if '-s' in sys.argv:
        old=v.check
        def chk(pc,neg,ms,quick=False,old=old,v=v,cnt=[0]):
            t=time.time(); r=old(pc,neg,ms,quick); t=time.time()-t
            if t>1:
                cnt[0]+=1; s=z3.Solver(); s.add(*v.ax); s.add(*pc); s.add(*([neg] if neg is not None else [])); open("/tmp/dbgd/slow.%s.%d.smt2"%(grp[0],cnt[0]),"w").write(s.to_smt2())
                import traceback as tb
                print('SLOW %d %.1f %s %s'%(cnt[0],t,r,[f.name for f in tb.extract_stack()[-6:-2]]))
            return r
        v.check=chk
    try: r='%d returns'%c.verify(v)
    except (Unsupported, Undecided) as e: r='ERR '+repr(e)
    except Exception: traceback.print_exc(); r='EXC'
    bad=[o for o in v.obls.values() if not o.ok]
    print(c.label or c.name, '|', r, len(v.obls), 'bad', len(bad), '%.2fs'%(time.time()-t), 'q', v.stats['queries'])
