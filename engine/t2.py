import sys, time, traceback
from core import *; from spec import *; import exec as X, contract, externals, c_bitfields, c_dec, world
p = Prog('/tmp/ssa.json')
world.W = world.World(p)
mods = dict(bf=c_bitfields.ALL, dec=c_dec.DEC, enc=c_dec.ENC)
insts = [c() for m in mods.values() for c in m]
cons = {c.name: c for c in insts if not getattr(c,'inline',False)}
sel = sys.argv[1]
only = sys.argv[2:]
for c in insts:
    if type(c) not in mods[sel]: continue
    if only and type(c).__name__ not in only: continue
    t=time.time()
    v = X.Verifier(p, cons, None, 5000, abs_axioms())
    world.setup(v); v.debug=True; v.debug_loops='-l' in sys.argv or bool(only)
    try:
        n = c.verify(v); r='%d returns'%n
    except (Unsupported, Undecided) as e: r='ERR '+repr(e)
    except Exception: traceback.print_exc(); r='EXC'
    bad=[o for o in v.obls.values() if not o.ok]
    print(type(c).__name__, r, len(v.obls), 'bad', len(bad), '%.2fs'%(time.time()-t), 'q', v.stats['queries'])
