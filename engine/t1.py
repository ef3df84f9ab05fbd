import sys, time
from core import *; from spec import *; import exec as X, contract, externals, c_bitfields
p = Prog(sys.argv[1])
insts = [c() for c in c_bitfields.ALL]
cons = {c.name: c for c in insts}
for c in insts:
    t=time.time()
    v = X.Verifier(p, cons, None, 5000, abs_axioms())
    v.externals = externals.EXT; v.debug=True; v.debug_loops=True
    try:
        n = c.verify(v); r='%d returns'%n
    except (Unsupported, Undecided) as e: r='ERR '+repr(e)
    bad=[o for o in v.obls.values() if not o.ok]
    print(c.fn, r, len(v.obls), 'bad', len(bad), '%.2fs'%(time.time()-t))
