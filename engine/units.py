"""The units of verification (one contract of one function, or one lemma) and the properties they decide."""
from core import *
from spec import *
import exec as X
import contract, externals, world
import c_bitfields, c_dec, c_tags, c_merkle, kinds, child, container, c_htr, c_top, c_fact, c_laws, c_thm, c_bounds
import z3, time, traceback

class Unit:
    """a contract to be verified against the body of its function"""
    def __init__(self, uid, contract, fams=None, group=None):
        self.uid, self.c, self.fams, self.group = uid, contract, fams, group

def registry():
    """group -> [contract instance]"""
    g = {
        'bitfields': [c() for c in c_bitfields.ALL],
        'dec': [c() for c in c_dec.DEC],
        'enc': [c() for c in c_dec.ENC],
        'tags': [c_tags.HasFlag(), container.GetFields()],
        'merkle': [c_merkle.GetDepth(), c_merkle.Merkleize()],
        'mproof': [c_merkle.ConstructProof()],
        'hash': [c_merkle.HashFnCombi(), c_merkle.HashFnMixIn(), c_merkle.InitZeroHashes()],
        'treelemmas': c_merkle.lemmas(),
        'bounds': [c() for c in c_bounds.ALL],
    }
    g.update(kinds.contracts(kinds.all_kinds()))
    g.update(c_htr.contracts(kinds.all_kinds()))
    g.update(c_fact.contracts(kinds.all_kinds()))
    g.update(c_laws.contracts(kinds.all_kinds()))
    g['thm'] = c_thm.contracts()['thm']
    for t in g['thm']: g.setdefault('thm-' + t.prop, []).append(t)
    g['top'] = [c() for c in c_top.ALL]
    return g

# families of obligations: SIZE sizes, ENC bytes written, WFAIL writer failures, CONF confinement to the scope,
# SOUND accepted => serialization of the valid value, COMPL serialization of a valid value => accepted,
# SAFE no panic and memory safety, ALLOC allocation bounds, FUZZ fuzz mode, FRAME nothing else changes, PRE preconditions of callees
LAWS = [('laws', None), ('wit', None)]
BF, DEC, ENC = ('bitfields', None), ('dec', None), ('enc', None)
def fam(*fs): return frozenset(fs + ('PRE',))
DECODE = ('SOUND', 'COMPL', 'CONF')
PROPS = {
    'C01': [ENC, ('encode', fam('ENC')), ('sizeof', fam('SIZE')), ('top', fam('ENC', 'SIZE'))],
    'C02': [DEC, ENC, BF, ('encode', fam('ENC')), ('decode', fam(*DECODE)), ('top', fam('ENC', *DECODE))] + LAWS + [('thm-C02', None)],
    'C03': [DEC, ENC, BF, ('encode', fam('ENC')), ('decode', fam('SOUND', 'CONF')), ('top', fam('SOUND', 'CONF'))] + LAWS + [('thm-C03', None)],
    'C04': [DEC, BF, ('decode', fam(*DECODE)), ('drycheck', fam(*DECODE)), ('top', fam(*DECODE))] + LAWS + [('thm-C04', None)],
    'C05': [('info', fam('SIZE')), ('sizeof', fam('SIZE')), ('encode', fam('ENC')), ENC, ('top', fam('SIZE', 'ENC'))] + [('laws', None), ('thm-C05', None)],
    'C06': [('htr', fam('HTR', 'SAFE', 'FRAME')), ('merkle', fam('HTR', 'SAFE', 'FRAME')), ('hash', None), ('treelemmas', None), BF, ('top', fam('HTR'))],
    'C07': [('signing', fam('HTR', 'SAFE', 'FRAME')), ('merkle', fam('HTR', 'SAFE', 'FRAME')), ('treelemmas', None), ('top', fam('HTR'))] + [('thm-C07', None)],
    'C08': [('merkle', fam('HTR', 'SAFE', 'FRAME')), ('hash', None), ('treelemmas', None)],
    'C09': [('mproof', fam('PROOF', 'SAFE', 'FRAME')), ('merkle', fam('HTR', 'SAFE', 'FRAME')), ('treelemmas', None)],
    'C10': [DEC, ('decode', fam('CONF')), ('drycheck', fam('CONF')), ('fuzz', fam('CONF')), ('top', fam('CONF'))] + [('thm-C10', None)],
    'C11': [ENC, ('encode', fam('ENC', 'WFAIL')), ('top', fam('ENC', 'WFAIL'))] + [('thm-C11', None)],
    'C12': [DEC, BF, ('decode', fam('SAFE', 'ALLOC', 'FRAME')), ('drycheck', fam('SAFE', 'ALLOC', 'FRAME')), ('fuzz', fam('SAFE', 'ALLOC', 'FRAME')), ('top', fam('SAFE', 'FRAME'))] + LAWS,
    'C13': [DEC, BF, ('fuzz', fam('FUZZ', 'CONF', 'SAFE')), ('info', fam('SIZE')), ('top', fam('FUZZ', 'CONF', 'SAFE'))] + LAWS + [('thm-C13', None)],
    'C14': [BF],
    'C15': [('factory', None), ('tags', None), ('info', fam('SIZE')), ('top', fam('FACT'))],
    'C16': [('sizeof', fam('FRAME')), ('encode', fam('FRAME')), ('drycheck', fam('FRAME')), ('decode', fam('FRAME')), ('fuzz', fam('FRAME')), ('info', fam('FRAME')), ('htr', fam('FRAME')), ('signing', fam('FRAME')), ('factory', fam('FRAME')), ('top', fam('FRAME'))],
}

# the bounds of lengths are part of every type structure
for _p, _us in PROPS.items():
    if any(g in ('info', 'sizeof', 'encode', 'decode', 'drycheck', 'fuzz', 'htr', 'signing') for g, _ in _us): _us.insert(0, ('bounds', None))

def callsite_contracts(reg):
    """contracts used at call sites instead of the bodies"""
    out = {}
    for cs in reg.values():
        for c in cs:
            if not getattr(c, 'inline', False) and c.name: out[c.name] = c
    return out

def describe(c):
    return (c.label or c.name or type(c).__name__).replace('github.com/protolambda/zssz/', '')

LEMMAS = ('Lemma', 'Theorem', 'Determined', 'Injective', 'Acceptable', 'Valid', 'Bounds', 'Witness', 'Transfer')

def fresh_verifier(prog, cons, fams, timeout_ms):
    v = X.Verifier(prog, cons, fams, timeout_ms, abs_axioms() + c_tags.axioms() + container.cont_axioms())
    world.setup(v); child.setup(v); container.setup(v); c_merkle.setup(v); c_top.setup(v)
    v.externals.update(c_tags.EXTERNALS)
    return v

def run_unit(prog, reg, group, n, fams, timeout_ms, scale, budget):
    c = reg[group][n]
    v = fresh_verifier(prog, callsite_contracts(reg), fams, timeout_ms)
    v.scale = scale
    v.deadline = time.time() + budget
    t0 = time.time()
    res = {'group': group, 'name': describe(c), 'cls': type(c).__name__, 'error': None}
    try:
        nret = c.verify(v)
        res['returns'] = nret
    except (Unsupported, Undecided) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
    except z3.Z3Exception as e:
        res['error'] = 'z3: %s' % e
    except Exception as e:
        res['error'] = 'engine: %s' % ''.join(traceback.format_exception(e)[-3:])
    res['obls'] = [dict(fam=o.fam, name=o.name, ok=o.ok, time=round(o.time, 3), backend=o.backend, count=o.count, line=o.line, why=o.why) for o in v.obls.values()]
    if not res['obls'] and not res['error'] and getattr(c, 'expect_obls', True) and fams is None: res['error'] = 'no obligation was generated'
    res['wall'] = time.time() - t0
    res['stats'] = {k: (sorted(x) if isinstance(x, set) else x) for k, x in v.stats.items()}
    res['assumed'] = sorted(v.assumed)
    return res

TRUSTED = [
    'tools/ssadump (translation of /repo to SSA by golang.org/x/tools/go/ssa, dumped as JSON)',
    'engine/exec.py (verification-condition generator) and the axioms of core.py and spec.py',
    'z3 (python binding)',
    'models of functions outside the module: io.Reader, io.Writer, io.LimitReader, io.CopyN, io.ReadFull, math/bits, encoding/binary, reflect, fmt, errors, runtime.KeepAlive, strings',
    'the Go compiler and runtime, including type and memory safety of code without unsafe',
]
ASSUMPTIONS = [
    'termination is not proved',
    'the fixed and minimal sizes of types and the sizes of values are below 2^62 (limits, MaxLen and FuzzMaxLen are not bounded) and the address space is below 2^48',
    'the destination is a tree in memory: no two parts of it, spare slice capacity included, overlap',
    'readers deliver bytes in order, return 0 <= n <= len(p) and report an error only once nothing more can be delivered; writers return an error if n < len(p)',
    'the table of zero hashes is computed with the same hash function as the MerkleFn (merkle.InitZeroHashes(h.Combi))',
    'Go representation: word 1 of an interface value holding a pointer is that pointer; struct fields lie in order, disjoint, inside the struct; values of size zero have no state',
    'structs have fewer than 2^44 SSZ fields and contain no pointer cycles; Go types do not contain themselves',
    'a slice of struct fields that is allocated before it is filled is not read where it was not written yet (no such code now)',
    'an element type structure of unknown kind obeys the SSZ interface contract; every kind is verified to obey it (induction over the nesting of types)',
]
