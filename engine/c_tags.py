"""Struct tags: which flags a tag sets, and the contract of tags.HasFlag."""
from core import *
from spec import *
from contract import *
from world import M, T_, rftag
import world
import exec as X
import z3

lookup = F('taglookup', Txt, Txt, Txt)       # reflect.StructTag.Lookup
lookupok = F('taglookupok', Txt, Txt, Bo)
ci = F('commaidx', Txt, I)                   # position of the first comma, -1 if there is none
sub = F('substr', Txt, I, I, Txt)
slen = F('strlen', Txt, I)
hasf = F('hasflag', Txt, Txt, Bo)            # some comma-separated entry is the flag

def txt(s): return z3.Const('txt:' + s, Txt)

def hastag(tag, ns, flag):
    return z3.And(lookupok(tag, ns), hasf(lookup(tag, ns), flag))

def axioms():
    t, f = z3.Const('t', Txt), z3.Const('f', Txt)
    return [
        z3.ForAll([t, f], hasf(t, f) == z3.And(t != txt(''), z3.If(ci(t) < 0, t == f,
                 z3.Or(sub(t, 0, ci(t)) == f, hasf(sub(t, ci(t) + 1, slen(t)), f)))), patterns=[z3.MultiPattern(hasf(t, f), ci(t))]),
        z3.ForAll([t], z3.And(ci(t) >= -1, ci(t) < slen(t)), patterns=[ci(t)]),
        z3.ForAll([t], z3.And(slen(t) >= 0, (slen(t) == 0) == (t == txt(''))), patterns=[slen(t)]),
        z3.ForAll([f], z3.Not(hasf(txt(''), f)), patterns=[hasf(txt(''), f)]),
        z3.Distinct(*[txt(s) for s in ('', 'ssz', 'omit', 'squash', ',')]),
        slen(txt('')) == 0, z3.And(*[slen(txt(s)) == len(s) for s in ('ssz', 'omit', 'squash')]),
    ]

def e_lookup(v, st, args, line):
    t, ns = v.txt(args[0]), v.txt(args[1])
    return [(st, [TxtV(lookup(t, ns)), lookupok(t, ns)])]
def e_get(v, st, args, line):
    t, ns = v.txt(args[0]), v.txt(args[1])
    return [(st, [TxtV(z3.If(lookupok(t, ns), lookup(t, ns), txt('')))])]
def e_index(v, st, args, line):
    if args[1].s != ',': raise Unsupported('strings.Index of another separator')
    t = v.txt(args[0])
    return [(st, [ci(t)])]
def e_indexbyte(v, st, args, line):
    if args[1] != 44: raise Unsupported('strings.IndexByte of another separator')
    return [(st, [ci(v.txt(args[0]))])]
part = F('splitpart', Txt, I, Txt)           # strings.Split(t, ",")
nparts = F('splitcount', Txt, I)
wpart = F('splitwit', Txt, Txt, I)
def e_split(v, st, args, line):
    if args[1].s != ',': raise Unsupported('strings.Split at another separator')
    t = v.txt(args[0])
    j = z3.Int('j'); f = z3.Const('f', Txt)
    st.add(nparts(t) >= 1, nparts(t) < 1 << 63,
           z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nparts(t), part(t, j) != txt('')), hasf(t, part(t, j))), patterns=[part(t, j)]),
           z3.ForAll([f], z3.Implies(z3.And(f != txt(''), hasf(t, f)), z3.And(0 <= wpart(t, f), wpart(t, f) < nparts(t), part(t, wpart(t, f)) == f)), patterns=[hasf(t, f)]))
    ti = v.p.tbystr['string']
    o = v.new_obj(st, {'kind': 'array', 'elem': ti, 'len': None, 'str': 'backing'}, SeqV(lambda k: TxtV(part(t, I_(k))), ('split', str(t))))
    v.immutable.add(o)
    v.splits = getattr(v, 'splits', []) + [t]
    return [(st, [SliceV(Ptr(o), 0, nparts(t), nparts(t))])]
EXTERNALS = {'strings.Split': e_split, '(reflect.StructTag).Lookup': e_lookup, '(reflect.StructTag).Get': e_get, 'strings.Index': e_index,
             'strings.IndexByte': e_indexbyte, 'strings.IndexRune': e_indexbyte}

class HasFlag(Contract):
    name = M + 'util/tags.HasFlag'
    def field(self, v, st):
        ti = v.p.tbystr['reflect.StructField']
        t = z3.Const('FT', RT); i = fresh('i')
        vals = []
        for f in v.T(ti)['fields']:
            n = f['name']
            if n == 'Type': vals.append(AbsI('rtype', world.rftype(t, i)))
            elif n in ('Name', 'Tag', 'PkgPath'): vals.append(TxtV(fresh(n, Txt)))
            elif n == 'Offset': vals.append(fresh('off'))
            elif n == 'Anonymous': vals.append(fresh('anon', Bo))
            else: vals.append(SliceV(None, 0, 0, 0))
        return v.new_obj(st, ti, StructV(vals))
    def tag(self, v, st, p):
        ti = v.p.tbystr['reflect.StructField']
        n = next(n for n, f in enumerate(v.T(ti)['fields']) if f['name'] == 'Tag')
        return v.txt(v.get_path(st.mem[p.obj], p.path + (n,)))
    def setup(self, v, st):
        return [(st, [Ptr(self.field(v, st)), TxtV(fresh('ns', Txt)), TxtV(fresh('flag', Txt))])]
    def havoc(self, c): c.res = [fresh('hasflag', Bo)]
    def post(self, c):
        v = c.v
        flag = v.txt(c.args[2])
        return [Cl('TAGS', 'true exactly if the tag lists the flag', Eq(c.res[0], And(flag != txt(''), hastag(self.tag(v, c.old, c.args[0]), v.txt(c.args[1]), flag))))]
    def templates(self, v, L, ivs):
        c = self.ctx
        flag = v.txt(c.args[2]); t0 = lookup(self.tag(v, c.old, c.args[0]), v.txt(c.args[1]))
        out = []
        for i in L.phis:
            x = L.henv[i['name']]
            if isinstance(x, TxtV):
                out.append(('the flag is in the rest of %s or nowhere' % i['name'], lambda st, env, k, nm=i['name']: hasf(t0, flag) == hasf(v.txt(env[nm]), flag)))
        j = z3.Int('j')
        for t in getattr(v, 'splits', []):
            out.append(('no part so far is the flag', lambda st, env, k, t=t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), part(t, j) != flag), patterns=[part(t, j)])))
        return out
