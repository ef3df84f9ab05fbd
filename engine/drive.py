"""check <property>: decides one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, resource, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
NCPU = max(2, min(8, os.cpu_count() or 4))

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'ssadump')
    src = os.path.join(ROOT, 'tools', 'ssadump')
    if not os.path.exists(out) or any(os.path.getmtime(os.path.join(src, f)) > os.path.getmtime(out) for f in os.listdir(src)):
        r = sh(['go', 'build', '-o', out, '.'], src)
        if r.returncode: print(r.stdout); sys.exit(2)
    return out

def build_harness(dst, race=False):
    """the harness compiled against /repo's current source"""
    src = os.path.join(ROOT, 'harness')
    if REPO != '/repo':
        mod = os.path.join(os.path.dirname(dst), 'h.mod')
        open(mod, 'w').write(open(os.path.join(src, 'go.mod')).read().replace('/repo', REPO))
        extra = ['-modfile', mod]
    else: extra = []
    r = sh(['go', 'build'] + (['-race'] if race else []) + extra + ['-gcflags=all=-d=checkptr=0', '-o', dst, '.'], src)
    return r.returncode == 0, r.stdout

# ---------------------------------------------------------------- concrete search
def limits(mb):
    def f():
        os.setpgid(0, 0)
        if mb: resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

class Harness:
    def __init__(self, binary, prop, work, mem=10000):
        self.bin, self.prop, self.work, self.mem = binary, prop, work, mem
    def cmd(self, seed, frm, trials, budget, tag):
        return [self.bin, '-prop', self.prop, '-seed', str(seed), '-from', str(frm), '-trials', str(trials), '-budget', str(budget),
                '-cur', os.path.join(self.work, 'cur' + tag), '-out', os.path.join(self.work, 'out%s.json' % tag)]
    def one(self, seed, frm, trials, budget, tag, wait):
        p = subprocess.Popen(self.cmd(seed, frm, trials, budget, tag), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                             env=dict(ENV, GOMAXPROCS='2', GOTRACEBACK='single', GORACE='halt_on_error=1 exitcode=66'), preexec_fn=limits(self.mem))
        try:
            out, _ = p.communicate(timeout=wait); to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); to = True
        return p.returncode, out, to
    def cur(self, tag):
        try: return int(open(os.path.join(self.work, 'cur' + tag)).read().split()[0])
        except Exception: return None
    def search(self, seeds, budget, trials=1 << 40):
        """-> (trials done, failure or None)"""
        from concurrent.futures import ThreadPoolExecutor
        done = 0; fail = None
        with ThreadPoolExecutor(len(seeds)) as ex:
            futs = {s: ex.submit(self.one, s, 0, trials, budget, '-%d' % s, budget + 90) for s in seeds}
            for s, f in futs.items():
                rc, out, to = f.result()
                if rc == 0:
                    for ln in out.splitlines():
                        if ln.startswith('OK trials='): done += int(ln.split('=')[1].split()[0])
                    continue
                if fail: continue
                fail = self.confirm(s, rc, out, to)
        return done, fail
    def confirm(self, seed, rc, out, to):
        """a failure counts if it happens again from its own seed and trial"""
        tag = '-%d' % seed
        t = self.cur(tag)
        rp = os.path.join(self.work, 'out%s.json' % tag)
        det = None
        if os.path.exists(rp):
            try: det = json.load(open(rp)); t = det.get('trial', t)
            except Exception: pass
        if t is None: return None
        for frm, n in ((t, 1), (max(0, t - 50), 51), (0, t + 1)):
            rc2, out2, to2 = self.one(seed, frm, n, 200, '-c%d' % seed, 100 if n == 1 else 200)
            if rc2 != 0:
                kind = 'wrong result' if rc2 == 1 else ('does not return' if to2 else 'crash')
                return dict(kind=kind, seed=seed, frm=frm, trials=n, trial=t, exit=rc2, detail=det, output=out2[-6000:])
        return None

# ---------------------------------------------------------------- proofs
_P = {}
PROVE_CAP = 560          # seconds for all proofs of a check

def _child(conn, job):
    try:
        import units
        group, n, fams, tmo, scale, budget = job
        conn.send(units.run_unit(_P['prog'], _P['reg'], group, n, fams, tmo, scale, budget))
        conn.close()
    except BaseException as e:
        try: conn.send({'crash': repr(e)})
        except Exception: pass

def schedule(jobs, deadline):
    """runs every job in a process of its own; a process that dies is tried once more"""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(enumerate(jobs)); tries = {}
    running = {}
    res = {}
    def give_up(k, why):
        import units
        c = _P['reg'][jobs[k][0]][jobs[k][1]]
        res[k] = dict(group=jobs[k][0], name=units.describe(c), cls=type(c).__name__, error=why, obls=[], wall=0.0, stats={}, assumed=[])
    while todo or running:
        while todo and len(running) < NCPU:
            k, j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j)); p.start(); b.close()
            running[a] = (k, p)
        left = deadline - time.time()
        ready = wait(list(running), timeout=max(0.1, min(left, 5))) if left > 0 else []
        if left <= 0:
            for a, (k, p) in running.items(): p.kill(); p.join(); give_up(k, 'time budget exhausted')
            for k, j in todo: give_up(k, 'time budget exhausted')
            break
        for a in ready:
            k, p = running.pop(a)
            try: r = a.recv()
            except Exception: r = {'crash': 'the prover process died'}
            a.close(); p.join()
            if 'crash' in r:
                tries[k] = tries.get(k, 0) + 1
                if tries[k] < 3: todo.append((k, jobs[k]))
                else: give_up(k, r['crash'])
            else: res[k] = r
    return [res[k] for k in range(len(jobs))]

def weight(c):
    k = getattr(c, 'kind', None); n = getattr(k, 'name', '') or ''
    return getattr(c, 'weight', None) or {'struct with variable-size fields': 100, 'struct without variable-size fields': 20, 'list of variable-size elements': 10, 'vector of variable-size elements': 8}.get(n, 1)

def prove(prop, dump, tier, failing=False):
    """discharges the obligations of the property; failing: a failing input is known already, so less time is spent on what fails"""
    sys.path.insert(0, HERE)
    import core, units, world, z3
    _P['prog'] = core.Prog(dump)
    world.W = world.World(_P['prog'])
    _P['reg'] = units.registry()
    deadline = time.time() + (240 if failing else PROVE_CAP * (1 if tier == 'quick' else 4))
    jobs = []
    for group, fams in units.PROPS[prop]:
        for n, c in enumerate(_P['reg'][group]):
            jobs.append((group, n, fams, 8000, 1.0 if tier == 'quick' else 4.0, 400 if tier == 'quick' else 1600))
    jobs.sort(key=lambda j: -weight(_P['reg'][j[0]][j[1]]))
    res = schedule(jobs, deadline)
    isbad = lambda r: r['error'] or any(not o['ok'] for o in r['obls'])
    bad = [k for k, r in enumerate(res) if isbad(r)]
    # a second attempt with four times the solver resources
    if bad and not failing and len(bad) <= 40 and time.time() < deadline - 30:
        r2 = schedule([(g, n, f, t, s * 4, b) for g, n, f, t, s, b in (jobs[k] for k in bad)], deadline)
        for k, r in zip(bad, r2):
            if not (isbad(r) and r['error'] == 'time budget exhausted'): res[k] = r
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, work, t0):
    import units
    sys.path.insert(0, HERE)
    dumper = build_tools()
    dump = os.path.join(work, 'ssa.json')
    r = sh([dumper, REPO, dump])
    if r.returncode:
        print('the source of /repo cannot be loaded:\n' + r.stdout); return 2
    hb = os.path.join(work, 'harness')
    ok, out = build_harness(hb)
    h = Harness(hb, prop, work) if ok else None
    base = (seed - 1) * 1000 + 1
    budget = 8 if tier == 'quick' else 240
    if ok: trials, fail = h.search([base + i for i in range(NCPU)], budget)
    else:
        # the exported interface changed: the proofs decide alone
        print('note: the harness cannot be compiled against /repo, no concrete trials:\n' + out[-600:]); trials, fail = 0, None
    race = None
    if h and fail is None and prop == 'C16':
        rb = os.path.join(work, 'harness-race')
        ok, out = build_harness(rb, race=True)
        if ok:
            hr = Harness(rb, prop, work, mem=0)
            n, fail = hr.search([base + 100 + i for i in range(4)], budget)
            race = n
        else: print('note: no race-detector build: ' + out[-300:])
    replaydir = os.path.join(ROOT, 'replays'); os.makedirs(replaydir, exist_ok=True)
    res = prove(prop, dump, tier, fail is not None)
    bad = [r for r in res if r['error'] or any(not o['ok'] for o in r['obls'])]
    extra = 0
    if h and bad and fail is None:
        extra, fail = h.search([base + 500 + i for i in range(NCPU)], 60 if tier == 'quick' else 240)
    if bad:
        print('%s: obligations not discharged:' % prop)
        for r in bad:
            if r['error']: print('  %s: %s' % (r['name'], r['error'].splitlines()[-1][:300] if r['error'] else ''))
            for o in r['obls']:
                if not o['ok']: print('  %s: [%s] %s (line %s)' % (r['name'], o['fam'], o['name'], o['line']))
    elif fail:
        print('%s: note: every obligation is discharged; the failing input violates something the contracts assume or leave out' % prop)
    status = 0
    if fail or bad:
        status = 1
        rp = os.path.join(replaydir, '%s-%s.json' % (prop, 'input' if fail else 'obligation'))
        d = {'property': prop}
        if fail:
            d['kind'] = 'input'; d['failure'] = fail
            d['replay'] = 'cd %s/harness && go build -gcflags=all=-d=checkptr=0 -o /tmp/h . && /tmp/h -prop %s -seed %d -from %d -trials %d' % (ROOT, prop, fail['seed'], fail['frm'], fail['trials'])
        if bad:
            d['failed_obligations'] = [dict(unit=r['name'], error=r['error'], obligations=[o for o in r['obls'] if not o['ok']]) for r in bad]
        if not fail: d['kind'] = 'obligation'
        json.dump(d, open(rp, 'w'), indent=1)
        if fail: print('%s: %s at seed %d trial %s: %s' % (prop, fail['kind'], fail['seed'], fail['trial'], str(fail['detail'] or fail['output'][-800:])[:1500]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fail else ' no-failing-input-found'))
    evidence(prop, tier, seed, res, trials, race, extra, fail, bad, t0)
    if status == 0:
        n = sum(len(r['obls']) for r in res)
        print('%s holds: %d obligations of %d functions discharged; %d concrete trials; %.1f s' % (prop, n, len({r['name'] for r in res if r['cls'] not in units.LEMMAS}), trials + (race or 0), time.time() - t0))
    return status

def evidence(prop, tier, seed, res, trials, race, extra, fail, bad, t0):
    import units
    obls = [o for r in res for o in r['obls']]
    backs = {}
    for o in obls:
        if o['ok']: backs[o['backend']] = backs.get(o['backend'], 0) + 1
    inl = sorted({n for r in res for n in r['stats'].get('inlined', [])})
    ext = sorted({n for r in res for n in r['stats'].get('externals', [])})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obls), 'discharged': sum(1 for o in obls if o['ok']),
            'proof_queries': sum(o['count'] for o in obls),
            'checker_cmd': './check %s' % prop,
            'trusted_base': units.TRUSTED,
            'assumptions': units.ASSUMPTIONS,
            'functions_under_contract': sorted({r['name'] for r in res if r['cls'] not in units.LEMMAS}),
            'lemmas': sorted({r['name'] for r in res if r['cls'] in units.LEMMAS}),
            'functions_inlined': [x.replace('github.com/protolambda/zssz/', '') for x in inl],
            'external_models_used': ext,
            'backends': backs,
            'solver_s': round(sum(r['stats'].get('solver_s', 0) for r in res), 2),
            'loops_cut': sum(r['stats'].get('loops', 0) for r in res),
            'units': [dict(unit=r['name'], obligations=len(r['obls']), failed=sum(1 for o in r['obls'] if not o['ok']), error=r['error'], wall_s=round(r['wall'], 2)) for r in res],
            'bounded': {'what': 'conformance of the compiled code with an independent reference on generated types, values and inputs (bounded, not counted as proved)',
                        'trials': trials + extra, 'race_detector_trials': race},
            'violation': bool(fail or bad),
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
