#!/usr/bin/env python3-vt
"""Check runner: extracts /repo's functions to SSA, generates and discharges the obligations
of one property, runs the replay/bounded search, writes evidence, reports.
usage: check.py Cxx [--tier quick|thorough]"""
import sys, os, json, time, subprocess, hashlib, traceback, signal, tempfile
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
T0 = time.time()
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOSUMDB='off', CGO_ENABLED='0')
HARD = 780.0            # seconds after which the check stops whatever it does


def left(): return HARD - (time.time() - T0)


def go(args, cwd, env=None, timeout=600):
    return subprocess.run(['go'] + args, cwd=cwd, env=env or GOENV, capture_output=True, text=True, timeout=timeout)


def srchash(d):
    h = hashlib.sha256()
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.go', '.mod', '.sum')):
                h.update(f.encode()); h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()[:16]


def gossa():
    d = os.path.join(VERIF, 'tools', 'gossa')
    out = os.path.join(VERIF, 'bin', 'gossa-' + srchash(d))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = go(['build', '-o', tmp, '.'], d)
        if r.returncode: raise SystemExit('gossa does not build:\n' + r.stderr)
        os.rename(tmp, out)
    return out


class Harness:
    """builds the replay program against /repo and runs it"""
    def __init__(s, prop, work, race=False):
        s.prop, s.work, s.race = prop, work, race
        s.bin = os.path.join(work, 'replay')
        s.err = None

    def build(s):
        env = dict(GOENV)
        args = ['build', '-o', s.bin]
        if s.race: env['CGO_ENABLED'] = '1'; args.append('-race')
        if REPO != '/repo':
            mod = os.path.join(s.work, 'go.mod')
            open(mod, 'w').write(open(os.path.join(VERIF, 'replay', 'go.mod')).read().replace('=> /repo', '=> ' + REPO))
            open(os.path.join(s.work, 'go.sum'), 'w').write(open(os.path.join(VERIF, 'replay', 'go.sum')).read())
            args += ['-modfile', mod]
        r = go(args + ['.'], os.path.join(VERIF, 'replay'), env)
        if r.returncode: s.err = r.stderr
        return r.returncode == 0

    CONFIGS = [{'FROZEN_CONCURRENCY': 'off'}, {'FROZEN_CONCURRENCY': '-100', 'GOMAXPROCS': '64'}]

    def start(s, budget, seed, conf, tag):
        out = os.path.join(s.work, 'rep-%s.json' % tag)
        env = dict(os.environ); env.pop('GOMAXPROCS', None); env.update(s.CONFIGS[conf])
        if s.race: env['GORACE'] = 'halt_on_error=1'
        cmd = [s.bin, '-prop', s.prop, '-seed', str(seed), '-budget', '%g' % budget, '-out', out, '-hang', '45',
               '-summary', out + '.sum']
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'),
                             preexec_fn=lambda: signal.alarm(int(budget + 150)))
        p.out, p.conf, p.cmd = out, conf, cmd
        return p

    def finish(s, p, timeout):
        """None if nothing was found, else a report dict"""
        try: p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); return None
        if p.returncode == 0: return None
        if p.returncode == 1 and os.path.exists(p.out): return json.load(open(p.out))
        err = open(p.out + '.err').read()
        at = ''
        if os.path.exists(p.out + '.at'): at = open(p.out + '.at').read().strip()
        if p.returncode < 0 and not err: return None        # killed from outside
        if 'DATA RACE' in err or 'panic' in err or 'fatal error' in err or 'goroutine' in err:
            f = at.split()
            return {'property': s.prop, 'scenario': f[0] if f else '', 'seed': f[1] if len(f) > 1 else '', 'size': f[2] if len(f) > 2 else '',
                    'env': ' '.join('%s=%s' % kv for kv in s.CONFIGS[p.conf].items()),
                    'what': 'data race' if 'DATA RACE' in err else 'the program under test crashed', 'stack': err[:6000],
                    'rerun': 'cd /verif/replay && go build %s-o /tmp/verifreplay . && %s /tmp/verifreplay -prop %s -scenario %s -case %s' % (
                        '-race ' if s.race else '', ' '.join('%s=%s' % kv for kv in s.CONFIGS[p.conf].items()), s.prop, f[0] if f else '', '/'.join(f[1:3]))}
        s.err = 'harness exit %d: %s' % (p.returncode, err[:500])
        return None

    def summary(s, p):
        try: return json.load(open(p.out + '.sum'))
        except Exception: return None


UNDECIDED = ('timeout', 'canceled', 'time limit')      # (an 'incomplete' answer stays one)


# ---------------------------------------------------------------- obligations in worker processes
PROG = None


def work_unit(job):
    """verify one unit in its own process; returns a plain dict"""
    name, timeout, deadline = job
    import z3
    import units
    res = {'unit': name, 'obls': [], 'error': None, 'functions': [], 'assumed': []}
    t0 = time.time()
    try:
        u = units.get(name)
        res['functions'] = list(u.functions)
        for r in u.run(PROG, timeout, deadline): res['obls'].append(r)
        res['assumed'] = sorted(getattr(u, 'assumed', ()))
        res['inlined'] = sorted(getattr(u, 'inlined', ()))
        res['functions'] = list(u.functions)
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
    res['time'] = time.time() - t0
    return res


def child(job, conn):
    try: conn.send(work_unit(job))
    except BaseException as e:
        try: conn.send({'unit': job[0], 'obls': [], 'error': 'worker: %s' % e, 'functions': [], 'time': 0})
        except Exception: pass
    finally: conn.close()


def run_units(names, timeout, procs, deadline):
    """fork one process per unit, at most procs at a time, each with a hard limit"""
    ctx = mp.get_context('fork')
    todo = list(names); run = {}; out = []
    while todo or run:
        while todo and len(run) < procs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=((n, timeout, deadline), b))
            p.start(); b.close()
            run[n] = (p, a, time.time())
        time.sleep(0.02)
        for n, (p, a, t) in list(run.items()):
            got = None
            if a.poll():
                try: got = a.recv()
                except EOFError: got = {'unit': n, 'obls': [], 'error': 'worker died', 'functions': [], 'time': time.time() - t}
            elif not p.is_alive() and not a.poll(0.2):
                got = {'unit': n, 'obls': [], 'error': 'worker died', 'functions': [], 'time': time.time() - t}
            elif time.time() > deadline:
                p.kill(); got = {'unit': n, 'obls': [], 'error': 'time limit', 'functions': [], 'time': time.time() - t}
            if got is not None:
                p.join(5); a.close(); del run[n]; out.append(got)
        if time.time() > deadline + 5: break
    for n in todo: out.append({'unit': n, 'obls': [], 'error': 'time limit', 'functions': [], 'time': 0})
    return out


def setup():
    """build the extractor, warm the Go build cache, check that the theory loads"""
    g = gossa()
    w = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        for race in (False, True):
            H = Harness('setup', w, race)
            if not H.build(): print('harness:', H.err[:2000])
        import units
    finally:
        for f in os.listdir(w): os.unlink(os.path.join(w, f))
        os.rmdir(w)
    print('setup done: %s; %.1f s' % (g, time.time() - T0))
    return 0


def main():
    global PROG
    prop = sys.argv[1]
    if prop == '--setup': return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    P = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    outdir = os.path.join(VERIF, 'out', prop)
    os.makedirs(outdir, exist_ok=True)
    try: return run(prop, tier, seed, P, work, outdir)
    finally:
        for r, ds, fs in os.walk(work, topdown=False):
            for f in fs: os.unlink(os.path.join(r, f))
            os.rmdir(r)


def known():
    """known-findings file: property -> list of (kind, rest)"""
    out = []
    try: lines = open(os.path.join(VERIF, 'known_findings.txt')).read().splitlines()
    except OSError: return out
    for l in lines:
        if l.startswith('finding: '):
            out.append(l[len('finding: '):])
    return out


def run(prop, tier, seed, P, work, outdir):
    global PROG
    thorough = tier == 'thorough'
    # ---- replay harness is built while the obligations are generated
    ctx = mp.get_context('fork')
    H = Harness(prop, work)
    hb = P.get('budget', 10.0) * (6 if thorough else 1)
    import threading
    hs = {'procs': [], 'race': []}
    HR = Harness(prop, work, race=True) if P.get('race') else None
    if HR: HR.bin += '-race'

    def bg():
        if H.build():
            for i, (conf, sd) in enumerate([(0, seed), (1, seed + 1000)] + ([(0, seed + 2000), (1, seed + 3000)] if thorough else [])):
                hs['procs'].append(H.start(hb, sd, conf, 'b%d' % i))
        if HR and HR.build():
            hs['race'].append(HR.start(hb, seed, 1, 'race'))
    th = threading.Thread(target=bg, daemon=True); th.start()

    # ---- extraction
    g = gossa()
    ssa = os.path.join(work, 'ssa.json')
    r = subprocess.run([g, REPO], stdout=open(ssa, 'w'), stderr=subprocess.PIPE, env=GOENV, text=True)
    if r.returncode: print('extraction failed:', r.stderr[:2000]); fails = [('extraction', r.stderr[:2000])]
    results = []; retried = []
    if not r.returncode:
        import engine, units
        PROG = engine.Prog(ssa)
        names = units.closure(P['units'], PROG)
        t = time.time()
        results = run_units(names, 60.0 if thorough else 12.0, 8, time.time() + min(left() - 200, 420 if not thorough else 500))
        solve_wall = time.time() - t
    # ---- collect
    excl = set(P.get('exclude', ()))
    nobl = ndis = 0; solver = 0.0; failed = []; fns = set(); assumed = set(); inlined = set(); slow = []; backends = {}

    def collect():
        nonlocal nobl, ndis, solver
        nobl = ndis = 0; solver = 0.0; failed.clear(); slow.clear(); backends.clear()
        for u in results:
            fns.update(u['functions']); assumed.update(u.get('assumed', ())); inlined.update(u.get('inlined', ()))
            if u['error']:
                nobl += 1
                failed.append({'unit': u['unit'], 'obligation': '%s: body within reach of the verifier' % u['unit'], 'status': u['error'], 'trace': u.get('trace', '')})
            for o in u['obls']:
                if o['tag'] in excl or (o['tag'] == 'race' and not P.get('race')): continue
                nobl += 1; solver += o['time']
                if o['ok']: ndis += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
                else: failed.append({'unit': u['unit'], 'obligation': o['name'], 'tag': o['tag'], 'status': o['status'], 'pos': o.get('pos', ''), 'model': o.get('model', '')})
                if o['time'] > 3: slow.append([o['name'], round(o['time'], 1)])
        if r.returncode: failed.append({'unit': 'extraction', 'obligation': 'the sources load', 'status': r.stderr[:1000]}); nobl += 1
        if nobl == 0: failed.append({'unit': 'none', 'obligation': 'at least one obligation is generated', 'status': 'none was'})
    collect()
    # ---- bounded search / replay
    th.join(max(1, min(300, left() - 60)))
    rep = None; sums = []
    for p in hs['procs'] + hs['race']:
        hh = HR if p in hs['race'] else H
        rr = hh.finish(p, max(1, min(hb + 120, left() - 20)))
        if rr and rep is None: rep = rr
        sm = hh.summary(p)
        if sm: sums.append(sm)
    if failed and rep is None and not H.err:
        ext = min(P.get('extended', 45.0), max(0, left() - 120))
        if ext > 3:
            ps = [H.start(ext, seed + 7000 + i, i % 2, 'x%d' % i) for i in range(8)]
            for p in ps:
                rr = H.finish(p, max(1, min(ext + 100, left() - 20)))
                if rr and rep is None:
                    rep = rr
                    for q in ps:
                        if q.poll() is None: q.kill()
                sm = H.summary(p)
                if sm: sums.append(sm)
    # ---- nothing was found: give the obligations that were not decided in time (and only those) more of it
    if failed and rep is None and not H.err and not r.returncode:
        bad = {}
        for f in failed: bad.setdefault(f['unit'], []).append(f)
        again = [u for u, fs in bad.items() if u in names and all(any(w in f['status'] for w in UNDECIDED) for f in fs) and len(fs) <= 4]
        room = min(240.0, left() - 60)
        if len(again) == len(bad) <= 6 and room > 30:
            new = run_units(again, 60.0, 8, time.time() + room)
            results = [u for u in results if u['unit'] not in again] + new
            retried = again
            collect()
    if H.err and not rep:
        failed.append({'unit': 'harness', 'obligation': 'the replay program builds and runs against the sources', 'status': H.err[:1500]})
    # ---- report
    viol = 0
    rc = 0
    path = os.path.join(outdir, 'replay.json')
    for l in known():
        if l.startswith('property=%s ' % prop): print('KNOWN-FINDING: ' + l)
    if rep is not None:
        json.dump({'property': prop, 'failing_input': rep, 'failed_obligations': failed}, open(path, 'w'), indent=1)
        print('failing input: %s: %s' % (rep.get('scenario'), rep.get('what')))
        for f in failed[:20]: print('failed obligation: %s [%s]' % (f['obligation'], f['status']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol = 1; rc = 1
    elif failed:
        json.dump({'property': prop, 'failing_input': None, 'failed_obligations': failed}, open(path, 'w'), indent=1)
        for f in failed[:20]: print('failed obligation: %s [%s]' % (f['obligation'], f['status']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        viol = 1; rc = 1
    cases = sum(x['cases'] for x in sums); checks = sum(x['checks'] for x in sums)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'],
          'coverage': {
              'obligations': nobl, 'discharged': ndis,
              'checker_cmd': 'python3-vt vc/check.py %s --tier %s' % (prop, tier),
              'trusted_base': ['go/types and golang.org/x/tools/go/ssa (extraction of the real functions)', 'tools/gossa exporter', 'vc/engine.py verification condition generator', 'vc/theory.py axioms (spec functions)', 'z3 %s' % z3v()],
              'functions_under_contract': sorted(fns), 'functions_inlined': sorted(inlined - fns), 'units': len(results),
              'backends': backends, 'solver_seconds': round(solver, 2), 'slow_obligations': slow[:20], 'units_retried_with_more_time': retried,
              'failed_obligations': [f['obligation'] for f in failed][:50],
              'bounded_stand_in': {'label': 'BOUNDED, never counted as proved', 'covers': P.get('bounded', []),
                                   'evaluations': cases, 'assertions': checks,
                                   'bound': 'random histories of up to ~14 operations (60 for one case in 97) over universes of up to 26 (200) elements with adversarial hashes, %.0f s per process' % hb,
                                   'scenarios': merge([x['scenarios'] for x in sums])},
              'samples': [x for s_ in sums for x in s_.get('samples', [])][:3],
          },
          'assumptions': P.get('assumptions', []) + ['assumed contract: ' + a for a in sorted(assumed - fns)],
          'wall_s': round(time.time() - T0, 2), 'violations': viol}
    if P['level'] != 'proof':
        ev['coverage'].update({'evaluations': cases, 'distinct_nontrivial': checks, 'rule': 'every case is a distinct seeded history; an assertion is non-trivial when it compares observed contents with the model'})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged (%.1f s solver), %d functions under contract; bounded: %d cases, %d assertions; %.1f s' % (
        prop, nobl, ndis, solver, len(fns), cases, checks, time.time() - T0))
    return rc


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items(): out[k] = out.get(k, 0) + v
    return out


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
