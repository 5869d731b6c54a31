#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough]
   or re-run a recorded violation: check.py --replay FILE

Builds the driver from /repo's working tree, lets it exercise the real code,
and has TLC check what it recorded against the TLA+ specifications."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import registry

SPECS = os.path.join(VERIF, 'specs')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


class Slow(CheckError):
    """TLC ran out of time."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_noting(scratch):
    """The driver, with a library that notes which ways a call takes through it
    (to choose histories); without, if the library cannot be prepared so."""
    d = os.path.join(scratch, 'cov')
    os.makedirs(d, exist_ok=True)
    b = os.path.join(scratch, 'driver_noting')
    plain = set()
    for _ in range(6):
        r = subprocess.run(['go', 'run', './cmd/covinstr', '/repo', os.path.join(HARNESS, 'vcov'), d, *sorted(plain)],
                           cwd=HARNESS, env=GOENV, capture_output=True, text=True)
        if r.returncode:
            break
        r = subprocess.run(['go', 'build', '-gcflags=-e', '-tags', 'verifcov', '-overlay', d + '/overlay.json', '-o', b, './cmd/driver'],
                           cwd=HARNESS, env=GOENV, capture_output=True, text=True)
        if r.returncode == 0:
            return b
        more = set(re.findall(r'\b(c\d+\.go):', r.stderr)) - plain
        if not more:
            break
        plain |= more
    log('the library is used as it is: ' + r.stderr[-500:])
    return build(scratch, 'driver')['driver']


def build(scratch, *pkgs, race=False, overlay=None):
    out = {}
    for p in pkgs:
        b = os.path.join(scratch, p + ('_race' if race else '') + ('_ov' if overlay else ''))
        cmd = ['go', 'build', '-o', b]
        if race:
            cmd.append('-race')
        if overlay:
            cmd += ['-overlay', overlay]
        r = subprocess.run(cmd + ['./cmd/' + p], cwd=HARNESS, env=GOENV, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('build of %s failed:\n%s' % (p, r.stderr[-4000:]))
        out[p] = b
    return out


# ------------------------------------------------------------------- TLC ----

class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        self.gen, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        self.rejected = 'POSTCONDITION' in out.upper() and rc != 0 and 'is violated' in out.lower() or \
                        bool(re.search(r'[Pp]ostcondition.*(false|violated)', out))
        self.evalerr = rc in (75, 76, 77, 78)
        self.violated = rc in (10, 11, 12, 13, 14)


TIER = 'quick'
PATIENCE = {'quick': 300}     # seconds after which a run of TLC is taken to hang


def tlc(scratch, module, cfg, env=None, workers=2, extra=(), timeout=850, heap='3g', path=SPECS):
    """Runs TLC; a run that has not come back where others take seconds is
    started once more, with one worker (it was seen to hang, once)."""
    patience = PATIENCE.get(TIER, timeout)
    if patience < timeout:
        try:
            return tlc1(scratch, module, cfg, env, workers, extra, patience, heap, path)
        except Slow:
            print('TLC again on %s' % module, file=sys.stderr)
            workers, timeout = 1, timeout - patience
    return tlc1(scratch, module, cfg, env, workers, extra, timeout, heap, path)


def tlc1(scratch, module, cfg, env, workers, extra, timeout, heap, path):
    d = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + d,
           '-DTLA-Library=' + SPECS, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', d, '-config', cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=path, env=dict(os.environ, **(env or {})), capture_output=True,
                           text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise Slow('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return Tlc(r.returncode, r.stdout + r.stderr)


def accept(scratch, spec, cfg, trace, env=None, workers=2, timeout=850):
    """Does the specification accept the recorded tree?  True / False / raises."""
    t = tlc(scratch, 'T_%s.tla' % spec, cfg, dict(env or {}, TRACE=trace), workers, timeout=timeout)
    if t.rc == 0:
        return True, t
    if t.rejected or t.evalerr or t.violated:
        return False, t
    raise CheckError('TLC failed (%d) on T_%s:\n%s' % (t.rc, spec, t.out[-3000:]))


def read_tree(trace):
    return [json.loads(x) for x in open(trace)]


def write_path(path, events):
    with open(path, 'w') as f:
        root = {'k': [2] if events else [], 'op': 'root', 'o': 0, 'a': [], 'r': []}
        f.write(json.dumps(root) + '\n')
        for i, e in enumerate(events):
            e = dict(e, k=[i + 3] if i + 1 < len(events) else [])
            f.write(json.dumps(e) + '\n')


def reached(scratch, spec, cfg, trace, env):
    """The nodes of the tree that the specification explains."""
    d = tempfile.mkdtemp(prefix='seen_', dir=scratch)
    shutil.copy(os.path.join(SPECS, cfg), d)
    with open(os.path.join(d, cfg), 'a') as f:
        f.write('\nCONSTRAINT SayReached\n')
    with open(os.path.join(d, 'Reached.tla'), 'w') as f:
        f.write('---- MODULE Reached ----\nEXTENDS T_%s\nSayReached == PrintT(<<"reached", l>>)\n====\n' % spec)
    t = tlc(scratch, 'Reached.tla', cfg, dict(env or {}, TRACE=trace), 2, path=d)
    return {int(x) for x in re.findall(r'^<<"reached", (\d+)>>', t.out, re.M)}


def rejected_path(scratch, spec, cfg, trace, t, env, tree):
    """The shortest history (list of events) the specification does not explain."""
    nodes = read_tree(trace)
    parent = {}
    for i, n in enumerate(nodes, 1):
        n["_n"] = i
    for i, n in enumerate(nodes, 1):
        for k in n['k']:
            parent[k] = i

    def hist(x):
        p = []
        while x in parent:
            p.append(nodes[x - 1])
            x = parent[x]
        return p[::-1]
    cands = []
    if t.evalerr:
        ls = re.findall(r'^(?:/\\ )?l = (\d+)', t.out, re.M)
        if ls:
            cands = [int(ls[-1])] + list(nodes[int(ls[-1]) - 1]['k'])
    if not cands:
        seen = reached(scratch, spec, cfg, trace, env)
        cands = [k for k in parent if k not in seen and parent[k] in seen]
        if t.evalerr:
            cands = cands[:200]
    cands = sorted(cands, key=lambda x: len(hist(x)))
    for x in cands[:30]:
        h = hist(x)
        f = os.path.join(scratch, 'path%d.ndjson' % threading.get_ident())
        write_path(f, h)
        ok, _ = accept(scratch, spec, cfg, f, env)
        if not ok:
            return h
    raise CheckError('TLC rejected the trace of %s but no single history reproduces it:\n%s'
                     % (spec, t.out[-2000:]))


# ------------------------------------------------------------------ jobs ----

class Run:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.lock = threading.Lock()
        self.cov = []
        self.samples = []
        self.violations = []
        self.known = []
        self.n = 0
        self.bins = {}

    def tmp(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, '%03d_%s' % (self.n, name))

    def violation(self, job, kind, hist, detail):
        with self.lock:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            f = os.path.join(EVID, 'replay', '%s_%d.json' % (self.prop, len(self.violations) + 1))
            json.dump({'property': self.prop, 'kind': kind, 'job': job, 'seed': self.seed,
                       'detail': detail, 'history': hist}, open(f, 'w'), indent=1)
            self.violations.append(f)
            log('%s: %s in %s: %s' % (self.prop, kind, job, detail))

    def sample(self, job, nodes):
        """One history of the tree, cut to a dozen events."""
        h, x = [], 0
        while nodes[x]['k'] and len(h) < 14:
            x = nodes[x]['k'][-1] - 1
            e = {k: v for k, v in nodes[x].items() if k != 'k'}
            if len(json.dumps(e)) > 600:
                e = {k: e[k] for k in ('op', 'o')}
            h.append(e)
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append({'job': job, 'history': h})


def drive(run, job, args, out):
    """Run the driver; returns its result, or None after reporting a crash or hang."""
    hang = run.tmp('hang.json')
    cmd = [run.bins['driver'], '-comp', job['comp'], '-profile', job['profile'], '-hang', hang, *args]
    r = subprocess.run(cmd + ['-out', out], capture_output=True, text=True, errors='replace', timeout=800)
    if r.returncode == 0:
        return json.loads(r.stdout.splitlines()[-1])
    if r.returncode == 4:
        raise CheckError('driver: ' + r.stderr[-2000:])
    # a hang (3) or a crash: find the history and see it again before reporting
    name = '%s/%s' % (job['comp'], job['profile'])
    if r.returncode == 3:
        hist = json.load(open(hang))['history']
        kind = 'call does not return'
    else:
        sync = run.tmp('sync.json')
        again = ['-sync', sync, '-out', out] + (['-huntsecs', '200'] if '-huntsecs' in cmd else [])
        r2 = subprocess.run(cmd + again, capture_output=True, text=True, errors='replace', timeout=800)
        if r2.returncode in (0, 4):
            raise CheckError('driver crashed once: %s' % r.stderr[-3000:])
        hist = json.loads(open(sync).read().rstrip('\0'))
        kind = 'process crashed'
    f = run.tmp('replay.json')
    json.dump(hist, open(f, 'w'))
    again = subprocess.run(cmd + ['-replay', f], capture_output=True, text=True, errors='replace', timeout=300)
    if again.returncode in (0, 4):
        if job.get('random_inside'):      # the structure draws random numbers of its own
            run.violation(name, kind, hist, (r.stderr or '')[:600])
            return None
        raise CheckError('%s not reproduced: %s' % (kind, r.stderr[-3000:]))
    run.violation(name, kind, hist, (again.stderr or '')[:600])
    return None


def trace_job(run, job, size, seed, tree=None):
    comp, spec, cfg = job['comp'], job['spec'], job.get('cfg', 'T.cfg')
    name = '%s/%s' % (comp, job['profile'])
    out = run.tmp(comp + '.ndjson')
    args = ['-seed', str(seed), '-depth', str(size[0]), '-traces', str(size[1]), '-len', str(size[2])]
    if tree:
        args += ['-tree', tree]
    hunts = size[1] and 'huge' not in job['profile']      # TLC is slow on those
    if hunts:
        n, secs, judging = HUNT[run.tier]
        secs *= job.get('hunt', 1)
        args += ['-hunt', '1000000', '-huntmax', str(n), '-huntsecs', str(secs)]
    res = drive(run, job, args, out)
    if res is None:
        return
    states, trans, env = judge(run, job, out, res)
    if states is None:
        return
    nodes = read_tree(out)
    run.sample(name, nodes)
    os.unlink(out)
    judged, t0 = len(nodes) - 1, time.time()
    left = (res.get('files') or [])[:]
    while left and time.time() - t0 < judging:      # the histories chosen, as far as the time goes
        f = left.pop(0)
        try:
            a, b, _ = judge(run, job, f, res, env, timeout=4 * judging + 60)
        except Slow:
            left.insert(0, f)
            break
        if a is None:
            return
        judged += len(read_tree(f)) - 1
        states, trans = states + a, trans + b
        os.unlink(f)
    with run.lock:
        run.cov.append({'job': name + (' (tree from the design model)' if tree else ''), 'spec': 'T_' + spec,
                        'exhaustive_histories': res['leaves'] - res.get('tree', 0),
                        'model_paths': res.get('tree', 0), 'random_histories': res['histories'],
                        'made_to_choose_from': res.get('made', 0), 'chosen_for_novelty': res.get('kept', 0) if not left else
                        int(res.get('kept', 0) * (1 - len(left) / len(res['files']))),
                        'events': judged, 'calls': res['ops'], 'states': states, 'transitions': trans})
    for f in left:
        os.unlink(f)


def judge(run, job, out, res, env=None, timeout=850):
    """Have TLC look at a trace: (states, transitions, environment), or Nones after reporting a violation."""
    comp, spec, cfg = job['comp'], job['spec'], job.get('cfg', 'T.cfg')
    name = '%s/%s' % (comp, job['profile'])
    env = env or {}
    ok, t = accept(run.scratch, spec, cfg, out, env, job.get('workers', 2), timeout)
    if not ok and job.get('known'):
        for kid, kenv in job['known'].items():
            if kid not in KNOWN:
                continue
            ok2, t2 = accept(run.scratch, spec, cfg, out, kenv)
            if ok2:
                with run.lock:
                    run.known.append(kid)
                ok, t = True, t2
                break
            env = kenv          # judge what is left with the finding allowed
            t = t2
    if not ok:
        hist = rejected_path(run.scratch, spec, cfg, out, t, env, res)
        e = hist[-1]
        run.violation(name, 'behaviour the specification does not allow',
                      [{k: v for k, v in x.items() if k != 'k'} for x in hist],
                      {'spec': 'T_%s' % spec, 'cfg': cfg, 'comp': comp, 'profile': job['profile'], 'env': env,
                       'event': {k: v for k, v in e.items() if k != 'k' and len(str(v)) < 2000}})
        return None, None, env
    return t.distinct, t.gen, env


def tla(v):
    return '"%s"' % v if isinstance(v, str) and not v.startswith('=') else str(v).lstrip('=').replace('True', 'TRUE').replace('False', 'FALSE')


def mc_cfg(run, job):
    f = run.tmp('mc.cfg')
    with open(f, 'w') as o:
        o.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % job.get('behaviour', 'MSpec'))
        for k, v in job.get('consts', {}).items():
            o.write('CONSTANT %s %s %s\n' % (k, '<-' if str(v).startswith('<-') else '=', str(v)[2:] if str(v).startswith('<-') else tla(v)))
        for kw, key in (('INVARIANT', 'inv'), ('PROPERTY', 'props'), ('CONSTRAINT', 'constraint'), ('ACTION_CONSTRAINT', 'emit'),
                        ('VIEW', 'view'), ('SYMMETRY', 'symmetry')):
            for v in job.get(key, []):
                o.write('%s %s\n' % (kw, v))
    return f


def mc_job(run, job):
    """Model-check a design specification; optionally drive the code along its transitions."""
    mod = job['mc']
    t0 = time.time()
    t = tlc(run.scratch, mod + '.tla', mc_cfg(run, job), job.get('env'), 1 if job.get('replay') else job.get('workers', 2),
            heap=job.get('heap', '3g'))
    what = ' '.join('%s=%s' % x for x in job.get('consts', {}).items())
    if job.get('expect') == 'violation':
        # the specification can tell: a design known to be wrong must be refuted
        if not t.violated:
            raise CheckError('design model %s (%s) was expected to refute this variant:\n%s' % (mod, what, t.out[-2000:]))
        with run.lock:
            run.cov.append({'job': 'design model, a variant it must refute', 'spec': mod, 'constants': what,
                            'states': t.distinct, 'transitions': t.gen, 'wall_s': round(time.time() - t0, 1)})
        return
    if t.rc != 0:
        raise CheckError('design model %s (%s) failed:\n%s' % (mod, what, t.out[-3000:]))
    cov = {'job': 'design model', 'spec': mod, 'constants': what, 'checked': job.get('inv', []) + job.get('props', []),
           'states': t.distinct, 'transitions': t.gen, 'wall_s': round(time.time() - t0, 1)}
    with run.lock:
        run.cov.append(cov)
    if job.get('replay'):
        import modelpaths
        comp, profile, spec = job['replay'][:3]
        tree = run.tmp('tree.json')
        cov['paths_to_replay'] = modelpaths.tree(t.out, tree, job.get('limit', 60000), run.seed)
        j = {'comp': comp, 'profile': profile, 'spec': spec, 'cfg': job['replay'][3] if len(job['replay']) > 3 else 'T.cfg',
             'random_inside': comp == 'skiplist'}
        trace_job(run, j, (0, 0, 0), run.seed, tree)


# events recorded at most, seconds for making them, seconds for judging them
HUNT = {'quick': (12000, 6, 12), 'thorough': (20000, 15, 40)}
KNOWN = {}


def load_known():
    f = os.path.join(VERIF, 'known-findings.txt')
    for line in open(f):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
        if m:
            KNOWN[m.group(2)] = (m.group(1), m.group(3))


def run_check(prop, tier):
    global TIER
    TIER = tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ent = registry.CHECKS[prop]
    load_known()
    scratch = tempfile.mkdtemp(prefix='gostl_%s_' % prop)
    run = Run(prop, tier, seed, scratch)
    try:
        jobs = []
        need_driver = False
        for j in ent['jobs']:
            if 'tier' in j and j['tier'] != tier:
                continue
            if 'mc' in j:
                jobs.append((mc_job, (run, j)))
                need_driver |= bool(j.get('replay'))
            elif 'conc' in j:
                import conc
                jobs += conc.jobs(run, j, tier, seed, sys.modules[__name__])
            else:
                need_driver = True
                if tier == 'quick':
                    for k in range(j.get('qrounds', 1)):
                        jobs.append((trace_job, (run, j, j['q'] if k == 0 else (0,) + tuple(j['q'][1:]), seed + 7919 * k)))
                else:
                    size = j.get('t', j['q'])
                    for k in range(j.get('rounds', 6)):
                        jobs.append((trace_job, (run, j, size if k == 0 else (0,) + tuple(size[1:]), seed + 7919 * k)))
        if need_driver:
            run.bins['driver'] = build_noting(scratch)
        err = None
        with cf.ThreadPoolExecutor(ent.get('parallel', 4)) as ex:
            futs = [ex.submit(f, *a) for f, a in jobs]
            for f in cf.as_completed(futs):
                if run.violations:              # say so soon
                    for g in futs:
                        g.cancel()
                try:
                    f.result()
                except cf.CancelledError:
                    pass
                except Exception as e:      # noqa
                    err = err or e
                    if not isinstance(e, CheckError):
                        import traceback
                        traceback.print_exception(e)
        if err and not run.violations:
            raise err
        cov = {'states': sum(c.get('states', 0) for c in run.cov),
               'transitions': sum(c.get('transitions', 0) for c in run.cov),
               'traces_validated_against_impl': sum(c.get('exhaustive_histories', 0) + c.get('model_paths', 0) +
                                                    c.get('random_histories', 0) + c.get('histories', 0) for c in run.cov),
               'samples': run.samples, 'runs': run.cov}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': ent.get('level', 'model_checking'),
              'coverage': cov, 'assumptions': registry.ASSUME + ent.get('assume', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(run.violations)}
        os.makedirs(EVID, exist_ok=True)
        f = os.path.join(EVID, prop + '.json')
        json.dump(ev, open(f + '.tmp', 'w'), indent=1)
        os.replace(f + '.tmp', f)
        for k in sorted(set(run.known)):
            print('KNOWN-FINDING: property=%s %s' % (prop, KNOWN[k][1]))
        for v in run.violations[:3]:
            print('VIOLATION property=%s replay=%s' % (prop, v))
        return 1 if run.violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='gostl_replay_')
    try:
        d = v['detail'] if isinstance(v['detail'], dict) else {}
        if v['kind'].startswith('schedule') or d.get('conc'):
            import conc
            return conc.replay(v, scratch, sys.modules[__name__])
        b = build(scratch, 'driver')['driver']
        ops = [{'Name': e.get('op', e.get('Name')), 'O': e.get('o', e.get('O')), 'A': e.get('a', e.get('A'))}
               for e in v['history']]
        f = os.path.join(scratch, 'ops.json')
        json.dump(ops, open(f, 'w'))
        comp, prof = v['job'].split('/', 1)
        r = subprocess.run([b, '-comp', comp, '-profile', prof, '-replay', f], capture_output=True, text=True)
        print(r.stdout)
        if r.returncode:
            print('driver ended with', r.returncode, r.stderr[-2000:])
            return 1
        evs = [json.loads(x) for x in r.stdout.splitlines()]
        t = os.path.join(scratch, 't.ndjson')
        write_path(t, evs)
        ok, _ = accept(scratch, d['spec'][2:], d.get('cfg', 'T.cfg'), t, d.get('env'))
        print('accepted by' if ok else 'REJECTED by', d['spec'])
        return 0 if ok else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        sys.exit(run_check(sys.argv[1], tier))
    except CheckError as e:
        log('ERROR: %s' % e)
        sys.exit(2)


if __name__ == '__main__':
    main()
