"""Concurrency jobs: programs of concurrent calls run on the real code, under a
scheduler that decides every interleaving (sched) and in parallel under the
race detector (race); TLC judges the recorded calls, returns and lock events."""
import glob, json, os, re, subprocess, threading

LOCK = threading.Lock()


def build(run, chk, need):
    if 'sched' in need and 'sched' not in run.bins:
        ov = os.path.join(run.scratch, 'ov')
        os.makedirs(ov, exist_ok=True)
        r = subprocess.run(['go', 'run', './cmd/instr', '/repo', os.path.join(chk.HARNESS, 'vsched'), ov],
                           cwd=chk.HARNESS, env=chk.GOENV, capture_output=True, text=True)
        if r.returncode:
            raise chk.CheckError('instrumentation failed:\n' + r.stderr[-3000:])
        b = os.path.join(run.scratch, 'conc_sched')
        r = subprocess.run(['go', 'build', '-tags', 'verifsched', '-overlay', ov + '/overlay.json', '-o', b, './cmd/conc'],
                           cwd=chk.HARNESS, env=chk.GOENV, capture_output=True, text=True)
        if r.returncode:
            raise chk.CheckError('build under the scheduler failed:\n' + r.stderr[-3000:])
        run.bins['sched'] = b
    if 'race' in need and 'race' not in run.bins:
        b = os.path.join(run.scratch, 'conc_race')
        r = subprocess.run(['go', 'build', '-race', '-o', b, './cmd/conc'], cwd=chk.HARNESS, env=chk.GOENV,
                           capture_output=True, text=True)
        if r.returncode:
            raise chk.CheckError('build with the race detector failed:\n' + r.stderr[-3000:])
        run.bins['race'] = b


def jobs(run, job, tier, seed, chk):
    locks = job.get('locks', False)
    build(run, chk, ('sched',) if locks else ('sched', 'race'))
    comp = job['conc']
    out = []
    if comp.startswith('alone:'):
        for i in range(1 if tier == 'quick' else 4):
            cfg = dict(bound=1 if tier == 'quick' else 2, limit=300 if tier == 'quick' else 2000, progs=2 if tier == 'quick' else 6)
            out += [(sched_job, (run, chk, comp, locks, cfg, seed + 7 * i, '0/1')),
                    (race_job, (run, chk, comp, 20 if tier == 'quick' else 300, seed + 7 * i))]
        return out
    if tier == 'quick':
        deep = not locks and comp != 'setalg'      # what is affordable on every change
        cfg = dict(bound=job.get('bound', 2 if deep else 1), limit=2000 if deep else 3000,
                   progs=job.get('progs', 800 if deep else 300))
        out.append((sched_job, (run, chk, comp, locks, cfg, seed, '0/1')))
        reps = 10
    else:
        cfg = dict(bound=2, limit=job.get('tlimit', 1500), progs=3000)
        n = job.get('tshards', 6)
        for i in range(n):
            out.append((sched_job, (run, chk, comp, locks, cfg, seed, '%d/%d' % (i, n))))
        reps = 200
    if not locks:
        out.append((race_job, (run, chk, comp, reps, seed)))
    return out


def detail(comp, mode, locks, prog, event=None, **kw):
    return dict(conc=True, comp=comp, mode=mode, locks=locks, program=prog, event=event, **kw)


def program(out, node):
    """The program behind a node of the tree."""
    lines = open(out + '.prog').read().split('\n')[:node]
    return json.loads(next(x for x in reversed(lines) if x))


def spec_of(locks, comp):
    return 'Locks' if locks else 'Alone' if comp.startswith('alone:') else 'Conc'


def sched_job(run, chk, comp, locks, cfg, seed, shard):
    name = '%s/schedules%s' % (comp, ' and locks' if locks else '')
    out, hang, sync = run.tmp('sched.ndjson'), run.tmp('hang.json'), run.tmp('sync.json')
    cmd = [run.bins['sched'], '-comp', comp, '-mode', 'sched', '-seed', str(seed), '-bound', str(cfg['bound']),
           '-limit', str(cfg['limit']), '-progs', str(cfg['progs']), '-shard', shard, '-out', out, '-hang', hang]
    if locks:
        cmd.append('-locks')
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=850)
    if r.returncode == 4:
        raise chk.CheckError('conc: ' + r.stderr[-2000:])
    if r.returncode:
        if r.returncode != 3:
            r2 = subprocess.run(cmd + ['-sync', sync], capture_output=True, text=True, errors='replace', timeout=850)
            if r2.returncode in (0, 4):
                raise chk.CheckError('crashed once: ' + r.stderr[-3000:])
            hang = sync
            r = r2
        prog = json.load(open(hang))
        f = run.tmp('only.json')
        json.dump(prog, open(f, 'w'))
        r3 = subprocess.run(cmd[:-2] + ['-only', f] if not locks else cmd + ['-only', f],
                            capture_output=True, text=True, errors='replace', timeout=300)
        if r3.returncode in (0, 4) and comp != 'skiplist':
            raise chk.CheckError('crash or hang not reproduced: ' + r.stderr[-3000:])
        run.violation(name, 'schedule in which the process ' + ('does not go on' if r.returncode == 3 else 'crashes'),
                      [], detail(comp, 'sched', locks, prog, stderr=r.stderr[:1500]))
        return
    res = json.loads(r.stdout.splitlines()[-1])
    spec = spec_of(locks, comp)
    ok, t = chk.accept(run.scratch, spec, 'T.cfg', out)
    if not ok:
        h = chk.rejected_path(run.scratch, spec, 'T.cfg', out, t, {}, res)
        prog = program(out, h[-1]['_n'])
        hist = [{k: v for k, v in x.items() if k not in ('k', '_n')} for x in h]
        run.violation(name, 'schedule with a history the specification does not allow', hist,
                      detail(comp, 'sched', locks, prog, hist[-1]))
        return
    run.sample(name, chk.read_tree(out))
    with run.lock:
        run.cov.append({'job': name, 'spec': 'T_' + spec, 'schedules': res['runs'], 'histories': res['histories'],
                        'preemption_bound': cfg['bound'], 'events': res['events'], 'states': t.distinct,
                        'transitions': t.gen})
    os.unlink(out)
    os.unlink(out + '.prog')


def race_run(run, chk, comp, reps, seed, out):
    log = run.tmp('racelog')
    sync = run.tmp('rsync.json')
    hang = run.tmp('rhang.json')
    cmd = [run.bins['race'], '-comp', comp, '-mode', 'race', '-seed', str(seed), '-reps', str(reps), '-out', out,
           '-racelog', log, '-hang', hang, '-sync', sync]
    env = dict(os.environ, GORACE='log_path=%s exitcode=0 halt_on_error=0' % log)
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors='replace', timeout=850)
    rep = ''
    for f in sorted(glob.glob(log + '.*')):
        rep += open(f, errors='replace').read()
    return r, rep, hang, sync


def race_job(run, chk, comp, reps, seed):
    name = comp + '/parallel runs under the race detector'
    out = run.tmp('race.ndjson')
    r, rep, hang, sync = race_run(run, chk, comp, reps, seed, out)
    if r.returncode == 4:
        raise chk.CheckError('conc: ' + r.stderr[-2000:])
    if r.returncode:
        what = 'does not go on' if r.returncode == 3 else 'crashes'
        src = hang if r.returncode == 3 else sync
        prog = json.load(open(src))
        r2, _, _, _ = race_run(run, chk, comp, reps, seed, out)     # see it twice before reporting
        if r2.returncode in (0, 4) and 'concurrent map' not in r.stderr and not rep:
            raise chk.CheckError('crash or hang not reproduced: ' + r.stderr[-3000:])
        run.violation(name, 'schedule in which the process ' + what, [],
                      detail(comp, 'race', False, prog, stderr=r.stderr[:1500]))
        return
    res = json.loads(r.stdout.splitlines()[-1])
    spec = spec_of(False, comp)
    ok, t = chk.accept(run.scratch, spec, 'T.cfg', out)
    if not ok:
        h = chk.rejected_path(run.scratch, spec, 'T.cfg', out, t, {}, res)
        prog = program(out, h[-1]['_n'])
        run.violation(name, 'schedule with a data race', [],
                      detail(comp, 'race', False, prog, {k: v for k, v in h[-1].items() if k != '_n'}, report=rep[:3000]))
        return
    with run.lock:
        run.cov.append({'job': name, 'spec': 'T_' + spec, 'parallel_runs': res['runs'], 'histories': res['histories'],
                        'events': res['events'], 'states': t.distinct, 'transitions': t.gen})
    os.unlink(out)
    os.unlink(out + '.prog')


def replay(v, scratch, chk):
    d = v['detail']
    run = chk.Run(v['property'], 'quick', v['seed'], scratch)
    build(run, chk, (d['mode'],))
    if d['mode'] == 'race':
        out = run.tmp('race.ndjson')
        r, rep, _, _ = race_run(run, chk, d['comp'], 20, v['seed'], out)
        print(rep or r.stderr[-3000:])
        return 1 if rep or r.returncode else 0
    f = run.tmp('only.json')
    json.dump(d['program'], open(f, 'w'))
    out = run.tmp('sched.ndjson')
    cmd = [run.bins['sched'], '-comp', d['comp'], '-mode', 'sched', '-only', f, '-out', out]
    if d['locks']:
        cmd.append('-locks')
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=300)
    if r.returncode:
        print(r.stderr[-3000:])
        return 1
    for e in chk.read_tree(out)[1:]:
        print(e['op'], e['o'], e.get('s', ''), e['a'], e['r'])
    ok, _ = chk.accept(scratch, spec_of(d['locks'], d['comp']), 'T.cfg', out)
    print('accepted' if ok else 'REJECTED', 'by T_' + spec_of(d['locks'], d['comp']))
    return 0 if ok else 1
