#!/usr/bin/env python3
"""Test the checks with small systematic changes to the library.
mutants.py LANE/LANES OUT SEED FILE... -- for every mutant of the files that builds and passes the stable tests, run
the checks of that file (private mount namespace, like try.sh) and append a line to OUT."""
import json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = {
    'ds/deque': 'C01 C27 C06 C26 C30', 'ds/vector': 'C02 C27 C08 C26', 'ds/array': 'C03 C27', 'ds/slice': 'C03 C22 C27',
    'ds/list/bidlist': 'C04 C27 C06', 'ds/list/simplelist': 'C05 C27', 'ds/queue': 'C06 C35 C39', 'ds/stack': 'C07 C35 C39',
    'ds/priorityqueue': 'C08 C34 C39', 'algorithm/sort/next': 'C24', 'algorithm/sort/nth': 'C25', 'algorithm/sort/search': 'C23', 'algorithm/sort/': 'C22', 'algorithm/hash': 'C40', 'ds/heap': 'C09 C08', 'ds/rbtree': 'C10 C11 C12 C13 C27',
    'ds/map/map.go': 'C12 C32 C39 C29', 'ds/map/multimap': 'C13 C32 C39 C29', 'ds/map/': 'C12 C13 C27',
    'ds/set/set.go': 'C14 C15 C33 C39 C29', 'ds/set/multiset': 'C16 C33 C39 C29', 'ds/set/': 'C14 C16 C27',
    'ds/skiplist': 'C17 C36 C39 C29', 'ds/hamt': 'C18 C37 C39 C29', 'ds/bitmap': 'C19', 'ds/bloomfilter': 'C20 C38 C39',
    'ds/ketama': 'C21 C38 C39', 'algorithm/': 'C26', 'utils/comparator': 'C28', 'utils/hash': 'C40', 'utils/iterator': 'C29 C26 C27', 'utils/visitor': 'C29',
    'utils/sync': 'C32',
}


def checks(f):
    for k, v in CH.items():
        if f.startswith(k):
            return v.split()
    return []


def main():
    lane, lanes = map(int, sys.argv[1].split('/'))
    out, seed, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
    r = subprocess.run(['go', 'run', './cmd/mutate'] + ['/repo/' + f for f in files], cwd=V + '/harness', env=env,
                       capture_output=True, text=True, check=True)
    ms = [json.loads(l) for l in r.stdout.splitlines()]
    flt = os.environ.get('FILTER')
    if flt:
        ms = [m for m in ms if re.search(flt, m['what'])]
    random.Random(seed).shuffle(ms)
    frac = float(os.environ.get('FRACTION', '1'))
    ms = ms[:int(len(ms) * frac + 0.5)]
    d = tempfile.mkdtemp(prefix='mut_')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    os.mkdir(d + '/ev')
    orig = {f: open('/repo/' + f, 'rb').read() for f in files}
    for m in ms[lane::lanes]:
        f = m['file'][len('/repo/'):]
        src = orig[f]
        new = src[:m['at']] + m['text'].encode() + src[m['end']:]
        open(d + '/repo/' + f, 'wb').write(new)
        try:
            b = subprocess.run('go build ./...', shell=True, cwd=d + '/repo', env=env, capture_output=True)
            if b.returncode:
                continue
            try:
                t = subprocess.run(['go', 'test', '-timeout', '20s', './...'], cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=60)
                if t.returncode:
                    continue
            except subprocess.TimeoutExpired:
                continue
            res = []
            for p in checks(f):
                c = subprocess.run(['unshare', '-Urm', 'bash', '-c',
                                    'mount --bind %s/repo /repo && mount --bind %s/ev %s/evidence && exec timeout 300 python3 %s/bin/check.py %s quick'
                                    % (d, d, V, V, p)], capture_output=True, text=True)
                res.append((p, c.returncode))
                if c.returncode == 1:
                    break
            line = src[:m['at']].count(b'\n')
            rec = dict(file=f, line=m['line'], what=m['what'], src=src.split(b'\n')[line].decode().strip(), res=res,
                       caught=any(x[1] == 1 for x in res), at=m['at'], end=m['end'], text=m['text'])
            with open(out, 'a') as o:
                o.write(json.dumps(rec) + '\n')
        finally:
            open(d + '/repo/' + f, 'wb').write(src)
    shutil.rmtree(d)


main()
