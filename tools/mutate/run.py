#!/usr/bin/env python3
"""Runs the checks against mutants, in scratch worktrees below /tmp/mut.

mutate/run.py phase1 MUTANTS OUT    which mutants build and pass the tests
mutate/run.py phase2 OUT RESULTS N [FILTER]  runs the mapped checks on them
"""
import json, os, random, subprocess, sys, threading, queue, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP = [
 ('cmd/ls.go', 'C10 C30 C04 C35'), ('cmd/recon.go', 'C01 C02 C30 C03 C04 C21 C33 C35'), ('cmd/recover.go', 'C14 C11 C13 C12 C30 C35'),
 ('cmd/dump_index.go', 'C29 C30 C04 C35'), ('cmd/identify.go', 'C19 C20 C30 C35'), ('cmd/mount.go', 'C34 C15 C16 C30 C04 C18'),
 ('internal/identify/', 'C19 C20 C21 C30 C35'), ('internal/rescuefs/files.go', 'C16 C15 C17 C21 C18'), ('internal/rescuefs/', 'C15 C16 C17 C18 C21'),
 ('pkg/btrfs/index/index_store.go', 'C06 C05 C28 C27 C08 C09 C29 C10 C01 C02 C15 C33 C07'), ('pkg/btrfs/index/key_format.go', 'C24 C06 C05 C29'),
 ('pkg/btrfs/leaf.go', 'C22 C01 C21'), ('pkg/btrfs/parse_buffer.go', 'C32'), ('pkg/btrfs/slice.go', 'C22 C32'), ('pkg/btrfs/to_string.go', 'C29 C22'),
 ('pkg/btrfs/util.go', 'C30 C20 C21 C01'), ('pkg/btrfs/btrfs.go', 'C22 C24 C31 C01 C10 C11 C15 C08'),
 ('pkg/coding/', 'C26 C19'), ('pkg/ioutil/', 'C25 C21 C01 C19'), ('pkg/uuid/', 'C23 C19 C27'), ('cmd/', 'C30 C01 C10 C19 C29'),
]
def checks(f):
    f = f[len('/repo/'):]
    for p, c in MAP:
        if f.startswith(p): return c.split()
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GODEBUG='randautoseed=0', VERIF_SEED='1')
def wt(i):
    d = '/tmp/mut/%d' % i
    if not os.path.isdir(d):
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run('git checkout -q -f HEAD && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD && git checkout -q -- . && git clean -qfd', shell=True, cwd=d, check=True)
    return d
def apply(d, m):
    p = d + m['File'][len('/repo'):]
    orig = open(p, 'rb').read()
    s = orig[:m['Off']] + m['New'].encode() + orig[m['Off'] + m['Len']:]
    open(p, 'wb').write(s)
    return p, orig
def sh(cmd, d, t, env=ENV):
    p = subprocess.Popen(cmd, shell=True, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGTERM)
        try: p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return 124, 'timeout'
def pool(n, items, fn, out):
    q = queue.Queue()
    for it in items: q.put(it)
    lock = threading.Lock()
    f = open(out, 'a')
    def work(i):
        d = wt(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p, orig = apply(d, m)
            try: r = fn(d, m)
            finally: open(p, 'wb').write(orig)
            with lock:
                f.write(json.dumps(dict(m, **r)) + '\n'); f.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def key(m): return (m['File'], m['Off'], m['Len'], m['New'])
def load(p): return [json.loads(l) for l in open(p)] if os.path.exists(p) else []
def ph1(d, m):
    c, o = sh('timeout 60 go build ./...', d, 90)
    if c: return {'r': 'nobuild'}
    c, o = sh('ulimit -v 16000000; timeout 60 go test -vet=off ./...', d, 90)
    return {'r': 'tests' if c else 'alive'}
def ph2(d, m):
    res = []
    for c in checks(m['File']):
        rc, o = sh('%s/run.sh %s' % (V, c), V, 400, dict(ENV, VERIF_REPO=d))
        if rc == 1 and 'VIOLATION property=' + c in o: return {'killed': c}
        if rc: res.append((c, rc, o[-300:]))
    return {'killed': None, 'odd': res}
if sys.argv[1] == 'phase1':
    done = {key(m) for m in load(sys.argv[3])}
    pool(8, [m for m in load(sys.argv[2]) if key(m) not in done], ph1, sys.argv[3])
else:
    done = {key(m) for m in load(sys.argv[3])}
    ms = [m for m in load(sys.argv[2]) if m['r'] == 'alive' and key(m) not in done and (len(sys.argv) < 6 or sys.argv[5] in m['File'])]
    pool(int(sys.argv[4]), ms, ph2, sys.argv[3])
