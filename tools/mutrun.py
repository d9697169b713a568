#!/usr/bin/env python3
"""Development tool: mutrun.py MUTANTS.jsonl OUT.jsonl N [seed] [workers] [regex on File]: tries N random mutants in scratch copies."""
import json, os, random, re, subprocess, sys, shutil, threading, queue, time
muts = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], 'a')
n = int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
W = int(sys.argv[5]) if len(sys.argv) > 5 else 4
if len(sys.argv) > 6:
    muts = [m for m in muts if re.search(sys.argv[6], m['File'])]
random.Random(seed).shuffle(muts)
muts = muts[:n]
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
UC = os.environ.get('UC', '/tmp/uc')
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GO111MODULE='on', CGO_ENABLED='0', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'])
def work(w):
    d = '/tmp/mw/%d' % w
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo/', d + '/'], check=False) if shutil.which('rsync') else shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    v = '/tmp/mw/v%d' % w
    os.makedirs(v + '/evidence', exist_ok=True)
    if not os.path.islink(v + '/laws'): os.symlink('/verif/laws', v + '/laws')
    shutil.copy('/verif/known_findings.txt', v)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = os.path.join(d, m['File']); src = open(f, 'rb').read()
        new = src[:m['Off']] + m['New'].encode() + src[m['End']:]
        open(f, 'wb').write(new)
        try:
            b = subprocess.run(['go', 'build', './lib/...', './protocols/...', './services/...'], cwd=d, env=env, capture_output=True, text=True)
            if b.returncode: continue
            t = time.time()
            try:
                r = subprocess.run([UC, 'all'], env=dict(env, UNLYNX_REPO=d, VERIF_DIR=v), capture_output=True, text=True, timeout=300)
                o = r.stdout
                m['by'] = sorted(set(re.findall(r'VIOLATION property=(\w+)', o)))
                m['rc'] = r.returncode
                if r.returncode not in (0, 1): m['err'] = (r.stdout + r.stderr)[-600:]
                m['why'] = [l[:300] for l in o.splitlines() if re.match(r'\s*(violation|VIOLATION|bad)', l)][:6]
            except subprocess.TimeoutExpired:
                m['by'] = ['TIMEOUT']; m['rc'] = -1
            m['t'] = round(time.time() - t, 1)
            with lock:
                out.write(json.dumps(m) + '\n'); out.flush()
        finally:
            open(f, 'wb').write(src)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
