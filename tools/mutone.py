#!/usr/bin/env python3
"""Development tool: mutone.py MUTANTS.jsonl ID...: what each law says about a mutant."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ms = {}
for l in open(sys.argv[1]):
    m = json.loads(l); ms[m['ID']] = m
UC = os.environ.get('UC', '/tmp/uc')
def one(k):
    w, i = k
    m = ms[i]; d = '/tmp/mw/o%d' % w
    if not os.path.isdir(d): subprocess.run(['rsync','-a','--exclude','.git','/repo/',d+'/'])
    f = os.path.join(d, m['File']); src = open('/repo/' + m['File'], 'rb').read()
    open(f, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['End']:])
    r = subprocess.run([UC, 'law', 'C'], env=dict(os.environ, UNLYNX_REPO=d, VERIF_DIR='/verif'), capture_output=True, text=True)
    open(f, 'wb').write(src)
    o = [l[:230] for l in r.stdout.splitlines() if re.match(r'(undecided|violated) C\d', l)]
    return '%d %s:%d %s %s => %s\n   ' % (i, m['File'], m['Line'], m['Func'], m['Old'][:60], m['New'][:60]) + '\n   '.join(o)
ids = list(map(int, sys.argv[2:]))
W = 4
for a in range(0, len(ids), W):
    with ThreadPoolExecutor(W) as ex:
        for s in ex.map(one, list(enumerate(ids[a:a+W]))): print(s)
