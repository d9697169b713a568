#!/usr/bin/env python3
"""Development tool: refmk.py FILE.py: each entry (name, file, [(old,new)...]) becomes a behaviour-preserving diff in tools/refactors/."""
import subprocess, sys, os
R = '/tmp/w/repo'
ns = {}
exec(open(sys.argv[1]).read(), ns)
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GO111MODULE='on', CGO_ENABLED='0', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'])
for name, edits in ns['R']:
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    ok = True
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) != 1: print(name, 'MATCH', s.count(old), old[:60]); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if ok:
        b = subprocess.run(['go', 'build', './...'], cwd=R, env=env, capture_output=True, text=True)
        if b.returncode: print(name, 'BUILD', b.stderr[:400]); ok = False
    if ok:
        d = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        open('/verif/tools/refactors/%s.diff' % name, 'w').write(d)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
