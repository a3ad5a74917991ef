#!/usr/bin/env python3
# seed.py SPEC.py: plants the bugs of a spec file in a scratch worktree of /repo, checks that each builds, passes
# the stable tests and is shown by its demonstration, and keeps it in /verif/seeded/<id>/.
# A spec file calls bug(id, property, [(file, old, new)...], needs, breaks, main_go_body).
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwt'
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
def tests(wt):
    env = 'export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off; '
    r = sh(env + 'go build ./... && go test -json -vet=off -count=1 ./... > /tmp/seed.log; python3 /opt/vp/results.py /tmp/seed.json gojson:/tmp/seed.log', wt)
    if not os.path.exists('/tmp/seed.json'): return 'no results ' + r.stdout
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed.json')); os.remove('/tmp/seed.json')
    def ps(d):
        for k in ('passed', 'stable', 'pass', 'tests'):
            if k in d: return set(d[k])
    m = sorted(ps(b) - ps(o))
    return '' if not m else 'tests fail: %s' % m[:4]
only = sys.argv[2:]
def bug(id, prop, edits, needs, breaks, main, imports=()):
    if only and id not in only: return
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(W, ignore_errors=True)
    sh('rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt')
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.copy(os.path.join(V, 'tools/demo/demo.sh'), tmp); shutil.copy(os.path.join(V, 'tools/demo/lib.go'), tmp)
        with open(os.path.join(tmp, 'main.go'), 'w') as f:
            f.write('package main\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imports) + ')\n\n' + main.strip() + '\n')
        r = sh('export PATH=/opt/veriftools/go1.27.3/bin:$PATH; gofmt -w %s/main.go' % tmp)
        if r.returncode: print(id, 'main.go', r.stdout); return
        r = sh('bash %s/demo.sh' % tmp, W)
        if r.returncode != 0: print(id, 'DEMO FAILS ON THE UNCHANGED TREE', r.returncode, r.stdout[-1500:]); return
        for fn, old, new in edits:
            p = os.path.join(W, fn); s = open(p).read()
            if s.count(old) != 1: print(id, fn, 'old text occurs', s.count(old), 'times'); return
            open(p, 'w').write(s.replace(old, new))
        r = sh('export PATH=/opt/veriftools/go1.27.3/bin:$PATH; gofmt -l ast parser token runes ext log', W)
        diff = sh('git diff', W).stdout
        t = tests(W)
        if t: print(id, 'REFUSED', t); return
        r = sh('bash %s/demo.sh' % tmp, W)
        if r.returncode in (0, 3, 124): print(id, 'DEMO DOES NOT SHOW IT', r.returncode, r.stdout[-1500:]); return
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(id, 'kept;', r.stdout.strip()[:150])
    finally:
        shutil.rmtree(tmp, ignore_errors=True); sh('rm -rf /tmp/seedwt')
exec(open(sys.argv[1]).read())
