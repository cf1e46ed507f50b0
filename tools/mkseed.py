#!/usr/bin/env python3
"""mkseed.py FILE.py...: makes and validates a planted bug from FILE.py (prop, needs, breaks, edits, pkg, demo)"""
import json, os, re, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'cd /; rm -rf "$t"' EXIT
export TMPDIR="$t" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
%s
printf '{"Replace":{%%s"%%s":"%%s"}}' "$hide" "$PWD/%szz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestDemo$' ./%s > "$t/out" 2>&1
rc=$?
tail -30 "$t/out"
exit $rc
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    i = os.path.basename(f)[:-3]
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['cp', '-a', '/repo/.', w], check=True)
    def sh(c, cwd=w, **k): return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)
    ok = True
    for (p, a, b) in g['edits']:
        s = open(os.path.join(w, p)).read()
        if s.count(a) != 1:
            print(i, 'edit matches', s.count(a), p, repr(a)[:80]); ok = False
        open(os.path.join(w, p), 'w').write(s.replace(a, b))
    if not ok: shutil.rmtree(w); continue
    print(sh('gofmt -l .').stdout.strip())
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    pkg = g.get('pkg', '')
    open(d + '/demo_test.go', 'w').write(g['demo'].lstrip())
    hide = 'hide=""; for f in "$PWD"/%s*_test.go; do [ -e "$f" ] && hide="$hide\\"$f\\":\\"\\","; done' % (pkg + '/' if pkg else '')
    open(d + '/demo.sh', 'w').write(DEMO % (hide, pkg + '/' if pkg else '', pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    b = sh('bash %s/demo.sh' % d)
    # original lines?
    blame = []
    for m in re.finditer(r'^--- a/(\S+)$', open(d + '/patch.diff').read(), re.M):
        blame.append(m.group(1))
    bl = sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...')
    t = sh('for p in . inject cache/... params sessions/... utils/... ; do :; done; go test -vet=off ./... 2>&1 | grep -E "^(--- FAIL|FAIL|ok|panic)"', cwd=w)
    t0 = sh('go test -vet=off ./... 2>&1 | grep -E "^(--- FAIL)" | sort', cwd='/repo')
    fa = sorted(re.sub(r' \(.*', '', l) for l in t0.stdout.splitlines()); fb = sorted(re.sub(r' \(.*', '', l) for l in t.stdout.splitlines() if l.startswith('--- FAIL'))
    good = a.returncode == 0 and b.returncode != 0 and bl.returncode == 0 and fa == fb
    print(i, 'OK' if good else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'build', bl.returncode, 'newfails', set(fb) - set(fa))
    if not good:
        print(a.stdout[-1500:] if a.returncode else b.stdout[-800:], bl.stderr[-500:])
    shutil.rmtree(w)
