"""plant(id, prop, pkg, subs, demo, needs, breaks): makes and confirms a planted bug in a scratch copy of /repo."""
import subprocess, json, os, shutil, sys
DEMO = '''#!/bin/bash
# runs demo_test.go inside package %(pkg)s of the repository (cwd)
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
cd "$repo" || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
export DEMO_DIR="$t" DEMO_SRC="$d"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
S = '/tmp/plant_scratch'
def sh(cmd, cwd=S):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)
def plant(id, prop, pkg, subs, demo, needs, breaks, files=()):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go', 'w').write(demo)
    for x in files: shutil.copy(x, d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(S, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', S])
    sh('git checkout -q -- . ')
    r = sh('bash %s/demo.sh' % d)
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN', r.stdout[-1500:], r.stderr[-1500:]); return
    for f, a, b in subs:
        p = S + '/' + f; s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    r = sh('source /opt/vp/env.sh; cd %s && go build ./... && go vet ./netcdf/cdf ./netcdf/hdf5 ./internal ./netcdf/util' % S)
    if 'no-build' in r.stderr or sh('source /opt/vp/env.sh; cd %s && go build ./...' % S).returncode: print(id, 'BUILD', r.stderr); return
    r = sh('bash %s/demo.sh' % d)
    if r.returncode == 0: print(id, 'DEMO DOES NOT FAIL WITH PATCH', r.stdout); return
    out = r.stdout[-600:]
    r = sh('source /opt/vp/env.sh; cd %s && go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/plant_log.json 2>/dev/null; python3 /opt/vp/results.py /tmp/o.json gojson:/tmp/plant_log.json; python3 /verif/tools/cmp.py' % S)
    ok = r.stdout.strip().endswith('set()')
    shutil.rmtree(S, ignore_errors=True)
    print(id, 'OK' if ok else 'FAILS EXISTING TESTS ' + r.stdout, '|', out.strip().splitlines()[:4])
