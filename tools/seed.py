#!/usr/bin/env python3
"""tools/seed.py SPEC.py : plant a bug, confirm it (builds, tests pass, demo fails with / passes without), store under seeded/."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = '/verif'
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
DEMO = '''#!/bin/bash
# exit 0 when the demonstration test passes, nonzero when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
cat > "$w/o.json" <<E
{"Replace":{"$PWD/%(pkg)s/zz_demo_test.go":"$d/demo_test.go"}}
E
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 200 go test -overlay "$w/o.json" -vet=off -count=1 -run '^TestDemo$' ./%(pkg)s
r=$?
rm -f "$w/o.json"
rmdir "$w"
exit $r
'''
for b in spec['BUGS']:
    out = '%s/seeded/%s' % (V, b['id'])
    r = tempfile.mkdtemp(prefix='seed_')
    try:
        run('cp -a /repo %s/r' % r, '/')
        R = r + '/r'
        run('git checkout -q -- .', R)
        for f, o, n in b['edits']:
            s = open(R + '/' + f).read()
            assert s.count(o) >= 1, (b['id'], 'pattern not found', f, o)
            k = b.get('nth', 0)
            parts = s.split(o)
            s = o.join(parts[:k+1]) + n + o.join(parts[k+1:])
            open(R + '/' + f, 'w').write(s)
        diff = run('git diff', R).stdout
        x = run('go build ./... && go test ./... 2>&1', R, env=env)
        if x.returncode != 0:
            print(b['id'], 'REJECTED: build or tests fail'); print(x.stdout[-800:]); continue
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        pn = {'.': 'llx'}.get(b['pkg'], b['pkg'].split('/')[-1])
        open(out + '/demo_test.go', 'w').write((b['demo'] if b['demo'].lstrip().startswith('package') else 'package %s_test\n' % pn + b['demo']))
        open(out + '/demo.sh', 'w').write(DEMO % b)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        x1 = run([out + '/demo.sh'], R, env=env)
        run('git checkout -q -- .', R)
        x0 = run([out + '/demo.sh'], R, env=env)
        if x0.returncode != 0 or x1.returncode == 0:
            print(b['id'], 'REJECTED: demo base', x0.returncode, 'patched', x1.returncode); print(x0.stdout[-1500:] if x0.returncode else x1.stdout[-800:])
            shutil.rmtree(out); continue
        print(b['id'], 'kept')
        if '-c' in sys.argv:
            run('git apply %s/patch.diff' % out, R)
            x = run([V + '/check.py', b['property']], V, env=dict(env, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
            print('   check exit', x.returncode, x.stdout.strip().split('\n')[-1][:300])
            for l in x.stdout.split('\n'):
                if l.startswith('undischarged'): print('     ', l[:200]); break
    finally:
        shutil.rmtree(r, ignore_errors=True)
