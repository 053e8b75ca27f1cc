#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions of tools/bugs.py and confirms each one in a scratch copy of /repo:
applies, builds, demo passes without and fails with it, stable tests pass with it.
usage: seed.py [id ...]   (no id: every bug that has no folder yet)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from bugs import BUGS, HELPERS

DEMO = '''#!/bin/bash
# Runs the demonstration beside this file as an in-package test of /repo (through an overlay).
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; cd "$R"; fi
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$R" "$D" > "$W/overlay.json"
timeout 280 go test -overlay "$W/overlay.json" -vet=off -count=1 %(flags)s-run '^TestDemo$' ./%(pkg)s > "$W/log" 2>&1
RC=$?
tail -20 "$W/log"
exit $RC
'''

def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)

ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off')

def main():
    ids = sys.argv[1:]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for b in BUGS:
        d = os.path.join(ROOT, 'seeded', b['id'])
        if (ids and b['id'] not in ids) or (not ids and os.path.exists(d)):
            continue
        w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        try:
            sh('git worktree prune; git clone -q /repo %s/repo && cp /opt/vp/mk-lattigo.* %s/' % (w, w), '/repo')
            r = w + '/repo'
            for path, old, new in b['edits']:
                s = open(r + '/' + path).read()
                assert s.count(old) >= 1, (b['id'], path, old)
                n = b.get('count', 1)
                assert s.count(old) == n, (b['id'], path, old, s.count(old))
                open(r + '/' + path, 'w').write(s.replace(old, new))
            patch = sh('git diff', r).stdout
            sh('git checkout -- .', r)
            out = w + '/out'
            os.makedirs(out)
            open(out + '/patch.diff', 'w').write(patch)
            open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], flags=b.get('flags', '')))
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo_test.go', 'w').write(HELPERS[b['pkg']].replace('import (\n', 'import (\n' + b.get('imports', ''), 1) + b['demo'])
            sh('gofmt -w demo_test.go', out, ENV)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            # demos and tests run against the copy: env.sh names /repo, hence an edited copy of it
            envsh = open('/opt/vp/env.sh').read().replace('/opt/vp/mk-lattigo.mod', w + '/mk-lattigo.mod').replace('cp /repo/go.mod', 'cp %s/go.mod' % r).replace('cd /repo', 'cd ' + r)
            open(w + '/env.sh', 'w').write(envsh)
            demo = open(out + '/demo.sh').read().replace('/opt/vp/env.sh', w + '/env.sh').replace('$(cd "$(dirname "$0")" && pwd)', out)
            open(w + '/demo.sh', 'w').write(demo)
            a = sh('bash %s/demo.sh' % w, r)
            if a.returncode != 0:
                print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n' + a.stdout[-1500:]); continue
            p = sh('git apply %s/patch.diff' % out, r)
            if p.returncode:
                print(b['id'], 'PATCH', p.stdout); continue
            c = sh('. %s/env.sh; go build ./...' % w, r)
            if c.returncode:
                print(b['id'], 'BUILD', c.stdout); continue
            a = sh('bash %s/demo.sh' % w, r)
            if a.returncode == 0:
                print(b['id'], 'DEMO PASSES WITH THE BUG\n' + a.stdout[-1500:]); continue
            t = sh('. %s/env.sh; go test -json -vet=off -count=1 -timeout 10m -p 1 $(go list -e ./... | grep -v "^mk-lattigo/cnn$") > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log' % (w, w, w, w), r)
            passed = json.load(open(w + '/res.json'))['passed']
            missing = [s for s in stable if s not in passed]
            if missing:
                print(b['id'], 'TESTS FAIL', missing[:5], t.stdout[-300:]); continue
            if os.path.exists(d):
                shutil.rmtree(d)
            shutil.copytree(out, d)
            print(b['id'], 'ok:', a.stdout.strip().split('\n')[-3:][0][:150], flush=True)
        finally:
            shutil.rmtree(w)

main()
