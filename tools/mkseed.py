#!/usr/bin/env python3
"""mkseed.py ID...: turn tools/seeds/ID.txt into seeded/ID/ and confirm it: the
patch applies to /repo's HEAD, builds, passes the stable tests, and the demo
passes without and fails with it. Works in a scratch worktree."""
import sys, os, re, json, subprocess, tempfile, shutil
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
DEMO = '''#!/bin/sh
# Runs the demonstration test inside the package, through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
o=$(mktemp)
echo "{\\"Replace\\":{\\"$repo/%(dir)szz_demo_verif_test.go\\":\\"$here/demo_test.go\\"}}" > "$o"
HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestDemo' ./%(dir)s
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout + r.stderr
def main():
    for sid in sys.argv[1:]:
        txt = open(f'{ROOT}/tools/seeds/{sid}.txt').read()
        head, test = txt.split('#### test\n')
        meta = dict(re.findall(r'^(\w+): (.*)$', head.split('@@ ')[0], re.M))
        edits = re.findall(r'@@ (\S+)\n<<<<\n(.*?)====\n(.*?)>>>>', head, re.S)
        d = tempfile.mkdtemp(prefix='seed')
        try:
            wt = d + '/wt'
            rc, o = sh(f'git worktree add -q {wt} HEAD', '/repo'); assert rc == 0, o
            out = f'{ROOT}/seeded/{sid}'; os.makedirs(out, exist_ok=True)
            pkg = meta.get('pkg', '')
            open(out + '/demo.sh', 'w').write(DEMO % {'dir': pkg + '/' if pkg else ''}); os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo_test.go', 'w').write(test)
            json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            for _ in range(4):
                rc, o = sh(out + '/demo.sh', wt)
                if rc: break
            if rc: print(sid, 'DEMO FAILS ON CLEAN TREE\n', o[-2500:]); continue
            for f, old, new in edits:
                s = open(wt + '/' + f).read()
                assert s.count(old) == 1, (sid, f, s.count(old), old)
                open(wt + '/' + f, 'w').write(s.replace(old, new))
            rc, o = sh('GOFLAGS=-mod=mod GOPROXY=off go build ./...', wt)
            if rc: print(sid, 'BUILD FAILS\n', o[-1500:]); continue
            base = json.load(open('/opt/vp/BASELINE.json'))
            rc, o = sh('GOFLAGS=-mod=mod GOPROXY=off go test -count=1 ./...', wt)
            if rc: print(sid, 'TESTS FAIL\n', o[-1500:])
            rc, o = sh(out + '/demo.sh', wt)
            if rc == 0: print(sid, 'DEMO PASSES WITH THE PATCH'); continue
            fail = [l for l in o.split('\n') if 'zz_demo' in l or 'demo_test' in l][:3]
            rc, diff = sh('git diff', wt)
            open(out + '/patch.diff', 'w').write(diff)
            v = d + '/v'; os.makedirs(v); shutil.copy(ROOT + '/known-findings.json', v)
            r = subprocess.run([ROOT + '/.bin/sojucheck', '-property', 'all', '-repo', wt, '-verif', v], capture_output=True, text=True)
            fired = re.findall(r'VIOLATION property=(\w+)', r.stdout)
            print(sid, 'ok; demo says', fail, '; caught' if meta['property'] in fired else '; MISSED', fired)
        finally:
            sh(f'git worktree remove --force {d}/wt', '/repo'); shutil.rmtree(d, ignore_errors=True)
main()
