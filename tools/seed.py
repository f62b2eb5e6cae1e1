#!/usr/bin/env python3
# seed.py SPECFILE...: build /verif/seeded/<id>/ from a spec and confirm each in
# a scratch copy. A spec file calls seed(id, property, edits, needs, breaks, demo)
# edits: list of (file, old, new); demo: body of func TestDemo(t *testing.T)
import sys, os, subprocess, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)
only = None
args = sys.argv[1:]
if '-only' in args:
    i = args.index('-only'); only = args[i+1]; del args[i:i+2]
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
TMPDIR="$T" go test RACE-vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' . 
'''
def sh(cmd, cwd, timeout=400):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, executable='/bin/bash')
    return r.returncode, r.stdout.decode(errors='replace')
W = '/tmp/seedwt'
def stable(wt):
    rc, out = sh('. /opt/vp/env.sh; go test -vet=off -count=1 -timeout 120s -json ./... ', wt)
    failed = [json.loads(l)['Test'] for l in out.splitlines() if l.startswith('{') and '"Action":"fail"' in l and '"Test"' in l]
    return rc, failed, out
def seed(id, prop, edits, needs, breaks, demo, imports=('testing',), race=False, decls=''):
    if only and only not in id: return
    d = V + '/seeded/' + id
    if os.path.exists(W): shutil.rmtree(W)
    sh('cp -a /repo ' + W, '/')
    sh('git checkout -q -- . && git clean -qfd', W)
    for f, old, new in edits:
        p = W + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print('SEED', id, 'old text occurs', s.count(old), 'times in', f); return
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', W)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    imps = set(imports) | {'testing'}
    open(d + '/demo_test.go', 'w').write('package jsonutils\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(imps)) + ')\n\n' + decls + '\nfunc TestDemo(t *testing.T) {\n' + demo.strip('\n') + '\n}\n')
    sh('. /opt/vp/env.sh; gofmt -w demo_test.go', d)
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('RACE', '-race ' if race else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = sh('. /opt/vp/env.sh; go build ./... && go vet . 2>/dev/null; go build ./...', W)
    if rc: print('SEED', id, 'does not build', out[:500]); return
    rc, failed, out = stable(W)
    if rc: print('SEED', id, 'breaks existing tests', failed, out[-300:] if not failed else ''); return
    rc1, o1 = sh(d + '/demo.sh', '/repo')
    rc2, o2 = sh(d + '/demo.sh', W)
    if rc1 != 0: print('SEED', id, 'demo fails on the unchanged tree', o1[-800:]); return
    if rc2 == 0: print('SEED', id, 'demo passes with the patch'); return
    print('seed', id, 'ok')
for f in args:
    exec(open(f).read())
if os.path.exists(W): shutil.rmtree(W)
