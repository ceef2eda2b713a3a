#!/usr/bin/env python3
"""seed.py ID PROPERTY PKGDIR 'needs' 'breaks' DEMO_TEST.go [file:::old:::new ...]
makes a planted bug in /verif/seeded/ID from textual replacements, and tries it"""
import sys, os, subprocess, json, shutil, tempfile
def demo_sh(pkg, core):
    s = '''#!/bin/bash
# exit 0: the property holds here; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
command -v go >/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/m" "$W/tmp"
export TMPDIR="$W/tmp"
'''
    if core:
        s += '''for d in skyobject node data cxoutils; do mkdir -p "$W/m/$d"; cp -r "$PWD/$d/." "$W/m/$d/"; done
find "$W/m" -name '*_test.go' -delete
rm -rf "$W/m/data/tests"
cp -r "$here/deps" "$W/deps"
cp "$here/go.mod.demo" "$W/m/go.mod"
'''
    else:
        s += f'''mkdir -p "$W/m/{pkg}"; cp "$PWD"/{pkg}/*.go "$W/m/{pkg}/"
find "$W/m" -name '*_test.go' -delete
printf 'module github.com/skycoin/cxo\\n\\ngo 1.23\\n' > "$W/m/go.mod"
'''
    s += f'''cp "$here/demo_test.go.txt" "$W/m/{pkg}/demo_test.go"
cd "$W/m" && go test -vet=off -count=1 -timeout 240s -run TestDemo ./{pkg}
'''
    return s
MOD = '''module github.com/skycoin/cxo

go 1.23

require (
	github.com/boltdb/bolt v1.3.1
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
	github.com/DiSiqueira/GoTree v0.0.0
)

replace (
	github.com/boltdb/bolt => ../deps/bolt
	github.com/skycoin/net => ../deps/net
	github.com/skycoin/skycoin => ../deps/skycoin
	github.com/DiSiqueira/GoTree => ../deps/gotree
)
'''
def main():
    id, prop, pkg, needs, breaks, demo = sys.argv[1:7]
    edits = sys.argv[7:]
    core = pkg not in ('node/log', 'skyobject/statutil')
    d = os.environ.get('SEEDOUT', '/verif/seeded') + '/' + id
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        r = w + '/r'
        for e in edits:
            f, old, new = e.split(':::')
            s = open(f'{r}/{f}').read()
            if s.count(old) != 1:
                print('edit does not match once:', s.count(old), old); return 1
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(demo, d + '/demo_test.go.txt')
        open(d + '/demo.sh', 'w').write(demo_sh(pkg, core)); os.chmod(d + '/demo.sh', 0o755)
        if core:
            open(d + '/go.mod.demo', 'w').write(MOD)
            os.makedirs(d + '/deps')
            for x in ('bolt', 'net', 'skycoin', 'gotree'):
                shutil.copytree('/verif/deps/' + x, d + '/deps/' + x)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        print(id, 'clean rc', a.returncode, 'patched rc', b.returncode)
        if a.returncode != 0: print(a.stdout[-1500:], a.stderr[-1500:])
        print((b.stdout + b.stderr)[-700:])
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)
sys.exit(main())
