#!/usr/bin/env python3
"""mkseed.py SPEC.py... : make and validate planted bugs.
A SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG (package of the demo test, or "") and
DEMO (Go test source) or SH (the text of demo.sh), FILES={name: text}.
Works in scratch copies of /repo; writes /verif/seeded/ID only when the bug compiles, passes the stable tests,
and the demonstration passes without it and fails with it."""
import os, subprocess, sys, tempfile, shutil, json

ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', CGO_ENABLED='1',
           PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
GOSH = '''#!/bin/bash
# Runs the Go test beside this file in package %(pkg)s of the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off HOME=/root
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -count=1 %(flags)s -vet=off -overlay "$t/overlay.json" -run 'TestZZDemo' ./%(pkg)s
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tests(repo):
    for f in ('sqlite3def', 'sqlite3def_test', 'schema.sql'):
        if os.path.exists(repo + '/cmd/sqlite3def/' + f): os.remove(repo + '/cmd/sqlite3def/' + f)
    env = dict(ENV, PATH=repo + '/cmd/sqlite3def:' + ENV['PATH'])
    o = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './cmd/sqlite3def', './sqlparser/...'], cwd=repo, env=env, stdout=subprocess.PIPE, text=True)
    passed = set()
    for line in o.stdout.splitlines():
        try: e = json.loads(line)
        except Exception: continue
        if e.get('Test') and e['Action'] == 'pass': passed.add(e['Package'] + '/' + e['Test'])
    return passed & set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def main(path):
    spec = {}
    exec(open(path).read(), spec)
    sid = spec['ID']
    out = '/verif/seeded/' + sid
    scratch = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        a, b = scratch + '/a', scratch + '/b'
        subprocess.check_call(['cp', '-a', '/repo', a]); subprocess.check_call(['cp', '-a', '/repo', b])
        for f, old, new in spec['EDITS']:
            s = open(b + '/' + f).read()
            if s.count(old) != 1:
                print(sid, 'EDIT matches', s.count(old), 'times:', f, repr(old[:60])); return False
            open(b + '/' + f, 'w').write(s.replace(old, new))
        files = [e[0] for e in spec['EDITS'] if e[0].endswith('.go')]
        fmt = run(['gofmt', '-l'] + files, b).stdout.strip()
        if fmt: print(sid, 'gofmt:', fmt)
        patch = run(['git', 'diff'], b).stdout
        d = scratch + '/demo'; os.makedirs(d)
        if 'DEMO' in spec:
            open(d + '/demo.sh', 'w').write(GOSH % {'pkg': spec['PKG'], 'flags': spec.get('FLAGS', '')})
            open(d + '/demo_test.go.txt', 'w').write(spec['DEMO'].lstrip())
        else:
            open(d + '/demo.sh', 'w').write(spec['SH'].lstrip())
        for n, t in spec.get('FILES', {}).items():
            open(d + '/' + n, 'w').write(t.lstrip() if isinstance(t, str) else t)
        os.chmod(d + '/demo.sh', 0o755)
        for r in (a, b):
            o = run(['go', 'build', './...'], r)
            if o.returncode: print(sid, 'does not build', o.stdout[:2000]); return False
        o = run(['bash', d + '/demo.sh'], a)
        if o.returncode: print(sid, 'demo FAILS on the unchanged tree\n', o.stdout[-3000:]); return False
        o = run(['bash', d + '/demo.sh'], b)
        if o.returncode == 0: print(sid, 'demo PASSES with the change\n', o.stdout[-2000:]); return False
        tail = o.stdout.strip().splitlines()[-6:]
        ok, passed = tests(a), tests(b)
        broken = ok - passed
        if broken: print(sid, 'existing tests fail:', sorted(broken)[:5]); return False
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        print(sid, 'OK', '| '.join(tail)[:300])
        return True
    finally:
        subprocess.call(['chmod', '-R', 'u+w', scratch]); shutil.rmtree(scratch, ignore_errors=True)

sys.exit(0 if all([main(p) for p in sys.argv[1:]]) else 1)
