#!/usr/bin/env python3
"""plant.py make SPEC.py   write /verif/seeded/<id>/ for every bug of SPEC (a list BUGS)
   plant.py test [ids]     each planted bug: applies, builds, passes the tests, demo works, is caught
"""
import json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOENV='off')
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOWORK=off
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
printf 'module demo\\n\\ngo 1.20\\n\\nrequire github.com/shellyln/takenoco v0.0.0\\n\\nreplace github.com/shellyln/takenoco => %s\\n' "$PWD" > "$d/go.mod"
cp "$here/main.go" "$d/main.go"
cd "$d" && timeout 200 go run %s.
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy_repo():
    d = tempfile.mkdtemp(prefix='plant')
    sh(['cp', '-a', '/repo/.', d])
    return d
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], '/repo').stdout.strip()
    for b in g['BUGS']:
        d = copy_repo()
        try:
            ok = True
            for f, old, new in b['edits']:
                p = os.path.join(d, f)
                s = open(p).read()
                n = b.get('nth', {}).get(f)
                if n is None and s.count(old) != 1:
                    print(b['id'], f, 'occurs', s.count(old), 'times:', old[:60]); ok = False; break
                if n is None:
                    s = s.replace(old, new)
                else:
                    i = -1
                    for _ in range(n + 1):
                        i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                open(p, 'w').write(s)
            if not ok:
                continue
            diff = sh(['git', 'diff'], d).stdout
            blame_ok = False
            for line_file in {f for f, _, _ in b['edits']}:
                bl = sh(['git', 'blame', '-s', 'HEAD', '--', line_file], d).stdout.split('\n')
                import re
                cur = None; ln = 0
                for l in sh(['git', 'diff', '-U0', '--', line_file], d).stdout.split('\n'):
                    m = re.match(r'@@ -(\d+)', l)
                    if m: ln = int(m.group(1)); continue
                    if l.startswith('-') and not l.startswith('---'):
                        if bl[ln-1].startswith('^' + base[:7]): blame_ok = True
                        ln += 1
            if not blame_ok:
                print(b['id'], 'changes no original line')
            o = os.path.join(SEED, b['id'])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.sh', 'w').write(DEMO.replace('%s.', ('-race .' if b.get('race') else '.')))
            os.chmod(o + '/demo.sh', 0o755)
            body = b['demo']
            open(o + '/main.go', 'w').write(body)
            r = sh(['gofmt', '-l', o + '/main.go'])
            if r.stdout.strip(): sh(['gofmt', '-w', o + '/main.go'])
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)
def stable(d):
    # the stable tests, in a copy: test.sh works on /repo, so run go test there directly
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...', './_examples/csv/...', './_examples/formula/...', './_examples/torpn/...'], d)
    res = {}
    for l in r.stdout.split('\n'):
        if l.startswith('{'):
            e = json.loads(l)
            if e.get('Test') and e['Action'] in ('pass', 'fail'):
                res[(e['Package'], e['Test'])] = e['Action']
    return [k for k, v in res.items() if v == 'fail'], len(res), r.returncode
def test(ids, checks=True):
    for i in ids:
        o = os.path.join(SEED, i)
        meta = json.load(open(o + '/meta.json'))
        prop = meta['property']
        msg = []
        d = copy_repo()
        try:
            r = sh(['bash', o + '/demo.sh'], d)
            if r.returncode: msg.append('demo fails on the unchanged tree: ' + r.stdout[-600:])
            r = sh(['git', 'apply', o + '/patch.diff'], d)
            if r.returncode: msg.append('does not apply: ' + r.stdout)
            r = sh(['go', 'build', './...', './_examples/csv/...', './_examples/formula/...', './_examples/torpn/...'], d)
            if r.returncode: msg.append('does not build: ' + r.stdout[-600:])
            f, n, rc = stable(d)
            if f or rc: msg.append('tests fail: %s rc=%d' % (f[:4], rc))
            r = sh(['bash', o + '/demo.sh'], d)
            if r.returncode == 0: msg.append('demo passes with the patch')
        finally:
            shutil.rmtree(d)
        if msg or not checks:
            print(i, prop, 'INVALID' if msg else 'valid', '; '.join(msg)); sys.stdout.flush()
            continue
        try:
            sh(['git', '-C', '/repo', 'apply', o + '/patch.diff'])
            caught = []
            for p in [prop] + meta.get('also', []):
                r = sh(['./check.sh', p], '/verif')
                if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                    caught.append(p)
                    first = [l for l in r.stdout.split('\n') if l.startswith('violated in') or 'crashed' in l][:1]
                else:
                    print(i, p, 'NOT CAUGHT rc=%d' % r.returncode, r.stdout[-300:])
            if caught: print(i, 'caught by', caught, first[0][:110] if first else '')
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        sys.stdout.flush()
if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(SEED))
    test(ids, '-nocheck' not in sys.argv)
