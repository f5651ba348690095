#!/usr/bin/env python3
"""mkseed.py SPEC...: builds /verif/seeded/<id>/ from a spec file.

A spec file holds '@@ key' sections: id, property, needs, breaks, pkg
(replication or .), then pairs 'edit FILE' with OLD / '====' / NEW, and
'test' (body of a Go test file, package clause added). The seed is kept only
if it applies, builds, passes the stable tests, and its demo tells the
patched tree from the unpatched one."""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property's demonstration passes on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
R=$(pwd)
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$S"' EXIT
export GOFLAGS=-mod=mod
cp "$R/go.mod" "$S/m.mod"; cp "$R/go.sum" "$S/m.sum"
mkdir -p "$S/stub/log"
cp "$D/stub_log.txt" "$S/stub/log/log.go"
printf 'module github.com/Breeze0806/go\\n\\ngo 1.11\\n' > "$S/stub/go.mod"
printf '\\nreplace github.com/Breeze0806/go => %%s\\n' "$S/stub" >> "$S/m.mod"
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(dir)szz_demo_test.go" "$S/demo_test.go" > "$S/ov.json"
cp "$D/demo_test.txt" "$S/demo_test.go"
%(hide)s
timeout 250 go test -vet=off -count=1 %(race)s -modfile "$S/m.mod" -overlay "$S/ov.json" -run 'TestSeeded' ./%(dir)s > "$S/out" 2>&1
rc=$?
tail -30 "$S/out"
exit $rc
'''

def parse(path):
    d, edits, key, buf = {}, [], None, []
    def flush():
        if key is None: return
        t = ''.join(buf)
        if key.startswith('edit '):
            old, new = t.split('====\n', 1)
            edits.append((key[5:].strip(), old.rstrip('\n'), new.rstrip('\n')))
        else:
            d[key] = t.strip('\n')
    for line in open(path):
        if line.startswith('@@ '):
            flush(); key, buf = line[3:].strip(), []
            if ':' in key and not key.startswith('edit '):
                k, v = key.split(':', 1); d[k] = v.strip(); key = None
        else:
            buf.append(line)
    flush()
    return d, edits

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def build(path):
    d, edits = parse(path)
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1:
                return f"{d['id']}: edit of {f} matches {s.count(old)} times"
            open(p, 'w').write(s.replace(old, new))
        diff = run('git diff', r).stdout
        env = '. /opt/vp/env.sh; '
        b = run(env + 'go build ./replication/... && gofmt -l *.go replication/*.go', r, executable='/bin/bash')
        if b.returncode: return d['id'] + ': does not build\n' + b.stderr
        t = run(env + 'go test -vet=off -count=1 ./replication/... 2>&1 | tail -30', r, executable='/bin/bash')
        if 'FAIL' in t.stdout: return d['id'] + ': tests fail\n' + t.stdout
        s = os.path.join(V, 'seeded', d['id'])
        shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
        open(s + '/patch.diff', 'w').write(diff)
        dr = '' if d['pkg'] == '.' else d['pkg'] + '/'
        hide = ''
        if d['pkg'] == '.':
            # the root tests start with the package's own; they stay
            hide = ''
        open(s + '/demo.sh', 'w').write(DEMO % dict(dir=dr, hide=hide, race='-race' if d.get('race') else ''))
        os.chmod(s + '/demo.sh', 0o755)
        pk = 'gobinlog' if d['pkg'] == '.' else 'replication'
        body = d['test']
        extra = ''
        for inc in d.get('include', '').split():
            extra += open(os.path.join(os.path.dirname(os.path.abspath(path)), inc)).read()
        open(s + '/demo_test.txt', 'w').write('package ' + pk + '\n\n' + extra + '\n' + body)
        shutil.copy(V + '/stubs/breeze-go/log/log.go', s + '/stub_log.txt')
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(s + '/meta.json', 'w'), indent=1)
        bad = run(s + '/demo.sh', r)
        run('git checkout -- .', r)
        good = run(s + '/demo.sh', r)
        if good.returncode != 0: return d['id'] + ': demo fails on the clean tree\n' + good.stdout[-2500:]
        if bad.returncode == 0: return d['id'] + ': demo passes with the change'
        if 'FAIL: TestSeeded' not in bad.stdout and 'panic' not in bad.stdout and 'DATA RACE' not in bad.stdout:
            return d['id'] + ': demo fails oddly\n' + bad.stdout[-2500:]
        return d['id'] + ': ok'
    finally:
        shutil.rmtree(tmp)

for p in sys.argv[1:]:
    print(build(p), flush=True)
