#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: verify planted bugs in a scratch copy and save those that hold up in /verif/seeded.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)],
pkg (directory of the package under the overlay test), demo (Go test source), race (bool).
"""
import json, os, shutil, subprocess, sys, importlib.util

ENV = dict(os.environ)
for line in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.splitlines():
    k, _, v = line.partition('=')
    ENV[k] = v
ENV['GOFLAGS'] = '-mod=readonly'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', []))) if os.path.exists('/opt/vp/BASELINE.json') else set()

DEMO = '''#!/bin/bash
# Runs demo_test.go.txt inside the package through a build overlay; nothing is written in the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)szz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout %(timeout)s%(race)s -run '^TestSeededDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def tests_ok(copy):
    r = sh(['go', 'test', '-vet=off', '-count=1', '-timeout', '10m', './...'], copy)
    return r.returncode == 0, r.stdout[-3000:] + r.stderr[-2000:]

def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    root = '/tmp/plantwork'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    copy = root + '/repo'
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    for b in m.BUGS:
        if want and b['id'] not in want: continue
        if not want and os.path.exists('/verif/seeded/' + b['id']): continue
        d = root + '/' + b['id']
        os.makedirs(d)
        pkg = b.get('pkg', '')
        if pkg and not pkg.endswith('/'): pkg += '/'
        if 'demo_sh' in b:
            open(d + '/demo.sh', 'w').write(b['demo_sh'])
        else:
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, race=' -race' if b.get('race') else '', timeout=b.get('timeout', '120s')))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in b: open(d + '/demo_test.go.txt', 'w').write(b['demo'].lstrip('\n'))
        for fn, txt in b.get('files', {}).items(): open(d + '/' + fn, 'w').write(txt)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh(['git', 'checkout', '--', '.'], copy)
        r = sh(['bash', d + '/demo.sh'], copy)
        if r.returncode != 0:
            print(b['id'], 'REJECT: demo fails on the unchanged tree\n', (r.stdout + r.stderr)[-1500:]); continue
        bad = False
        for f, old, new in b['edits']:
            p = copy + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'REJECT: edit matches', s.count(old), 'times in', f, repr(old[:60])); bad = True; break
            open(p, 'w').write(s.replace(old, new))
        if bad: continue
        r = sh(['gofmt', '-l'] + sorted({f for f, _, _ in b['edits']}), copy)
        if r.stdout.strip(): print(b['id'], 'note: gofmt', r.stdout.strip())
        r = sh(['go', 'vet', './...'], copy)
        r = sh(['go', 'build', './...'], copy)
        if r.returncode != 0:
            print(b['id'], 'REJECT: does not build\n', r.stderr[-1500:]); continue
        ok, out = tests_ok(copy)
        if not ok:
            print(b['id'], 'REJECT: tests fail\n', '\n'.join(l for l in out.splitlines() if 'FAIL' in l or 'panic' in l)[:800]); continue
        for i in range(b.get('reps', 3)):
            r = sh(['bash', d + '/demo.sh'], copy)
            if r.returncode == 0: break
        if r.returncode == 0:
            print(b['id'], 'REJECT: demo passes with the change'); continue
        diff = sh(['git', 'diff', '--', '.', ':!go.sum'], copy).stdout
        open(d + '/patch.diff', 'w').write(diff)
        dst = '/verif/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b['id'], 'SAVED;', 'demo said:', ' | '.join((r.stdout + r.stderr).strip().splitlines()[:2])[:160])
    shutil.rmtree(root, ignore_errors=True)
main()
