#!/usr/bin/env python3
"""neutral.py SPEC.py [NAME...]: writes each behaviour-preserving edit of the spec to
/verif/neutral/NAME.diff after checking that it builds and passes the stable tests."""
import sys, os, subprocess, json, tempfile, shutil, runpy
spec = sys.argv[1]
R = runpy.run_path(spec)['R']
only = sys.argv[2:]
for name, eds in R.items():
    if only and name not in only:
        continue
    w = tempfile.mkdtemp(prefix='neutral.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        ok = True
        for f, old, new in eds:
            p = w + '/repo/' + f
            s = open(p).read() if old else ''
            if old and old not in s:
                print(name, 'NOT FOUND in', f, repr(old[:60])); ok = False; break
            s = s.replace(old, new, 1) if old else new
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(s)
        if not ok:
            continue
        subprocess.run('. /opt/vp/env.sh; cd %s/repo && git ls-files -mo --exclude-standard "*.go" | xargs gofmt -w' % w, shell=True)
        r = subprocess.run('. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; cd %s/repo && go vet ./... && go test ./... 2>&1 | grep -v "no test files"' % w, shell=True, capture_output=True, text=True, executable='/bin/bash')
        if r.returncode or 'FAIL' in r.stdout or r.stderr:
            print(name, 'BUILD/TEST FAIL', r.stdout[-1500:], r.stderr[-1500:]); continue
        subprocess.run('cd %s/repo && git add -AN . && git diff -- "*.go" > /verif/neutral/%s.diff' % (w, name), shell=True, check=True)
        print(name, 'ok')
    finally:
        shutil.rmtree(w)
