#!/usr/bin/env python3
"""Development helper: validates planted bugs (/verif/seeded/<id>) on scratch copies of /repo.

plant.py ID...        validate the bug (applies, builds, passes the stable tests, demo) and run the check of its property
plant.py -c ID...     only run the check on it
plant.py -x ID CHK..  run other checks on it
"""
import json, os, shutil, subprocess, sys

S = '/verif/seeded'
ENV = '. /opt/vp/env.sh; '


def sh(cmd, cwd='/repo', timeout=900, **env):
    e = dict(os.environ, **env)
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, errors='replace')
    return p.returncode, p.stdout


def tests(d):
    rc, _ = sh(ENV + 'go test -json -p 1 -vet=off -count=1 -timeout 10m ./... > gotest.json 2>gotest.err; python3 /opt/vp/results.py out.json gojson:gotest.json', d)
    o = json.load(open(d + '/out.json'))
    for f in ('gotest.json', 'gotest.err', 'out.json'):
        os.remove(os.path.join(d, f))
    b = json.load(open('/opt/vp/BASELINE.json'))
    bp = set(b.get('passed') or b.get('stable') or b.get('tests'))
    return sorted(bp - set(o['passed']))


def one(i, only_check, checks):
    meta = json.load(open(f'{S}/{i}/meta.json'))
    d = f'/tmp/pw-{i}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    out = []
    try:
        rc, o = sh(f'git apply {S}/{i}/patch.diff', d)
        if rc:
            return f'{i}: DOES NOT APPLY {o}'
        rc, o = sh(ENV + 'go build ./...', d)
        if rc:
            return f'{i}: DOES NOT BUILD {o[:800]}'
        if not only_check:
            sh('git stash -q', d)
            rc, o = sh(f'bash {S}/{i}/demo.sh', d)
            if rc:
                out.append(f'demo fails on the unchanged tree: {o[-1500:]}')
            sh('git stash pop -q', d)
            rc, o = sh(f'bash {S}/{i}/demo.sh', d)
            if not rc:
                out.append('demo passes with the patch')
            elif 'build failed' in o or '[setup failed]' in o:
                out.append('demo does not build ' + o[-1500:])
            m = tests(d)
            if m:
                out.append(f'{len(m)} tests fail: {m[:4]}')
        for c in checks or [meta['property']]:
            rc, o = sh(f'./check.sh {c} quick', '/verif', REPO=d)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            ok = rc == 1 and any(f'property={c} ' in l for l in v)
            out.append(f'{c} ' + ('CAUGHT' if ok else f'missed rc={rc} {v[:1]} {o[-300:] if rc not in (0, 1) else ""}'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f'{i}: ' + '; '.join(out)


a = sys.argv[1:]
only = False
checks = []
if a[0] == '-c':
    only, a = True, a[1:]
elif a[0] == '-x':
    only, checks, a = True, a[2:], a[1:2]
for i in a:
    print(one(i, only, checks), flush=True)
sys.exit(0)
