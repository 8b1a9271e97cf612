#!/usr/bin/env python3
"""Try planted bugs against the working tree, one at a time, undoing each:
   tools/bug.py [-t] [-c C01,C05] ID...     -t: run the repository's stable tests too;  -c: checks to run (default: the bug's own)"""
import sys, os, json, subprocess, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


args, tests, checks = sys.argv[1:], False, None
while args and args[0].startswith('-'):
    a = args.pop(0)
    if a == '-t':
        tests = True
    if a == '-c':
        checks = args.pop(0).split(',')
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
base = {k for k in json.load(open('/opt/vp/BASELINE.json')).get('stable', [])} if tests else set()
for i in args:
    d = f'{ROOT}/seeded/{i}'
    meta = json.load(open(f'{d}/meta.json'))
    out = [i]
    out.append('demo-clean=%d' % sh(f'bash {d}/demo.sh', cwd='/repo').returncode)
    try:
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr)
            continue
        out.append('demo-bug=%d' % sh(f'bash {d}/demo.sh', cwd='/repo').returncode)
        if tests:
            o = tempfile.mktemp(suffix='.json')
            sh(f'bash /opt/vp/build.sh && bash /opt/vp/test.sh {o}')
            res = json.load(open(o))
            os.remove(o)
            bad = [k for k in (res.get('failed') or []) if k in base]
            out.append(f"tests passed={len(res.get('passed', []))} stable-failed={bad[:4]}")
        for c in checks or [meta['property']]:
            t = time.time()
            r = sh(f'{ROOT}/bin/check {c} quick', cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            cl = sorted({x for l in v for x in l.split('clauses=')[1].split()[0].split(',')})
            out.append(f'{c}: rc={r.returncode} {len(v)} kinds {",".join(cl)[:150]} ({time.time() - t:.0f}s)' + ('' if r.returncode in (0, 1) else r.stdout[-800:]))
    finally:
        sh('git -C /repo checkout -- .')
    print(' | '.join(out), flush=True)
