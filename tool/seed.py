#!/usr/bin/env python3
"""development helper: makes and tries planted changes.
   seed.py try ID...   apply the patch to /repo, build, run tests and demo, run the check, undo"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd is /repo; compiles and runs demo.cpp against its sources
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$t"' EXIT
g++-9 -std=c++14 -O1 -msse4 -w -I/repo -DDEMO_TMP="\\"$t\\"" "$d/demo.cpp" %s -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- . ')


def mk(id, prop, edits, demo, needs, breaks, extra=''):
    """edits: list of (file, old, new)"""
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        for f, a, b in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        clean()
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % extra)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


def try_(id, verbose=False):
    d = V + '/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    base = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(id, 'PATCH FAILS', r.stderr)
        return
    try:
        t = sh('bash /opt/vp/test.sh /tmp/w/o.json')
        want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
        got = set(json.load(open('/tmp/w/o.json'))['passed'])
        demo = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        ck = sh('cd %s && python3 run.py %s' % (V, meta['property']))
    finally:
        clean()
    ok = base.returncode == 0 and not (want - got) and demo.returncode not in (0, 3)
    print('%-28s %s %s base=%d tests=%s demo=%d check=%d  %s' % (
        id, 'valid' if ok else 'INVALID', 'CAUGHT' if ck.returncode == 1 else 'MISSED', base.returncode,
        'ok' if not (want - got) else 'lost %s' % sorted(want - got)[:3], demo.returncode, ck.returncode,
        ck.stdout.strip().split('\n')[0][:150]))
    if not ok or verbose:
        print(base.stdout[-300:], base.stderr[-1500:], demo.stdout[-300:], demo.stderr[-800:])
        if want - got:
            print(t.stdout[-300:] + t.stderr[-300:])


if __name__ == '__main__':
    ids = sys.argv[2:]
    if ids == ['all']:
        ids = sorted(os.path.basename(x) for x in glob.glob(V + '/seeded/*'))
    for i in ids:
        try_(i)
    sh('bash /opt/vp/build.sh')
