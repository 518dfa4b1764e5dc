#!/usr/bin/env python3
"""seed.py confirm ID..   builds and tests /repo with seeded/ID/patch.diff in a scratch copy (bind-mounted over /repo in a
                          mount namespace of its own), runs demo.sh with and without the change
   seed.py check ID [P..] runs the checks of the properties P (default: the property of the bug) against the changed copy"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def scratch(sid, build):
    d = '/tmp/seed-%s' % sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if build:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    else:
        subprocess.run('git -C /repo archive HEAD | (mkdir %s/repo; tar x -C %s/repo)' % (d, d), shell=True, check=True)
        subprocess.run(['git', 'init', '-q', d + '/repo'], check=True)
    return d


def ns(d, cmd, **kw):
    return subprocess.run(['unshare', '-rm', 'bash', '-c', 'mount --bind %s/repo /repo && cd /repo && %s' % (d, cmd)], **kw)


def confirm(sid):
    d = scratch(sid, True)
    try:
        demo = '%s/demo' % d
        shutil.copytree(os.path.join(V, 'seeded', sid), demo)
        patch = os.path.join(V, 'seeded', sid, 'patch.diff')
        for x in ('patch.diff', 'meta.json'):
            os.unlink(os.path.join(demo, x))
        r = ns(d, 'bash %s/demo.sh' % demo, capture_output=True, text=True)
        if r.returncode:
            return 'demo fails on the unchanged tree: %s' % (r.stdout + r.stderr)[-600:]
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', patch], capture_output=True, text=True)
        if r.returncode:
            return 'patch does not apply: ' + r.stderr
        r = ns(d, 'bash /opt/vp/test.sh %s/out.json' % d, capture_output=True, text=True)
        out = json.load(open(d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = base['stable'] if 'stable' in base else base.get('passed') or base.get('tests')
        missing = sorted(set(want) - set(out['passed']))
        if missing:
            return 'tests fail: %d %s' % (len(missing), missing[:5])
        r = ns(d, 'timeout 300 bash %s/demo.sh' % demo, capture_output=True, text=True)
        if r.returncode == 0:
            return 'demo passes with the change'
        return 'ok (demo: %s)' % (r.stdout + r.stderr).strip()[-160:].replace('\n', ' | ')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, props):
    d = scratch(sid, False)
    try:
        patch = os.path.join(V, 'seeded', sid, 'patch.diff')
        subprocess.run(['git', '-C', d + '/repo', 'apply', patch], check=True)
        meta = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))
        for p in props or [meta['property']]:
            r = ns(d, 'cd %s && python3 check.py %s' % (V, p), capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            last = [x for x in r.stdout.splitlines() if 'violation:' in x][:1]
            print('%-22s %s exit %d %s  %s' % (sid, p, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED',
                                              (last or r.stdout.splitlines()[-1:] or [''])[0][:230]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == 'confirm':
    for s in sys.argv[2:]:
        print('%-22s %s' % (s, confirm(s)), flush=True)
else:
    check(sys.argv[2], sys.argv[3:])
