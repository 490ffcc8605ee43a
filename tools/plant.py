#!/usr/bin/env python3
"""plant.py SPECFILE: SPECFILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (C source) and optionally
ARGS (extra demo shell). Applies the change to /repo, builds, runs the stable tests, runs the demonstration with and without
the change, runs the property's check on it, undoes everything, and keeps the bug in seeded/<ID> if it is valid."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -g -w -fno-pie -no-pie -Isrc "$here/demo.c" src/librgraph.a lib/.libs/libgnu.a -lgsl -lgslcblas -lm -o "$w/demo" || exit 2
cd "$w" || exit 2
timeout 100 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout[-1500:]


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=R)


def main(spec, keep=True):
    ns = {}
    exec(open(spec).read(), ns)
    d = '%s/seeded/%s' % (V, ns['ID'])
    os.makedirs(d, exist_ok=True)
    if 'DEMO' in ns:
        open(d + '/demo.c', 'w').write(ns['DEMO'])
    for n, t in ns.get('FILES', {}).items():
        open(d + '/' + n, 'w').write(t)
    open(d + '/demo.sh', 'w').write(ns.get('SH', DEMO_SH))
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    assert sh('git status --short', cwd=R).stdout == '', 'repo not clean'
    good = False
    try:
        ok, log = build()
        assert ok, log
        r = demo(d)
        if r.returncode:
            print('demo fails on the unchanged tree:', r.returncode, r.stdout[-800:])
            return
        for path, old, new, *nth in ns['EDITS']:      # nth: which occurrence, of how many
            p = R + '/' + path
            s = open(p, encoding='latin-1').read()
            k, n = nth or (0, 1)
            assert s.count(old) == n, '%d matches of %r' % (s.count(old), old[:80])
            x = s.split(old)
            s = old.join(x[:k + 1]) + new + old.join(x[k + 1:])
            open(p, 'w', encoding='latin-1').write(s)
        open(d + '/patch.diff', 'w', encoding='latin-1').write(
            subprocess.run('git diff', shell=True, cwd=R, stdout=subprocess.PIPE).stdout.decode('latin-1'))
        ok, log = build()
        if not ok:
            print('does not build', log)
            return
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        res = json.load(open('/tmp/plant.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [t for t in stable if t not in res['passed']]
        if bad:
            print('stable tests fail:', bad)
            return
        r = demo(d)
        if r.returncode == 0:
            print('demo does not fail with the change', r.stdout[-800:])
            return
        print('valid: demo exits %d: %s' % (r.returncode, r.stdout[-200:].strip()))
        good = True
        env = dict(os.environ, RGRAPH_EVIDENCE='/tmp/plant_ev')
        for c in [ns['PROPERTY']] + ns.get('ALSO', []):
            r = sh('./check %s' % c, cwd=V, env=env)
            print('%s %s exit %d: %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED', c, r.returncode, r.stdout[-500:]))
    finally:
        sh('git checkout -- .', cwd=R)
        build()
        if not good:
            shutil.rmtree(d, ignore_errors=True)


for f in sys.argv[1:]:
    print('==', f)
    main(f)
