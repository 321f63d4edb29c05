#!/usr/bin/env python3
"""plant a bug:  seed.py ID  reads /tmp/seeds/ID.py, which defines prop, needs, breaks, edits=[(file, old, new)], sources, demo
(demo = C++ text; exit status 0 when right).  Confirms in a scratch copy that it builds, passes the tests and that the
demonstration distinguishes, then writes /verif/seeded/ID."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(i):
    g = {}
    exec(open('/tmp/seeds/%s.py' % i).read(), g)
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    if 'demo_sh' in g:
        open(d + '/demo.sh', 'w').write(g['demo_sh'])
    else:
        open(d + '/demo.cpp', 'w').write(g['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 if the behaviour is right; run in the repository's top directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -w -g %s -I. -o "$tmp/demo" "$here/demo.cpp" %s || exit 2
cd "$tmp" && timeout 60 ./demo
''' % (g.get('cflags', ''), ' '.join(g['sources'])))
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        r0 = sh('bash /opt/vp/build.sh && cd /repo && bash %s/demo.sh' % d)
        print('clean demo rc', r0.returncode, r0.stdout[-300:] if r0.returncode else '')
        for f, a, b in g['edits']:
            s = open('/repo/' + f).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open('/repo/' + f, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = base - set(json.load(open('/tmp/seed_o.json'))['passed'])
        r1 = sh('cd /repo && bash %s/demo.sh' % d)
        print('build', b.returncode, 'tests missing', len(miss), sorted(miss)[:5], 'demo rc', r1.returncode, r1.stdout[-200:])
        c = sh('cd %s && python3-vt check.py %s --tier quick' % (V, g['prop']))
        print('check rc', c.returncode)
        for l in c.stdout.splitlines()[:6]:
            print('   ', l[:200])
        print('   ', c.stdout.splitlines()[-1][:200])
        ok = r0.returncode == 0 and b.returncode == 0 and not miss and r1.returncode != 0
        print('RESULT %s %s counts=%s caught=%s' % (i, g['prop'], ok, c.returncode == 1 and 'VIOLATION property=' + g['prop'] in c.stdout))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


main(sys.argv[1])
