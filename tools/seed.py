#!/usr/bin/env python3
"""seed.py DIR: validates one planted bug (seeded/DIR/patch.diff) against
/repo: applies, builds, stable tests, demo, the property's check; restores.
seed.py new DIR PROP: takes the current uncommitted diff of /repo as the patch."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


DEMO = '''#!/bin/bash
# cwd: /repo, built. Exit 0 when the property holds on the demonstrated case.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -include ctime -w -I. -I/usr/include/botan-2 "$D/demo.cc" %s -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
STATIC = '_build/libron_static.a -lbotan-2'
SHARED = '-L_build -lswarmdb -Wl,-rpath,"$PWD/_build" -lrocksdb -lbotan-2'


def main():
    if sys.argv[1] == 'new':
        d = V + '/seeded/' + sys.argv[2]
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        sh('git -C %s checkout -- .' % R)
        if not os.path.exists(d + '/demo.sh'):
            open(d + '/demo.sh', 'w').write(DEMO % (SHARED if 'db' in sys.argv[4:] else STATIC))
            os.chmod(d + '/demo.sh', 0o755)
        return check(sys.argv[2])
    rc = 0
    for x in sys.argv[1:]:
        rc |= check(x)
    return rc


def check(name):
    d = V + '/seeded/' + name
    meta = json.load(open(d + '/meta.json'))
    ok = True
    r = sh('bash %s/demo.sh' % d, cwd=R)
    if r.returncode:
        print(name, 'BAD: demo fails on clean tree', r.returncode, r.stdout[-300:], r.stderr[-600:])
        ok = False
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        print(name, 'BAD: does not apply', a.stderr)
        return 1
    try:
        r = sh('bash /opt/vp/test.sh /tmp/seed.json')
        o = json.load(open('/tmp/seed.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        miss = [x for x in b['stable'] if x not in o['passed']]
        if miss:
            print(name, 'BAD: tests break', miss[:5])
            ok = False
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode == 0 or r.returncode == 3:
            print(name, 'BAD: demo rc with patch', r.returncode, r.stderr[-500:])
            ok = False
        caught = []
        props = [meta['property']] + [p for p in os.environ.get('ALSO', '').split() if p]
        for p in props:
            r = sh('python3 %s/checks/run.py %s' % (V, p))
            if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
                caught.append(p)
            else:
                print(name, p, 'NOT CAUGHT rc', r.returncode, r.stdout[-300:])
    finally:
        sh('git -C %s checkout -- .' % R)
    print(name, 'valid' if ok else 'INVALID', 'caught by', caught)
    return 0 if ok else 1


main_rc = main()
# leave a clean build behind
sh('bash /opt/vp/build.sh')
sys.exit(main_rc)
