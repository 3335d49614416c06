#!/usr/bin/env python3
"""Plant and confirm bugs.  Reads a Python file of SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)],
applies each to /repo, checks that it builds, passes the stable tests and fails its demonstration, undoes it, and writes
/verif/seeded/<id>/."""
import json
import os
import subprocess
import sys

DEMO_SH = '''#!/bin/bash
# cwd: /repo, after the build
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/lexi-demo.XXXXXX) || exit 3
g++ -std=c++14 -O0 %s -w -include cstdint -Iinclude "$here/demo.cpp" $(find src -name '*.cpp') -o "$D/demo" -lpthread
rc=$?
if [ $rc = 0 ]; then timeout 200 "$D/demo"; rc=$?; fi
rm -rf "$D"
exit $rc
'''


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert sh('git -C /repo status --porcelain').stdout == ''
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = '/verif/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH % s.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        clean = sh('cd /repo && bash %s/demo.sh' % d)
        ok = True
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            if t.count(old) < 1:
                print(s['id'], 'TEXT NOT FOUND', f, old)
                ok = False
                break
            n = s.get('nth', {}).get(f, 0)
            i = -1
            for _ in range(n + 1):
                i = t.find(old, i + 1)
            open(p, 'w').write(t[:i] + new + t[i + len(old):])
        if ok:
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            r = sh('bash /opt/vp/test.sh /tmp/w/seed.json')
            res = json.load(open('/tmp/w/seed.json'))
            failed = [t for t in stable.get('stable', stable.get('passed', [])) if t not in res['passed']] if isinstance(stable, dict) else [t for t in stable if t not in res['passed']]
            bad = sh('cd /repo && bash %s/demo.sh' % d)
            print(s['id'], 'clean', clean.returncode, 'patched', bad.returncode, 'tests failing', failed, (bad.stdout + bad.stderr)[-200:].strip(),
                  '' if clean.returncode == 0 else (clean.stdout + clean.stderr)[-300:])
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')


main()
