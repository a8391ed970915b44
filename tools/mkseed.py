#!/usr/bin/env python3
"""Creates seeded/<id>/ from a replacement in a repo file, a demo source and a description.
usage: mkseed.py spec.py   (spec defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)])
The demo is C++ text (compiled against the built library, exit code 0 = good) or, if it starts with
'#!', a complete demo.sh."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, non-zero when the behaviour is broken; run in /repo after the build
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -march=x86-64-v3 -fno-math-errno -w %s -Iinclude -I/usr/include/hdf5/serial "$D/demo.cpp" -o "$T/demo" _build/libum2.so -Wl,-rpath,"$PWD/_build" || exit 2
cd "$T" && timeout 120 ./demo
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
for s in spec['SEEDS']:
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
    saved = {}
    for f, old, new in edits:
        p = R + '/' + f
        t = open(p).read()
        saved.setdefault(p, t)
        n = t.count(old)
        k = s.get('nth', 0)
        assert n >= 1 and (n == 1 or 'nth' in s), (s['id'], f, n)
        i = -1
        for _ in range(k + 1):
            i = t.index(old, i + 1)
        open(p, 'w').write(t[:i] + new + t[i + len(old):])
    diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout.decode()
    for p, t in saved.items():
        open(p, 'w').write(t)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    if s['demo'].startswith('#!'):
        open(d + '/demo.sh', 'w').write(s['demo'])
    else:
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
    print(s['id'], len(diff.splitlines()), 'lines')
