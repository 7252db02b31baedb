#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE defines ID, PROP, NEEDS, BREAKS, SRCS (list), EDITS [(file, old, new)], DEMO (C++ text; main returns 0 when the property holds)"""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=""; for p in math utilities serialization dataclasses geometry detector interactions distributions injection io; do I="$I -Iprojects/$p/public"; done
for s in %s; do g++ -std=c++17 -O1 -w $I -Ivendor/rk -Ivendor/crundec3 -I"$D" -c "$s" -o "$T/$(echo "$s" | tr '/' '_').o" & done; wait
g++ -std=c++17 -O1 -w $I -Ivendor/rk -Ivendor/crundec3 -I"$D" "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lgsl -lgslcblas -Wl,--unresolved-symbols=ignore-all
"$T/demo"
'''
for fn in sys.argv[1:]:
    g = {}; exec(open(fn).read(), g)
    d = os.path.join(ROOT, 'seeded', g['ID']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (t, t), shell=True)
    for f, old, new in g['EDITS']:
        p = os.path.join(t, f); s = open(p).read(); n = s.count(old)
        assert n == 1, (f, n, old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t, 'diff']).decode(); assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(g['DEMO']); open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % ' '.join(g['SRCS'])); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True); r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=t, capture_output=True, text=True)
    print(g['ID'], 'demo unchanged rc', r0.returncode, r0.stderr[-500:], 'patched rc', r1.returncode, r1.stdout[-300:])
    shutil.rmtree(t)
