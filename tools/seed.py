#!/usr/bin/env python3
"""Plants bugs in a scratch copy of /repo and keeps those that build, pass the tests and fail their demonstration.

usage: seed.py SPECFILE [ID...]   SPECFILE is python defining BUGS = [dict(id, prop, file, old, new, demo, needs, breaks)]
       seed.py --check ID...       run the property's check against planted bugs (in the scratch copy)
A bug may use edits=[(file, old, new), ...] instead of file/old/new."""
import sys, os, re, subprocess, json, shutil
V = '/verif'; W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = 'export CC=gcc CXX=g++ LC_ALL=C.UTF-8 TZ=UTC; '
def prep():
    if not os.path.isdir(W): sh('git clone -q /repo %s' % W)
    sh('git -C %s checkout -q -- . && git -C %s pull -q' % (W, W)); assert sh('git -C %s rev-parse HEAD' % W).stdout == sh('git -C /repo rev-parse HEAD').stdout
def build():
    p = sh(ENV + 'cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null 2>&1; ninja -C {0}/_build all'.format(W)); return p.returncode == 0, p.stdout[-1500:]
def tests():
    r = W + '/_build/tr'; sh('rm -rf %s; mkdir -p %s' % (r, r)); p = sh(ENV + 'cd {0} && touch results.txt && python3 /opt/vp/run_native_test.py {1}/_build/native_test {0}/results.txt; python3 /opt/vp/results.py {0}/out.json lines:{0}/results.txt'.format(r, W))
    base = json.load(open('/opt/vp/BASELINE.json')); b = base.get('stable') or base.get('passed') or base; o = json.load(open(r + '/out.json')); ok = set(o.get('passed', []))
    names = b if isinstance(b, list) else list(b); return [x for x in names if x not in ok]
DEMO_SH = '''#!/bin/bash
# exit 0: the guarantee holds on this demonstration; non-zero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -I. "$here/demo.cpp" %s_build/libnative_static.a -lpthread -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
def demo(d): p = sh('cd %s && bash %s/demo.sh' % (W, d)); return p.returncode, p.stdout[-400:]
def plant(b):
    d = '%s/seeded/%s' % (V, b['id']); os.makedirs(d, exist_ok=True); sh('git -C %s checkout -q -- .' % W)
    open(d + '/demo.cpp', 'w').write('#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include <climits>\nusing namespace Java::Lang;\n' + b['demo'] if '#include "library.hpp"' not in b['demo'] else b['demo']); open(d + '/demo.sh', 'w').write(DEMO_SH % (b.get('flags', ''))); os.chmod(d + '/demo.sh', 0o755)
    ok, o = build()
    if not ok: return 'clean build failed ' + o
    rc, o = demo(d)
    if rc: return 'demo fails on the clean tree: %d %s' % (rc, o)
    for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
        p = W + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        rx = r'[ \t]*\r?\n(?:[ \t]*\r?\n)*[ \t]*'.join(re.escape(l.strip()) for l in old.splitlines() if l.strip()); m = list(re.finditer(rx, s))
        if len(m) != 1: return 'pattern occurs %d times in %s: %s' % (len(m), f, old[:80])
        open(p, 'w', newline='').write(s[:m[0].start()] + new.strip() + s[m[0].end():])
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE).stdout)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok, o = build()
    if not ok: return 'patched build failed ' + o
    bad = tests()
    if bad: return 'tests notice it: %s' % bad[:5]
    rc, o = demo(d)
    if rc == 0 or rc == 3: return 'demo does not notice it: %d %s' % (rc, o)
    return None
def check(i):
    d = '%s/seeded/%s' % (V, i); m = json.load(open(d + '/meta.json')); sh('git -C %s checkout -q -- .' % W); p = sh('git -C %s apply %s/patch.diff' % (W, d))
    if p.returncode: return m['property'], 'patch does not apply: ' + p.stdout
    p = sh('cd %s && VERIF_REPO=%s python3 check.py %s' % (V, W, m['property'])); sh('git -C %s checkout -q -- .' % W)
    v = [l for l in p.stdout.splitlines() if l.startswith('# ')]
    return m['property'], ('CAUGHT ' if p.returncode == 1 else 'missed rc=%d ' % p.returncode) + (v[0][:260] if v else p.stdout[-300:])
if __name__ == '__main__':
    prep()
    if sys.argv[1] == '--check':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids: print(i, *check(i), flush=True)
    else:
        g = {}; exec(open(sys.argv[1]).read(), g); keep = []
        for b in g['BUGS']:
            if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
            r = plant(b); print(b['id'], 'kept' if r is None else 'DROPPED ' + r, flush=True)
            if r: shutil.rmtree('%s/seeded/%s' % (V, b['id']))
            else: print('   ', *check(b['id']), flush=True)
        sh('git -C %s checkout -q -- .' % W)
