#!/usr/bin/env python3
"""Mutation sweep: small random edits of one source file; survivors of the test suite are given to the checks.
usage: mutate.py COUNT SEED PROP[,PROP] FILE [FIRSTLINE LASTLINE]   (works in /tmp/mut and a copy of /verif in /tmp/mv)"""
import sys, os, re, random, subprocess, json
V = os.environ.get('MV', '/tmp/mv'); W = os.environ.get('MW', '/tmp/mut')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
ENV = 'export CC=gcc CXX=g++ LC_ALL=C.UTF-8 TZ=UTC; '
def build(): return sh(ENV + 'cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null 2>&1; ninja -j4 -C {0}/_build all'.format(W)).returncode == 0
def tests():
    r = W + '/_build/tr'; sh('rm -rf %s; mkdir -p %s' % (r, r)); sh(ENV + 'cd {0} && touch results.txt && timeout 60 python3 /opt/vp/run_native_test.py {1}/_build/native_test {0}/results.txt; python3 /opt/vp/results.py {0}/out.json lines:{0}/results.txt'.format(r, W))
    base = json.load(open('/opt/vp/BASELINE.json')); b = base.get('stable') or base.get('passed') or base
    try: ok = set(json.load(open(r + '/out.json')).get('passed', []))
    except Exception: return False
    return all(x in ok for x in b)
SUB = [(r'(?<![<\-])<(?![<=])(?=\s)', '<='), (r'<=', '<'), (r'(?<![>\-])>(?![>=])(?=\s)', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\s\+ 1\b', ''), (r'\s- 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'\+=', '-='), (r'<<(?= )', '>>'), (r'(?<=\()!', ''), (r'\bif \((?=[^()]*\) *\{)', 'if (!('), (r' \* ', ' + '), (r' & ', ' | ')]
def muts(lines, lo, hi):
    r = []; com = False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('/*'): com = True
        if com:
            if '*/' in t: com = False
            continue
        if i < lo or i > hi or t.startswith(('//', '#', '*', 'using', 'namespace', 'template', 'class', 'static const')) or '"' in t and 'throw' in t: continue
        code = l.split('//')[0]
        for a, b in SUB:
            if a.startswith(r'\bif'):
                m = re.search(r'\bif \(([^{]*)\) *\{', code)
                if m: r.append((i, code[:m.start(1)] + '!(' + m.group(1) + ')' + code[m.end(1):]))
                continue
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2 or ('<' in a or '>' in a) and ('include' in code or 'template' in code or 'iterator' in code): continue
                r.append((i, code[:m.start()] + b + code[m.end():]))
        if re.match(r'[A-Za-z_>\-.\[\]()]+ ?(=|\+=|-=|\()[^=].*;$|[\w>\-.]+(\+\+|--);$', t) and not t.startswith(('return', 'throw', 'delete')): r.append((i, code[:len(code) - len(code.lstrip())] + ';\n'))
    return r
def main():
    n, seed, props, f = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(','), sys.argv[4]
    if not os.path.isdir(W): sh('git clone -q /repo ' + W)
    sh('git -C {0} checkout -q -- . && git -C {0} pull -q'.format(W)); p = W + '/' + f; src = open(p, newline='').read(); lines = src.splitlines(True); lo, hi = (int(sys.argv[5]) - 1, int(sys.argv[6]) - 1) if len(sys.argv) > 6 else (26, len(lines))
    ms = muts(lines, lo, hi); random.Random(seed).shuffle(ms); st = dict(nobuild=0, tests=0, caught=0, missed=0); print('%s: %d mutants possible' % (f, len(ms)), flush=True)
    for i, new in ms:
        if st['caught'] + st['missed'] >= n: break
        if new.endswith('\n') is False: new += '\n'
        if new.split() == lines[i].split(): continue
        open(p, 'w', newline='').write(''.join(lines[:i]) + new + ''.join(lines[i + 1:]))
        if not build(): st['nobuild'] += 1; continue
        if not tests(): st['tests'] += 1; continue
        hit = None; outs = []
        for q in props:
            c = sh('cd %s && VERIF_REPO=%s timeout 900 python3 check.py %s' % (V, W, q)); outs.append(c.stdout[-700:])
            if c.returncode == 1: hit = q; break
        st['caught' if hit else 'missed'] += 1
        print('%s %s:%d\n  - %s\n  + %s' % ('caught ' + hit if hit else 'MISSED', os.path.basename(f), i + 1, lines[i].strip(), new.strip()), flush=True)
        if not hit:
            for o in outs:
                for l in o.splitlines():
                    if l.startswith('note') or 'undecided' in l: print('     ' + l[:250], flush=True)
    open(p, 'w', newline='').write(src); print(f, st, flush=True)
main()
