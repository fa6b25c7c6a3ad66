#!/usr/bin/env python3
"""Runs the symbolic checks of one property: check.py ID [--tier quick|thorough] [--entry NAME] [--keep]

1. compiles /repo's current sources to LLVM bitcode and (with gcc and AddressSanitizer) to a native archive;
2. runs each harness entry of the property in symx (the symbolic executor in engine/), all inputs symbolic;
3. replays every counterexample against the native build, and a sample of the explored paths (whose observed
   values must agree), before anything is reported;
4. writes evidence/ID.json, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1.
"""
import sys, os, re, json, time, hashlib, subprocess, fcntl, shutil, argparse, concurrent.futures as cf, traceback
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); B = os.path.join(V, '.build')
sys.path.insert(0, V)
NJ = os.cpu_count() or 4
COMMON = ['-D_GNU_SOURCE', '-w', '-I' + REPO, '-I' + V + '/h']
BCF = ['-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-gline-tables-only', '-emit-llvm', '-c', '-include', V + '/h/pre.h']
NATF = ['-include', V + '/h/natpre.h', '-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def fhash(paths, base=None):
    h = hashlib.sha256()
    for p in paths: h.update((os.path.relpath(p, base) if base else p).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
def repo_files():
    r = []
    for d, ds, fs in os.walk(REPO + '/library'):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(('.md', '.txt', '.o', '.a')) and os.path.isfile(os.path.join(d, f)): r.append(os.path.join(d, f))  # headers have many extensions (.hh, .inl, none)
    return r + [REPO + '/library.hpp']
def sources(files): return [f for f in files if f.endswith(('.cpp', '.c')) and not re.search(r'(Test|Benchmark)\.cpp$', f)]

class BuildError(Exception): pass
def compile1(args, out):
    p = sh(args + ['-o', out])
    if p.returncode: raise BuildError(args[-1] + '\n' + '\n'.join(l[:300] for l in p.stdout.decode(errors='replace').splitlines() if 'error' in l)[:3000])

def build(harnesses, need_tsan=False, need_native=True):
    """returns dict with paths; everything is keyed by content"""
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        files = repo_files(); srcs = sources(files); key = fhash(files + [V + '/h/pre.h', V + '/h/natpre.h', V + '/rt/rt.cpp', V + '/rt/ctype_table.inc', V + '/rt/native.cpp']) + hashlib.sha256(repr((BCF, NATF)).encode()).hexdigest()[:6]
        D = os.path.join(B, 'lib-' + key); os.makedirs(D, exist_ok=True)
        for o in sorted((x for x in os.listdir(B) if x.startswith('lib-') and x != 'lib-' + key), key=lambda x: os.path.getmtime(B + '/' + x))[:-3]: shutil.rmtree(B + '/' + o, ignore_errors=True)
        os.utime(D)
        ek = fhash([V + '/engine/' + f for f in sorted(os.listdir(V + '/engine')) if f.endswith(('.hpp', '.cpp', 'Makefile'))]); eng = os.path.join(B, 'symx-' + ek)
        jobs = []
        def add(fn, *a): jobs.append((fn, a))
        if not os.path.exists(eng):
            def mk():
                bd = eng + '.d'; p = sh(['make', '-s', '-C', V + '/engine', 'B=' + bd])
                if p.returncode: raise BuildError('engine\n' + p.stdout.decode(errors='replace')[-3000:])
                os.rename(bd + '/symx', eng); shutil.rmtree(bd, ignore_errors=True)
                for x in os.listdir(B):
                    if x.startswith('symx-') and x != os.path.basename(eng): (shutil.rmtree if os.path.isdir(B + '/' + x) else os.unlink)(B + '/' + x)
            add(mk)
        def comp(cmd, out, deps_ok=True):
            if not os.path.exists(out):
                def run(): compile1(cmd, out + '.tmp'); os.rename(out + '.tmp', out)
                add(run)
        bcs, objs, tobjs = [], [], []
        hb, hn, ht = {}, {}, {}
        for h in harnesses:
            s = V + '/h/' + h; k = fhash([s] + [V + '/h/' + x for x in sorted(os.listdir(V + '/h')) if x.endswith(('.h', '.hpp'))])
            hb[h] = D + '/H-' + h + '-' + k + '.bc'; comp(['clang++', '-std=gnu++11'] + COMMON + BCF + [s], hb[h])
            if need_native: hn[h] = D + '/H-' + h + '-' + k + '.o'; comp(['g++', '-std=gnu++11'] + COMMON + NATF + [s], hn[h])
            if need_tsan: ht[h] = D + '/H-' + h + '-' + k + '.to'; comp(['g++', '-std=gnu++11'] + COMMON + [x.replace('=address', '=thread') for x in NATF] + [s], ht[h])
        rt = D + '/rt.bc'; comp(['clang++', '-std=gnu++11'] + COMMON + BCF + ['-fno-builtin', V + '/rt/rt.cpp'], rt)
        nat = D + '/native.o'; 
        if need_native: comp(['g++', '-std=gnu++11'] + COMMON + NATF + [V + '/rt/native.cpp'], nat)
        natT = D + '/native.to'
        if need_tsan: comp(['g++', '-std=gnu++11'] + COMMON + [x.replace('=address', '=thread') for x in NATF] + [V + '/rt/native.cpp'], natT)
        hk = fhash([f for f in files if not f.endswith(('.cpp', '.c'))] + [V + '/h/pre.h', V + '/h/natpre.h'], REPO) + repr((BCF, NATF)); O = os.path.join(B, 'obj'); os.makedirs(O, exist_ok=True)
        for f in os.listdir(O):
            if time.time() - os.path.getmtime(O + '/' + f) > 6 * 3600: os.unlink(O + '/' + f)
        for s in srcs:
            n = O + '/' + os.path.relpath(s, REPO).replace('/', '_') + '-' + hashlib.sha256((hk + fhash([s], REPO)).encode()).hexdigest()[:16]; c = s.endswith('.c'); std = '-std=gnu99' if c else '-std=gnu++11'
            bcs.append(n + '.bc'); comp(['clang' if c else 'clang++', std] + COMMON + BCF[:] + [s], n + '.bc')
            if need_native: objs.append(n + '.o'); comp(['gcc' if c else 'g++', std] + COMMON + NATF + [s], n + '.o')
            if need_tsan: tobjs.append(n + '.to'); comp(['gcc' if c else 'g++', std] + COMMON + [x.replace('=address', '=thread') for x in NATF] + [s], n + '.to')
        with cf.ThreadPoolExecutor(NJ) as ex:
            fs = [ex.submit(f, *a) for f, a in jobs]
            for f in fs: f.result()
        base = D + '/base.bc'
        if not os.path.exists(base):
            p = sh(['llvm-link'] + bcs + [rt, '-o', base + '.tmp'])
            if p.returncode: raise BuildError('llvm-link ' + p.stdout.decode(errors='replace')[-2000:])
            os.rename(base + '.tmp', base)
        R = {'engine': eng, 'base': base, 'hbc': hb, 'native': {}, 'tsan': {}, 'dir': D}
        def link(objset, main, hset, suffix, san, key):
            for h in hset:
                out = hset[h] + suffix
                if not os.path.exists(out):
                    a = D + '/lib' + suffix + '.a'
                    if not os.path.exists(a): sh(['ar', 'rcs', a + '.tmp'] + objset); os.rename(a + '.tmp', a)
                    p = sh(['g++', san] + (['-Wl,--wrap=__tsan_atomic8_exchange'] + ['-Wl,--wrap=__tsan_atomic64_' + x for x in 'load store exchange fetch_add fetch_sub compare_exchange_strong compare_exchange_weak'.split()] if 'thread' in san else []) + ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE', hset[h], main, a, '-rdynamic', '-ldl', '-lpthread', '-o', out + '.tmp'])
                    if p.returncode: raise BuildError('link ' + p.stdout.decode(errors='replace')[-2000:])
                    os.rename(out + '.tmp', out)
                R[key][h] = out
        if need_native: link(objs, nat, hn, '.exe', '-fsanitize=address', 'native')
        if need_tsan: link(tobjs, natT, ht, '.texe', '-fsanitize=thread', 'tsan')
        return R
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def run_engine(R, h, e, params, tlimit, opts, outp, nsamp, seed):
    cmd = [R['engine'], '--entry', e, '--out', outp, '--time', str(tlimit), '--samples', str(nsamp)] + list(opts)
    for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
    cmd += [R['hbc'][h], R['base']]
    if os.path.exists(outp): os.unlink(outp)
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tlimit * 1.5 + 60)
    except subprocess.TimeoutExpired: return {'entry': e, 'dead': 'engine did not stop'}
    try: d = json.load(open(outp))
    except Exception: return {'entry': e, 'dead': 'engine rc=%s %s' % (p.returncode, p.stderr.decode(errors='replace')[-500:])}
    return d

def native(exe, entry, inputs, params, wd, timeout=30, fill=None, extra_env=None):
    os.makedirs(wd, exist_ok=True); base = os.path.join(wd, '%s-%d-%d' % (entry, os.getpid(), int(time.time() * 1e6) % 10**9))
    inf, outf = base + '.in', base + '.out'
    with open(inf, 'w') as f:
        for n, w, v in inputs: f.write('%s %d %s\n' % (n.replace(' ', '_'), w, v))
    env = {k: v for k, v in os.environ.items()}; env.update({'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'})
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0' + (':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill if fill is not None else '')
    env['TSAN_OPTIONS'] = 'exitcode=67:report_signal_unsafe=0'
    for k, v in params.items(): env['P_' + k] = str(v)
    if extra_env: env.update(extra_env)
    r = {'timeout': False, 'rc': None, 'obs': [], 'fail': None, 'done': False, 'err': '', 'status': ''}
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v unlimited; ulimit -t %d; exec "$0" "$@"' % (timeout + 5), exe, entry, inf, outf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        r['rc'] = p.returncode; r['timeout'] = p.returncode in (-9, -24, 137, 152); r['err'] = p.stderr.decode(errors='replace')[-6000:] if len(p.stderr) < 200000 else p.stderr[:6000].decode(errors='replace')
    except subprocess.TimeoutExpired: r['timeout'] = True
    try:
        for l in open(outf, errors='replace'):
            t = l.rstrip('\n').split(' ', 2)
            if t[0] == 'OBS': r['obs'].append([t[2], t[1]])
            elif t[0] == 'FAIL': r['fail'] = l.rstrip('\n')[5:]
            elif t[0] == 'DONE': r['done'] = True
            elif t[0] in ('DIVERGED', 'ASSUME'): r['status'] = l.strip()
    except OSError: pass
    for x in (inf, outf):
        try: os.unlink(x)
        except OSError: pass
    return r

MEMKINDS = {'out-of-bounds', 'null-deref', 'use-after-free', 'double-free', 'bad-free', 'alloc-dealloc-mismatch', 'memcpy-overlap', 'write-to-constant', 'wild-pointer', 'stack-overflow', 'uninitialised-vtable', 'invalid-pointer', 'use-after-return', 'unreachable', 'missing-return'}
def crashed(r): return r['rc'] is not None and (r['rc'] < 0 or r['rc'] in (66, 134, 136, 139) or 'AddressSanitizer' in r['err'])
def confirm(R, h, e, err, params, wd):
    """does the counterexample reproduce on the real build?"""
    exe = R['native'][h]; ins = err['inputs']; k = err['kind']
    if k in ('data-race', 'deadlock') or err.get('threads'):
        for i in range(8):
            r = native(R['tsan'][h], e, ins, params, wd, 20, extra_env=sched_env(err) if i < 6 else None)
            if k == 'data-race' and ('data race' in r['err'] or r['rc'] == 67): return 'ThreadSanitizer: ' + first_line(r['err'], 'WARNING')
            if k == 'deadlock' and (r['timeout']): return 'did not terminate'
            if k == 'assertion' and r['fail'] == err['label']: return 'assertion "%s" fails natively' % r['fail']
            if k not in ('data-race', 'deadlock', 'assertion') and (crashed(r) or r['rc'] == 67): return 'native run: rc=%s %s' % (r['rc'], first_line(r['err'], 'WARNING'))
        return None
    fills = [None, 0xA5, 0, 0xFF] if (k.startswith('uninit') or err.get('uninit')) else [None]
    obs = []
    for f in fills:
        r = native(exe, e, ins, params, wd, 25 if k == 'no-termination' else 30, f)
        if r['status']: continue
        obs.append((r['obs'], r['fail'], r['rc'], r['done']))
        if k == 'assertion' and r['fail'] == err['label']: return 'assertion "%s" fails natively' % r['fail']
        if k == 'no-termination' and (r['timeout'] or crashed(r)): return 'native run did not terminate normally within 25 s'
        if k in ('uncaught-exception', 'abort', 'division-by-zero', 'division-overflow') and crashed(r): return 'native run ended with rc=%s %s' % (r['rc'], first_line(r['err'], 'terminate|what|ERROR'))
        if k not in ('assertion', 'no-termination') and crashed(r): return 'native run: rc=%s %s' % (r['rc'], first_line(r['err'], 'ERROR'))
        if k not in ('assertion',) and r['fail']: return 'native run fails assertion "%s"' % r['fail']
    if len(fills) > 1 and any(o != obs[0] for o in obs[1:]): return 'native result depends on the contents of uninitialised memory'
    return None
def sched_env(x): return {'SYM_SCHED': ','.join(str(t) for t, ev in x.get('schedule', []) if ev in (1, 9))}
def first_line(t, pat):
    for l in t.splitlines():
        if re.search(pat, l): return l.strip()[:200]
    return ''

def load_findings():
    r = []
    try:
        for l in open(V + '/known_findings.jsonl'):
            l = l.strip()
            if l and l.startswith('{'): r.append(json.loads(l))
    except OSError: pass
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('-v', action='store_true'); ap.add_argument('--time', type=float)
    a = ap.parse_args(); t0 = time.time(); tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1'))
    from props import PROPS
    if a.setup: R = build(sorted({e['h'] for p in PROPS.values() for e in p['entries']}), need_tsan=any(e.get('threads') for p in PROPS.values() for e in p['entries'])); print('built', R['dir']); return 0
    P = PROPS[a.prop]; ents = [e for e in P['entries'] if (tier == 'thorough' or not e.get('thorough_only')) and (not a.entry or re.fullmatch(a.entry, e['name']))]
    hs = sorted({e['h'] for e in ents}); threads = any(e.get('threads') for e in ents)
    try: R = build(hs, need_tsan=threads)
    except BuildError as x: print('build failed:', x, file=sys.stderr); return 2
    tb = time.time() - t0
    wd = os.path.join(B, 'work-%s-%d' % (a.prop, os.getpid())); os.makedirs(wd, exist_ok=True)
    budget = a.time or (P.get('tq', 150) if tier == 'quick' else P.get('tt', 1500))
    nsamp = 4 if tier == 'quick' else 12
    def one(e):
        prm = dict(e.get('q', {})); 
        if tier == 'thorough': prm.update(e.get('t', {}))
        tl = a.time or (e.get('tq', budget) if tier == 'quick' else e.get('tt', max(budget, e.get('tq', 0))))
        d = run_engine(R, e['h'], e['name'], prm, tl, e.get('opts', []), os.path.join(wd, '%s-%d.json' % (e['name'], ents.index(e))), nsamp, seed)
        d['params'] = prm; d['confirmed'] = []; d['unconfirmed'] = []; d['validated'] = 0; d['mismatch'] = []
        if 'dead' in d: return d
        for er in d['errors']:
            if e.get('threads'): er['threads'] = True
            c = confirm(R, e['h'], e['name'], er, prm, wd)
            (d['confirmed'] if c else d['unconfirmed']).append((er, c))
        for s in ([] if e.get('threads') else d['samples']):
            r = native(R['native'][e['h']], e['name'], s['inputs'], prm, wd)
            if r['done'] and r['obs'] == s['obs']: d['validated'] += 1
            elif r['fail'] or 'ERROR: AddressSanitizer' in r['err']: d['confirmed'].append(({'kind': 'assertion' if r['fail'] else 'memory', 'label': r['fail'] or '', 'loc': '', 'func': '', 'msg': 'native replay of an explored path', 'stack': [], 'inputs': s['inputs']}, 'native replay: ' + (r['fail'] or first_line(r['err'], 'ERROR'))))
            else: d['mismatch'].append({'inputs': s['inputs'], 'symbolic': s['obs'], 'native': r['obs'], 'rc': r['rc'], 'status': r['status'], 'timeout': r['timeout'], 'done': r['done'], 'err': r['err'][-300:]})
        if e.get('threads'):
            for s in d['samples'][:2]:
                r = native(R['tsan'][e['h']], e['name'], s['inputs'], prm, wd, 20, extra_env=sched_env(s))
                if r['done'] and r['rc'] == 0: d['validated'] += 1
        return d
    with cf.ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, sorted(ents, key=lambda e: -e.get('w', 1))))
    ents = sorted(ents, key=lambda e: -e.get('w', 1))
    findings = [f for f in load_findings() if f.get('property') == a.prop and f.get('status') == 'known']
    viol, known, incomplete, notes, mism, unconf, vac = [], [], [], set(), [], [], []
    for e, d in zip(ents, res):
        if 'dead' in d: incomplete.append('%s: %s' % (e['name'], d['dead'])); continue
        for er, c in d['confirmed']:
            f = next((f for f in findings if f['entry'] == e['name'] and matches(f, er)), None)
            if f: known.append(f); continue
            viol.append((e, er, c, d['params']))
        for er, c in d['unconfirmed']: unconf.append('%s: %s %s at %s (%s)' % (e['name'], er['kind'], er['label'], er['loc'], er['msg']))
        if d['incomplete']: incomplete += ['%s: %s' % (e['name'], w) for w in d['incomplete_why']]
        for r in e.get('reach', ['end']):
            if not d['reached'].get(r): vac.append('%s: witness "%s" not reached' % (e['name'], r))
        notes.update(d['notes']); mism += ['%s: %s' % (e['name'], json.dumps(m)[:600]) for m in d['mismatch']]
    seen = set()
    for f in known:
        if f['id'] not in seen: seen.add(f['id']); print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for i, (e, er, c, prm) in enumerate(viol):
        rp = os.path.join(rdir, '%s-%d.json' % (a.prop, i + 1))
        json.dump({'property': a.prop, 'entry': e['name'], 'harness': 'h/' + e['h'], 'params': prm, 'kind': er['kind'], 'label': er['label'], 'where': er['loc'], 'function': er['func'], 'message': er['msg'], 'stack': er['stack'], 'inputs': er['inputs'], 'native': c, 'schedule': er.get('schedule')}, open(rp, 'w'), indent=1)
        print('# %s %s: %s %s at %s in %s; %s; inputs %s' % (e['name'], er['kind'], er['label'], er['msg'], er['loc'], er['func'], c, ' '.join('%s=%s' % (n, v) for n, w, v in er['inputs'])[:300]))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    live = [d for d in res if 'dead' not in d]
    tot = lambda k: sum(d[k] for d in live)
    fn = {}
    for d in live:
        for n, cnt, cov, n2 in d['functions']:
            o = fn.setdefault(n, [0, 0, n2]); o[0] += cnt; o[1] = max(o[1], cov)
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
      'assumptions': P.get('assume', []) + sorted(notes),
      'coverage': {'states': tot('paths') + tot('forks'), 'transitions': tot('instrs'), 'traces_validated_against_impl': sum(d['validated'] for d in live),
        'samples': [dict(entry=d['entry'], inputs={n: v for n, w, v in s['inputs']}, observed=dict(map(tuple, s['obs']))) for d in live for s in d['samples'][:1]][:12],
        'explanation': 'states = symbolic paths completed plus branch points; transitions = LLVM instructions executed symbolically; every path stands for all inputs that satisfy its path condition',
        'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2), 'max_query_s': max([d['max_query_s'] for d in live] or [0]),
        'asserts_checked': sum(sum(d['asserts'].values()) for d in live), 'asserts_proved': sum(sum(d['asserts_proved'].values()) for d in live),
        'entries': [dict(entry=e['name'], bounds=d.get('bounds'), paths=d.get('paths'), complete=('dead' not in d and not d['incomplete'] and not d['errors']), reached=d.get('reached'), solver_s=d.get('solver_s'), wall_s=d.get('wall_s'), asserts=d.get('asserts')) for e, d in zip(ents, res)],
        'functions_encoded': sorted('%s (%d of %d instructions reached)' % (n, o[1], o[2]) for n, o in fn.items())[:400], 'functions_encoded_count': len(fn),
        'undecided': incomplete, 'unconfirmed_counterexamples': unconf, 'trace_mismatches': mism, 'missing_witnesses': vac, 'known_findings': sorted(seen), 'build_s': round(tb, 2)}}
    json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    if a.v or a.entry:
        for e, d in zip(ents, res):
            if 'dead' in d: continue
            print('%-28s paths %-6d q %-6d solver %-7.1f wall %-7.1f val %d/%d asserts %d/%d %s%s' % (e['name'], d['paths'], d['queries'], d['solver_s'], d['wall_s'], d['validated'], len(d['samples']), sum(d['asserts_proved'].values()), sum(d['asserts'].values()), 'INCOMPLETE ' + ';'.join(d['incomplete_why']) if d['incomplete'] else '', ' errs=%d' % len(d['errors']) if d['errors'] else ''))
    for l in incomplete + ['unconfirmed ' + u for u in unconf] + ['mismatch ' + m for m in mism] + vac: print('note:', l, file=sys.stderr)
    print('%s %s: %d paths, %d queries, %.1f s solver, %d/%d assertions proved, %d traces validated, %d violations, %d undecided, %.1f s (build %.1f)' % (a.prop, tier, tot('paths'), tot('queries'), tot('solver_s'), ev['coverage']['asserts_proved'], ev['coverage']['asserts_checked'], ev['coverage']['traces_validated_against_impl'], len(viol), len(incomplete), ev['wall_s'], tb))
    return 1 if viol else 0
def matches(f, er):
    return (not f.get('kind') or f['kind'] == er['kind']) and (not f.get('label') or f['label'] == er['label']) and (not f.get('func') or f['func'] in er.get('func', '')) and (not f.get('msg') or f['msg'] in er.get('msg', ''))
if __name__ == '__main__': sys.exit(main())
