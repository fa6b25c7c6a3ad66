#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, os
from spec import SPEC
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for s in SPEC:
        assert len(s['title']) <= 80, s['title']
        a = {'files': s['files'], 'mechanism': [{'name': n, 'where': w} for n, w in s['mech']]}
        if s['observe']: a['observe_at'] = s['observe']
        f.write(json.dumps({'id': s['id'], 'title': s['title'], 'statement': s['statement'], 'quantifier': {'over': s['over'], 'text': s['text']}, 'why_tests_cant': s['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'NATIVE_VERIF_SMALL_TABLE', 'enable': 'the harness h/chm.cpp defines it before it includes ConcurrentHashMap.hpp', 'source_commits': ['06765799c8d07640e2124c21e633be9cbd7629d4']}, 'checks': [], 'not_applicable': []}
for s in SPEC:
    if s['na']: m['not_applicable'].append({'property': s['id'], 'reason': s['na']}); continue
    m['checks'].append({'property': s['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % s['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % s['id'], 'technique': 'symbolic execution of the LLVM IR of the real sources, assertions decided by Z3, counterexamples replayed natively', 'level': 'model_checking', 'level_note': s['note']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
