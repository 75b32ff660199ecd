#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, props
with open('/verif/properties.jsonl', 'w') as f:
    for i, p in props.PROPS.items():
        f.write(json.dumps({
            'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', ['the public API of the facade crate']),
                        'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, i
m = {
    'version': 1, 'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
        'technique': 'symbolic execution of the LLVM IR of the real code, decided by Z3; counterexamples replayed natively',
        'level': 'other',
        'level_note': 'Bounded: every path of the harnesses within the stated bounds is explored and Z3 decides each branch and '
                      'assertion. ' + p['bounds'] + ' Nothing is claimed outside these bounds. Trusts the engine in '
                      '/verif/engine (cross-checked natively on sampled paths), rustc, Z3 and the oracle in /verif/harness.',
    } for i, p in props.PROPS.items() if i not in props.NOT_APPLICABLE],
    'not_applicable': [{'property': i, 'reason': r} for i, r in props.NOT_APPLICABLE.items()],
    'hooks': {'guard': 'none', 'enable': 'No hooks: the harness uses the public API only.', 'source_commits': []},
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
