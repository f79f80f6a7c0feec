#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(f'{here}/properties.jsonl', 'w') as f:
    for i, p in sorted(PROPS.items()):
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({
            'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n['entry'], ensure_ascii=False) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 setup_check.py',
    'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for i, p in sorted(PROPS.items())],
    'not_applicable': [{'property': n['entry']['id'], 'reason': n['reason']} for n in NOT_APPLICABLE],
    'notes': 'No hooks in /repo: the harnesses link the unmodified sources and replace libc/ncurses calls at link time (ld --wrap).',
}
with open(f'{here}/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
