#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the property texts and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import registry  # noqa: E402
from tools.texts import TEXTS, NOT_APPLICABLE  # noqa: E402

VALUE = 'value-graph equivalence (global value numbering over gated SSA) against a written contract, with heap and effect analysis'
RULE = 'interprocedural rule over the resolved syntax tree and call graph'


def main():
    order = sorted(TEXTS)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for pid in order:
            t = TEXTS[pid]
            fp.write(json.dumps({
                'id': pid, 'title': t['title'], 'statement': t['statement'],
                'quantifier': {'over': t['over'], 'text': t['all']},
                'why_tests_cant': t['why'],
                'anchors': {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mechanism']]},
            }) + '\n')
    checks = []
    for pid in order:
        if pid not in registry.PROPERTIES:
            continue
        p = registry.PROPERTIES[pid]
        kinds = {bool(j[2].get('rule')) for j in p['jobs']}
        technique = p.get('technique') or '; '.join(
            ([VALUE] if False in kinds else []) + ([RULE] if True in kinds else []))
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'python3 check.py %s --thorough' % pid,
            'technique': technique,
            'level': 'other',
            'level_note': p['explanation'] + '. Assumes: ' + '; '.join(registry.ASSUMPTIONS + p.get('assumptions', [])) + '.',
        })
    missing = [p for p in order if p not in registry.PROPERTIES and p not in NOT_APPLICABLE]
    assert not missing, missing
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q check.py registry.py engine specs rules',
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
        'notes': 'Pure standard-library Python; nothing of the repository is imported or executed by a check.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
