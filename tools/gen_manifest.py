#!/usr/bin/env python3
"""Writes MANIFEST.json from props/*.py (TECHNIQUE, NOTE) and properties."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    with open(path, encoding='utf8') as file:
        tree = ast.parse(file.read())
    result = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                result[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    return result


def main():
    checks = []
    missing = []
    with open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf8') as file:
        ids = [json.loads(_)['id'] for _ in file if _.strip()]
    for name in ids:
        path = os.path.join(ROOT, 'props', name.lower() + '.py')
        if not os.path.exists(path):
            missing.append({
                'property': name,
                'reason': 'no check has been built yet'
            })
            continue
        values = constants(path)
        command = '/opt/venv/bin/python run.py %s ' % name
        checks.append({
            'property': name,
            'quick_cmd': command + 'quick',
            'thorough_cmd': command + 'thorough',
            'evidence_file': 'evidence/%s.json' % name,
            'technique': values['TECHNIQUE'],
            'level': 'exploration',
            'level_note': values['NOTE'],
        })
    data = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python run.py --setup',
        'checks': checks,
        'not_applicable': missing,
        'notes': (
            'Every check is generated-input search (Hypothesis, fixed seeds '
            'from VERIF_SEED, 8 shards with different PYTHONHASHSEED) against '
            'an oracle that shares no code with yargy; no hooks in /repo. '
            'Known findings and repaired defects: known_findings.txt.'
        ),
    }
    path = os.path.join(ROOT, 'MANIFEST.json')
    with open(path, 'w', encoding='utf8') as file:
        json.dump(data, file, ensure_ascii=False, indent=1)
        file.write('\n')


main()
