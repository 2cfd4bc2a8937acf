#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPERTIES, NOTES

VERIF = os.path.dirname(HERE)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quantifier']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                    'observe_at': p['observe'],
                    'hook_needed': None}}) + '\n')
    checks = [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'runtime monitoring: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note']} for p in PROPERTIES]
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': [], 'notes': NOTES}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
