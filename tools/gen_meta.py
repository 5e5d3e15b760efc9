"""Writes properties.jsonl and MANIFEST.json from tools/properties.py.

    /opt/venv/bin/python tools/gen_meta.py
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from properties import PROPS  # noqa: E402

OPTIONAL_NOTE = ('Generated-input search: assurance is limited to the cases counted '
                 'in the evidence file (small domains are enumerated where it says '
                 'so). Trusts Hypothesis, the Python interpreter and the reference '
                 'model in /verif/lib; ')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['forall']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  mechanism=[dict(name=n, where=w)
                                             for n, w in p['mechanism']]))
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in PROPS:
        cmd = f'/opt/venv/bin/python run.py {p["id"]} --tier '
        checks.append({
            'property': p['id'], 'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': p['technique'], 'level': 'exploration',
            'level_note': OPTIONAL_NOTE + p['note']})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python run.py --list',
         'checks': checks, 'not_applicable': [],
         'notes': 'No hooks: every check observes the public API only. '
                  'VERIF_SEED seeds every random choice; a violation is shrunk '
                  'and written to replays/, replay with '
                  'run.py <id> --replay <file>.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
