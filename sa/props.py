#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and technique.json from one table, so
that they stay in step.  Run by hand after an edit; no check runs it."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []
NA = []


def prop(id, title, statement, over, text, tests, files, mechanism, technique=None, note=None, observe=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          **({'observe_at': observe} if observe else {})},
              '_t': technique, '_n': note, '_na': na})
    assert len(title) <= 80, title


exec(open(os.path.join(HERE, 'props_data.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['_na']:
            na.append({'property': p['id'], 'reason': p['_na']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 sa/check.py ' + p['id'],
                       'thorough_cmd': 'python3 sa/check.py --thorough ' + p['id'],
                       'technique': p['_t'], 'level': 'other', 'level_note': p['_n']})
    m = {'version': 1,
         'setup_cmd': "python3 -c \"import sys; sys.path.insert(0, 'sa'); import ir; print(ir.exporter())\"",
         'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis of the LLVM IR of /repo/monotone, compiled from the working tree on every run. '
                  'Exit 2 means the analysis could not give an answer.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    with open(os.path.join(HERE, 'technique.json'), 'w') as f:
        json.dump({p['id']: p['_t'] for p in P if p['_t']}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
