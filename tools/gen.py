#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
done = {q['id'] for q in props.P if os.path.exists(os.path.join(root, 'engine', 'checks', q['id'].lower() + '.py'))}
na = []
with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
    def put(id, title, st, over, text, why, files, mech, state):
        assert len(title) <= 80, (id, len(title))
        a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
        if state:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
        fh.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                             'why_tests_cant': why, 'anchors': a}) + '\n')
    for q in props.P:
        put(q['id'], q['title'], q['statement'], q['over'], q['text'], q['why'], q['files'], q['mech'], q['state'])
        if q['id'] not in done or q['na']:
            na.append({'property': q['id'], 'reason': q['na'] or 'not claimed yet: the analysis is not built'})
    for id, title, st, over, text, why, files, reason in props.NA:
        put(id, title, st, over, text, why, [props.CI + f for f in files], [('the loops computing the values', props.CI)], None)
        na.append({'property': id, 'reason': reason})
m = {'version': 1,
     'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import build; print(build.extractor())"',
     'checks': [{'property': q['id'], 'quick_cmd': './check ' + q['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + q['id'],
                 'technique': q['tech'], 'level': 'other', 'level_note': q['note']} for q in props.P if q['id'] in done and not q['na']],
     'not_applicable': na,
     'notes': 'Static analysis only: every check parses /repo with clang (libTooling) on each run and decides on the syntax tree, '
              'control-flow graphs and summaries. No hooks in /repo.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', sorted(done))
