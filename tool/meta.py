#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (kept in one place so they cannot drift apart)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
GVN = ('gated value-flow summaries of every entry point (structured abstract interpretation of the Clang AST, loops summarised once, '
       'no execution, no path enumeration, no solver) compared by randomised global value numbering with the reference effect grammar in spec/')
TRUST = ('Trusted: the Clang front end, the extractor and abstract semantics in zkv/ (standard-library calls are modelled), and the reference grammar, '
         'which was extracted from the reviewed pinned tree after the fix commits. Value numbering is complete for equal summaries (no false alarm) and '
         'misses a difference only when it never shows under the drawn numberings.')


def prop(id, title, statement, over, text, why, files, mech, technique=GVN, note='', claim=True, level='other', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claim=claim, level=level, na=na, state=state))


I = ['inputs']
exec(open(os.path.join(V, 'tool', 'properties.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m zkv.check --setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 -m zkv.check %s' % p['id'],
                            'thorough_cmd': 'python3 -m zkv.check %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': (p['note'] + ' ' + TRUST).strip()})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
