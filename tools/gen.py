#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one source for ids, titles, statements, checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def p(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None, state=None, level='other'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe or [], state=state or [], level=level))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(V + '/properties.jsonl', 'w') as fh:
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        d = dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['qtext']),
                 why_tests_cant=q['why'],
                 anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']], state=q['state'],
                              observe_at=q['observe'], hook_needed='none'))
        fh.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3-vt -m py_compile check.py engine/*.py checks/*.py && clang++ --version && opt --version',
           checks=[dict(property=q['id'], quick_cmd='python3-vt check.py ' + q['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + q['id'],
                        technique=q['technique'], level=q['level'], level_note=q['note']) for q in PROPS
                   if q['technique'] and os.path.exists('%s/checks/%s.py' % (V, q['id'].lower()))],
           not_applicable=[dict(property=q['id'], reason=q['na']) for q in PROPS if q['na']])
todo = [q['id'] for q in PROPS if not q['na'] and not os.path.exists('%s/checks/%s.py' % (V, q['id'].lower()))]
for i in todo: man['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(man['checks']), 'checks; not built:', todo)
