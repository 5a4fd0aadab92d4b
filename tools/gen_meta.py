#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'pypower/'


def prop(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', na=None,
         state=None, observe=None):
    a = {'files': [P + f for f in files], 'mechanism': [{'name': n, 'where': P + w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors=a), dict(technique=technique, level=level, note=note, na=na)




if __name__ == '__main__':
    import sys
    sys.modules['gen_meta'] = sys.modules['__main__']
    from props import PROPS
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, m in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    man = {'version': 1,
           'setup_cmd': 'python3 -m compileall -q pfcheck spec && python3 -m pfcheck.selftest',
           'checks': [], 'not_applicable': [],
           'notes': 'Pure static analysis (abstract interpretation over the syntax trees of /repo/pypower); no repository '
                    'code is executed by any check. Self-contained Python 3, no third-party packages.'}
    for p, m in PROPS:
        if m['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': m['na']})
        else:
            man['checks'].append({
                'property': p['id'], 'quick_cmd': 'python3 -m pfcheck.run %s quick' % p['id'],
                'thorough_cmd': 'python3 -m pfcheck.run %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': m['technique'], 'level': m['level'],
                'level_note': m['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
