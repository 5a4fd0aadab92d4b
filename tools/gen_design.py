#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the property table, the checks' own descriptions, planted changes, findings."""
import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from props import PROPS
from design_notes import NOTES, TAIL


def const(mod, name):
    for n in ast.parse(open(mod).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)
    return ''


def wrap(s, w=118):
    out, line = [], ''
    for x in s.split():
        if len(line) + len(x) + 1 > w:
            out.append(line)
            line = x
        else:
            line = (line + ' ' + x).strip()
    return '\n'.join(out + [line])


out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '',
       wrap('Statements are in properties.jsonl. For each property: what is analysed and compared, the assumptions (also in the evidence), '
            'and what was learnt. The rules of each check, with the functions and obligations of the last run, are in evidence/<id>.json.'), '']
for p, m in PROPS:
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('')
    if m['na']:
        out += [wrap('Not applicable: ' + m['na']), '']
        continue
    mod = os.path.join(HERE, 'pfcheck', 'checks', p['id'].lower() + '.py')
    out.append(wrap('*Decided by*: ' + const(mod, 'EXPLANATION')))
    out.append('')
    a = const(mod, 'ASSUMPTIONS')
    out.append(wrap('*Assumptions and bounds*: ' + '; '.join(a) + '. ' + m['note']))
    out.append('')
    out.append(wrap('*Beyond the tests*: ' + p['why_tests_cant']))
    out.append('')
    if p['id'] in NOTES:
        out += [wrap(NOTES[p['id']]), '']
out += ['## Planted changes', '',
        wrap('Each is confirmed in a scratch copy: it builds, the 1008 stable tests pass, and its demonstration fails with it and passes without. '
             'Every one listed is caught by the check of its property (exit 1 with its VIOLATION line) unless the last column says otherwise.'), '',
        '| id | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'], d['what_it_breaks']))
out += ['', '## Defects found in rwl/PYPOWER', '',
        'Repaired in /repo by one `fix:` commit each (also in known_findings.txt); each check reports the violation again if it returns.', '']
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('fixed: property='):
        w = l[len('fixed: property='):].strip().split(' ', 2)
        out.append('- %s (%s): %s' % (w[0], w[1], w[2]))
    elif l.startswith('known: '):
        out.append('- **known, not repaired**: ' + l.strip()[7:])
out += ['', TAIL.strip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
