#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import glob
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []

# properties of functions of arrays, whose checks look at the arguments afterwards too
UNALTERED = 'T01 T02 T03 T04 T05 T06 T07 T08 T09 R01 R02 N05 N06 N07'.split()


def prop(id, title, statement, over, text, why, files, mech, note, observe=(), bounds=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier={'over': over.split(), 'text': ' '.join(text.split())},
                  why_tests_cant=' '.join(why.split()),
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                           'observe_at': list(observe) or [b for _, b in mech], 'hook_needed': None},
                  _note=' '.join(note.split())))


def design(P):
    import ast
    head = open(os.path.join(HERE, 'design_head.md')).read()
    rows = ['| bug | caught by | what it needs |', '|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        rows.append('| %s | %s%s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], '' if m.get('caught', True) else ' (missed)',
                                            ' '.join(m['needs'].split()).replace('|', '/')))
    out = [head.replace('SEEDED_TABLE', '\n'.join(rows))]
    for p in P:
        f = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
        assume = []
        if os.path.exists(f):
            for n in ast.parse(open(f).read()).body:
                if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
                    try:
                        assume = list(ast.literal_eval(n.value))
                    except ValueError:
                        pass
        out.append('### %s. %s\n\n%s\n\n* Decided for: %s.\n* Bounds: %s\n%s* Code: %s.\n* Why not tests: %s\n' % (
            p['id'], p['title'], p['statement'], p['quantifier']['text'], p['_note'],
            ''.join('* Assumed: %s.\n' % a for a in assume),
            '; '.join('`%s` (%s)' % (m['where'], m['name']) for m in p['anchors']['mechanism']), p['why_tests_cant']))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'prop': prop})
    P.sort(key=lambda p: p['id'])
    for p in P:
        if p['id'] in UNALTERED:
            p['statement'] += ' The arrays given are not altered.'
            assert p['statement'].count('. ') <= 2, p['id']
    na_file = os.path.join(HERE, 'props', 'not_applicable.json')
    na = json.load(open(na_file)) if os.path.exists(na_file) else {}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, not_app = [], []
    for p in P:
        have = os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))
        if have and p['id'] not in na:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check.sh %s --tier quick' % p['id'],
                'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                'technique': 'symbolic execution of the real source, every assertion decided by '
                             'z3 within stated bounds, counterexamples replayed on the real code',
                'level': 'model_checking',
                'level_note': p['_note']})
        else:
            not_app.append({'property': p['id'], 'reason': na.get(p['id'], 'check under construction')})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': not_app}
    design(P)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'checks', [n['property'] for n in not_app])


main()
