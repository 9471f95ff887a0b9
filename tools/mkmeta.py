#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, tests, files, mech, over=('inputs',), note=''):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests,
                  files=files, mech=mech, note=note))


U, AN, FL, EMF, GMF, BWF, AV, PE, EP, QIF = ('rockphypy/%s.py' % m for m in (
    'utils', 'Anisotropy', 'Fluid', 'EM', 'GM', 'BW', 'AVO', 'Perm', 'Emp', 'QI'))
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

TEC = 'symbolic execution of the Python source + SMT (z3, cvc5 fallback), counterexamples replayed on the real package'
NOTE = ('The functions named in the evidence are re-read from /repo and executed symbolically over exact reals on every run; '
        'every assertion is decided by the solver for all inputs in the stated intervals and array sizes. '
        'Trusted: the numpy/scipy models of rpsym (cross-checked on the real code with a witness per path), '
        'reals instead of float64, the solver.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': m, 'where': p['files'][0]} for m in p['mech']],
                            'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python check.py --selftest',
           'checks': [{'property': p['id'],
                       'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                       'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                       'technique': TEC, 'level': 'other', 'level_note': (NOTE + ' ' + p['note']).strip(),
                       'evidence_file': 'evidence/%s.json' % p['id']} for p in P],
           'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks in /repo. Verdict per check: solver over all values within the bounds listed in the evidence; '
                    'see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
