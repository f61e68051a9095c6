#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
A property is claimed when props/<id>.py exists; the others are listed not_applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AE = 'aesolver/aesolver/'
ALL = []


def P(pid, title, statement, over, text, why, files, mechanism, observe=(), level='proof',
      technique='contract-based deductive verification: VCs from the real code, PIT/z3/cvc5',
      note='', na=None):
    assert len(title) <= 80, (pid, len(title))
    ALL.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                    files=files, mechanism=mechanism, observe=list(observe), level=level,
                    technique=technique, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'table.py')).read())


def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in ALL:
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in ALL:
        if os.path.exists(f'{V}/props/{p["pid"]}.py') and not p['na']:
            checks.append({
                'property': p['pid'],
                'quick_cmd': f'python3 check.py {p["pid"]}',
                'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["pid"]}',
                'evidence_file': f'evidence/{p["pid"]}.json',
                'technique': p['technique'], 'level': p['level'],
                'level_note': p['note'] or DEFAULT_NOTE})
        else:
            na.append({'property': p['pid'], 'reason': p['na'] or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the verifier runs the functions of /repo as they are. '
                  'Genuine defects: known_findings.json.'}
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not claimed')


DEFAULT_NOTE = (
    'Postconditions on the real functions of /repo: the functions are executed on symbolic '
    'operands, every path yields verification conditions, discharged for all real inputs by '
    'polynomial identity testing, z3 or cvc5. Trusted: the VC generator, exact real arithmetic '
    'instead of floats, documented numpy semantics. A bounded run of the same contracts on the '
    'real code accompanies it and is not counted as proved.')
if __name__ == '__main__':
    main()
