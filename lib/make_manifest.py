"""Writes MANIFEST.json from the checks there are; /opt/venv/bin/python lib/make_manifest.py"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks')]
NOT_APPLICABLE = {}
NOTE = {
    'exploration': 'Every recorded execution is judged by TLC against the specification: it decides the property on the '
                   'executions explored, which are generated, not all there are.',
    'model_checking': 'TLC explores a bounded design model exhaustively, and what the real code does along its behaviours '
                      'and on generated inputs is judged against the specification; beyond these it decides nothing.',
}
TRUST = ' Trusted: spec/R64 (IEEE arithmetic for TLC) and the recording harness.'

if __name__ == '__main__':
    props = [json.loads(line)['id'] for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, 'checks', p + '.py')):
            c = importlib.import_module(p).check
            assert c.id == p
            checks.append({'property': p, 'quick_cmd': './run.sh ' + p,
                           'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p,
                           'evidence_file': 'evidence/%s.json' % p,
                           'technique': c.technique, 'level': c.level,
                           'level_note': NOTE[c.level] + (' ' + c.note if c.note else '') + TRUST})
        else:
            na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'not yet built: its check is still to come')})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the harnesses observe public state. Specifications are TLA+, checked with TLC.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')
