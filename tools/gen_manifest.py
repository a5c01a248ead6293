"""Writes /verif/MANIFEST.json: a check for every property that has checks/cNN.py,
the rest is not_applicable."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from manifest_notes import NOTES, NOT_APPLICABLE

TECHNIQUE = 'bounded symbolic execution of the real yargy code, z3 decides every path; counterexamples replayed on unmodified code'

checks, skipped = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    id = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'checks', id.lower() + '.py')) and id in NOTES:
        cmd = 'python3-vt symex/run.py %s' % id
        checks.append({
            'property': id,
            'quick_cmd': cmd + ' --tier quick',
            'thorough_cmd': cmd + ' --tier thorough',
            'evidence_file': 'evidence/%s.json' % id,
            'technique': TECHNIQUE,
            'level': 'model_checking',
            'level_note': NOTES[id],
        })
    else:
        skipped.append({'property': id, 'reason': NOT_APPLICABLE.get(id, 'no check yet')})

json.dump({
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3" && test -d /repo/yargy',
    'checks': checks,
    'not_applicable': skipped,
    'notes': 'No hooks in /repo: the code is instrumented in memory when it is imported by the checks '
             '(symex/loader.py), so there is nothing to guard. See DESIGN.md.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(skipped), 'not applicable')
