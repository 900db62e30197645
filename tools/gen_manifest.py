"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from manifest_notes import NOTES  # pylint: disable=wrong-import-position

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
  pid = json.loads(line)['id']
  if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
    tech, note = NOTES[pid]
    checks.append(dict(
        property=pid, quick_cmd=f'./run.sh {pid}',
        thorough_cmd=f'./run.sh {pid} --tier thorough',
        technique=tech,
        level='fault_enumeration' if pid == 'C09' else 'model_checking',
        level_note=note))
  else:
    na.append(dict(property=pid, reason=NOTES.get(pid, (
        '', 'no check built (yet): planned, see DESIGN.md'))[1]))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=na,
               notes='Explicit-state / stateless bounded exhaustive exploration '
               'of the real code; see DESIGN.md.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
