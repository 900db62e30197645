"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | caught by | needs |', '| --- | --- | --- |']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
  m = json.load(open(f))
  rows.append(f"| {os.path.basename(os.path.dirname(f))} | "
              f"{m.get('caught_by', m['property'])} | {m['needs']} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = s[:s.index('<!-- seeds -->')] + '<!-- seeds -->\n\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
