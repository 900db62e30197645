"""Development tool: makes and tries out planted bugs (never used by a check).

plant.py SPEC.py [--notest] [--nocheck] [ids...]

SPEC.py defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)],
needs, breaks, demo (Python source).  Every seed is applied to a scratch copy
of /repo, its demo is run on both trees, the test suite and the check of the
property are run on the copy, and it is stored under /verif/seeded/<id>/.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           JAX_PLATFORMS='cpu', NO_GCE_CHECK='true', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', TZ='UTC')
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the behaviour is right, nonzero otherwise.
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu NO_GCE_CHECK=true PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(seed, test, chk):
  sid = seed['id']
  copy = f'/tmp/plant/{sid}'
  out = f'{ROOT}/seeded/{sid}'
  shutil.rmtree(copy, ignore_errors=True)
  shutil.copytree('/repo', copy, symlinks=True)
  sh(['git', 'checkout', '--', '.'], cwd=copy)
  log = []
  try:
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(seed['demo'].strip() + '\n')
    json.dump(dict(property=seed['prop'], needs=seed['needs'],
                   what_it_breaks=seed['breaks']),
              open(out + '/meta.json', 'w'), indent=1)
    a = sh(['bash', out + '/demo.sh'], cwd=copy, env=ENV)
    for f, old, new in seed['edits']:
      p = os.path.join(copy, 'weatherbenchX', f)
      s = open(p).read()
      if s.count(old) != 1:
        return sid, f'BAD edit: {f}: {s.count(old)} matches'
      open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], cwd=copy).stdout
    open(out + '/patch.diff', 'w').write(diff)
    b = sh(['bash', out + '/demo.sh'], cwd=copy, env=ENV)
    if a.returncode:
      log.append('DEMO FAILS ON BASE: ' + (a.stdout + a.stderr)[-600:])
    if not b.returncode:
      log.append('DEMO PASSES WITH PATCH')
    if chk and os.path.exists(f'{ROOT}/checks/{seed["prop"].lower()}.py'):
      c = sh([f'{ROOT}/run.sh', seed['prop'], '--evidence',
              f'/tmp/plant/{sid}.json'],
             env=dict(ENV, VERIF_REPO=copy, VERIF_WORKERS='4'))
      hit = f'VIOLATION property={seed["prop"]}' in c.stdout
      log.append('caught' if hit and c.returncode == 1 else
                 f'MISSED rc={c.returncode} {c.stdout[-200:]}{c.stderr[-300:]}')
    if test:
      tmp = f'/tmp/plant/{sid}.tmp'
      os.makedirs(tmp, exist_ok=True)
      t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
              'no:cacheprovider', '-n', '3', 'weatherbenchX'],
             cwd=copy, env=dict(ENV, PYTHONPATH=copy, TMPDIR=tmp,
                                 TEST_TMPDIR=tmp))
      bad = [l for l in t.stdout.splitlines() if l.startswith('FAILED')]
      log.append('tests: ' + t.stdout.strip().splitlines()[-1] +
                 ' '.join(bad[:3]))
  finally:
    shutil.rmtree(copy, ignore_errors=True)
  return sid, ' | '.join(log)


def main():
  args = sys.argv[1:]
  flags = {a for a in args if a.startswith('--')}
  args = [a for a in args if not a.startswith('--')]
  seeds = runpy.run_path(args[0])['SEEDS']
  if args[1:]:
    seeds = [s for s in seeds if s['id'] in args[1:]]
  os.makedirs('/tmp/plant', exist_ok=True)
  with cf.ThreadPoolExecutor(3) as ex:
    jobs = [ex.submit(one, s, '--notest' not in flags, '--nocheck' not in flags)
            for s in seeds]
    for r in cf.as_completed(jobs):
      print(*r.result(), flush=True)
  shutil.rmtree('/tmp/plant', ignore_errors=True)


main()
