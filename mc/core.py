"""Core of the bounded exhaustive explorer.

A *check* enumerates a finite set of cases (JSON descriptors).  Running a case
executes the real code of /repo and compares what is observed with a plain
reference model.  Inside a case, nondeterminism (schedules, faults, crash
points, random draws, operation choices) is resolved by a `Chooser`, and
`explore` drives a depth-first search over all choice vectors, optionally
bounded by the number of deviations from the default answer 0.

Everything counted in the evidence is measured here:
  states       distinct canonical states / choice-tree nodes visited
  transitions  operations of the code under test that were executed
  traces       complete executions compared with the reference model
  outcomes     distinct observed results (vacuity guard)
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
  """The code under test contradicts the property."""

  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key


class Skip(Exception):
  """The case is outside of the property's domain (counted separately)."""


class ReplayDivergence(Exception):
  pass


class CaseTimeout(Exception):
  pass


def h(obj) -> int:
  """Stable 64 bit hash of a JSON-able / repr-able object."""
  if not isinstance(obj, (bytes, str)):
    obj = repr(obj)
  if isinstance(obj, str):
    obj = obj.encode()
  return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Chooser:
  """Resolves choices; replays a prefix and then answers 0."""

  def __init__(self, prefix=(), rec=None):
    self.prefix = list(prefix)
    self.points = []  # (n, cost_of_deviation, label)
    self.choices = []
    self.rec = rec

  def choose(self, n, label='', cost=1):
    """Returns an int in [0, n). `cost`: deviation cost of a non-zero answer."""
    if n <= 0:
      raise ReplayDivergence(f'no choice at {label}')
    i = len(self.choices)
    if i < len(self.prefix):
      c = self.prefix[i]
      if c >= n:
        raise ReplayDivergence(f'choice {c} of {n} at point {i} ({label})')
    else:
      c = 0
    self.points.append((n, cost, label))
    self.choices.append(c)
    if self.rec is not None:
      self.rec.transition()
    return c

  def deviations(self, upto):
    return sum(self.points[j][1] for j in range(upto) if self.choices[j])


def explore(run, rec, bound=None, max_execs=None, limit_reached=None):
  """DFS over all choice vectors of run(chooser) with at most `bound` deviations.

  `run` is called once per complete execution.  Returns the number of
  executions.  If max_execs is hit, rec.capped is set (never silent).
  """
  stack = [[]]
  n = 0
  while stack:
    prefix = stack.pop()
    ch = Chooser(prefix, rec)
    run(ch)
    if len(ch.choices) < len(prefix):
      raise ReplayDivergence('execution shorter than its prefix')
    n += 1
    rec.executions += 1
    for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
      num, cost, _ = ch.points[i]
      if bound is not None and ch.deviations(i) + cost > bound:
        continue
      for alt in range(num - 1, 0, -1):
        stack.append(ch.choices[:i] + [alt])
    # every node below the prefix is new
    for i in range(len(prefix), len(ch.choices) + 1):
      rec.nodes += 1
    if max_execs is not None and n >= max_execs and stack:
      rec.capped = True
      break
  return n


class Recorder:
  """Counters for one worker."""

  def __init__(self):
    self.cases = 0
    self.skipped = 0
    self.nodes = 0
    self.transitions = 0
    self.traces = 0
    self.executions = 0
    self.capped = False
    self._states = set()
    self._outcomes = set()
    self.samples = []
    self.extra = {}

  def state(self, obj):
    self._states.add(h(obj))

  def new_state(self, obj) -> bool:
    k = h(obj)
    if k in self._states:
      return False
    self._states.add(k)
    return True

  def transition(self, n=1):
    self.transitions += n

  def trace(self, n=1, outcome=None):
    self.traces += n
    if outcome is not None:
      self._outcomes.add(h(outcome))

  def outcome(self, obj):
    self._outcomes.add(h(obj))

  def count(self, name, n=1):
    self.extra[name] = self.extra.get(name, 0) + n

  def sample(self, obj, limit=3):
    if len(self.samples) < limit:
      self.samples.append(obj)

  def dump(self):
    return dict(
        cases=self.cases, skipped=self.skipped, nodes=self.nodes,
        transitions=self.transitions, traces=self.traces,
        executions=self.executions, capped=self.capped, states=self._states,
        outcomes=self._outcomes, samples=self.samples, extra=self.extra)


class Check:
  """Base class of checks. Subclasses define cases() and run_case()."""

  id = None
  level = 'model_checking'
  rule = ''
  assumptions = ()
  case_timeout = 200

  def __init__(self, tier='quick'):
    self.tier = tier
    self.thorough = tier == 'thorough'

  def setup(self):
    """Called once in the parent process before forking."""

  def cases(self):
    """Yields JSON-able case descriptors, simplest first."""
    raise NotImplementedError

  def run_case(self, case, rec):
    raise NotImplementedError

  def finding_key(self, case, violation):
    """Identifies a violation for the known-findings file."""
    return violation.key or json.dumps(case, sort_keys=True, default=str)


def _alarm(signum, frame):
  raise CaseTimeout()


def _run_one(check, case, rec):
  """Runs a case; returns None or (key, message)."""
  rec.cases += 1
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(check.case_timeout)
  try:
    check.run_case(case, rec)
    return None
  except Skip:
    rec.skipped += 1
    return None
  except Violation as v:
    return check.finding_key(case, v), str(v)
  except ReplayDivergence as e:
    return ('divergence', 'the same choices led to a different execution: '
            f'{e}\n{traceback.format_exc(limit=-6)}')
  except CaseTimeout:
    return ('timeout', f'did not terminate within {check.case_timeout}s')
  except Exception as e:  # pylint: disable=broad-except
    v = Violation('unexpected exception on a valid input: '
                  f'{type(e).__name__}: {str(e)[:600]}\n'
                  f'{traceback.format_exc(limit=-8)[-3000:]}')
    return check.finding_key(case, v), str(v)
  finally:
    signal.alarm(0)


MAX_VIOLATIONS_PER_WORKER = 3


def _worker(check, w, nw, conn, stop_at, known):
  import pickle
  rec = Recorder()
  bad = []
  seen_known = {}
  timed_out = False
  unlisted = 0
  for i, case in enumerate(check.cases()):
    if i % nw != w:
      continue
    if time.time() > stop_at:
      timed_out = True
      break
    r = _run_one(check, case, rec)
    if r is not None:
      key, msg = r
      if key in known:
        seen_known.setdefault(key, msg)
      else:
        bad.append((i, case, key, msg))
        unlisted += 1
        if unlisted >= MAX_VIOLATIONS_PER_WORKER or key == 'timeout':
          break
    else:
      rec.sample(case)
  conn.send_bytes(pickle.dumps((rec.dump(), bad, seen_known, timed_out)))
  conn.close()


def load_known(prop):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return {}
  with open(path) as f:
    data = json.load(f)
  return {e['key']: e['what'] for e in data.get('findings', [])
          if e['property'] == prop}


def main(check_cls, argv=None):
  import argparse
  import multiprocessing as mp
  import pickle
  ap = argparse.ArgumentParser()
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--replay')
  ap.add_argument('--workers', type=int,
                  default=int(os.environ.get('VERIF_WORKERS', '8')))
  ap.add_argument('--list', action='store_true')
  ap.add_argument('--evidence', default=None)
  args = ap.parse_args(argv)
  tier = 'thorough' if args.tier == 'thorough' else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  warnings.simplefilter('ignore')
  t0 = time.time()
  check = check_cls(tier)
  if args.list:
    n = sum(1 for _ in check.cases())
    print(check.id, tier, n, 'cases')
    return 0
  check.setup()
  if args.replay:
    with open(args.replay) as f:
      rp = json.load(f)
    rec = Recorder()
    r = _run_one(check, rp['case'], rec)
    if r is None:
      print(f'replay: property {check.id} holds on this case')
      return 0
    print(r[1])
    print(f'VIOLATION property={check.id} replay={args.replay}')
    return 1

  known = load_known(check.id)
  budget = float(os.environ.get(
      'VERIF_BUDGET', '700' if tier == 'quick' else '14000'))
  stop_at = t0 + budget
  nw = max(1, args.workers)
  ctx = mp.get_context('fork')
  procs = []
  for w in range(nw):
    a, b = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_worker, args=(check, w, nw, b, stop_at, set(known)))
    p.start()
    b.close()
    procs.append((p, a))
  tot = Recorder()
  bad, seen_known, timed_out, died = [], {}, False, []
  for w, (p, a) in enumerate(procs):
    try:
      d, b, k, to = pickle.loads(a.recv_bytes())
    except EOFError:
      p.join()
      died.append((w, p.exitcode))
      continue
    p.join()
    for f in ('cases', 'skipped', 'nodes', 'transitions', 'traces',
              'executions'):
      setattr(tot, f, getattr(tot, f) + d[f])
    tot.capped |= d['capped']
    tot._states |= d['states']
    tot._outcomes |= d['outcomes']
    for s in d['samples']:
      tot.sample(s, 6)
    for n, c in d['extra'].items():
      tot.count(n, c)
    bad += b
    seen_known.update({x: y for x, y in k.items() if x not in seen_known})
    timed_out |= to
  for w, code in died:
    bad.append((10**9, {'worker': w, 'of': nw}, 'died',
                f'a worker process ended abnormally (exit code {code})'))
  bad.sort(key=lambda x: x[0])

  replay_dir = os.path.join(VERIF, 'evidence', 'replay')
  shown = []
  for i, case, key, msg in bad[:5]:
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, f'{check.id}_{i}.json')
    with open(path, 'w') as f:
      json.dump({'property': check.id, 'tier': tier, 'case': case, 'key': key,
                 'message': msg}, f, indent=1, default=str)
    print(f'--- {check.id} case {json.dumps(case, default=str)[:500]}')
    print('\n'.join(msg.splitlines()[:40]))
    print(f'VIOLATION property={check.id} replay={path}')
    shown.append(path)
  for key in seen_known:
    print(f'KNOWN-FINDING: property={check.id} {known[key]}')

  coverage = dict(
      states=tot.nodes + len(tot._states),
      transitions=tot.transitions,
      traces_validated_against_impl=tot.traces,
      samples=tot.samples or ['(none)'],
      exhaustive=not (tot.capped or timed_out or bad),
      cases=tot.cases,
      cases_outside_domain=tot.skipped,
      executions=tot.executions or tot.cases,
      distinct_outcomes=len(tot._outcomes),
      rule=check.rule,
      caps_hit=bool(tot.capped or timed_out),
      **tot.extra)
  if check.level in ('exploration', 'fault_enumeration'):
    coverage['evaluations'] = tot.executions or tot.cases
    coverage['distinct_nontrivial'] = len(tot._outcomes)
  ev = dict(property=check.id, tier=tier, seed=seed, level=check.level,
            coverage=coverage, wall_s=round(time.time() - t0, 2),
            assumptions=list(check.assumptions), violations=len(bad))
  out = args.evidence or os.path.join(VERIF, 'evidence', f'{check.id}.json')
  os.makedirs(os.path.dirname(out), exist_ok=True)
  with open(out, 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print(f'{check.id} {tier}: cases={tot.cases} states={coverage["states"]} '
        f'transitions={tot.transitions} traces={tot.traces} '
        f'outcomes={len(tot._outcomes)} skipped={tot.skipped} '
        f'violations={len(bad)} exhaustive={coverage["exhaustive"]} '
        f'wall={ev["wall_s"]}s')
  sys.stdout.flush()
  if not bad and timed_out:
    # Never report a capped run as a violation nor as an error: evidence says so
    print(f'{check.id}: time budget reached, exploration is not exhaustive')
  return 1 if bad else 0
