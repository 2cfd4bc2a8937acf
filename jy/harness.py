# -*- coding: us-ascii -*-
"""Scenario runner and observation log shared by every check (Jython 2.7)."""
import sys
import os
import json
import time
import random
import traceback
import tempfile
import zlib
import threading

REPO = os.environ.get('BGLIB_REPO', '/repo')


class Sink(object):
  """the library prints a lot; nothing of it is an observation."""
  softspace = 0
  def write(self, s):
    pass
  def flush(self):
    pass


class Scenario(object):
  """name, function fn(ctx, rng, i), number of cases per tier.

  floors: event name -> least number of times it must have been observed over
  all shards, or the run is inconclusive.
  exhaustive: the case numbers enumerate a finite space completely.
  setup: called once per worker; its result is ctx.env."""
  def __init__(self, name, fn, quick, thorough, floors=None, exhaustive=False,
               setup=None, cap=None):
    self.name = name
    self.fn = fn
    self.n = dict(quick=quick, thorough=thorough)
    self.floors = floors or {}
    self.exhaustive = exhaustive
    self.setup = setup
    self.cap = cap or dict(quick=150.0, thorough=1500.0)


class Ctx(object):
  MAX_STATES = 60000
  MAX_VIOLATIONS = 40

  def __init__(self, scenario, tier, seed):
    self.scenario = scenario
    self.tier = tier
    self.seed = seed
    self.case = None
    self.events = {}
    self.states = set()
    self.samples = []
    self.violations = []
    self.known = {}
    self.evaluations = 0
    self.detail = ''
    self.env = None

  def event(self, name, n=1):
    self.events[name] = self.events.get(name, 0) + n

  def state(self, key):
    if len(self.states) < self.MAX_STATES:
      if not isinstance(key, str):
        key = repr(key)
      self.states.add(zlib.crc32(key) & 0xffffffff)

  def sample(self, text):
    if len(self.samples) < 2:
      self.samples.append(ascii(text)[:400])

  def violation(self, key, message):
    n = len([v for v in self.violations if v['key'] == key])
    if n < 3 and len(self.violations) < self.MAX_VIOLATIONS:
      self.violations.append(dict(scenario=self.scenario.name, case=self.case,
                                  key=key, message=ascii(message)[:1500],
                                  detail=ascii(self.detail)[:4000]))

  def check(self, ok, key, message):
    """one oracle evaluation. message may be a callable."""
    self.evaluations += 1
    if not ok:
      if callable(message):
        message = message()
      self.violation(key, message)
    return ok

  def equal(self, got, want, key, what):
    self.evaluations += 1
    if got != want:
      self.violation(key, '%s: got %r, expected %r' % (what, got, want))
      return False
    return True


def ascii(s):
  if isinstance(s, unicode):
    return s.encode('ascii', 'backslashreplace')
  if not isinstance(s, str):
    s = repr(s)
  return ''.join([(' ' <= c <= '~' or c == '\n') and c or '\\x%02x' % ord(c)
                  for c in s])


def from_repo(tb):
  """name of the innermost function of the code under test in a traceback."""
  best = None
  for fn, line, func, text in traceback.extract_tb(tb):
    if fn.startswith(REPO + '/') or '/bglib/' in fn:
      best = '%s:%s' % (os.path.basename(fn), func)
  return best


def caught(ctx, what):
  """classify the exception being handled: raised in code under test or in the
  harness itself."""
  et, ev, tb = sys.exc_info()
  where = from_repo(tb)
  text = '%s: %s: %s' % (what, getattr(et, '__name__', et), ev)
  if where is None:
    raise
  ctx.evaluations += 1
  ctx.violation('raises:%s@%s' % (getattr(et, '__name__', str(et)), where), text)


HURRY = dict(quick=25.0, thorough=200.0)
HANG = dict(quick=150.0, thorough=400.0)


def where_stuck(thread):
  """innermost function of the code under test that a thread is in."""
  for e in thread.getStackTrace():
    fn = e.getFileName() or ''
    if fn.startswith(REPO + '/') or '/bglib/' in fn:
      return '%s:%s' % (os.path.basename(fn), e.getMethodName().split('$')[0])
  return None


def readable(et):
  """an exception of the check's own code over an answer of the code under test
  means that the answer is not of the kind promised: cases are reproducible, and
  none of them ends so on a tree where the property holds.  Not so: failed self
  checks of the harness, files and memory."""
  try:
    return (issubclass(et, Exception)
            and not issubclass(et, (AssertionError, EnvironmentError, MemoryError)))
  except TypeError:
    return False


class Watch(object):
  """ends the worker when one case does not return.  A case takes milliseconds."""
  def __init__(self, tier, flush):
    from java.lang import Thread
    self.main = Thread.currentThread()
    self.limit = HANG[tier]
    self.flush = flush
    self.ctx = None
    self.since = None
    t = threading.Thread(target=self.run)
    t.setDaemon(True)
    t.start()

  def run(self):
    while True:
      time.sleep(2.0)
      since, ctx = self.since, self.ctx
      if since is None or time.time() - since < self.limit:
        continue
      seen = set()
      for k in range(5):
        seen.add(where_stuck(self.main))
        time.sleep(0.2)
      if self.since != since:
        continue
      if None in seen:
        self.flush('%s case %s did not return in %d s' % (ctx.scenario.name, ctx.case, self.limit))
      else:
        ctx.violation('hangs', 'no answer in %d s, in %s' % (self.limit, ', '.join(sorted(seen))))
        self.flush(None)
      os._exit(0)


def write(out, result):
  f = open(out + '.tmp', 'wb')
  f.write(json.dumps(result))
  f.close()
  os.rename(out + '.tmp', out)


def known_keys(pid):
  keys = set()
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('{'):
        d = json.loads(line)
        if d['property'] == pid:
          keys.add(d['key'])
  return keys


def run(pid, tier, seed, shard, nshards, out, only):
  stdout = sys.stdout
  sys.stdout = Sink()
  sys.setrecursionlimit(6000)
  # the driver removes it; leaving through os._exit runs no clean up
  tempfile.tempdir = os.path.abspath(os.getcwd())
  known = known_keys(pid)
  result = dict(scenarios={}, violations=[], known={}, errors=[], meta={})
  def flush(problem):
    # called while the main thread is stuck in a case
    ctx = watch.ctx
    if problem:
      result['errors'].append(problem)
    result['scenarios'].setdefault(ctx.scenario.name, dict(
        cases=1, evaluations=ctx.evaluations, events=dict(ctx.events), states=sorted(ctx.states),
        samples=list(ctx.samples), floors=ctx.scenario.floors, exhaustive=False, cut=True, slowest=float(HANG[ctx.tier])))
    result['violations'] += ctx.violations
    write(out, result)
  watch = Watch(tier, flush)
  try:
    module = __import__('checks.' + pid.lower(), fromlist=['*'])
    result['meta'] = dict(rule=module.RULE, assumptions=module.ASSUMPTIONS)
    for sc in module.SCENARIOS:
      if only is not None and sc.name != only[0]:
        continue
      ctx = Ctx(sc, tier, seed)
      n = sc.n[tier]
      if callable(n):
        n = n()
      cut = False
      cases = 0
      slowest = 0.0
      try:
        if sc.setup is not None:
          ctx.env = sc.setup()
        start = time.time()
        if only is not None:
          indices = [only[1]]
        else:
          indices = xrange(shard, n, nshards)
        errors = 0
        failed = None
        for i in indices:
          if time.time() - start > sc.cap[tier]:
            cut = True
            break
          ctx.case = i
          ctx.detail = ''
          rng = random.Random('%s/%s/%s/%s' % (pid, sc.name, seed, i))
          cases += 1
          watch.ctx = ctx
          watch.since = time.time()
          try:
            sc.fn(ctx, rng, i)
          except (KeyboardInterrupt, SystemExit):
            raise
          except:
            try:
              caught(ctx, 'unexpected exception')
            except:
              if readable(sys.exc_info()[0]):
                ctx.violation('unreadable', 'the answer is not of the kind promised: %s'
                              % traceback.format_exc()[-1200:])
              else:
                errors += 1
                result['errors'].append(ascii('%s case %s: harness error: %s'
                               % (sc.name, i, traceback.format_exc()))[-1800:])
                if errors >= 3:
                  break
          slowest = max(slowest, time.time() - watch.since)
          watch.since = None
          if failed is None and [v for v in ctx.violations if v['key'] not in known]:
            failed = time.time()
          if failed is not None and time.time() - failed > HURRY[tier]:
            # what fails often waits for what never comes
            cut = True
            break
          if len(ctx.violations) >= ctx.MAX_VIOLATIONS:
            break
      except:
        problem = ascii('%s setup: %s' % (sc.name, traceback.format_exc()))[-1800:]
        try:
          caught(ctx, 'at setup')
        except:
          result['errors'].append(problem)
      watch.since = None
      result['scenarios'][sc.name] = dict(
          cases=cases, evaluations=ctx.evaluations, events=ctx.events,
          states=sorted(ctx.states), samples=ctx.samples, floors=sc.floors,
          exhaustive=sc.exhaustive, cut=cut, slowest=slowest)
      result['violations'] += ctx.violations
  except:
    result['errors'].append(ascii(traceback.format_exc())[-3000:])
  watch.since = None
  write(out, result)
  if os.environ.get('VERIF_DEBUG'):
    stdout.write(json.dumps(result['errors'], indent=1))
  sys.stdout = stdout
  # daemon threads of a scenario must not hold the JVM
  sys.stdout.flush()
  os._exit(0)
