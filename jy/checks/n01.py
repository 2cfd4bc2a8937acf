# -*- coding: us-ascii -*-
"""N01 every line of a running FIBS session gets the name of its kind, whatever
was said before it."""
from harness import Scenario
from ref import fibsmsg

from bglib.protocol import fibs

RULE = ('a case is a session: a history of generated server lines, one kind per '
        'line from a table written after the protocol description, run through '
        'one live recognizer; each answer is compared with the table, and the '
        'same line is asked again after other histories; a state is a (kind, '
        'previous kind) pair')
ASSUMPTIONS = ['the table of message kinds describes what the server sends',
               'lines of the stat command are only recognized by their number being large, as shouts of one\'s own are numbered too']


def running(rng=None):
  m = fibs.CookieMonster()
  m.make_cookie('3')
  m.make_cookie('4')
  return m


def ask(ctx, m, names, text, log):
  got = m.make_cookie(text)
  ctx.check(got in names, 'misread-%s-as-%s' % (names[0], got),
            lambda: '%r is %s, was read as %s; before it %r' % (text, '/'.join(names), got, log[-4:]))
  ctx.event('lines')
  return got


def session(ctx, rng, i):
  m = running()
  log = []
  prev = None
  # few kinds per session, repeated: the recognizer remembers what matched
  pool = None
  if rng.random() < 0.6:
    pool = [rng.choice(fibsmsg.TABLE) for _ in range(rng.randint(2, 12))]
  for _ in range(rng.randint(20, 120)):
    if pool and rng.random() < 0.8:
      names, text = rng.choice(pool)
      text = fibsmsg.fill(rng, text)
    else:
      names, text = fibsmsg.message(rng)
    ctx.detail = repr((names, text))
    ask(ctx, m, names, text, log)
    ctx.state((names, prev))
    prev = names
    ctx.event('kind ' + names[0])
    log.append(text)
  ctx.event('sessions')
  if i < 2:
    ctx.sample(repr(log[:6]))


def npairs():
  return len(fibsmsg.TABLE)


def pairs(ctx, rng, i):
  """every kind right after every other kind, and twice."""
  names, text = fibsmsg.TABLE[i]
  for other, otext in fibsmsg.TABLE + [(('FIBS_Board',), None), (('FIBS_BAD_Board',), None)]:
    m = running()
    def make(t, kind):
      if t is None:
        return fibsmsg.board_line(rng, kind == ('FIBS_Board',))
      return fibsmsg.fill(rng, t)
    log = []
    seq = [(other, otext), (names, text), (other, otext), (names, text)]
    for kind, t in seq:
      line = make(t, kind)
      ask(ctx, m, kind, line, log)
      log.append(line)
    ctx.state((names, other))
    ctx.event('pairs')


def boards(ctx, rng, i):
  """good and bad board lines in every order, among everything else."""
  m = running()
  log = []
  for _ in range(30):
    r = rng.random()
    if r < 0.4:
      kind, line = ('FIBS_Board',), fibsmsg.board_line(rng)
    elif r < 0.7:
      kind, line = ('FIBS_BAD_Board',), fibsmsg.board_line(rng, False)
    else:
      kind, line = fibsmsg.message(rng)
    got = ask(ctx, m, kind, line, log)
    ctx.event(got)
    log.append(line)
  ctx.state(repr(log[:3]))


SCENARIOS = [
    Scenario('session', session, 1600, 30000, floors=dict([('lines', 60000), ('sessions', 1500)] +
             [('kind ' + names[0], 20) for names, text in fibsmsg.TABLE])),
    Scenario('pairs', pairs, npairs, npairs, exhaustive=True, floors={'pairs': 30000}),
    Scenario('boards', boards, 400, 10000, floors={'FIBS_Board': 2000, 'FIBS_BAD_Board': 2000}),
]
