# -*- coding: us-ascii -*-
"""N02 a session moves from login over the message of the day to running and
back exactly when the server says so."""
from harness import Scenario
from ref import fibsmsg, fibsphase as P

from bglib.protocol import fibs

RULE = ('a case is a long server conversation through several logins; every name '
        'given is compared with a hand-coded machine of the phases, hostile '
        'look-alikes of the phase markers included; a state is (phase, name, '
        'previous name)')
ASSUMPTIONS = ['lines come without their line end']


def conversation(ctx, rng, i):
  m = fibs.CookieMonster()
  phase = P.BEFORE
  move = rng.choice((0.02, 0.1, 0.3))
  log = []
  prev = None
  stay = 0
  for _ in range(rng.randint(30, 200)):
    names = None
    if phase == P.RUNNING:
      stay += 1
      r = rng.random()
      if r < move:
        text = '           Goodbye.'
      elif r < move + 0.1:
        names, text = ('FIBS_Unknown',), rng.choice(('3', '4', '1 wxpygammon 120 host', '2 wxpygammon 1 1 0 0', 'login: ', 'login:', 'Goodbye.'))
      else:
        names, text = fibsmsg.message(rng)
    else:
      text = P.line(rng, phase, fibsmsg, move)
    want, after = P.step(phase, text)
    if want is not None:
      names = (want,)
    got = m.make_cookie(text)
    ctx.detail = '%s %r' % (phase, text)
    ok = ctx.check(got in names, 'phase-%s' % phase.replace(' ', '-'),
                   lambda: '%s: %r is %s, was read as %s; before it %r' % (phase, text, '/'.join(names), got, log[-4:]))
    ctx.state((phase, names, prev))
    ctx.event(phase)
    if after != phase:
      ctx.event('%s -> %s' % (phase, after))
    prev = names
    log.append(text)
    phase = after
    if not ok:
      return
  if i < 2:
    ctx.sample(repr(log[:8]))


def look_alikes(ctx, rng, i):
  """a line that is not exactly the marker never ends a phase."""
  m = fibs.CookieMonster()
  phases = []
  def run_message():
    return m.make_cookie('5 monitor - - 0 0 1500.00 0 18 1 localhost - x') == 'CLIP_WHO_INFO'
  def spoil(marker):
    while True:
      r = rng.random()
      if r < 0.3:
        s = marker + rng.choice(' .x0\t34')
      elif r < 0.6:
        s = rng.choice(' .x0\t>-') + marker
      elif r < 0.8:
        s = rng.choice(fibsmsg.TABLE)[1]
        if '%' in s:
          s = fibsmsg.fill(rng, s)
      else:
        s = ''.join([rng.choice(' 12345log:>.') for _ in range(rng.randint(0, 6))])
      if s != marker:
        return s
  for _ in range(10):
    s = spoil('3')
    m.make_cookie(s)
    ctx.check(m.make_cookie('| welcome |') == 'FIBS_PreLogin', 'left-login-early', lambda: '%r ended the login phase' % s)
    ctx.state(('l', s))
  ctx.equal(m.make_cookie('3'), 'CLIP_MOTD_BEGIN', 'begin-missed', 'start of message of the day')
  for _ in range(10):
    s = spoil('4')
    ctx.equal(m.make_cookie(s), 'FIBS_MOTD', 'motd-name', 'line %r of the message of the day' % s)
    ctx.state(('m', s))
  ctx.equal(m.make_cookie('4'), 'CLIP_MOTD_END', 'end-missed', 'end of message of the day')
  for _ in range(10):
    s = spoil('           Goodbye.')
    if s.startswith('           Goodbye.'):
      continue
    m.make_cookie(s)
    ctx.check(run_message(), 'left-running', lambda: '%r ended the running phase' % s)
    ctx.state(('r', s))
  ctx.equal(m.make_cookie('           Goodbye.'), 'FIBS_Goodbye', 'goodbye-missed', 'goodbye')
  ctx.equal(m.make_cookie('login: '), 'FIBS_LoginPrompt', 'login-after-goodbye', 'prompt after goodbye')
  ctx.event('look-alike sessions')


def many(ctx, rng, i):
  """recognizers do not share what they know."""
  ms = [[fibs.CookieMonster(), P.BEFORE, None] for _ in range(rng.randint(2, 5))]
  for _ in range(rng.randint(60, 200)):
    x = rng.choice(ms)
    names = None
    if x[1] == P.RUNNING:
      names, text = fibsmsg.message(rng)
      if rng.random() < 0.05:
        text = '           Goodbye.'
    else:
      text = P.line(rng, x[1], fibsmsg, 0.2)
    want, after = P.step(x[1], text)
    if want is not None:
      names = (want,)
    got = x[0].make_cookie(text)
    if not ctx.check(got in names, 'shared-state', lambda: '%s: %r is %s, was read as %s' % (x[1], text, names[0], got)):
      return
    ctx.state((x[1], names))
    x[1] = after
    ctx.event('interleaved lines')


SCENARIOS = [
    Scenario('conversation', conversation, 1600, 30000,
             floors={P.BEFORE: 20000, P.MOTD: 20000, P.RUNNING: 20000,
                     '%s -> %s' % (P.BEFORE, P.MOTD): 1500, '%s -> %s' % (P.MOTD, P.RUNNING): 1500,
                     '%s -> %s' % (P.RUNNING, P.BEFORE): 1000}),
    Scenario('look_alikes', look_alikes, 600, 10000, floors={'look-alike sessions': 500}),
    Scenario('many', many, 400, 10000, floors={'interleaved lines': 20000}),
]
