# -*- coding: us-ascii -*-
"""M09 point and move notation is unambiguous and reads back what it wrote."""
from harness import Scenario
from ref import rules
from bglib.model import util, PartialMove, Move
from bglib.model import constants as K

RULE = ('points, players and steps are enumerated completely; texts are '
        'generated; a state is one (notation, value) pair')
ASSUMPTIONS = ['internal points are -1 (off), 0..23 and 24 (bar)']


def points(ctx, rng, i):
  """the whole finite space in one case."""
  seen = {}
  for who in (K.YOU, K.HIM):
    texts = {}
    for n in range(-1, 25):
      s = util.position_ntop(n, who)
      if n == -1:
        want = ('your home', 'his home')[who]
      elif n == 24:
        want = ('your bar', 'his bar')[who]
      else:
        want = str(who == K.YOU and n + 1 or 24 - n)
      ctx.equal(s, want, 'position-text', 'point %d of player %d' % (n, who))
      ctx.equal(util.position_pton(s, who), n, 'position-round-trip', '%r of player %d' % (s, who))
      ctx.check(s not in texts, 'position-ambiguous', '%r' % s)
      texts[s] = n
      ctx.state(('p', who, n))
      ctx.event('point')
    for bad in (25, 26, 30, 100):
      try:
        s = util.position_ntop(bad, who)
        ctx.check(False, 'position-bad-accepted', '%d printed as %r' % (bad, s))
      except ValueError:
        ctx.check(True, '', '')
  # one physical point has one text: my point n is his point flip(n)
  for n in range(24):
    ctx.equal(util.flip_point(n), 23 - n, 'flip-point', '%d' % n)
    ctx.equal(util.flip_point(util.flip_point(n)), n, 'flip-point', 'twice %d' % n)
    ctx.equal(util.position_ntop(n, K.YOU), util.position_ntop(util.flip_point(n), K.HIM),
              'position-absolute', 'point %d' % n)
  texts = {}
  for n in range(-1, 25):
    s = util.move_ntop(n)
    want = n == -1 and 'off' or n == 24 and 'bar' or str(n + 1)
    ctx.equal(s, want, 'move-text', 'point %d' % n)
    ctx.equal(util.move_pton(s), n, 'move-round-trip', '%r' % s)
    ctx.check(s not in texts, 'move-ambiguous', '%r' % s)
    texts[s] = n
    ctx.state(('m', n))
  for bad in (25, 26, 99):
    try:
      s = util.move_ntop(bad)
      ctx.check(False, 'move-bad-accepted', '%d printed as %r' % (bad, s))
    except ValueError:
      ctx.check(True, '', '')
  for p in (K.YOU, K.HIM):
    ctx.equal(util.get_opp(p), 1 - p, 'opponent', 'player %d' % p)
  for p in (2, K.CENTER, -1, None, 'you'):
    try:
      q = util.get_opp(p)
      ctx.check(False, 'opponent-bad-accepted', '%r has opponent %r' % (p, q))
    except ValueError:
      ctx.check(True, '', '')


def steps(ctx, rng, i):
  """case i is one (die, source) with every destination and its inverse."""
  die, src = i % 6 + 1, i // 6 - 1
  for dest in range(-1, 25):
    for hit in (False, True):
      pm = PartialMove(die, src, dest, hit)
      s = str(pm)
      want = util.move_ntop(src) + '/' + util.move_ntop(dest) + (hit and '*' or '')
      ctx.equal(s, want, 'step-text', '%r' % ((die, src, dest, hit),))
      a, b = s.rstrip('*').split('/')
      ctx.equal((util.move_pton(a), util.move_pton(b), s.endswith('*')), (src, dest, hit), 'step-round-trip', s)
      ctx.equal(repr(pm), '<PartialMove: %s>' % want, 'step-repr', s)
      ctx.equal(bool(pm.is_undo()), dest > src, 'step-direction', s)
      ctx.equal(bool(pm.is_dance()), dest == src, 'step-dance', s)
      for d2, s2, t2, h2 in ((die, dest, src, hit), (die, src, dest, hit), (die % 6 + 1, dest, src, hit),
                             (die, dest, src, not hit), (die, dest, (src + 2) % 25 - 1, hit),
                             (die, (dest + 2) % 25 - 1, src, hit)):
        q = PartialMove(d2, s2, t2, h2)
        inverse = d2 == die and s2 == dest and t2 == src and h2 == hit
        ctx.equal(bool(pm.are_invertible_element(q)), inverse, 'step-inverse', '%s with %s' % (s, q))
        ctx.equal(bool(q.are_invertible_element(pm)), inverse, 'step-inverse', '%s with %s' % (q, s))
        ctx.event('pair')
      ctx.state(('s', die, src, dest, hit))


def texts(ctx, rng, i):
  """garbage is refused with ValueError or read as a point that exists."""
  alphabet = '0123456789 -+barofhmeyuis/*\t.'
  kind = rng.randint(0, 3)
  if kind == 0:
    s = str(rng.randint(-40, 60))
  elif kind == 1:
    s = ''.join([rng.choice(alphabet) for _ in range(rng.randint(0, 6))])
  elif kind == 2:
    s = rng.choice(('bar', 'off', 'your bar', 'his bar', 'your home', 'his home', 'home', 'Bar', 'OFF', 'bar ', '1 2'))
  else:
    s = ' ' * rng.randint(0, 2) + str(rng.randint(-2, 27)) + ' ' * rng.randint(0, 2)
  ctx.state(s)
  number = None
  try:
    number = int(s)
  except ValueError:
    pass
  for who in (K.YOU, K.HIM):
    if s in ('your home', 'his home'):
      want = -1
    elif s in ('your bar', 'his bar'):
      want = 24
    elif number is not None and 1 <= number <= 24:
      want = who == K.YOU and number - 1 or 24 - number
    else:
      want = None
    if who == K.YOU and number is not None and number == 1:
      want = 0
    try:
      got = util.position_pton(s, who)
    except ValueError:
      got = None
    ctx.event(want is None and 'garbage' or 'text')
    ctx.equal(got, want, 'position-read', '%r for player %d' % (s, who))
  if s == 'bar':
    want = 24
  elif s == 'off':
    want = -1
  elif number is not None and 1 <= number <= 24:
    want = number - 1
  elif number in (0, 25):
    want = 'either'
  else:
    want = None
  try:
    got = util.move_pton(s)
  except ValueError:
    got = None
  if want != 'either':
    ctx.equal(got, want, 'move-read', '%r' % s)


def moves(ctx, rng, i):
  """a whole move prints its steps in order."""
  n = rng.randint(0, 4)
  mv = Move()
  want = []
  for _ in range(n):
    die = rng.randint(1, 6)
    src = rng.randint(0, 24)
    dest = max(-1, src - die)
    hit = dest >= 0 and rng.random() < 0.3
    mv.append(PartialMove(die, src, dest, hit))
    want.append((src, dest, hit))
  s = str(mv)
  ctx.state(s)
  ctx.event('move-%d' % n)
  if not n:
    ctx.equal(s, 'o-o', 'empty-move-text', 'empty move')
    return
  got = []
  for part in s.split(', '):
    a, b = part.rstrip('*').split('/')
    got.append((util.move_pton(a), util.move_pton(b), part.endswith('*')))
  ctx.equal(got, want, 'move-text-round-trip', s)
  ctx.equal(len(mv), n, 'move-length', s)


SCENARIOS = [
    Scenario('points', points, 1, 1, exhaustive=True, floors={'point': 52}),
    Scenario('steps', steps, 156, 156, exhaustive=True, floors={'pair': 10000}),
    Scenario('texts', texts, 40000, 400000, floors={'garbage': 5000, 'text': 2000}),
    Scenario('moves', moves, 20000, 200000, floors={'move-4': 500}),
]
