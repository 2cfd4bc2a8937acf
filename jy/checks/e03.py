# -*- coding: us-ascii -*-
"""E03 database byte strings: lossless, seen from the side on action, and a
distance that behaves like one."""
from harness import Scenario
from ref import rules
from ref.modelkit import K, Board, BoardEditor, FIELDS, snap
from checks.m06 import random_fields, mirror

from bglib.encoding import dbbyte

RULE = ('a case is a board (or two or three) with every attribute generated; the '
        'bytes are compared with independently computed ones, turned back into a '
        'board, and distances are compared with a sum over the decoded counts; a '
        'state is a board')
ASSUMPTIONS = ['positions are legal: no point is held by both players']


def expected(mover, other):
  counts = [-other[24]]
  for k in range(24):
    counts.append(mover[k] - other[23 - k])
  counts.append(mover[24])
  return counts


def bytes_of(counts):
  return ''.join([chr(n % 256) for n in counts])


def sides(d):
  you, him = d['position']
  if d['on_action'] == K.YOU:
    return you, him
  return him, you


def roundtrip(ctx, rng, i):
  d = random_fields(rng)
  ctx.detail = repr(d)
  ctx.state(sorted(d.items()))
  ctx.sample(repr(d))
  b = Board(**d)
  e = dbbyte.DatabaseBytesExpression(b)
  want = bytes_of(expected(*sides(d)))
  ctx.equal(e.position, want, 'bytes-wrong', 'bytes of %r' % (d,))
  for f in FIELDS:
    if f != 'position':
      ctx.equal(getattr(e, f), d[f], 'attribute-lost-%s' % f, '%s of the expression of %r' % (f, d))
  back = e.tomodel()
  ctx.check(isinstance(back, Board), 'not-a-board', lambda: 'tomodel gives %r' % (back.__class__,))
  for f, v in snap(back):
    ctx.check(v == d[f], 'roundtrip-%s' % f, lambda: '%s of %r comes back as %r' % (f, d, v))
  ctx.check(back == b, 'roundtrip-not-equal', lambda: 'board from bytes differs: %r' % (d,))
  for name in ('position', 'on_action', 'score', 'nonsense'):
    try:
      setattr(e, name, d.get(name))
    except TypeError:
      ctx.event('refused writes')
    else:
      ctx.violation('expression-mutable', 'attribute %s of an expression could be set' % name)
  try:
    e.nonsense
  except AttributeError:
    pass
  else:
    ctx.violation('unknown-attribute', 'unknown attribute could be read')
  ctx.equal(e.position, want, 'bytes-changed', 'bytes after refused writes')
  ctx.event('round trips')
  if d['on_action'] == K.HIM:
    ctx.event('him on action')
  # the same situation with the players in each other's seats
  m = dbbyte.DatabaseBytesExpression(Board(**mirror(d)))
  ctx.equal(m.position, want, 'seat-dependent', 'bytes of the mirror image of %r' % (d,))
  ctx.event('mirrored')
  xs = sides(d)
  ctx.equal(dbbyte.decode_position(dbbyte.encode_position(xs)), xs, 'position-roundtrip', 'position %r' % (xs,))


def metric(ctx, rng, i):
  """distance = sum of squared differences of the signed counts."""
  def one():
    if i % 5 == 0:
      # extreme counts
      k = rng.randint(0, 24)
      a = [0] * 25
      a[k] = 15
      o = [0] * 25
      free = [p for p in range(25) if p == 24 or 23 - p != k]
      o[rng.choice(free)] = 15
      return (tuple(a), tuple(o))
    return rules.random_position(rng)
  x, y, z = one(), one(), one()
  ctx.state((x, y, z))
  ctx.sample('%r %r' % (x, y))
  ctx.detail = '%r %r %r' % (x, y, z)
  bx, by, bz = [dbbyte.encode_position(p) for p in (x, y, z)]
  def want(p, q):
    return sum([(u - v) ** 2 for u, v in zip(expected(*p), expected(*q))])
  d = dbbyte.distance(bx, by)
  ctx.equal(d, want(x, y), 'distance-wrong', 'distance of %r and %r' % (x, y))
  ctx.equal(dbbyte.distance(by, bx), d, 'distance-asymmetric', 'distance of %r and %r' % (y, x))
  ctx.equal(dbbyte.distance(bx, bx), 0, 'distance-self', 'distance of %r to itself' % (x,))
  ctx.check((d == 0) == (x == y), 'distance-zero', lambda: 'distance %d of %r and %r' % (d, x, y))
  # triangle inequality of the root
  a, b, c = d ** 0.5, dbbyte.distance(by, bz) ** 0.5, dbbyte.distance(bx, bz) ** 0.5
  ctx.check(c <= a + b + 1e-9, 'distance-triangle', lambda: 'sqrt distances %r %r %r' % (a, b, c))
  ctx.event('distances')
  # one chequer moved by one pip changes two entries by one each
  me, opp = x
  src = [k for k in range(1, 24) if me[k] and opp[flip(k - 1)] == 0]
  if src:
    k = rng.choice(src)
    new = list(me)
    new[k] -= 1
    new[k - 1] += 1
    ctx.equal(dbbyte.distance(bx, dbbyte.encode_position((tuple(new), opp))), 2, 'distance-one-pip', 'one pip apart from %r' % (x,))
    ctx.event('one pip apart')


def flip(k):
  return 23 - k


SCENARIOS = [
    Scenario('roundtrip', roundtrip, 16000, 400000, floors={'round trips': 10000, 'him on action': 3000, 'refused writes': 30000}),
    Scenario('metric', metric, 12000, 300000, floors={'distances': 8000, 'one pip apart': 4000}),
]
