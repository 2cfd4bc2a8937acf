# -*- coding: us-ascii -*-
"""E01 GNU Backgammon ids: faithful both ways, canonical, and safe to feed."""
import timelimit as _sf
from harness import Scenario
from ref import rules, gnubg
from ref.modelkit import K, Board, BoardEditor, FIELDS, snap
from checks.m06 import random_fields

from bglib.encoding import gnubgid
import bglib.encoding as enc

RULE = ('a case is a board with every attribute generated over its encodable '
        'range; its ids are compared with an encoder written from the format '
        'description and decoded again into a dirty editor; malformed texts are '
        'observed to end in a documented refusal; a state is a board or text')
ASSUMPTIONS = ['the bit-array helper of the absent tonic package is replaced by a stand-in of the same interface',
               'running money games with a score are refused on decoding by design and not generated']


def encodable(rng):
  d = random_fields(rng)
  d['cube_in_logarithm'] = rng.choice((0, 1, 2, 3, 6, 10, 15))
  d['cube_owner'] = rng.choice((K.YOU, K.HIM, K.CENTER))
  d['rolled'] = rng.choice(((0, 0), rules.random_roll(rng)))
  d['match_length'] = rng.choice((0, 1, 2, 5, 7, 11, 25, 255, 256, 32767))
  top = d['match_length'] or 32767
  d['score'] = (rng.choice((0, top, rng.randint(0, top))), rng.choice((0, top, rng.randint(0, top))))
  if d['match_length'] == 0 and d['game_state'] == K.ON_GOING:
    d['score'] = (0, 0)
  if rng.random() < 0.15:
    # few chequers: every length of the bit string
    n = rng.randint(0, 30)
    side = ([0] * 25, [0] * 25)
    for k in range(n):
      s = k % 2
      side[s][rng.randint(0, 24)] += 1
    d['position'] = (tuple(side[0]), tuple(side[1]))
  return d


def roundtrip(ctx, rng, i):
  d = encodable(rng)
  ctx.detail = repr(d)
  ctx.state(sorted(d.items()))
  b = Board(**d)
  before = snap(b)
  pid, mid = gnubgid.encode(b)
  ctx.sample('%r -> %s:%s' % (d, pid, mid))
  you, him = d['position']
  if d['on_action'] == K.YOU:
    want = gnubg.position_id(him, you)
  else:
    want = gnubg.position_id(you, him)
  ctx.equal(pid, want, 'position-id-not-canonical', 'position id of %r' % (d,))
  ctx.equal(mid, gnubg.match_id(d), 'match-id-not-canonical', 'match id of %r' % (d,))
  ctx.equal(len(pid), 14, 'position-id-length', 'length of %s' % pid)
  ctx.equal(len(mid), 12, 'match-id-length', 'length of %s' % mid)
  ctx.equal(snap(b), before, 'encoding-changed-board', 'board after encoding')
  e = BoardEditor(Board(**encodable(rng)))
  gnubgid.decode(e, pid, mid)
  for f, v in snap(e):
    ctx.check(v == d[f], 'roundtrip-%s' % f, lambda: '%s of %r comes back %r from %s:%s' % (f, d, v, pid, mid))
  ctx.check(e.freeze() == b, 'roundtrip-not-equal', lambda: 'decoded board differs from %r' % (d,))
  ctx.equal(gnubgid.encode(e), (pid, mid), 'reencode', 'ids of the decoded board')
  ctx.event('round trips')
  n = sum(you) + sum(him)
  ctx.event('ids of %d mod 8 bits' % ((n + 50) % 8))
  if d['on_action'] == K.HIM:
    ctx.event('him on action')


def reference_ids(ctx, rng, i):
  """ids made by the independent encoder, also as older writers shorten them."""
  d = encodable(rng)
  you, him = d['position']
  pid = gnubg.position_id(*(d['on_action'] == K.YOU and (him, you) or (you, him)))
  mid = gnubg.match_id(d)
  ctx.detail = '%s:%s' % (pid, mid)
  ctx.state(ctx.detail)
  if rng.random() < 0.5:
    pid, mid = unicode(pid), unicode(mid)
    ctx.event('unicode ids')
  e = BoardEditor()
  gnubgid.decode(e, pid, mid)
  for f, v in snap(e):
    ctx.check(v == d[f], 'decode-%s' % f, lambda: '%s of %s:%s decodes to %r, expected %r' % (f, pid, mid, v, d[f]))
  xs = gnubgid.decode_position(pid)
  ctx.equal(xs, (d['on_action'] == K.YOU and (him, you) or (you, him)), 'decode-position', 'position of %s' % pid)
  ctx.equal(gnubgid.encode_position(xs), str(pid), 'encode-position', 'id of %r' % (xs,))
  ctx.event('reference ids')


def hostile(ctx, rng, i):
  """any text ends: in a board, or in a refusal that says so."""
  d = encodable(rng)
  pid, mid = gnubg.position_id(*d['position']), gnubg.match_id(d)
  which = rng.choice(('pid', 'mid', 'both'))
  def spoil(s):
    op = rng.choice(('cut', 'grow', 'swap', 'noise', 'pad', 'empty'))
    ctx.event(op)
    s = list(s)
    if op == 'cut':
      s = s[:rng.randint(0, len(s))]
    elif op == 'grow':
      s += [rng.choice(gnubg.ALPHABET) for _ in range(rng.randint(1, 9))]
    elif op == 'swap':
      for _ in range(rng.randint(1, 6)):
        s[rng.randrange(len(s))] = rng.choice(gnubg.ALPHABET)
    elif op == 'noise':
      for _ in range(rng.randint(1, 4)):
        s[rng.randrange(len(s))] = rng.choice('-_!: ?*.~\t\n')
    elif op == 'pad':
      s += ['='] * rng.randint(1, 3)
    else:
      s = []
    return ''.join(s)
  if which in ('pid', 'both'):
    pid = spoil(pid)
  if which in ('mid', 'both'):
    mid = spoil(mid)
  ctx.detail = '%r %r' % (pid, mid)
  ctx.state(ctx.detail)
  ctx.sample(ctx.detail)
  def attempt():
    e = BoardEditor()
    try:
      gnubgid.decode(e, pid, mid)
    except (enc.EncodingError, TypeError):
      return None
    return e
  got = _sf.within(attempt, 5.0)
  if not ctx.check(got is not _sf.TIMEOUT, 'decode-never-ends', lambda: 'decoding %r %r did not end' % (pid, mid)):
    return
  if got is None:
    ctx.event('refused')
    return
  ctx.event('accepted')
  e = got
  ctx.check(len(e.position) == 2 and len(e.position[0]) == 25 and len(e.position[1]) == 25,
            'accepted-nonsense', lambda: 'decoding %r %r gives position %r' % (pid, mid, e.position))


SCENARIOS = [
    Scenario('roundtrip', roundtrip, 16000, 400000,
             floors={'round trips': 10000, 'him on action': 3000, 'ids of 0 mod 8 bits': 100,
                     'ids of 1 mod 8 bits': 100, 'ids of 7 mod 8 bits': 100}),
    Scenario('reference_ids', reference_ids, 8000, 200000, floors={'reference ids': 6000, 'unicode ids': 2000}),
    Scenario('hostile', hostile, 6000, 120000, floors={'refused': 1000, 'accepted': 1000}),
]
