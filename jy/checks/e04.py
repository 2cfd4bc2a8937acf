# -*- coding: us-ascii -*-
"""E04 FIBS board lines decode to the situation they describe."""
from harness import Scenario
from ref import rules
from ref.modelkit import K, Board, BoardEditor, FIELDS, snap
from checks.m06 import random_fields

from bglib.encoding import FIBS

RULE = ('a case is a situation written as a FIBS rawboard line by an independent '
        'writer for a random colour and direction, decoded into a dirty editor '
        'and compared attribute by attribute; a state is a line')
ASSUMPTIONS = ['line layout as in the FIBS interface description',
               'a resignation is not part of the line, so none is expected']

NAMES = ('You', 'someplayer', 'GammonBot_IX', 'a', 'bonehead', 'zz_Top')


def situation(rng, kind):
  d = random_fields(rng)
  d['on_action'] = rng.choice((K.YOU, K.HIM))
  d['on_inner_action'] = d['on_action']
  d['game_state'] = K.ON_GOING
  d['resign_offer'] = 0
  d['cube_in_logarithm'] = rng.choice((0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12))
  d['cube_owner'] = rng.choice((K.YOU, K.HIM, K.CENTER))
  d['crawford'] = d['cube_owner'] == K.CENTER and rng.random() < 0.3
  d['doubled'] = False
  d['match_length'] = rng.choice((1, 3, 5, 7, 9, 9999, rng.randint(1, 99)))
  if kind == 'doubled':
    d['doubled'] = True
    d['crawford'] = False
    d['rolled'] = (0, 0)
    d['on_inner_action'] = 1 - d['on_action']
  if kind == 'over':
    d['on_action'] = d['on_inner_action'] = K.CENTER
    d['rolled'] = (0, 0)
    d['game_state'] = K.FINISHED
  return d


def write(d, rng, colour, direction):
  you, him = d['position']
  board = [0] * 26
  # direction -1: I go from 24 to 1, bar is 25; +1: from 1 to 24, bar is 0
  def at(point, going):
    if point == 24:
      return going < 0 and 25 or 0
    return going < 0 and point + 1 or 24 - point
  for p in range(25):
    if you[p]:
      board[at(p, direction)] += colour * you[p]
    if him[p]:
      board[at(p, -direction)] -= colour * him[p]
  turn = {K.YOU: colour, K.HIM: -colour, K.CENTER: 0}[d['on_action']]
  yd = hd = (0, 0)
  if d['on_action'] == K.YOU:
    yd = d['rolled']
  elif d['on_action'] == K.HIM:
    hd = d['rolled']
  if d['crawford']:
    may = (0, 0)
  else:
    may = {K.CENTER: (1, 1), K.YOU: (1, 0), K.HIM: (0, 1)}[d['cube_owner']]
  home, bar = direction < 0 and (0, 25) or (25, 0)
  f = ['board', rng.choice(NAMES), rng.choice(NAMES), d['match_length'], d['score'][0], d['score'][1]]
  f += board
  f += [turn] + list(yd) + list(hd) + [2 ** d['cube_in_logarithm'], may[0], may[1],
                                       int(d['doubled']), colour, direction, home, bar,
                                       15 - sum(you), 15 - sum(him), you[24], him[24],
                                       rng.randint(0, 4), 0, 0, rng.choice((0, 0, 1, 2))]
  assert len(f) == 53
  return ':'.join(map(str, f))


def decode(ctx, rng, i):
  kind = ('turn', 'turn', 'doubled', 'over')[i % 4]
  d = situation(rng, kind)
  colour, direction = rng.choice((1, -1)), rng.choice((1, -1))
  line = write(d, rng, colour, direction)
  ctx.detail = '%s from %r' % (line, d)
  ctx.state(line)
  ctx.sample(line)
  e = BoardEditor(Board(**random_fields(rng)))
  FIBS.decode(e, line)
  for f, v in snap(e):
    if f in ('on_action', 'on_inner_action') and kind == 'over':
      ctx.check(v not in (K.YOU, K.HIM), 'decode-over-%s' % f, lambda: '%s: %s is %r in a finished game' % (line, f, v))
    else:
      ctx.check(v == d[f], 'decode-%s' % f, lambda: '%s: %s is %r, expected %r' % (line, f, v, d[f]))
  ctx.event('decoded ' + kind)
  ctx.event('colour %d direction %d' % (colour, direction))
  if d['on_action'] == K.HIM:
    ctx.event('opponent on turn')
  # the same game, as the server describes it to a player of the other colour
  # or direction
  o = BoardEditor()
  FIBS.decode(o, write(d, rng, -colour, direction))
  p = BoardEditor()
  FIBS.decode(p, write(d, rng, colour, -direction))
  e = BoardEditor()
  FIBS.decode(e, line)
  ctx.check(o == e, 'colour-dependent', lambda: 'the colour changes the board of %s' % line)
  ctx.check(p == e, 'direction-dependent', lambda: 'the direction changes the board of %s' % line)
  # and to his opponent
  if kind != 'over':
    q = BoardEditor()
    m = dict(d)
    m['position'] = (d['position'][1], d['position'][0])
    m['score'] = (d['score'][1], d['score'][0])
    sw = {K.YOU: K.HIM, K.HIM: K.YOU, K.CENTER: K.CENTER}
    for k in ('cube_owner', 'on_action', 'on_inner_action'):
      m[k] = sw[d[k]]
    FIBS.decode(q, write(m, rng, -colour, -direction))
    q.flip()
    ctx.check(q == e, 'seats-disagree', lambda: 'the two players are told different games: %s' % line)
    ctx.event('both seats')


SCENARIOS = [
    Scenario('decode', decode, 12000, 300000,
             floors={'decoded turn': 4000, 'decoded doubled': 2000, 'decoded over': 2000,
                     'opponent on turn': 3000, 'colour 1 direction 1': 1000,
                     'colour -1 direction 1': 1000, 'both seats': 6000}),
]
