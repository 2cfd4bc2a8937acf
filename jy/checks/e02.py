# -*- coding: us-ascii -*-
"""E02 XGID texts decode to the situation they describe."""
from harness import Scenario
from ref import rules, gnubg
from ref.modelkit import K, Board, BoardEditor, FIELDS, snap
from checks.m06 import random_fields

from bglib.encoding import xgid, gnubgid
import bglib.encoding as enc

RULE = ('a case is a situation written as XGID by an independent encoder and '
        'decoded into a dirty editor, compared field by field and with the board '
        'decoded from its GNU Backgammon ids; malformed texts must end in one of '
        'the package\'s own errors; a state is a text')
ASSUMPTIONS = ['upper case chequers are the model\'s "him", as the existing tests fix it']


def letters(me_low, me_up):
  """26 characters: bar of the lower case side, his 24 point .. his ace point
  being the other side's points 1..24, bar of the upper case side."""
  out = []
  for k in range(26):
    # k=0 lower bar; k=1..24 upper side's point k; k=25 upper bar
    if k == 0:
      n = -me_low[24]
    elif k == 25:
      n = me_up[24]
    else:
      up = me_up[k - 1]
      low = me_low[24 - k]
      assert not (up and low)
      n = up or -low
    if n > 0:
      out.append(chr(ord('A') + n - 1))
    elif n < 0:
      out.append(chr(ord('a') - n - 1))
    else:
      out.append('-')
  return ''.join(out)


def situation(rng):
  d = random_fields(rng)
  d['cube_in_logarithm'] = rng.choice((0, 0, 1, 2, 3, 6, 10))
  d['cube_owner'] = rng.choice((K.YOU, K.HIM, K.CENTER))
  d['on_action'] = d['on_inner_action'] = rng.choice((K.YOU, K.HIM))
  d['game_state'] = K.ON_GOING
  d['doubled'] = False
  d['resign_offer'] = 0
  d['match_length'] = rng.choice((0, 1, 3, 5, 7, 11, 25))
  top = d['match_length'] and d['match_length'] - 1 or 0
  d['score'] = (rng.randint(0, top), rng.randint(0, top))
  d['crawford'] = bool(d['match_length'] and rng.random() < 0.3)
  return d


def write(d, rng):
  you, him = d['position']
  side = {K.YOU: '-1', K.HIM: '1', K.CENTER: '0'}
  flag = int(d['crawford'])
  if d['match_length'] == 0:
    flag = rng.choice((0, 1, 2, 3))
  return ':'.join([letters(you, him), str(d['cube_in_logarithm']), side[d['cube_owner']],
                   side[d['on_action']], '%d%d' % d['rolled'],
                   str(d['score'][1]), str(d['score'][0]), str(flag),
                   str(d['match_length']), str(rng.choice((3, 5, 8, 10, 16)))])


def decode(ctx, rng, i):
  d = situation(rng)
  s = write(d, rng)
  ctx.detail = '%s from %r' % (s, d)
  ctx.state(s)
  ctx.sample(s)
  dirty = BoardEditor(Board(**random_fields(rng)))
  xgid.decode(dirty, s)
  for f, v in snap(dirty):
    ctx.check(v == d[f], 'decode-%s' % f, lambda: '%s of %s is %r, expected %r' % (f, s, v, d[f]))
  ctx.event('decoded')
  if d['match_length'] == 0:
    ctx.event('money flag %s' % s.split(':')[7])
  if d['crawford']:
    ctx.event('crawford')
  # same situation from the other format
  you, him = d['position']
  pid = gnubg.position_id(*(d['on_action'] == K.YOU and (him, you) or (you, him)))
  e = BoardEditor()
  gnubgid.decode(e, pid, gnubg.match_id(d))
  a = BoardEditor()
  xgid.decode(a, s)
  ctx.check(a == e, 'formats-disagree', lambda: '%s and %s:%s give different boards' % (s, pid, gnubg.match_id(d)))
  ctx.event('both formats')


def one_change(ctx, rng, i):
  """every item of the text matters: two texts that differ in one item give
  boards that differ in exactly the attributes it stands for."""
  d = situation(rng)
  e = dict(d)
  f = rng.choice(('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'rolled', 'score',
                  'crawford', 'match_length'))
  o = situation(rng)
  e[f] = o[f]
  if f == 'on_action':
    e['on_inner_action'] = e['on_action']
  if not e['match_length']:
    e['crawford'] = False
  a, b = BoardEditor(), BoardEditor()
  xgid.decode(a, write(d, rng))
  xgid.decode(b, write(e, rng))
  ctx.detail = '%r | %r' % (d, e)
  ctx.state((f, sorted(e.items())))
  for g in FIELDS:
    ctx.check((getattr(a, g) == getattr(b, g)) == (d[g] == e[g]), 'item-%s' % g,
              lambda: 'changing %s: %s is %r and %r, should be %r and %r'
              % (f, g, getattr(a, g), getattr(b, g), d[g], e[g]))
  ctx.event('changed ' + f)


def hostile(ctx, rng, i):
  d = situation(rng)
  items = write(d, rng).split(':')
  op = rng.choice(('drop', 'more', 'letter', 'blank', 'number', 'position', 'empty', 'noise'))
  bad = True
  if op == 'drop':
    del items[rng.randrange(len(items))]
  elif op == 'more':
    items.insert(rng.randint(0, len(items)), rng.choice(('', '0', 'x')))
  elif op == 'letter':
    items[rng.randint(1, 8)] = rng.choice(('x', 'D', '1x', '--1', '1.5', 'e'))
  elif op == 'blank':
    items[rng.randint(1, 8)] = ''
  elif op == 'number':
    k, v = rng.choice(((2, '2'), (2, '-2'), (3, '0'), (3, '2'), (3, '-3'), (4, '1'), (4, '111'),
                       (7, '4'), (7, '-1'), (8, '-1'), (8, '-7'), (4, '17'), (4, '70'),
                       (4, '99'), (5, '-1'), (6, '-3'), (1, '-1'), (1, '-4')))
    items[k] = v
  elif op == 'position':
    s = items[0]
    k = rng.randrange(26)
    items[0] = rng.choice((s[1:], s + '-', '', s[:13], s + s,
                           s[:k] + rng.choice('pqzPQZ*0 +_') + s[k + 1:]))
  elif op == 'empty':
    items = ['']
  else:
    s = ':'.join(items)
    s = list(s)
    for _ in range(rng.randint(1, 5)):
      s[rng.randrange(len(s))] = rng.choice('-:0123456789ABCabc xyz\xff')
    items = ''.join(s).split(':')
    bad = False
  s = ':'.join(items)
  ctx.detail = repr(s)
  ctx.state(s)
  ctx.event(op)
  try:
    e = BoardEditor()
    xgid.decode(e, s)
  except enc.EncodingError:
    ctx.event('refused')
    ctx.check(True, '', '')
    return
  ctx.check(not bad, 'malformed-accepted', lambda: '%r (%s) was accepted' % (s, op))
  ctx.event('accepted')


SCENARIOS = [
    Scenario('decode', decode, 12000, 300000, floors={'decoded': 8000, 'money flag 2': 100, 'money flag 3': 100, 'crawford': 500, 'both formats': 8000}),
    Scenario('one_change', one_change, 6000, 150000, floors={'changed position': 200, 'changed score': 200, 'changed crawford': 200}),
    Scenario('hostile', hostile, 8000, 200000, floors={'refused': 3000, 'accepted': 20}),
]
