# -*- coding: us-ascii -*-
"""M06 the two players are interchangeable: swapping seats changes no answer."""
from harness import Scenario
from ref import rules, modelkit
from ref.modelkit import K, Board, BoardEditor, MoveFactory, steps_of, dice_of, snap

RULE = ('a case is one board with every attribute generated; it is compared with '
        'its mirror image, built both by the library and by the reference, on '
        'every question about either player; a state is a board')
ASSUMPTIONS = ['cube owner, turn and inner turn are one of you, him or centre']

SWAP = {K.YOU: K.HIM, K.HIM: K.YOU, K.CENTER: K.CENTER}


def random_fields(rng, shape=None, centre=False):
  me, opp = rules.random_position(rng, shape)
  who = rng.choice((K.YOU, K.HIM))
  turns = (K.YOU, K.HIM) + (centre and (K.CENTER,) or ())
  match_length = rng.choice((0, 0, 1, 2, 3, 5, 7, 11, 64))
  top = match_length and match_length - 1 or 9
  d = dict(position=rules.join(me, opp, who),
           cube_in_logarithm=rng.choice((0, 0, 1, 1, 2, 3, 6)),
           cube_owner=rng.choice((K.YOU, K.HIM, K.CENTER, K.CENTER)),
           on_action=rng.random() < 0.1 and rng.choice(turns) or who,
           crawford=rng.random() < 0.15,
           game_state=rng.choice((K.ON_GOING,) * 6 + (K.NOT_STARTED, K.FINISHED, K.RESIGNED, K.DOUBLED_OUT)),
           on_inner_action=rng.choice((who, who, who, 1 - who) + turns[2:]),
           doubled=rng.random() < 0.25,
           resign_offer=rng.choice((0, 0, 0, 0, 1, 2, 3)),
           rolled=rng.random() < 0.5 and (0, 0) or rules.random_roll(rng),
           match_length=match_length,
           score=(rng.randint(0, top), rng.randint(0, top)))
  return d


def mirror(d):
  m = dict(d)
  m['position'] = (d['position'][1], d['position'][0])
  m['score'] = (d['score'][1], d['score'][0])
  for k in ('cube_owner', 'on_action', 'on_inner_action'):
    m[k] = SWAP[d[k]]
  return m


def flip(ctx, rng, i):
  d = random_fields(rng, centre=True)
  ctx.detail = repr(d)
  ctx.state(sorted(d.items()))
  ctx.sample(repr(d))
  b = BoardEditor(Board(**d))
  b.flip()
  m = mirror(d)
  for f, v in snap(b):
    ctx.check(v == m[f], 'flip-wrong-%s' % f, lambda: 'flip of %r: %s is %r, expected %r' % (d, f, v, m[f]))
  b.flip()
  for f, v in snap(b):
    ctx.check(v == d[f], 'flip-twice-%s' % f, lambda: 'flipping %r twice: %s is %r' % (d, f, v))
  ctx.event('flipped')


QUESTIONS = ('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double',
             'is_leagal_to_redouble', 'is_leagal_to_resign',
             'is_cube_take_or_pass', 'is_to_accept_resign')


def answer(fn, *args):
  try:
    return bool(fn(*args))
  except AssertionError:
    return 'refused'


def questions(ctx, rng, i):
  d = random_fields(rng)
  ctx.detail = repr(d)
  ctx.state(sorted(d.items()))
  a = Board(**d)
  m = Board(**mirror(d))
  for q in QUESTIONS:
    for who in (K.YOU, K.HIM):
      x = answer(getattr(a, q), who)
      y = answer(getattr(m, q), 1 - who)
      if x is True:
        ctx.event('yes-' + q)
      ctx.check(x == y, 'asymmetric:' + q,
                lambda: '%s(%d) is %r but %r with the seats swapped; %r' % (q, who, x, y, d))
  for q in ('has_rolled',):
    ctx.check(answer(getattr(a, q)) == answer(getattr(m, q)), 'asymmetric:' + q, lambda: repr(d))
  for n in range(24):
    for q in ('is_open_to_land', 'is_hitting_to_land', 'has_chequer_to_move'):
      x = answer(getattr(a, q), n)
      y = answer(getattr(m, q), n)
      ctx.check(x == y, 'asymmetric:' + q, lambda: '%s(%d): %r %r; %r' % (q, n, x, y, d))
  for die in range(1, 7):
    x = a.find_src_of_bearoff_with(die)
    y = m.find_src_of_bearoff_with(die)
    ctx.check(x == y, 'asymmetric:bearoff-source', lambda: 'die %d: %r %r; %r' % (die, x, y, d))


def moves(ctx, rng, i):
  d = random_fields(rng)
  d['on_inner_action'] = d['on_action']
  d['rolled'] = rules.random_roll(rng)
  d['game_state'] = K.ON_GOING
  ctx.detail = repr(d)
  ctx.state(sorted(d.items()))
  a = BoardEditor(Board(**d))
  m = BoardEditor(Board(**mirror(d)))
  fa, fm = MoveFactory(a), MoveFactory(m)
  def both(what, x, y):
    x = x and (hasattr(x, 'die') and (x.die, x.src, x.dest, bool(x.is_hitting)) or steps_of(x)) or None
    y = y and (hasattr(y, 'die') and (y.die, y.src, y.dest, bool(y.is_hitting)) or steps_of(y)) or None
    if x:
      ctx.event('suggested')
    ctx.check(x == y, 'asymmetric:suggestion', lambda: '%s: %r but %r with the seats swapped; %r' % (what, x, y, d))
  for turn in range(4):
    for n in range(25):
      both('source %d' % n, fa.guess_your_single_pm_from_source(n), fm.guess_your_single_pm_from_source(n))
    for n in range(-1, 24):
      both('dest %d' % n, fa.guess_your_single_pm_from_dest(n), fm.guess_your_single_pm_from_dest(n))
    x, y = bool(fa.is_leagal_to_pickup_dice()), bool(fm.is_leagal_to_pickup_dice())
    ctx.check(x == y, 'asymmetric:pickup', lambda: '%r %r; %r' % (x, y, d))
    src = rng.randint(0, 24)
    x = fa.guess_your_single_pm_from_source(src)
    y = fm.guess_your_single_pm_from_source(src)
    if x and y:
      fa.append(x)
      fm.append(y)
      e = dict(snap(m))
      ctx.check(mirror(dict(snap(a))) == e, 'asymmetric:play', lambda: '%r: %r vs %r; %r' % (x, snap(a), snap(m), d))


SCENARIOS = [
    Scenario('flip', flip, 8000, 100000, floors={'flipped': 4000}),
    Scenario('questions', questions, 16000, 250000,
             floors=dict([('yes-' + q, 50) for q in QUESTIONS])),
    Scenario('moves', moves, 4000, 60000, floors={'suggested': 3000}),
]
