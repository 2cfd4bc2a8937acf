# -*- coding: us-ascii -*-
"""Boards of games that are going on, for the checks of pictures."""
from ref import rules
from bglib.model import Board, BoardEditor
from bglib.model import constants as K


def state(rng, **kw):
  """a board of a game at any moment of it"""
  me, opp = rules.random_position(rng)
  who = rng.choice((K.YOU, K.HIM))
  length = rng.choice((0, 1, 3, 5, 7, 11, 25, 64))
  top = length or 40
  crawford = length > 1 and rng.random() < 0.15
  score = crawford and (length - 1, rng.randint(0, length - 1)) or (rng.randint(0, max(0, top - 1)), rng.randint(0, max(0, top - 1)))
  if rng.random() < 0.5:
    score = (score[1], score[0])
  cube = rng.choice((0, 0, 1, 2, 3, 5, 6, 9))
  owner = rng.choice((K.YOU, K.HIM))
  if not cube:
    owner = K.CENTER
  d = dict(position=rules.join(me, opp, who), on_action=who, on_inner_action=who, game_state=K.ON_GOING, match_length=length, score=score,
           crawford=crawford, cube_in_logarithm=cube, cube_owner=owner)
  kind = rng.choice(('to roll', 'to move', 'doubled', 'taken', 'resigned before', 'resigned after', 'taken and moving', 'taken and resigned'))
  if kind in ('to move', 'resigned after', 'taken and moving') or kind == 'taken and resigned' and rng.random() < 0.5:
    d['rolled'] = rules.random_roll(rng)
  if kind in ('doubled', 'taken', 'taken and moving', 'taken and resigned'):
    d['doubled'] = True
  if 'resigned' in kind:
    d['resign_offer'] = rng.choice((K.RESIGN_SINGLE, K.RESIGN_GAMMON, K.RESIGN_BACKGAMMON))
  if kind == 'doubled' or 'resigned' in kind:
    d['on_inner_action'] = 1 - who
  d.update(kw)
  b = Board(**d)
  return kind, (rng.random() < 0.5 and BoardEditor(b) or b)
