# -*- coding: us-ascii -*-
"""Builds real bglib model objects for generated situations."""
from ref import rules

from bglib.model import Board, BoardEditor, AvailableToPlay, PartialMove, Move, MoveFactory
from bglib.model import constants as K

FIELDS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford',
          'game_state', 'on_inner_action', 'doubled', 'resign_offer', 'rolled',
          'match_length', 'score')


def snap(b):
  return tuple([(f, getattr(b, f)) for f in FIELDS])


def dice_of(available):
  """sorted multiset of dice left in an AvailableToPlay, through its public
  mapping interface."""
  r = []
  for d in range(6, 0, -1):
    r.extend([d] * available[d])
  return tuple(r)


def steps_of(mv):
  return tuple([(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in mv])


def describe(me, opp, who, rolled, left=None):
  return 'mover %s opponent %s on_action %s rolled %r dice left %r' % (
      me, opp, who, rolled, left)


class Turn(object):
  """a random turn: real board, real factory and the reference view of both."""
  def __init__(self, rng, shape=None, editor=True, partial=True, rolled=None,
               position=None, who=None):
    if position is None:
      position = rules.random_position(rng, shape)
    self.me, self.opp = position
    if who is None:
      who = rng.choice((K.YOU, K.HIM))
    self.who = who
    self.rolled = rolled or rules.random_roll(rng)
    kw = dict(position=rules.join(self.me, self.opp, self.who),
              on_action=self.who, on_inner_action=self.who,
              game_state=K.ON_GOING, rolled=self.rolled,
              match_length=rng.choice((0, 1, 5, 7)))
    self.kw = kw
    if editor:
      self.board = BoardEditor(Board(**kw))
    else:
      self.board = Board(**kw)
    self.mf = MoveFactory(self.board)
    self.left = rules.dice_list(self.rolled)
    self.used = ()
    if partial and rng.random() < 0.4:
      # some dice were used up elsewhere
      k = rng.randint(0, len(self.left) - 1)
      self.left = self.left[:k] + self.left[k + 1:]
      if len(self.left) > 1 and rng.random() < 0.3:
        self.left = self.left[1:]
      gone = list(rules.dice_list(self.rolled))
      for d in self.left:
        gone.remove(d)
      for d in gone:
        self.mf.available.consume(d)

  def __str__(self):
    return describe(self.me, self.opp, self.who, self.rolled, self.left)

  def current(self):
    return rules.sides(self.board.position, self.who)
