# -*- coding: us-ascii -*-
"""E06 names, dice and numbers are read out of the messages of FIBS as they were sent."""
from harness import Scenario
from ref import fibsmsg

from bglib.encoding import FIBS

RULE = ('a case is a message that FIBS sends, written with a random player, dice, points and '
        'scores; each value read out of it is compared with the one written; a state is '
        'the message')
ASSUMPTIONS = ['wording of messages as in the patterns of bglib/protocol/fibs.py and the FIBS manual',
               'moves are left out: get_move refers to names that do not exist and what it should '
               'give for the opponent is nowhere said']

DICE = [(a, b) for a in range(1, 7) for b in range(1, 7)]


def read(ctx, fn, line, want):
  got = getattr(FIBS, fn)(line)
  ctx.equal(got, want, fn, '%s(%r)' % (fn, line))
  if isinstance(want, int) or isinstance(want, tuple):
    ctx.check(repr(got) == repr(want), fn + '-type', lambda: '%s(%r): %r' % (fn, line, got))
  ctx.event(fn)


def plural(n):
  return n == 1 and 'point' or 'points'


def number(rng):
  return rng.choice((1, 2, 3, 4, 6, 7, 9, 10, 15, 25, 64, 99, 100, 192, 999, rng.randint(1, 99999)))


def dice(ctx, rng, i):
  """all rolls of somebody, enumerated with random names and wordings."""
  a, b = DICE[i % 36]
  who = rng.choice((fibsmsg.any_name(rng), fibsmsg.any_name(rng), 'You'))
  lines = ['%s roll%s %d and %d.' % (who, who != 'You' and 's' or '', a, b),
           '%s roll%s %d and %d' % (who, who != 'You' and 's' or '', a, b),
           '%s rolled %d, %s rolled %d' % (who, a, fibsmsg.any_name(rng), b)]
  for line in lines[:2]:
    ctx.detail = line
    read(ctx, 'get_dice', line, (a, b))
    read(ctx, 'get_name', line, who)
    read(ctx, 'get_taker_name', line, None)
    ctx.state(line)
  line = lines[2]
  ctx.detail = line
  read(ctx, 'get_dice', line, (a, b))
  read(ctx, 'get_name', line, who)
  ctx.state(line)


def messages(ctx, rng, i):
  who, other = fibsmsg.any_name(rng), fibsmsg.any_name(rng)
  n = number(rng)
  m, a, b = number(rng), rng.choice((0, number(rng))), rng.choice((0, number(rng)))
  kind = i % 9
  if kind == 0:
    tail = rng.choice((' The cube shows %d.' % 2 ** rng.randint(1, 10), '', ' The cube shows %d.' % n))
    line = '%s accepts the double.%s' % (who, tail)
    read(ctx, 'get_taker_name', line, who)
    read(ctx, 'get_name', line, who)
    if tail:
      read(ctx, 'get_score', line, int(tail.split()[-1][:-1]))
  elif kind == 1:
    line = '%s accepts and wins %d %s.' % (who, n, plural(n))
    read(ctx, 'get_name', line, who)
    read(ctx, 'get_score', line, n)
  elif kind == 2:
    line = 'Score is %d-%d in a %d point match.' % (a, b, m)
    read(ctx, 'get_match_scores', line, (a, b, m))
    read(ctx, 'get_taker_name', line, None)
  elif kind == 3:
    line = "%s wants to resign. You will win %d %s. Type 'accept' or 'reject'." % (who, n, plural(n))
    read(ctx, 'get_resign_score', line, n)
    read(ctx, 'get_name', line, who)
    read(ctx, 'get_taker_name', line, None)
  elif kind == 4:
    line = '%s wants to resign. %s will win %d %s.' % (who, other, n, plural(n))
    read(ctx, 'get_resign_score', line, n)
    read(ctx, 'get_name', line, who)
  elif kind == 5:
    line = 'You want to resign. %s will win %d .' % (other, n)
    read(ctx, 'get_resign_score', line, n)
    read(ctx, 'get_name', line, 'You')
  elif kind == 6:
    line = '%s gives up. %s win%s %d %s.' % (who, rng.choice((other, 'You')), 's', n, plural(n))
    read(ctx, 'get_score', line, n)
    read(ctx, 'get_name', line, who)
    read(ctx, 'get_taker_name', line, None)
  elif kind == 7:
    line = '%s %s' % (who, rng.choice((
        "doubles. Type 'accept' or 'reject'.", 'rejects. The game continues.', "can't move.",
        'moves 22-off 24-off .', 'gives up the game.', 'makes the first move.', 'kibitzes: %s accepts' % other,
        'wins the game and gets %d %s.' % (n, plural(n)), 'is not accepting doubles.')))
    read(ctx, 'get_name', line, who)
    read(ctx, 'get_taker_name', line, None)
    if ' gets ' in line:
      read(ctx, 'get_score', line, n)
  else:
    line = rng.choice(('** %s is not logged in.' % who, ' %s accepts the double.' % who, '', '6 and 5', '%d %s' % (n, who)))
    read(ctx, 'get_name', line, None)
    read(ctx, 'get_taker_name', line, None)
  ctx.detail = line
  ctx.sample(line)
  ctx.state(line)


SCENARIOS = [
    Scenario('dice', dice, 36 * 30, 36 * 2000, floors={'get_dice': 3000}),
    Scenario('messages', messages, 9000, 600000,
             floors={'get_name': 5000, 'get_taker_name': 4000, 'get_score': 2000, 'get_match_scores': 800, 'get_resign_score': 2000}),
]
