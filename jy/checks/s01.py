# -*- coding: us-ascii -*-
"""S01 ratings: chances, gains and handicaps are those of the rating system, for all players."""
import math

from bglib.stat import rating, tourney
from harness import Scenario

RULE = ('a case is two ratings, a match length, a number of rounds and amounts of money; chances, gains and handicaps are compared with the rating formula and with each '
        'other: they add up, nobody gains by expectation, handicaps make expectations the same; a state is the arguments')
ASSUMPTIONS = ['ratings from 0 to 3000, matches of 1 to 64 points, up to 12 rounds']


def near(a, b, tol=1e-9):
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def some_rating(rng):
  r = rng.random()
  if r < 0.4:
    return rng.randint(500, 2200)
  if r < 0.8:
    return rng.uniform(0.0, 3000.0)
  return rng.choice((0, 1000, 1000.0, 1500, 1500.0, 1500.5, 3000, 2999))


def lower_wins(diff, length):
  """1 / (10^(D sqrt(N) / 2000) + 1)"""
  return 1.0 / (1.0 + math.exp(math.log(10.0) * diff * math.sqrt(length) / 2000.0))


def chances(ctx, rng, i):
  a, b = some_rating(rng), some_rating(rng)
  if rng.random() < 0.1:
    b = a
  n = rng.choice((1, 3, 5, 7, 9, 11, 25, rng.randint(1, 64)))
  high, low = max(a, b), min(a, b)
  ctx.detail = '%r %r %r' % (a, b, n)
  up, win = rating.upset_chance(high, low, n), rating.winning_chance(high, low, n)
  ctx.check(near(up, lower_wins(high - low, n)), 'upset', lambda: 'upset_chance(%r, %r, %r) is %r, expected %r' % (high, low, n, up, lower_wins(high - low, n)))
  ctx.check(near(up + win, 1.0), 'sum', 'chances add up to one')
  ctx.check(0.0 < up <= 0.5 <= win < 1.0 + 1e-15, 'range', lambda: 'chances %r and %r' % (up, win))
  # a wider gap or a longer match: the better player wins more often
  gap, more = rng.uniform(0.5, 300), rng.randint(1, 20)
  ctx.check(rating.upset_chance(high + gap, low, n) < up, 'gap', 'chance of an upset falls with the gap')
  if high - low > 1:
    ctx.check(rating.upset_chance(high, low, n + more) < up, 'length', 'chance of an upset falls with the length')
  shift = rng.randint(-400, 400)
  ctx.check(near(rating.upset_chance(high + shift, low + shift, n), up), 'shift', 'only the gap counts')
  # gains
  ga, gb = rating.gain_on_win(a, b, n), rating.gain_on_win(b, a, n)
  pa = a >= b and win or up
  ctx.check(near(ga, n * (1.0 - (a >= b and 1.0 - lower_wins(high - low, n) or lower_wins(high - low, n)))), 'gain', lambda: 'gain_on_win(%r, %r, %r) is %r' % (a, b, n, ga))
  ctx.check(near(ga + gb, n), 'gains', lambda: 'gains %r and %r of a match to %r' % (ga, gb, n))
  ctx.check(near(pa * ga, (1.0 - pa) * gb, 1e-8), 'fair', lambda: 'expected change of %r against %r in %r: %r' % (a, b, n, pa * ga - (1 - pa) * gb))
  ctx.event(a > b and 'stronger' or a < b and 'weaker' or 'equal')
  ctx.state((a, b, n))


def handicaps(ctx, rng, i):
  p, av = some_rating(rng), some_rating(rng)
  if rng.random() < 0.1:
    p = av
  if abs(p - av) > 1200:
    av = p + rng.uniform(-1200, 1200)
  n, rounds = rng.choice((1, 3, 5, 7, 11, 25)), rng.randint(1, 12)
  ctx.detail = '%r %r %r %r' % (p, av, rounds, n)
  q = lower_wins(av - p, n) # of p winning a match: formula holds for both signs
  w, r = tourney.tourney_chance(p, av, rounds, n)
  ctx.check(near(w / q ** rounds, 1.0), 'winner', lambda: 'chance to win %r rounds: %r, expected %r' % (rounds, w, q ** rounds))
  ctx.check(near(r / (q ** (rounds - 1) * (1 - q)), 1.0), 'runnerup', lambda: 'chance to lose the last of %r rounds: %r, expected %r' % (rounds, r, q ** (rounds - 1) * (1 - q)))
  prize = rng.choice((100, 100.0, rng.uniform(1, 1000)))
  second = rng.choice((30, 30.0, 0.0, rng.uniform(0, 300)))
  aw, ar = 0.5 ** rounds, 0.5 ** rounds
  pw, pr = tourney.prize_handicap(p, av, rounds, n, prize, second)
  # whoever plays, a prize is worth what it is to the average player
  ctx.check(near(pw * w, aw * prize), 'prize', lambda: 'prize of the winner %r is worth %r, expected %r' % (pw, pw * w, aw * prize))
  ctx.check(near(pr * r, ar * second), 'second-prize', lambda: 'prize of the runner-up %r is worth %r, expected %r' % (pr, pr * r, ar * second))
  fee = rng.choice((100, 100.0, rng.uniform(1, 1000)))
  f = tourney.entryfee_handicap(p, av, rounds, n, fee)
  ctx.check(near(f / fee, w / aw), 'fee', lambda: 'fee %r, expected %r' % (f, fee * w / aw))
  ctx.event(p > av and 'stronger' or p < av and 'weaker' or 'average')
  ctx.state((p, av, n, rounds))


SCENARIOS = [
    Scenario('chances', chances, 40000, 400000, floors={'stronger': 10000, 'weaker': 10000, 'equal': 2000}),
    Scenario('handicaps', handicaps, 40000, 400000, floors={'stronger': 10000, 'weaker': 10000, 'average': 2000}),
]
