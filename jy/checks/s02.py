# -*- coding: us-ascii -*-
"""S02 tournaments: rounds pair everybody fairly, lives are lost one at a time and nobody disappears."""
import math
import random

from bglib.stat import rating
from bglib.stat.tourney import Tourney, Player
from harness import Scenario

RULE = ('a case is a tournament of some players with lives and ratings, played round by round to the end; after each round lives and places of all players are compared with '
        'those before it; in other cases thousands of single matches and pairings are counted; a state is the number of players, their lives and places')
ASSUMPTIONS = ['counts are accepted within six standard deviations']


def build(rng):
  r = rng.random()
  if r < 0.4:
    n = rng.choice((1, 2, 3, 4, 5, 8, 16, 31, rng.randint(1, 64)))
    t = Tourney(n)
    return t, dict((k, 3) for k in range(n)), dict((k, 1000) for k in range(n))
  n = rng.choice((1, 2, 3, 4, 7, 12, rng.randint(1, 40)))
  keys = rng.choice((range(n), ['p%d' % k for k in range(n)], [(k, k) for k in range(n)]))
  lives = dict((k, rng.randint(1, rng.choice((1, 3, 6)))) for k in keys)
  ratings = dict((k, rng.choice((1000, 1500.0, rng.uniform(500, 2200)))) for k in keys)
  entries = dict((k, Player(lives[k], ratings[k])) for k in keys)
  before = dict(entries)
  t = Tourney(rng.choice((n, 2)), entries=entries)
  t.entries_given = (entries, before)
  return t, lives, ratings


def rounds(ctx, rng, i):
  random.seed(rng.random())
  t, lives, ratings = build(rng)
  people = dict(t.alive)
  ctx.equal(sorted(people), sorted(lives), 'entered', 'players of the tournament')
  ctx.equal(t.dead, {}, 'entered', 'dead at the start')
  ctx.equal(dict((k, (p.lives, p.rating)) for k, p in people.items()), dict((k, (lives[k], ratings[k])) for k in lives), 'entered', 'lives and ratings at the start')
  total, left = sum(lives.values()), dict(lives)
  count, limit = 0, None
  while len(t.alive) > 1:
    alive, dead = dict(t.alive), dict(t.dead)
    ctx.detail = '%r' % ((sorted(left.items()),),)
    t.round()
    count += 1
    now = dict((k, p.lives) for k, p in people.items())
    lost = dict((k, left[k] - now[k]) for k in now)
    ctx.check(set(lost.values()) <= set((0, 1)), 'lives', lambda: 'lives lost in a round: %r' % (lost,))
    ctx.check(not [k for k in dead if lost[k]], 'dead-play', 'dead players play')
    ctx.equal(sum(lost.values()), len(alive) / 2, 'matches', 'lives lost by %d players' % len(alive))
    ctx.equal(sorted(t.alive.keys() + t.dead.keys()), sorted(people), 'everybody', 'players after a round')
    ctx.check(not [k for k, p in t.alive.items() + t.dead.items() if p is not people[k]], 'same', 'a player is another one after a round')
    ctx.equal(sorted(t.dead), sorted([k for k in people if now[k] <= 0]), 'dead', 'dead after a round')
    ctx.check(not [k for k in people if people[k].rating != ratings[k]], 'rating', 'ratings are as they were')
    ctx.event('rounds')
    ctx.event('matches', len(alive) / 2)
    if len(alive) % 2:
      ctx.event('rounds with somebody out')
    if len(t.dead) - len(dead) > 1:
      ctx.event('several died')
    left = now
    ctx.state((sorted(now.values()), len(t.alive)))
    if not ctx.check(count <= total + 1, 'ends', 'a tournament does not end'):
      break
  ctx.equal(len(t.alive), 1, 'one', 'players left at the end')
  if hasattr(t, 'entries_given'):
    ctx.equal(t.entries_given[0], t.entries_given[1], 'entries', 'entries given')
  # nothing is left to play
  k, p = t.alive.items()[0]
  n = p.lives
  t.round()
  ctx.check(p.lives == n and t.alive.keys() == [k], 'alone', 'the last player plays on')
  ctx.event('tournaments')


def matches(ctx, rng, i):
  """how often the players of a match win."""
  random.seed(rng.random())
  a, b = rng.uniform(700, 2000), rng.uniform(700, 2000)
  if rng.random() < 0.2:
    b = a
  n = rng.choice((1, 7, 7, 3, 15, 25))
  runs = 3000
  won = 0
  for _ in xrange(runs):
    t = Tourney(2, entries={'a': Player(1, a), 'b': Player(1, b)})
    if rng.random() < 2:
      t.matchlength = n
    t.round()
    won += 'a' in t.alive
  p = rating.winning_chance(max(a, b), min(a, b), n)
  if a < b:
    p = 1.0 - p
  sd = math.sqrt(runs * p * (1 - p)) + 1
  ctx.check(abs(won - runs * p) < 6 * sd, 'chance', lambda: '%r against %r in %d points wins %d of %d, expected %d' % (a, b, n, won, runs, runs * p))
  ctx.event('matches', runs)
  ctx.state((a, b, n))


def pairings(ctx, rng, i):
  """who plays whom: nobody is preferred."""
  random.seed(rng.random())
  n = rng.choice((3, 4, 5, 6))
  runs = 3000
  out = dict((k, 0) for k in range(n))
  both = dict(((j, k), 0) for j in range(n) for k in range(j))
  for _ in xrange(runs):
    # lives are lost by exactly half of those who play; equal players lose equally
    t = Tourney(n)
    people = dict(t.alive)
    t.round()
    losers = [k for k in people if people[k].lives == 2]
    for k in losers:
      out[k] += 1
    for j in losers:
      for k in losers:
        if k < j:
          both[j, k] += 1
  p = float(n / 2) / n
  sd = math.sqrt(runs * p * (1 - p)) + 1
  for k in out:
    ctx.check(abs(out[k] - runs * p) < 6 * sd, 'preferred', lambda: 'player %d of %d loses %d of %d, expected %d' % (k, n, out[k], runs, runs * p))
  # two lose at once when they did not meet
  m = n / 2
  q = m * (m - 1.0) / (n * (n - 1.0))
  sd = math.sqrt(runs * q * (1 - q)) + 1
  for jk in both:
    ctx.check(abs(both[jk] - runs * q) < 6 * sd, 'paired', lambda: 'players %r of %d lose together %d of %d, expected %d' % (jk, n, both[jk], runs, runs * q))
  ctx.event('rounds', runs)
  ctx.state((n, i))


SCENARIOS = [
    Scenario('rounds', rounds, 4000, 60000, floors={'tournaments': 4000, 'rounds': 20000, 'rounds with somebody out': 2000, 'several died': 2000}),
    Scenario('matches', matches, 160, 2400, floors={'matches': 400000}),
    Scenario('pairings', pairings, 64, 800, floors={'rounds': 150000}),
]
