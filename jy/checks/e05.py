# -*- coding: us-ascii -*-
"""E05 bearoff databases: the numbering is one to one and records are read whole."""
import itertools
import os
import struct
import tempfile
from harness import Scenario

from bglib.encoding import bearoff
from bglib.encoding.bearoff import nori, trice, gnubgdb

RULE = ('every one-sided position of up to 15 chequers on 6 points is numbered '
        'and compared with an independent enumeration; every block of the '
        'numbering is inverted; database files of random records are read in '
        'random order, at the edges and beyond; a state is a position or record')
ASSUMPTIONS = ['ranking of bit strings comes from the stand-in of the absent tonic package']


def compositions(n, k):
  """all k-tuples of non-negative ints of sum n."""
  if k == 1:
    yield (n,)
    return
  for a in range(n, -1, -1):
    for rest in compositions(n - a, k - 1):
      yield (a,) + rest


def choose(n, r):
  if r < 0 or r > n:
    return 0
  x = 1
  for j in range(r):
    x = x * (n - j) // (j + 1)
  return x


ALL = 54264


def block(i):
  """positions of case i: one count of chequers and one count on the ace."""
  cases = [(c, a) for c in range(16) for a in range(c + 1)]
  return cases[i]


def blocks():
  return 136


def one_sided(ctx, rng, i):
  c, a = block(i)
  lo = c and choose(c - 1 + 6, 6) or 0
  hi = choose(c + 6, 6)
  seen = {}
  for rest in compositions(c - a, 5):
    t = (a,) + rest
    k = nori.oneside_upto6_t2k(t)
    ctx.state('n%d' % k)
    ctx.check(lo <= k < hi, 'nori-range', lambda: '%r has number %r outside [%d, %d)' % (t, k, lo, hi))
    ctx.check(k not in seen, 'nori-collision', lambda: '%r and %r share number %r' % (t, seen[k], k))
    seen[k] = t
    back = nori.oneside_upto6_k2t(k)
    ctx.check(back == t, 'nori-inverse', lambda: 'number %r of %r stands for %r' % (k, t, back))
    # gnubg's numbering of the same position
    p = 6
    g = gnubgdb.oneside_index(t + (0,) * 19, p, 15)
    ctx.check(g == rank(t, p, 15), 'gnubg-index', lambda: '%r has gnubg number %r, expected %r' % (t, g, rank(t, p, 15)))
    ctx.event('positions')
  ctx.event('chequers %d' % c)
  ctx.sample('%d chequers, %d on the ace: %d positions' % (c, a, len(seen)))


def rank(t, p, c):
  """place of t among the positions of at most c chequers on p points: read as
  the bit string with, from the highest point down, one mark per point."""
  j = p - 1 + sum(t)
  marks = [j]
  for n in t:
    j -= n + 1
    if j >= 0:
      marks.append(j)
  # colexicographic rank of the set of marks
  return sum([choose(m, k + 1) for k, m in enumerate(sorted(marks))])


def numbers(ctx, rng, i):
  """every number stands for a position, and back."""
  step = 200
  for k in range(i * step, min(ALL, (i + 1) * step)):
    t = nori.oneside_upto6_k2t(k)
    ctx.check(len(t) == 6 and min(t) >= 0 and sum(t) <= 15, 'nori-number-no-position', lambda: 'number %d stands for %r' % (k, t))
    ctx.check(nori.oneside_upto6_t2k(t) == k, 'nori-number-inverse', lambda: 'number %d stands for %r of number %d' % (k, t, nori.oneside_upto6_t2k(t)))
    ctx.event('numbers')
  ctx.state(i)


def gnubg_blocks(ctx, rng, i):
  """gnubg numbering is one to one over every size of bearoff."""
  cases = [(p, c) for p in range(1, 9) for c in range(0, 9)]
  p, c = cases[i]
  seen = {}
  total = 0
  for n in range(c + 1):
    for t in compositions(n, p):
      k = gnubgdb.oneside_index(t + (0,) * (25 - p), p, c)
      total += 1
      ctx.check(k not in seen, 'gnubg-collision', lambda: '%r and %r share number %r of %d points %d chequers' % (t, seen[k], k, p, c))
      seen[k] = t
  ctx.check(sorted(seen) == range(total), 'gnubg-gaps', lambda: 'numbers of %d points %d chequers leave gaps' % (p, c))
  ctx.equal(total, choose(p + c, p), 'gnubg-total', 'positions of %d points %d chequers' % (p, c))
  ctx.state((p, c))
  ctx.event('sizes')


def counts(ctx, rng, i):
  n, m = i // 40 + 1, i % 40
  want = choose(n + m - 1, m)
  ctx.equal(bearoff.D(n, m), want, 'D', 'D(%d, %d)' % (n, m))
  if n > 1 and m > 0:
    ctx.equal(bearoff.D(n, m), bearoff.D(n, m - 1) + bearoff.D(n - 1, m), 'D-recursion', 'D(%d, %d)' % (n, m))
  if m < 16:
    ctx.equal(bearoff.BackgammonCombination(m), bearoff.BackgammonCombination_allC(m), 'combination', 'positions with %d points made' % m)
    # all ways to place: m points of one side, 15 - m more on them or bar/off,
    # and the other side on what is left
    ctx.equal(bearoff.BackgammonCombination(m),
              choose(24, m) * choose(16, 15 - m) * choose(40 - m, 15), 'combination-count', 'positions with %d points made' % m)
  t = [rng.choice((0, 0, 0, 1, 2, 5)) for _ in range(25)]
  ctx.equal(bearoff.count(t), sum(t), 'count', 'chequers of %r' % (t,))
  if rng.random() < 0.1:
    t = [0] * 25
    ctx.event('all borne off')
  ctx.equal(bearoff.backward(t), max([-1] + [k for k in range(25) if t[k]]) + 1, 'backward', 'rearmost of %r' % (t,))
  us = [rng.choice((0, 0, 1, 2)) for _ in range(25)]
  if rng.random() < 0.1:
    us = [0] * 25
  ctx.equal(gnubgdb.bearoff_param(us, t),
            (max(bearoff.backward(us), bearoff.backward(t)), max(sum(us), sum(t))), 'bearoff-param', '%r %r' % (us, t))
  ctx.state((n, m))
  ctx.event('counts')


def records(ctx, rng, i):
  n = rng.choice((1, 2, 3, 17, 100, 513))
  tail = rng.choice((0, 0, 1, 7, 15))
  data = [tuple([struct.unpack('f', struct.pack('f', rng.uniform(-3, 3)))[0] for _ in range(4)]) for _ in range(n)]
  if rng.random() < 0.3:
    data[rng.randrange(n)] = (0.0, 0.0, 0.0, 0.0)
  fd, path = tempfile.mkstemp(dir='.')
  os.write(fd, ''.join([struct.pack('ffff', *r) for r in data]) + '\x01' * tail)
  os.close(fd)
  ctx.sample('%d records and %d stray bytes' % (n, tail))
  r = rng.choice((nori, trice)).DBRreader()
  r.open(path)
  try:
    for _ in range(rng.randint(5, 30)):
      k = rng.choice((0, n - 1, rng.randrange(n)))
      raw = r.rawread(k)
      ctx.state((k, raw))
      ctx.check(raw == struct.pack('ffff', *data[k]), 'record-wrong', lambda: 'record %d of %d is %r' % (k, n, raw))
      ctx.check(r.dump(k) == data[k], 'dump-wrong', lambda: 'record %d of %d is %r, expected %r' % (k, n, r.dump(k), data[k]))
      c, o, s, w = data[k]
      ctx.check(r.human_readable(k + 1) == (c, o * 2, s * 2, w), 'readable-wrong',
                lambda: 'position %d reads %r, record is %r' % (k + 1, r.human_readable(k + 1), data[k]))
      ctx.event('records read')
      beyond = n + rng.choice((0, 0, 1, 5, 1000))
      try:
        got = r.rawread(beyond)
      except IndexError:
        ctx.event('refused beyond the end')
      else:
        ctx.violation('beyond-end', 'record %d of a file of %d (+%d bytes) gives %r' % (beyond, n, tail, got))
      if tail:
        ctx.event('torn record')
  finally:
    r.close()
    os.unlink(path)


SCENARIOS = [
    Scenario('one_sided', one_sided, blocks(), blocks(), exhaustive=True, floors={'positions': ALL, 'chequers 15': 16},
             cap=dict(quick=400.0, thorough=1500.0)),
    Scenario('numbers', numbers, (ALL + 199) // 200, (ALL + 199) // 200, exhaustive=True, floors={'numbers': ALL},
             cap=dict(quick=400.0, thorough=1500.0)),
    Scenario('gnubg_blocks', gnubg_blocks, 72, 72, exhaustive=True, floors={'sizes': 72}),
    Scenario('counts', counts, 1600, 1600, exhaustive=True, floors={'counts': 1600, 'all borne off': 80}),
    Scenario('records', records, 400, 8000, floors={'records read': 3000, 'refused beyond the end': 3000, 'torn record': 500}),
]
