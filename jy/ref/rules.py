# -*- coding: us-ascii -*-
"""Reference backgammon rules, written from the rules of the game.

A side is a tuple of 25 counts seen by its owner: index 0 is his ace point, 23
his 24 point, 24 his bar. Chequers missing from 15 are off. Nothing here
imports bglib."""

YOU, HIM = 0, 1
BAR, OFF = 24, -1


def flip(n):
  return 23 - n


def sides(position, who):
  """(mover, opponent)"""
  if who == YOU:
    return position[0], position[1]
  return position[1], position[0]


def join(me, opp, who):
  if who == YOU:
    return (tuple(me), tuple(opp))
  return (tuple(opp), tuple(me))


def step_ok(me, opp, src, die):
  """(dest, hit) when the chequer on src may move by die, else None."""
  if not (0 <= src <= 24) or me[src] <= 0:
    return None
  if me[BAR] > 0 and src != BAR:
    return None
  dest = src - die
  if dest >= 0:
    there = opp[flip(dest)]
    if there >= 2:
      return None
    return dest, there == 1
  for i in range(6, 25):
    if me[i] > 0:
      return None
  if src + 1 != die:
    for i in range(src + 1, 6):
      if me[i] > 0:
        return None
  return OFF, False


def play(me, opp, src, dest, hit):
  me = list(me)
  opp = list(opp)
  me[src] -= 1
  if dest >= 0:
    me[dest] += 1
    if hit:
      opp[flip(dest)] -= 1
      opp[BAR] += 1
  return tuple(me), tuple(opp)


def steps(me, opp, die):
  r = []
  for src in range(24, -1, -1):
    x = step_ok(me, opp, src, die)
    if x is not None:
      r.append((src, x[0], x[1]))
  return r


def dice_list(rolled):
  if rolled[0] == 0 or rolled[1] == 0:
    return ()
  if rolled[0] == rolled[1]:
    return (rolled[0],) * 4
  return (max(rolled), min(rolled))


def max_dice(me, opp, dice, memo=None):
  """most dice of the multiset that can be played."""
  if memo is None:
    memo = {}
  key = (me, opp, dice)
  if key in memo:
    return memo[key]
  best = 0
  for k in range(len(dice)):
    if dice[k] in dice[:k]:
      continue
    rest = dice[:k] + dice[k + 1:]
    for src, dest, hit in steps(me, opp, dice[k]):
      m2, o2 = play(me, opp, src, dest, hit)
      n = 1 + max_dice(m2, o2, rest, memo)
      if n > best:
        best = n
        if best == len(dice):
          memo[key] = best
          return best
  memo[key] = best
  return best


def may_pickup(me, opp, rolled, used, memo=None):
  """is a turn begun at (me, opp) complete once the dice in used are played?"""
  dice = dice_list(rolled)
  if len(used) == len(dice):
    return True
  best = max_dice(me, opp, dice, memo)
  if len(used) != best:
    return False
  if best == 1 and dice[0] != dice[1]:
    if steps(me, opp, dice[0]) and used[0] != dice[0]:
      return False
  return True


def reach(me, opp, src, dest, dice):
  """can one chequer go from src to dest step by legal step with these dice?
  a sequence of (die, src, dest, hit), or None."""
  if src == dest:
    return ()
  for k in range(len(dice)):
    if dice[k] in dice[:k]:
      continue
    x = step_ok(me, opp, src, dice[k])
    if x is None:
      continue
    d, hit = x
    if d < dest:
      continue
    if d == dest:
      return ((dice[k], src, d, hit),)
    m2, o2 = play(me, opp, src, d, hit)
    rest = reach(m2, o2, d, dest, dice[:k] + dice[k + 1:])
    if rest is not None:
      return ((dice[k], src, d, hit),) + rest
  return None


def legal_position(me, opp):
  if min(me) < 0 or min(opp) < 0:
    return False
  if sum(me) > 15 or sum(opp) > 15:
    return False
  for i in range(24):
    if me[i] and opp[flip(i)]:
      return False
  return True


# ----------------------------------------------------------------- workloads

START = (0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0)


def _scatter(rng, n, slots, taken):
  side = [0] * 25
  free = [s for s in slots if s not in taken]
  if not free:
    free = [s for s in range(24) if s not in taken]
  favourite = rng.sample(free, min(len(free), rng.randint(1, 7)))
  for _ in range(n):
    side[rng.choice(favourite)] += 1
  return side


def random_position(rng, shape=None):
  """(me, opp), legal and shaped to reach the interesting corners."""
  if shape is None:
    shape = rng.choice(('contact', 'contact', 'bearoff', 'bearin', 'bar',
                        'prime', 'race', 'thin', 'thin', 'lastone', 'start'))
  if shape == 'start':
    me, opp = START, START
    for _ in range(rng.randint(0, 12)):
      me, opp = random_turn(rng, me, opp)
      me, opp = opp, me
    return me, opp
  n_me = rng.choice((15, 15, 15, 14, 13, rng.randint(1, 15)))
  n_opp = rng.choice((15, 15, 15, 14, rng.randint(1, 15)))
  slots = range(24)
  if shape == 'bearoff':
    slots = range(6)
    n_me = rng.randint(1, 15)
  elif shape == 'bearin':
    slots = range(rng.randint(6, 9))
    n_me = rng.randint(1, 15)
  elif shape == 'race':
    slots = range(12)
  elif shape == 'thin':
    n_me = rng.randint(1, 4)
  elif shape == 'lastone':
    n_me = rng.randint(1, 15)
    slots = range(6)
  bar = 0
  if shape == 'bar' and n_me > 0:
    bar = rng.choice((1, 1, 1, 2, 3))
    bar = min(bar, n_me)
  me = _scatter(rng, n_me - bar, slots, ())
  me[BAR] += bar
  if shape == 'lastone':
    i = [k for k in range(6) if me[k]]
    if i:
      me[i[-1]] -= 1
      me[rng.randint(6, 20)] += 1
  taken = [flip(i) for i in range(24) if me[i]]
  if shape == 'prime':
    opp = [0] * 25
    length = rng.randint(3, 6)
    at = rng.randint(0, 10)
    left = n_opp
    for k in range(at, at + length):
      if k not in taken and left >= 2:
        opp[k] = 2
        left -= 2
    rest = _scatter(rng, left, range(24), taken)
    opp = [a + b for a, b in zip(opp, rest)]
  elif shape == 'race':
    opp = _scatter(rng, n_opp, range(11), taken)
  elif shape in ('bar', 'bearin', 'lastone') or rng.random() < 0.3:
    # points made in the mover's way
    opp = _scatter(rng, n_opp, rng.choice((range(6), range(12), range(12, 24), range(18, 24))), taken)
  else:
    opp = _scatter(rng, n_opp, range(24), taken)
  if rng.random() < 0.15 and sum(opp) < 15:
    opp[BAR] += 1
  return tuple(me), tuple(opp)


def random_roll(rng):
  if rng.random() < 0.2:
    d = rng.randint(1, 6)
    return (d, d)
  return (rng.randint(1, 6), rng.randint(1, 6))


def random_turn(rng, me, opp):
  dice = list(dice_list(random_roll(rng)))
  while dice:
    rng.shuffle(dice)
    for k, die in enumerate(dice):
      s = steps(me, opp, die)
      if s:
        me, opp = play(me, opp, *rng.choice(s))
        del dice[k]
        break
    else:
      break
  return me, opp
