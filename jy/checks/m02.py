# -*- coding: us-ascii -*-
"""M02 multi-step suggestions: every step legal in turn, and found when one exists."""
from harness import Scenario
from ref import rules, modelkit
from ref.modelkit import K, Move, dice_of, steps_of

RULE = ('a case is one generated position, player, roll and dice left; every '
        'source with a chequer is asked for every destination below it; a state '
        'is (mover, opponent, dice left)')
ASSUMPTIONS = ['positions have at most 15 chequers a side and no shared point']


def walk(me, opp, left, steps):
  """why the steps are not a legal sequence with the dice left, or None."""
  left = list(left)
  for die, src, dest, hit in steps:
    if die not in left:
      return 'die %s is not left' % die
    left.remove(die)
    x = rules.step_ok(me, opp, src, die)
    if x is None:
      return 'step %s/%s with %s is illegal' % (src, dest, die)
    if x != (dest, hit):
      return 'step %s with %s goes to %r, not %r' % (src, die, x, (dest, hit))
    me, opp = rules.play(me, opp, src, dest, hit)
  return None


def case(ctx, rng, i):
  t = modelkit.Turn(rng, shape=(i % 3 == 0) and rng.choice(('bearin', 'lastone', 'bar')) or None)
  ctx.detail = str(t)
  ctx.state((t.me, t.opp, t.left))
  ctx.sample(str(t))
  for src in range(24, -1, -1):
    if not t.me[src]:
      continue
    for dest in range(-1, src):
      if src - dest > sum(t.left) and dest >= 0:
        continue
      got = t.mf.guess_your_multiple_pms(src, dest)
      want = rules.reach(t.me, t.opp, src, dest, t.left)
      if got:
        steps = steps_of(got)
        ctx.event('found-%d' % len(steps))
        if dest == -1:
          ctx.event('found-off')
        why = walk(t.me, t.opp, t.left, steps)
        if why is None:
          at = src
          for s in steps:
            if s[1] != at:
              why = 'the steps are not one chequer moving on'
            at = s[2]
          if at != dest:
            why = 'the steps end on %s' % at
        ctx.check(why is None, 'multi:unsound',
                  lambda: 'from %s to %s suggested %r: %s; %s' % (src, dest, steps, why, t))
      else:
        ctx.event('refused')
        ctx.check(want is None, 'multi:missed',
                  lambda: 'from %s to %s refused (%r) where %r is legal; %s'
                  % (src, dest, got, want, t))


def making(ctx, rng, i):
  t = modelkit.Turn(rng, partial=False)
  if i % 2:
    # give the mover two chequers that bear on one point
    dice = rules.dice_list(t.rolled)
    dest = rng.randint(0, 17)
    if t.opp[rules.flip(dest)] < 2 and t.me[24] == 0:
      me = list(t.me)
      for die in dice[:2]:
        if dest + die < 24 and t.opp[rules.flip(dest + die)] == 0 and sum(me) < 15:
          me[dest + die] += 1
      t = modelkit.Turn(rng, position=(tuple(me), t.opp), who=t.who, rolled=t.rolled, partial=False)
  ctx.detail = str(t)
  ctx.state((t.me, t.opp, t.left))
  for dest in range(24):
    t2 = modelkit.Turn(rng, position=(t.me, t.opp), who=t.who, rolled=t.rolled, partial=False)
    got = t2.mf.guess_your_making_point(dest)
    if got:
      steps = steps_of(got)
      ctx.event('made-point')
      why = walk(t.me, t.opp, t.left, steps)
      if why is None and [s[2] for s in steps] != [dest, dest]:
        why = 'does not put two chequers on the point'
      ctx.check(why is None, 'making:unsound',
                lambda: 'making point %s suggested %r: %s; %s' % (dest, steps, why, t))
    else:
      ctx.event('no-point')


SCENARIOS = [
    Scenario('reach', case, 12000, 200000,
             floors={'found-1': 2000, 'found-2': 2000, 'found-3': 100,
                     'found-4': 50, 'found-off': 300, 'refused': 5000}),
    Scenario('making', making, 8000, 100000, floors={'made-point': 100, 'no-point': 1000}),
]
