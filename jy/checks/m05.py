# -*- coding: us-ascii -*-
"""M05 the dice may be picked up exactly when the turn is complete."""
from harness import Scenario
from ref import rules, modelkit
from ref.modelkit import K, PartialMove, dice_of, snap

RULE = ('a case is one turn: a generated position and roll, chequers then moved '
        'one legal step at a time at random; after every step the pick-up '
        'question is asked and compared with an exhaustive search for the most '
        'dice playable; a state is (start, dice played)')
ASSUMPTIONS = ['positions have at most 15 chequers a side and no shared point']


def case(ctx, rng, i):
  if i % 5 == 0:
    t = modelkit.Turn(rng, partial=False, position=tight(rng))
  else:
    t = modelkit.Turn(rng, partial=False)
  ctx.detail = str(t)
  ctx.sample(str(t))
  memo = {}
  me0, opp0 = t.me, t.opp
  me, opp = me0, opp0
  left = list(t.left)
  used = []
  while True:
    want = rules.may_pickup(me0, opp0, t.rolled, tuple(used), memo)
    ctx.state((me0, opp0, t.rolled, me))
    got = t.mf.is_leagal_to_pickup_dice()
    ctx.event(want and 'complete' or 'incomplete')
    if want and left:
      ctx.event('complete-with-dice-left')
      if me[24]:
        ctx.event('dance')
    if not want and not any([rules.steps(me, opp, d) for d in left]):
      ctx.event('incomplete-though-stuck')
    ctx.check(bool(got) == want, 'pickup:%s' % (want and 'refused' or 'allowed'),
              lambda: 'after playing %r of %s (now %s %s): is_leagal_to_pickup_dice %r, the rules say %r'
              % (used, t, me, opp, got, want))
    ctx.check(t.current() == (me, opp), 'pickup:moved-chequers',
              lambda: 'asking changed the board to %r, was %r; %s' % (t.current(), (me, opp), t))
    if not left:
      break
    options = [(d, s) for d in set(left) for s in rules.steps(me, opp, d)]
    if not options:
      break
    options.sort()
    die, (src, dest, hit) = rng.choice(options)
    t.mf.append(PartialMove(die, src, dest, hit))
    me, opp = rules.play(me, opp, src, dest, hit)
    left.remove(die)
    used.append(die)
  if rules.may_pickup(me0, opp0, t.rolled, tuple(used), memo):
    t.mf.pickupdice()
    b = t.board
    ctx.event('picked-up')
    ctx.check(b.rolled == (0, 0) and b.on_action == 1 - t.who and b.on_inner_action == 1 - t.who
              and b.position == rules.join(me, opp, t.who), 'pickup:turn-not-passed',
              lambda: 'after pickupdice: %r; %s' % (snap(b), t))


def tight(rng):
  """positions in which few moves exist."""
  me = [0] * 25
  opp = [0] * 25
  for i in range(24):
    if rng.random() < 0.45 and sum(opp) <= 13:
      opp[rules.flip(i)] = 2
  n = rng.randint(1, 4)
  for _ in range(n):
    free = [i for i in range(24) if not opp[rules.flip(i)]]
    me[rng.choice(free)] += 1
  if rng.random() < 0.3:
    me[24] += rng.choice((1, 1, 2))
  return tuple(me), tuple(opp)


SCENARIOS = [
    Scenario('turns', case, 24000, 400000,
             floors={'complete': 3000, 'incomplete': 3000, 'dance': 100,
                     'complete-with-dice-left': 500,
                     'incomplete-though-stuck': 20, 'picked-up': 3000}),
]
