# -*- coding: us-ascii -*-
"""M01 single-chequer suggestions are exactly the legal ones, largest die first."""
from harness import Scenario, caught
from ref import rules, modelkit
from ref.modelkit import K, PartialMove

RULE = ('a case is one generated position, player to move, roll and set of dice '
        'left; every source and every destination is asked; a state is the tuple '
        '(mover, opponent, dice left)')
ASSUMPTIONS = ['positions have at most 15 chequers a side and no shared point']


def expect_source(me, opp, left, src):
  for die in sorted(set(left), reverse=True):
    x = rules.step_ok(me, opp, src, die)
    if x is not None:
      return (die, src, x[0], x[1])
  return None


def expect_dest(me, opp, left, dest):
  for die in sorted(set(left), reverse=True):
    for src in range(24, -1, -1):
      x = rules.step_ok(me, opp, src, die)
      if x is not None and x[0] == dest:
        return (die, src, dest, x[1])
  return None


def compare(ctx, kind, turn, asked, got, want):
  if want is None:
    ctx.event(kind + '-none')
    ctx.check(not got, '%s:illegal-suggestion' % kind,
              lambda: '%s asked %s: suggested %r where no die allows a move; %s'
              % (kind, asked, got, turn))
  elif not got:
    ctx.check(False, '%s:missed' % kind,
              '%s asked %s: nothing suggested (%r) where %r is legal; %s'
              % (kind, asked, got, want, turn))
  else:
    ctx.event(kind + '-move')
    if want[2] == -1:
      ctx.event(kind + '-bearoff')
    if want[3]:
      ctx.event(kind + '-hit')
    if want[1] == 24:
      ctx.event(kind + '-enter')
    ok = isinstance(got, PartialMove)
    x = ok and (got.die, got.src, got.dest, bool(got.is_hitting))
    ctx.check(ok and x == want, '%s:wrong-step' % kind,
              lambda: '%s asked %s: got %r = %r, expected %r; %s'
              % (kind, asked, got, x, want, turn))


def case(ctx, rng, i):
  t = modelkit.Turn(rng, editor=rng.random() < 0.5)
  ctx.detail = str(t)
  ctx.state((t.me, t.opp, t.left))
  ctx.sample(str(t))
  for src in range(25):
    got = t.mf.guess_your_single_pm_from_source(src)
    compare(ctx, 'source', t, src, got, expect_source(t.me, t.opp, t.left, src))
  for dest in range(-1, 24):
    got = t.mf.guess_your_single_pm_from_dest(dest)
    compare(ctx, 'dest', t, dest, got, expect_dest(t.me, t.opp, t.left, dest))


def predicates(ctx, rng, i):
  """the elementary board questions the suggestions are built from."""
  t = modelkit.Turn(rng, editor=rng.random() < 0.5, partial=False)
  ctx.detail = str(t)
  b = t.board
  ctx.state((t.me, t.opp))
  for n in range(24):
    there = t.opp[rules.flip(n)]
    ctx.equal(bool(b.is_open_to_land(n)), there < 2, 'open-to-land', 'point %d of %s' % (n, t))
    ctx.equal(bool(b.is_hitting_to_land(n)), there == 1, 'hitting', 'point %d of %s' % (n, t))
  for n in range(25):
    want = t.me[n] > 0 and (n == 24 or t.me[24] == 0)
    ctx.equal(bool(b.has_chequer_to_move(n)), want, 'chequer-to-move', 'point %d of %s' % (n, t))
  for n in range(25):
    if t.me[n] == 0 or (t.me[24] and n != 24):
      continue
    for die in range(1, 7):
      x = rules.step_ok(t.me, t.opp, n, die)
      want = x is not None and x[0] == -1
      if want:
        ctx.event('bearoff-allowed')
      ctx.equal(bool(b.is_ok_to_bearoff_from(n, die)), want, 'bearoff-from',
                'point %d die %d of %s' % (n, die, t))


SCENARIOS = [
    Scenario('suggest', case, 24000, 400000,
             floors={'source-move': 1000, 'source-none': 1000,
                     'source-bearoff': 300, 'source-enter': 200,
                     'source-hit': 200, 'dest-move': 1000, 'dest-none': 1000,
                     'dest-bearoff': 200, 'dest-enter': 100, 'dest-hit': 200}),
    Scenario('predicates', predicates, 8000, 120000,
             floors={'bearoff-allowed': 500}),
]
