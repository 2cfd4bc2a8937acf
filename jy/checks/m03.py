# -*- coding: us-ascii -*-
"""M03 asking is free: no question changes the board, the move or the dice."""
from harness import Scenario, caught
from ref import rules, modelkit
from ref.modelkit import K, MoveFactory, PartialMove, AvailableToPlay, BoardEditor, Board, dice_of, steps_of, snap

RULE = ('a case is one turn played some steps deep; every question the library '
        'answers about it is asked twice in a random order, with the board, the '
        'move so far and the dice compared before and after each; a state is '
        '(position, dice left, steps played)')
ASSUMPTIONS = ['positions have at most 15 chequers a side and no shared point']


def value_of(x):
  if hasattr(x, '_pms') or isinstance(x, (list, tuple)):
    return tuple([(p.die, p.src, p.dest, bool(p.is_hitting)) for p in x])
  if isinstance(x, PartialMove):
    return (x.die, x.src, x.dest, bool(x.is_hitting))
  return bool(x)


def case(ctx, rng, i):
  t = modelkit.Turn(rng, partial=False)
  ctx.detail = str(t)
  ctx.sample(str(t))
  me, opp, left = t.me, t.opp, list(t.left)
  for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
    options = sorted([(d, s) for d in set(left) for s in rules.steps(me, opp, d)])
    if not options:
      break
    die, (src, dest, hit) = rng.choice(options)
    t.mf.append(PartialMove(die, src, dest, hit))
    me, opp = rules.play(me, opp, src, dest, hit)
    left.remove(die)
  b, mf = t.board, t.mf
  me, opp = t.current()
  ctx.state((me, opp, tuple(left), len(mf.move)))
  if len(mf.move):
    ctx.event('mid-turn')

  own = AvailableToPlay(rolled=None, copy_src=mf.available)
  other = BoardEditor(b)
  asks = []
  def ask(name, fn):
    asks.append((name, fn))
  ask('pickup', lambda: mf.is_leagal_to_pickup_dice())
  for src in rng.sample(range(25), 8):
    ask('source', lambda src=src: mf.guess_your_single_pm_from_source(src))
    ask('source-given', lambda src=src: mf.guess_your_single_pm_from_source(src, b, own))
    ask('source-other', lambda src=src: mf.guess_your_single_pm_from_source(src, other, own))
  for dest in [-1] + rng.sample(range(24), 8):
    ask('dest', lambda dest=dest: mf.guess_your_single_pm_from_dest(dest))
    ask('dest-given', lambda dest=dest: mf.guess_your_single_pm_from_dest(dest, b, own))
  for dest in rng.sample(range(24), 4):
    ask('making', lambda dest=dest: mf.guess_your_making_point(dest))
    ask('making-given', lambda dest=dest: mf.guess_your_making_point(dest, other.position, own))
  mine = [n for n in range(25) if me[n]]
  for src in rng.sample(mine, min(4, len(mine))):
    lower = range(-1, src)
    for dest in rng.sample(lower, min(5, len(lower))):
      ask('multi', lambda src=src, dest=dest: mf.guess_your_multiple_pms(src, dest))
      ask('multi-given', lambda src=src, dest=dest: mf.guess_your_multiple_pms(src, dest, other, own))
  for pm in list(mf.move):
    for dest in range(pm.dest + 1, 25):
      ask('undo', lambda s=pm.dest, dest=dest: mf.guess_your_multiple_partial_undoes(s, dest))
      ask('undo-given', lambda s=pm.dest, dest=dest: mf.guess_your_multiple_partial_undoes(s, dest, other, own))
  for n in rng.sample(range(24), 6):
    ask('open', lambda n=n: b.is_open_to_land(n))
    ask('hit', lambda n=n: b.is_hitting_to_land(n))
    ask('has', lambda n=n: b.has_chequer_to_move(n))
    ask('bearoff', lambda n=n: b.is_ok_to_bearoff_from(n, 1 + n % 6))
  for die in range(1, 7):
    ask('bearoff-src', lambda die=die: b.find_src_of_bearoff_with(die) is not None)
  for who in (K.YOU, K.HIM):
    ask('legal-roll', lambda who=who: b.is_leagal_to_roll(who))
    ask('legal-move', lambda who=who: b.is_leagal_to_move(who))
    ask('legal-resign', lambda who=who: b.is_leagal_to_resign(who))
    ask('legal-redouble', lambda who=who: b.is_leagal_to_redouble(who))
    ask('take-or-pass', lambda who=who: b.is_cube_take_or_pass(who))
    ask('accept', lambda who=who: b.is_to_accept_resign(who))
  mine = [n for n in range(25) if me[n]]
  def elsewhere():
    # the same turn taken up by another factory, played on and taken back
    f = MoveFactory(BoardEditor(other), mf.move, own)
    played = [f.guess_your_single_pm_from_source(n) for n in mine]
    for pm in played[:1]:
      if pm:
        f.append(pm)
    for pm in list(f.move)[:1]:
      if f.board.position[b.on_action][pm.dest] or pm.dest < 0:
        f.append(PartialMove(pm.die, pm.dest, pm.src, pm.is_hitting))
    return [pm for pm in played if pm]
  ask('elsewhere', elsewhere)
  ask('doubles', lambda: b.is_doubles())
  ask('rolled', lambda: b.has_rolled())
  ask('text', lambda: bool(repr(b) and repr(mf.move) and str(mf.available)))
  ask('freeze', lambda: b.freeze() == Board(**dict(snap(b))))
  rng.shuffle(asks)

  def world():
    return (snap(b), steps_of(mf.move), dice_of(mf.available), dice_of(own), snap(other),
            mf.board is b)
  before = world()
  answers = {}
  for k, (name, fn) in enumerate(asks):
    answers[k] = value_of(fn())
    ctx.event('asked-' + name)
    after = world()
    if not ctx.check(after == before, 'question-changed-state:' + name,
                     lambda: '%s changed %s; %s' % (name, diff(before, after), t)):
      return
  for k in reversed(range(len(asks))):
    name, fn = asks[k]
    again = value_of(fn())
    ctx.check(again == answers[k], 'answer-not-repeatable:' + name,
              lambda: '%s answered %r, then %r; %s' % (name, answers[k], again, t))


def diff(a, b):
  names = ('board', 'move', 'dice', 'given dice', 'given board', 'board identity')
  return '; '.join(['%s: %r -> %r' % (n, x, y) for n, x, y in zip(names, a, b) if x != y])


SCENARIOS = [
    Scenario('questions', case, 8000, 130000,
             floors={'mid-turn': 1000, 'asked-undo': 1000, 'asked-pickup': 1000,
                     'asked-making': 1000, 'asked-multi': 1000}),
]
