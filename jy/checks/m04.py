# -*- coding: us-ascii -*-
"""M04 steps and undos conserve chequers and dice and cancel exactly."""
from harness import Scenario
from ref import rules, modelkit
from bglib.model.move import AvailableToPlay
from ref.modelkit import (K, PartialMove, Move, MoveFactory, Board, BoardEditor,
                          dice_of, steps_of, snap)

RULE = ('a case is one turn (or one whole game) of random steps, suggested '
        'moves and undos on a real board, checked after each operation against '
        'the net effect of the steps still standing; a state is a position '
        'passed through')
ASSUMPTIONS = ['only legal steps are played, and only steps that were played are undone']


def net(me, opp, steps):
  me = list(me)
  opp = list(opp)
  for die, src, dest, hit in steps:
    me[src] -= 1
    if dest >= 0:
      me[dest] += 1
    if hit:
      opp[rules.flip(dest)] -= 1
      opp[24] += 1
  return tuple(me), tuple(opp)


def inspect(ctx, t, log):
  mf = t.mf
  steps = steps_of(mf.move)
  me, opp = t.current()
  want = net(t.me, t.opp, steps)
  text = lambda: 'log %r; move %r; %s' % (log, steps, t)
  ctx.check((me, opp) == want, 'board-differs-from-net-effect',
            lambda: 'board %r, steps standing give %r; %s' % ((me, opp), want, text()))
  ctx.check(min(me) >= 0 and min(opp) >= 0, 'negative-count', lambda: 'board %r; %s' % ((me, opp), text()))
  off = len([s for s in steps if s[2] < 0])
  ctx.check(sum(me) + off == sum(t.me) and sum(opp) == sum(t.opp), 'chequers-not-conserved',
            lambda: 'mover %d + %d off of %d, opponent %d of %d; %s'
            % (sum(me), off, sum(t.me), sum(opp), sum(t.opp), text()))
  dice = tuple(sorted(dice_of(mf.available) + tuple([s[0] for s in steps])))
  ctx.check(dice == tuple(sorted(t.left)), 'dice-not-conserved',
            lambda: 'dice left and played %r, rolled %r; %s' % (dice, t.left, text()))
  ctx.check(len(mf.available) == len(t.left) - len(steps), 'dice-count',
            lambda: 'len(available)=%d; %s' % (len(mf.available), text()))
  for f, v in snap(t.board):
    if f != 'position':
      ctx.check(v == t.start[f], 'moving-changed-%s' % f,
                lambda: '%s %r -> %r; %s' % (f, t.start[f], v, text()))
  ctx.state((me, opp))
  return me, opp, steps


def turn(ctx, rng, i):
  t = modelkit.Turn(rng, partial=False)
  t.start = dict(snap(t.board))
  ctx.detail = str(t)
  ctx.sample(str(t))
  log = []
  mf = t.mf
  for _ in range(rng.randint(2, 14)):
    me, opp = t.current()
    left = dice_of(mf.available)
    played = steps_of(mf.move)
    op = rng.choice(('step', 'step', 'suggest', 'multi', 'undo', 'undo', 'undo-suggest', 'undo-suggest'))
    if op in ('step', 'suggest', 'multi'):
      options = sorted([(d, s) for d in set(left) for s in rules.steps(me, opp, d)])
      if not options:
        continue
      die, (src, dest, hit) = rng.choice(options)
      if op == 'step':
        log.append((op, die, src, dest, hit))
        mf.append(PartialMove(die, src, dest, hit))
      elif op == 'suggest':
        pm = mf.guess_your_single_pm_from_source(src)
        if pm:
          log.append((op, src, repr(pm)))
          mf.append(pm)
      else:
        far = src - rng.choice((dest and 1 or 1, sum(left), die, 2 * die))
        far = max(-1, min(far, src - 1))
        mv = mf.guess_your_multiple_pms(src, far)
        if mv:
          log.append((op, src, far, repr(mv)))
          mf.add(mv)
          ctx.event('multi-%d' % len(mv))
      ctx.event('play')
      if hit:
        ctx.event('play-hit')
      if dest < 0:
        ctx.event('play-off')
    elif op == 'undo':
      if not played:
        continue
      die, src, dest, hit = played[-1]
      log.append((op, die, dest, src, hit))
      mf.append(PartialMove(die, dest, src, hit))
      ctx.event('undo')
      if hit:
        ctx.event('undo-hit')
      if dest < 0:
        ctx.event('undo-off')
      ctx.check(steps_of(mf.move) == played[:-1], 'undo-did-not-cancel',
                lambda: 'undoing %r of %r left %r; %s' % (played[-1], played, steps_of(mf.move), t))
    else:
      if not played:
        continue
      die, src, dest, hit = played[-1]
      # walk the chain of the chequer that moved last, some way back
      chain = [played[-1]]
      for s in reversed(played[:-1]):
        if s[2] == chain[-1][1]:
          chain.append(s)
        else:
          break
      n = rng.randint(1, len(chain))
      far = chain[n - 1][1]
      before = snap(t.board), steps_of(mf.move), dice_of(mf.available)
      mv = mf.guess_your_multiple_partial_undoes(dest, far)
      after = snap(t.board), steps_of(mf.move), dice_of(mf.available)
      ctx.check(before == after, 'undo-question-changed-state',
                lambda: '%r -> %r; %s' % (before, after, t))
      if not ctx.check(bool(mv), 'undo-not-found',
                       lambda: 'undo from %s to %s of %r: %r; %s' % (dest, far, played, mv, t)):
        continue
      back = steps_of(mv)
      want = tuple([(c[0], c[2], c[1], c[3]) for c in chain[:n]])
      ctx.check(back == want, 'undo-wrong-steps',
                lambda: 'undo from %s to %s of %r: %r, expected %r; %s' % (dest, far, played, back, want, t))
      log.append((op, dest, far, back))
      mf.add(mv)
      ctx.event('undo-suggest-%d' % n)
      ctx.check(len(mf.move) == len(played) - n, 'undo-did-not-cancel',
                lambda: 'undoing %r of %r left %r; %s' % (back, played, steps_of(mf.move), t))
    inspect(ctx, t, log)
  # take everything back
  while len(mf.move):
    die, src, dest, hit = steps_of(mf.move)[-1]
    mf.append(PartialMove(die, dest, src, hit))
  inspect(ctx, t, log)
  ctx.check(dict(snap(t.board)) == t.start, 'full-undo-not-identity',
            lambda: 'board %r after undoing all, was %r; log %r' % (snap(t.board), t.start, log))
  ctx.check(str(mf.move) == 'o-o' or not log, 'empty-move-text', lambda: 'empty move prints %r' % str(mf.move))


def make(ctx, rng, i):
  """BoardEditor.make of a whole move and of its inverse."""
  t = modelkit.Turn(rng, partial=False)
  ctx.detail = str(t)
  me, opp, left = t.me, t.opp, list(t.left)
  mv = Move()
  inverse = Move()
  back = []
  while left:
    options = sorted([(d, s) for d in set(left) for s in rules.steps(me, opp, d)])
    if not options:
      break
    die, (src, dest, hit) = rng.choice(options)
    mv.append(PartialMove(die, src, dest, hit))
    back.append(PartialMove(die, dest, src, hit))
    me, opp = rules.play(me, opp, src, dest, hit)
    left.remove(die)
  for pm in reversed(back):
    inverse.append(pm)
  copy = Move(src=mv)
  b = t.board
  b.make(mv)
  ctx.event('made-%d' % len(mv))
  ctx.check(t.current() == (me, opp), 'make-move', lambda: 'make(%r) gave %r, expected %r; %s' % (mv, t.current(), (me, opp), t))
  ctx.state((me, opp))
  b.make(inverse)
  ctx.check(t.current() == (t.me, t.opp), 'make-inverse', lambda: 'make(%r) then %r gave %r; %s' % (mv, inverse, t.current(), t))
  ctx.check(len(mv) == 0 or all([p.are_invertible_element(q) and q.are_invertible_element(p) for p, q in zip(mv, back)]),
            'inverse-not-recognised', lambda: '%r %r' % (mv, back))
  n = len(copy)
  copy.add(inverse)
  ctx.check(len(copy) == 0, 'move-plus-inverse', lambda: '%r + %r = %r' % (mv, inverse, copy))
  ctx.check(len(mv) == n, 'copy-aliases-source', lambda: 'adding to a copy changed the source to %r' % mv)
  # a step that is nobody's inverse must not cancel anything
  if n:
    pm = list(mv)[rng.randrange(n)]
    present = steps_of(mv)
    for die, hit in ((pm.die, not pm.is_hitting), (pm.die % 6 + 1, pm.is_hitting)):
      if (die, pm.src, pm.dest, bool(hit)) in present:
        continue
      other = PartialMove(die, pm.dest, pm.src, hit)
      x = Move(src=mv)
      x.append(other)
      ctx.check(len(x) == n + 1, 'cancelled-a-non-inverse', lambda: '%r + %r = %r' % (mv, other, x))


def game(ctx, rng, i):
  """a whole game through the suggestion, pick-up and turn machinery."""
  who = rng.choice((K.YOU, K.HIM))
  b = BoardEditor(Board(on_action=who, on_inner_action=who, game_state=K.ON_GOING))
  off = [0, 0]
  turns = 0
  plies = []
  while turns < 400:
    turns += 1
    roll = rules.random_roll(rng)
    b.rolled = roll
    ctx.check(b.is_leagal_to_move(who) and not b.is_leagal_to_move(1 - who), 'not-on-turn',
              lambda: 'turn %d: %r may move: %r %r' % (turns, who, b.is_leagal_to_move(0), b.is_leagal_to_move(1)))
    mf = MoveFactory(b)
    played = []
    while True:
      me, opp = rules.sides(b.position, who)
      left = dice_of(mf.available)
      options = sorted([(d, s) for d in set(left) for s in rules.steps(me, opp, d)])
      if not options:
        break
      die, (src, dest, hit) = rng.choice(options)
      pm = mf.guess_your_single_pm_from_source(src)
      if not ctx.check(pm, 'game-suggestion-missing', lambda: 'no suggestion from %d with %r on %r' % (src, left, b.position)):
        return
      mf.append(pm)
      played.append(str(pm))
      if pm.dest < 0:
        off[who] += 1
        ctx.event('borne-off')
      if pm.is_hitting:
        ctx.event('hit')
    plies.append((who, roll, played))
    me, opp = rules.sides(b.position, who)
    ctx.state((me, opp))
    pos = b.position
    ctx.check(sum(pos[0]) + off[0] == 15 and sum(pos[1]) + off[1] == 15, 'game-chequers-not-conserved',
              lambda: 'turn %d: %r off %r; last %r' % (turns, pos, off, plies[-3:]))
    ctx.check(rules.legal_position(me, opp), 'game-illegal-position',
              lambda: 'turn %d: %r; last %r' % (turns, pos, plies[-3:]))
    if off[who] == 15:
      ctx.event('game-finished')
      return
    if not mf.is_leagal_to_pickup_dice():
      # a shorter play than possible: take it all back, pick a fullest play
      for die, src, dest, hit in reversed(steps_of(mf.move)):
        mf.append(PartialMove(die, dest, src, hit))
        if dest < 0:
          off[who] -= 1
      ctx.event('replayed-turn')
      best = fullest(rules.sides(b.position, who), roll)
      for die, src, dest, hit in best:
        mf.append(PartialMove(die, src, dest, hit))
        if dest < 0:
          off[who] += 1
      if not ctx.check(mf.is_leagal_to_pickup_dice(), 'game-cannot-end-turn',
                       lambda: 'turn %d: fullest play %r of %r on %r is refused' % (turns, best, roll, b.position)):
        return
    mf.pickupdice()
    who = 1 - who
    ctx.check(b.on_action == who, 'game-turn-not-passed', 'turn %d' % turns)
  ctx.event('game-capped')


def fullest(sides, roll):
  me, opp = sides
  def search(me, opp, dice):
    best = ()
    for k in range(len(dice)):
      if dice[k] in dice[:k]:
        continue
      for src, dest, hit in rules.steps(me, opp, dice[k]):
        m2, o2 = rules.play(me, opp, src, dest, hit)
        line = ((dice[k], src, dest, hit),) + search(m2, o2, dice[:k] + dice[k + 1:])
        if len(line) > len(best) or (len(line) == len(best) == 1 and line[0][0] > best[0][0]):
          best = line
          if len(best) == len(dice):
            return best
    return best
  return search(me, opp, rules.dice_list(roll))


def dice(ctx, rng, i):
  """the dice left are a multiset, and copies are free of each other."""
  start = rng.choice(((0, 0), (rng.randint(1, 6), rng.randint(1, 6))))
  pool = [(AvailableToPlay(rolled=start), list(rules.dice_list(start)))]
  log = [start]
  for _ in range(rng.randint(1, 14)):
    k = rng.randrange(len(pool))
    a, want = pool[k]
    die = rng.randint(1, 6)
    how = rng.choice(('add', 'consume', 'consume', 'copy', 'set'))
    log.append((how, k, die))
    if how == 'add':
      a.add(die)
      want.append(die)
    elif how == 'consume':
      if die in want:
        a.consume(die)
        want.remove(die)
      else:
        try:
          a.consume(die)
          ctx.check(False, 'die-not-left', 'a die that is not left is consumed: %r' % (log,))
        except ValueError:
          ctx.event('refused')
    elif how == 'copy':
      pool.append((AvailableToPlay(rolled=rng.choice((None, (0, 0))), copy_src=a), list(want)))
    else:
      n = rng.randint(0, 4)
      a[die] = n
      want[:] = [d for d in want if d != die] + [die] * n
    for a, want in pool:
      want.sort(reverse=True)
      got = (dice_of(a), len(a), bool(a), [d for d in range(1, 7) if d in a], [a[d] for d in range(1, 7)], a.get_max(), bool(a.is_doubles()))
      ctx.equal(got, (tuple(want), len(want), bool(want), sorted(set(want)), [want.count(d) for d in range(1, 7)], want and max(want) or None, len(want) > len(set(want))), 'dice-left', 'dice left after %r' % (log,))
    ctx.event(how)
  ctx.state(sorted([want for a, want in pool]))


SCENARIOS = [
    Scenario('dice', dice, 16000, 200000, floors={'refused': 5000, 'copy': 5000, 'consume': 10000}),
    Scenario('turn', turn, 16000, 240000,
             floors={'play': 5000, 'play-hit': 300, 'play-off': 200, 'undo': 1000,
                     'undo-hit': 50, 'undo-off': 30, 'undo-suggest-1': 500,
                     'undo-suggest-2': 100, 'undo-suggest-3': 5}),
    Scenario('make', make, 8000, 120000, floors={'made-2': 1000, 'made-4': 100}),
    Scenario('game', game, 64, 1600,
             floors={'borne-off': 200, 'hit': 100, 'game-finished': 20}),
]
