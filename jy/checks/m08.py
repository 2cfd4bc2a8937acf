# -*- coding: us-ascii -*-
"""M08 the cube and resignation protocol, against a reference state machine."""
from harness import Scenario
from ref import rules, modelkit
from ref.modelkit import K, Board, BoardEditor, snap
from checks.m06 import answer

RULE = ('a case is one game of random legal and illegal offers and answers; '
        'after every event all questions about both players are compared with '
        'the reference machine, and an action by the wrong player must be '
        'refused without a trace; a state is (phase, turn, cube, score, match '
        'length, Crawford)')
ASSUMPTIONS = ['a taken double leaves cube value and owner to the caller, as the '
               'library does; whether a later double is allowed is not judged']

TURN, ROLLED, CUBE, RESIGN, OVER = 'turn', 'rolled', 'cube', 'resign', 'over'


class Machine(object):
  """who may do what, from the rules of the game."""
  def __init__(self, who, cube_log, owner, crawford, match_length, score):
    self.who = who
    self.phase = TURN
    self.back = None          # phase to return to after a rejected resignation
    self.cube_log, self.owner, self.crawford = cube_log, owner, crawford
    self.match_length, self.score = match_length, list(score)
    self.resign = 0
    self.taken = False
    self.state = K.ON_GOING

  def may_double(self, p):
    if self.phase != TURN or p != self.who or self.crawford or self.taken:
      return False
    if self.owner not in (K.CENTER, p):
      return False
    if self.match_length == 0:
      return True
    return self.score[p] + (1 << self.cube_log) < self.match_length

  def allowed(self, p):
    r = set()
    if self.phase == TURN and p == self.who:
      r.add('roll')
    if self.phase == ROLLED and p == self.who:
      r.add('move')
    if self.may_double(p):
      r.add('double')
    if self.phase == CUBE and p != self.who:
      r.add('take-or-drop')
      if self.match_length == 0:
        r.add('redouble')
    if self.phase in (TURN, ROLLED) and p == self.who:
      r.add('resign')
    if self.phase == RESIGN and p != self.who:
      r.add('answer-resign')
    return r


ASK = (('roll', 'is_leagal_to_roll'), ('move', 'is_leagal_to_move'),
       ('double', 'is_leagal_to_double'), ('take-or-drop', 'is_cube_take_or_pass'),
       ('redouble', 'is_leagal_to_redouble'), ('answer-resign', 'is_to_accept_resign'))


def inspect(ctx, m, b, log):
  for p in (K.YOU, K.HIM):
    want = m.allowed(p)
    for name, q in ASK:
      got = answer(getattr(b, q), p)
      ctx.check((got is True) == (name in want), 'protocol:' + name,
                lambda: '%s for player %d answered %r, expected %r; phase %s; log %r; %r'
                % (q, p, got, name in want, m.phase, log, snap(b)))
      if name in want:
        ctx.event('may-' + name)
    if m.phase != OVER:
      got = answer(b.is_leagal_to_resign, p)
      ctx.check((got is True) == ('resign' in want), 'protocol:resign',
                lambda: 'is_leagal_to_resign for %d answered %r, expected %r; phase %s; log %r; %r'
                % (p, got, 'resign' in want, m.phase, log, snap(b)))
  ctx.check(tuple(b.score) == tuple(m.score), 'score',
            lambda: 'score %r, expected %r; log %r' % (b.score, m.score, log))
  ctx.check(b.game_state == m.state, 'game-state',
            lambda: 'game state %r, expected %r; log %r' % (b.game_state, m.state, log))
  ctx.check(b.on_action == m.who, 'turn', lambda: 'turn of %r, expected %r; log %r' % (b.on_action, m.who, log))
  ctx.state((m.phase, m.who, m.cube_log, m.owner, tuple(m.score), m.match_length, m.crawford, m.taken))


def refuse(ctx, b, log, name, fn):
  before = snap(b)
  try:
    fn()
  except AssertionError:
    ctx.event('refused')
    ctx.check(snap(b) == before, 'refused-but-changed',
              lambda: 'refused %s changed %r to %r' % (name, before, snap(b)))
    return
  ctx.check(False, 'not-refused:' + name, lambda: '%s was allowed; log %r; before %r after %r' % (name, log, before, snap(b)))


def game(ctx, rng, i):
  who = rng.choice((K.YOU, K.HIM))
  ml = rng.choice((0, 0, 0, 1, 2, 3, 5, 7, 11))
  score = ml and (rng.randint(0, ml - 1), rng.randint(0, ml - 1)) or (rng.randint(0, 9), rng.randint(0, 9))
  cube_log = rng.choice((0, 0, 0, 1, 2, 3))
  owner = cube_log and rng.choice((K.YOU, K.HIM)) or K.CENTER
  if rng.random() < 0.1:
    owner = rng.choice((K.YOU, K.HIM, K.CENTER))
  crawford = bool(ml) and rng.random() < 0.2
  m = Machine(who, cube_log, owner, crawford, ml, score)
  b = BoardEditor(Board(on_action=who, on_inner_action=who, game_state=K.ON_GOING,
                        match_length=ml, score=score, cube_in_logarithm=cube_log,
                        cube_owner=owner, crawford=crawford))
  log = [('start', who, ml, score, cube_log, owner, crawford)]
  ctx.detail = repr(log)
  ctx.sample(repr(log))
  inspect(ctx, m, b, log)
  for _ in range(rng.randint(3, 25)):
    p = rng.choice((K.YOU, K.HIM))
    may = m.allowed(p)
    op = rng.choice(('roll', 'move', 'double', 'take', 'drop', 'resign', 'accept', 'reject'))
    if op == 'roll':
      if 'roll' not in may:
        continue
      b.rolled = rules.random_roll(rng)
      m.phase = ROLLED
    elif op == 'move':
      if 'move' not in may:
        continue
      if m.taken:
        # what a new turn means for a cube that was just taken is the caller's
        # business: he has to turn it. do that.
        b.doubled = False
        b.cube_in_logarithm += 1
        b.cube_owner = 1 - m.who
        m.cube_log += 1
        m.owner = 1 - m.who
        m.taken = False
      b.pickupdice()
      m.who = 1 - m.who
      m.phase = TURN
    elif op == 'double':
      if 'double' not in may:
        if b.rolled == (0, 0):
          refuse(ctx, b, log, 'double by %d' % p, lambda: b.double(p))
        continue
      b.double(p)
      m.phase = CUBE
    elif op == 'take':
      if 'take-or-drop' not in may:
        refuse(ctx, b, log, 'take by %d' % p, lambda: b.take(p))
        continue
      b.take(p)
      m.phase = TURN
      m.taken = True
    elif op == 'drop':
      if 'take-or-drop' not in may:
        refuse(ctx, b, log, 'drop by %d' % p, lambda: b.drop(p))
        continue
      b.drop(p)
      m.score[1 - p] += 1 << m.cube_log
      m.phase = OVER
      m.state = K.DOUBLED_OUT
    elif op == 'resign':
      how = rng.choice((1, 2, 3))
      if 'resign' not in may:
        if m.phase != OVER:
          refuse(ctx, b, log, 'resign by %d' % p, lambda: b.offer_resign(p, how))
        continue
      if rng.random() < 0.1:
        bad = rng.choice((0, 4, -1))
        refuse(ctx, b, log, 'resign worth %d' % bad, lambda: b.offer_resign(p, bad))
      b.offer_resign(p, how)
      m.back = m.phase
      m.phase = RESIGN
      m.resign = how
    elif op == 'accept':
      if 'answer-resign' not in may:
        refuse(ctx, b, log, 'accept by %d' % p, lambda: b.accept_resign(p))
        continue
      b.accept_resign(p)
      m.score[p] += m.resign << m.cube_log
      m.phase = OVER
      m.state = K.RESIGNED
    elif op == 'reject':
      if 'answer-resign' not in may:
        refuse(ctx, b, log, 'reject by %d' % p, lambda: b.reject_resign(p))
        continue
      b.reject_resign(p)
      m.phase = m.back
      m.resign = 0
    ctx.event('did-' + op)
    log.append((op, p))
    inspect(ctx, m, b, log)
    for f, v in snap(b):
      if f == 'position':
        ctx.check(v == (rules.START, rules.START), 'cube-moved-chequers', lambda: repr(log))
      elif f == 'cube_in_logarithm':
        ctx.check(v == m.cube_log, 'cube-value', lambda: '%r, expected %r; %r' % (v, m.cube_log, log))
      elif f == 'resign_offer' and m.phase != OVER:
        ctx.check(v == (m.phase == RESIGN and m.resign or 0), 'resign-offer', lambda: '%r; %r' % (v, log))
      elif f == 'match_length':
        ctx.check(v == m.match_length, 'match-length', lambda: repr(log))


SCENARIOS = [
    Scenario('games', game, 40000, 600000,
             floors=dict([('did-' + x, 300) for x in
                          ('roll', 'move', 'double', 'take', 'drop', 'resign', 'accept', 'reject')]
                         + [('may-redouble', 100), ('refused', 5000)])),
]
