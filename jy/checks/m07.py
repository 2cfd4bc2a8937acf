# -*- coding: us-ascii -*-
"""M07 a frozen board is a value: nothing done later, anywhere, changes it."""
import copy
from harness import Scenario
from ref import rules, modelkit
from ref.modelkit import K, Board, BoardEditor, MoveFactory, PartialMove, Move, FIELDS, snap
from checks.m06 import random_fields

RULE = ('a case is a history of edits over a pool of editors and frozen boards '
        'that were made from each other; a shadow dictionary per object is '
        'compared after every edit; a state is one board value')
ASSUMPTIONS = ['attribute values are the immutable ones the model uses (tuples, ints, bools)']


def play_some(rng, b):
  roll = b.rolled
  b.rolled = rules.random_roll(rng)
  mf = MoveFactory(b)
  done = False
  for _ in range(3):
    pm = mf.guess_your_single_pm_from_source(rng.randint(0, 24))
    if pm:
      mf.append(pm)
      done = True
  return done


def history(ctx, rng, i):
  pool = []   # [object, frozen?, shadow]
  log = []
  def inspect():
    for k, (obj, frozen, shadow) in enumerate(pool):
      now = dict(snap(obj))
      if not ctx.check(now == shadow, frozen and 'frozen-board-changed' or 'edit-leaked',
                       lambda: 'object %d: %s; log %r' % (
                           k, [(f, shadow[f], now[f]) for f in FIELDS if now[f] != shadow[f]], log[-6:])):
        pool[k][2] = now
  d = random_fields(rng)
  pool.append([Board(**d), True, dict(d)])
  pool.append([BoardEditor(Board(**d)), False, dict(d)])
  ctx.sample(repr(d))
  for _ in range(rng.randint(8, 30)):
    op = rng.choice(('freeze', 'edit-of-frozen', 'edit-of-editor', 'new-kw', 'set',
                     'set', 'set', 'flip', 'play', 'make', 'mutate-frozen', 'copy',
                     'pickup', 'editor-kw', 'compare', 'compare'))
    frozen = [x for x in pool if x[1]]
    editors = [x for x in pool if not x[1]]
    log.append(op)
    if len(pool) > 14 and op in ('freeze', 'edit-of-frozen', 'edit-of-editor', 'new-kw', 'copy', 'editor-kw'):
      op = 'compare'
    ctx.event(op)
    if op == 'freeze':
      x = rng.choice(editors)
      pool.append([x[0].freeze(), True, dict(x[2])])
    elif op == 'edit-of-frozen':
      x = rng.choice(frozen)
      pool.append([BoardEditor(x[0]), False, dict(x[2])])
    elif op == 'edit-of-editor':
      x = rng.choice(editors)
      pool.append([BoardEditor(x[0]), False, dict(x[2])])
    elif op == 'editor-kw':
      x = rng.choice(pool)
      e = random_fields(rng)
      keys = rng.sample(FIELDS, rng.randint(1, 4))
      kw = dict([(k, e[k]) for k in keys])
      pool.append([BoardEditor(x[0], **kw), False, dict(x[2], **kw)])
    elif op == 'new-kw':
      e = random_fields(rng)
      keys = rng.sample(FIELDS, rng.randint(0, len(FIELDS)))
      kw = dict([(k, e[k]) for k in keys])
      shadow = dict(DEFAULTS)
      shadow.update(kw)
      pool.append([Board(**kw), True, shadow])
    elif op == 'copy':
      x = rng.choice(pool)
      how = rng.choice(('copy', 'deepcopy'))
      pool.append([getattr(copy, how)(x[0]), x[1], dict(x[2])])
      ctx.event(how + (x[1] and '-frozen' or '-editor'))
    elif op == 'set':
      x = rng.choice(editors)
      e = random_fields(rng)
      k = rng.choice(FIELDS)
      setattr(x[0], k, e[k])
      x[2][k] = e[k]
    elif op == 'flip':
      x = rng.choice(editors)
      x[0].flip()
      from checks.m06 import mirror
      x[2] = mirror(x[2])
    elif op in ('play', 'make', 'pickup'):
      x = rng.choice(editors)
      if x[2]['on_action'] not in (K.YOU, K.HIM) or x[2]['on_inner_action'] not in (K.YOU, K.HIM):
        continue
      if op == 'play':
        if play_some(rng, x[0]):
          ctx.event('chequers-moved')
      elif op == 'make':
        me, opp = rules.sides(x[0].position, x[2]['on_action'])
        s = rules.steps(me, opp, rng.randint(1, 6))
        if s:
          src, dest, hit = rng.choice(s)
          mv = Move()
          mv.append(PartialMove(src - dest, src, dest, hit))
          x[0].make(mv)
          ctx.event('chequers-moved')
      else:
        x[0].pickupdice()
      x[2] = dict(snap(x[0]))     # its own change; the others must not move
    elif op == 'mutate-frozen':
      x = rng.choice(frozen)
      k = rng.choice(FIELDS + ('colour', '_d', 'defaults'))
      how = rng.choice(('set', 'del', 'flip'))
      try:
        if how == 'set':
          setattr(x[0], k, rng.choice((0, 1, (1, 1), None)))
        elif how == 'del':
          delattr(x[0], k)
        else:
          x[0].position[0][3] = 7
      except (TypeError, AttributeError):
        ctx.event('mutation-refused')
        ctx.check(True, '', '')
      else:
        ctx.check(False, 'mutation-allowed:' + how, lambda: '%s %s on a frozen board was allowed' % (how, k))
    elif op == 'compare':
      x = rng.choice(pool)
      y = rng.choice([z for z in pool if z[1] == x[1]])
      same = x[2] == y[2]
      ctx.check((x[0] == y[0]) == same, 'equality',
                lambda: '== is %r, attributes equal: %r; %r %r' % (x[0] == y[0], same, x[2], y[2]))
      ctx.check((x[0] != y[0]) == (not same), 'inequality',
                lambda: '!= is %r, attributes equal: %r; %r %r' % (x[0] != y[0], same, x[2], y[2]))
    inspect()
  for x in pool:
    ctx.state(sorted(x[2].items()))


DEFAULTS = dict(position=(rules.START, rules.START), cube_in_logarithm=0, cube_owner=3,
                on_action=0, crawford=False, game_state=0, on_inner_action=0, doubled=False,
                resign_offer=0, rolled=(0, 0), match_length=0, score=(0, 0))


def one_field(ctx, rng, i):
  """boards differing in exactly one attribute are different; equal otherwise."""
  d = random_fields(rng)
  ctx.state(sorted(d.items()))
  ctx.check(Board(**d) == Board(**d), 'equality', lambda: 'two boards of %r differ' % d)
  ctx.check(not (Board(**d) != Board(**d)), 'inequality', lambda: 'two boards of %r differ' % d)
  ctx.check(BoardEditor(Board(**d)).freeze() == Board(**d), 'freeze-thaw', lambda: repr(d))
  for f in FIELDS:
    e = dict(d)
    for _ in range(20):
      e[f] = random_fields(rng)[f]
      if e[f] != d[f]:
        break
    else:
      continue
    ctx.event('differs-in-' + f)
    a, b = Board(**d), Board(**e)
    ctx.check(not (a == b) and a != b, 'equality:' + f, lambda: '%r vs %r in %s' % (d[f], e[f], f))
    a, b = BoardEditor(a), BoardEditor(b)
    ctx.check(not (a == b) and a != b, 'equality:' + f, lambda: 'editors %r vs %r in %s' % (d[f], e[f], f))
    x = BoardEditor(Board(**d))
    setattr(x, f, e[f])
    ctx.check(dict(snap(x.freeze())) == e, 'freeze:' + f, lambda: 'set %s=%r froze to %r' % (f, e[f], snap(x.freeze())))


SCENARIOS = [
    Scenario('history', history, 8000, 120000,
             floors={'freeze': 1000, 'chequers-moved': 500, 'mutation-refused': 500,
                     'compare': 1000}),
    Scenario('one-field', one_field, 4000, 60000,
             floors=dict([('differs-in-' + f, 500) for f in FIELDS])),
]
