# -*- coding: us-ascii -*-
"""R01 match records are accepted exactly when in order, digested whole, and cut into games without loss."""
import glob
import hashlib
import imp
import os
import StringIO
import sys
import types

if 'decorator' not in sys.modules:
  m = types.ModuleType('decorator')
  def decorator(caller, func):
    def wrapped(*args, **kw):
      return caller(func, *args, **kw)
    wrapped.__name__ = func.__name__
    return wrapped
  m.decorator = decorator
  sys.modules['decorator'] = m

import bglib.record
from harness import Scenario

HERE = os.path.dirname(bglib.record.__file__)

RULE = ('a case is the text of a match, one of those in the repository or generated, as it is or with lines dropped, doubled, moved or spoilt; whether it is accepted, its digest and '
        'the games it is cut into are compared with an independent reading; a state is the sequence of kinds of its lines')
ASSUMPTIONS = ['tonic.lineparser and decorator are stand-ins: a line goes to the handler of the first group that matched it']


def setup():
  # Jython takes the directory of records for the module: loaded by its file
  m = imp.load_source('bglib_record_snowietxt', os.path.join(HERE, 'snowietxt.py'))
  files = sorted(glob.glob(os.path.join(HERE, 'snowietxt', '*.txt')))
  assert len(files) > 200
  return m, files


def kind(line):
  s = line.strip()
  if not s:
    return 'blank'
  w = s.split()
  if line.startswith(' ') and len(w) == 3 and w[0].isdigit() and w[1:] == ['point', 'match']:
    return 'length'
  if w[0] == 'Game' and len(w) == 2 and w[1].isdigit():
    return 'game'
  if w[0].endswith(')') and w[0][:-1].isdigit():
    return 'moves'
  if w[:1] == ['Wins'] and len(w) > 2 and w[1].isdigit() and w[2] in ('point', 'points'):
    return 'wins'
  if line.startswith(' ') and w.count(':') == 2 and named(w):
    return 'players'
  return 'bad'


def named(w):
  """a name, perhaps with a comma and a number, a colon and a number, twice."""
  i = w.index(':')
  for name, score in ((w[:i], w[i + 1]), (w[i + 2:-2], w[-1])):
    name = ' '.join(name)
    base, comma, number = name.partition(',')
    if not base or not score.isdigit() or (comma and not number.isdigit()):
      return False
  return w[-2] == ':'


def verdict(lines):
  """True: in order. False: not. None: the layout says nothing about it."""
  state, n, unsure = 'start', 0, False
  follow = dict(start=('length',), length=('game',), blank=('game',), game=('players',), players=('moves',), moves=('moves', 'game'))
  for line in lines:
    k = kind(line)
    if k == 'bad':
      return False
    if k == 'wins':
      if state not in ('moves', 'blank'):
        unsure = True
      continue
    if k == 'blank':
      if state == 'start':
        return None
      state = 'blank'
      continue
    if k not in follow[state]:
      return False
    if k == 'moves':
      n = state == 'moves' and n + 1 or 1
      if int(line.split(')')[0]) != n:
        return False
    state = k
  return not unsure or None


def pad(s, n):
  return s + ' ' * max(1, n - len(s))


def action(rng, first):
  r = rng.random()
  if r < 0.08:
    return ' Doubles => %d' % rng.choice((2, 4, 8, 16))
  if r < 0.14:
    return ' Takes'
  if r < 0.17:
    return ' Drops'
  if r < 0.2 and first:
    return ''
  d = sorted((rng.randint(1, 6), rng.randint(1, 6)), reverse=True)
  s = '%d%d:' % tuple(d)
  for _ in range(rng.randint(0, d[0] == d[1] and 4 or 2)):
    a = rng.randint(1, 25)
    s += ' %d/%d%s' % (a, max(0, a - rng.choice(d)), rng.choice(('', '', '', '*')))
  return s


def made(rng):
  nl = rng.choice(('\n', '\n', '\n', '\r\n'))
  names = rng.choice((('DianaIN', 'bgnori'), ('a', 'b'), ('GNU Backgammon', 'x_y'), ('o-0', '99'), ('Smith, J'.replace(', ', '-'), "O'Neil"), ('p,1', 'q,22')))
  r = [' %d point match' % rng.choice((1, 3, 5, 7, 11, 25, 64)), '']
  for g in range(rng.randint(1, rng.choice((2, 9)))):
    r.append(' Game %d' % (g + 1))
    r.append(' ' + pad('%s : %d' % (names[0], rng.randint(0, 24)), 36) + '%s : %d' % (names[1], rng.randint(0, 24)))
    n = rng.randint(1, rng.choice((3, 40, 130)))
    if rng.random() < 0.07:
      # resigned before anybody moved
      n = 0
      r += [rng.choice(('', ' '))] * rng.choice((1, 1, 2))
    for i in range(n):
      line = '%3d) ' % (i + 1) + action(rng, i == 0)
      if i < n - 1 or rng.random() < 0.6:
        line = pad(line, 36) + action(rng, False)
      r.append(line)
    if not n:
      continue
    won = 'Wins %s' % rng.choice(('1 point', '2 points', '4 points', '12 points'))
    if rng.random() < 0.3 and kind(r[-1]) == 'moves' and len(r[-1]) < 36:
      r[-1] = pad(r[-1], 40) + won
    else:
      r.append(rng.choice(('      ', ' ' * 34)) + won)
    r += [''] * rng.choice((1, 1, 1, 0, 2))
  if rng.random() < 0.3:
    r.append('')
  return [x + nl for x in r]


def spoilt(rng, lines):
  lines = list(lines)
  for _ in range(rng.choice((1, 1, 1, 2, 3))):
    if not lines:
      break
    i = rng.randrange(len(lines))
    if rng.random() < 0.3:
      # at a place of interest
      i = rng.choice([k for k in range(len(lines)) if kind(lines[k]) != 'moves'] or [i])
    how = rng.choice(('drop', 'double', 'swap', 'move', 'garbage', 'number', 'shuffle', 'cut', 'word', 'word'))
    if how == 'drop':
      lines.pop(i)
    elif how == 'double':
      lines.insert(i, lines[i])
    elif how == 'swap' and i + 1 < len(lines):
      lines[i], lines[i + 1] = lines[i + 1], lines[i]
    elif how == 'move':
      x = lines.pop(i)
      lines.insert(rng.randint(0, len(lines)), x)
    elif how == 'garbage':
      lines.insert(i, rng.choice(('hogehoge\n', 'zooba hoge\n', 'Resigns\n', '1 point\n', '   ??? \n', 'match\n', '---\n', 'Play 1\n')))
    elif how == 'number' and kind(lines[i]) == 'moves':
      n, rest = lines[i].split(')', 1)
      m = int(n) + rng.choice((-2, -1, 1, 2, 10))
      if m >= 0:
        lines[i] = '%3d)' % m + rest
    elif how == 'word':
      # a line that is nearly one of its kind
      k = kind(lines[i])
      old = lines[i].rstrip('\r\n')
      nl = lines[i][len(old):]
      if k == 'players':
        a, b = rng.choice(('ann', 'bob 2', 'c-d')), rng.choice(('eve', 'flo 3', 'g_h'))
        new = rng.choice((' %s : 1', ' %s : 1      %s : x', ' %s,x : 1      %s : 2', ' %s : 1      %s,x : 2', ' %s : 1      %s,y2 : 2', ' %s: 1      %s: 2',
                          ' %s : 1      %s', ' %s : 1      %s 2', ' %s      %s : 2', ' %s : -      %s : 2', ' %s ; 1      %s ; 2', ' %s :      %s : 2'))
        lines[i] = new % ((a, b)[:new.count('%s')]) + nl
      elif k == 'length':
        lines[i] = rng.choice((' x point match', ' 5 points match', ' 5 point', ' point match', ' five point match', ' 7 poimt match')) + nl
      elif k == 'game':
        lines[i] = rng.choice((' Game', ' Game x', ' game 3', ' Gane 3', ' Match 3', ' 3 Game', 'Game: 3')) + nl
      elif k == 'moves':
        lines[i] = rng.choice((old.replace(')', '', 1), old.replace(')', ':', 1), old.replace(')', '.', 1), 'x' + old.lstrip(), 'No ' + old.lstrip())) + nl
      elif k == 'wins':
        lines[i] = rng.choice(('    Win 1 point', '    Wins a point', '    Loses 2 points', '    wins 2 points', '    Wins')) + nl
    elif how == 'shuffle':
      rng.shuffle(lines)
    elif how == 'cut':
      lines = lines[i:]
  return lines


def take(ctx, m, lines, how, rng):
  text = ''.join(lines)
  v = m.Validator()
  try:
    if how == 'feed':
      for line in lines:
        v.feed(line)
      h = v.done()
    else:
      h = v.validate(how == 'file' and StringIO.StringIO(text) or list(lines))
  except ValueError, e:
    return None
  return h.hexdigest()


def source(ctx, rng, i):
  m, files = ctx.env
  if i % 2 and i / 2 < len(files) or rng.random() < 0.1:
    lines = open(files[i / 2 % len(files)], 'rb').readlines()
    ctx.event('records of the repository')
  else:
    lines = made(rng)
    ctx.event('generated records')
  return m, lines


def validate(ctx, rng, i):
  m, lines = source(ctx, rng, i)
  ctx.detail = ''.join(lines[:40])
  want = verdict(lines)
  assert want is True, [(kind(x), x) for x in lines if kind(x) == 'bad'][:3]
  how = rng.choice(('feed', 'file', 'list'))
  got = take(ctx, m, lines, how, rng)
  ctx.equal(got, hashlib.sha1(''.join(lines)).hexdigest(), 'digest', 'digest of a record in order')
  ctx.state(' '.join([kind(x) for x in lines]))
  for _ in range(6):
    bad = spoilt(rng, lines)
    want = verdict(bad)
    ctx.detail = ''.join(bad[:200])
    if want is None:
      ctx.event('spoilt, nothing said')
      continue
    got = take(ctx, m, bad, rng.choice(('feed', 'file', 'list')), rng)
    if want:
      ctx.equal(got, hashlib.sha1(''.join(bad)).hexdigest(), 'digest', 'digest of a record in order')
      ctx.event('changed, in order')
    else:
      ctx.check(got is None, 'accepted', 'a record out of order is accepted')
      ctx.event('refused')
    ctx.state(' '.join([kind(x) for x in bad]))


def limits(ctx, rng, i):
  m, lines = source(ctx, rng, i)
  size = sum(map(len, lines))
  top = rng.choice((size - 1, size + 1, size / 2, size * 2, 1, len(lines[0]) + 1, None, 0, rng.randint(1, 2 * size)))
  ctx.detail = 'limit %r of %r' % (top, size)
  v = m.Validator(max_size=top)
  try:
    h = v.validate(StringIO.StringIO(''.join(lines)))
    got = True
  except ValueError:
    got = False
  if top and size > top:
    ctx.check(not got, 'too-long', 'a record longer than the limit is accepted')
    ctx.event('too long')
  elif not top or size < top:
    ctx.check(got and h.hexdigest() == hashlib.sha1(''.join(lines)).hexdigest(), 'not-too-long', 'a record shorter than the limit is refused')
    ctx.event('within the limit')


def games(ctx, rng, i):
  m, lines = source(ctx, rng, i)
  ctx.detail = ''.join(lines[:40])
  if rng.random() < 0.2:
    lines[-1] = lines[-1].rstrip('\r\n')
  pieces = list(m.chop(''.join(lines)))
  want = []
  for x in lines[1:]:
    if kind(x) == 'game':
      want.append([])
    if kind(x) != 'blank':
      want[-1].append(x)
  ctx.equal(len(pieces), len(want), 'games', 'number of games')
  for p, w in zip(pieces, want):
    got = p.splitlines(True)
    ctx.equal(got[:1], lines[:1], 'length-line', 'first line of a game')
    wins = [x for x in got if kind(x) != 'blank'][1:]
    ctx.equal(wins, w, 'lines', 'lines of a game')
    ctx.check(take(ctx, m, got, 'feed', rng) == hashlib.sha1(p).hexdigest(), 'piece', 'a game cut from a record is a record itself')
    ctx.event('games')
  ctx.state(len(lines))


SCENARIOS = [
    Scenario('validate', validate, 900, 9000, setup=setup, floors={'records of the repository': 250, 'generated records': 400, 'refused': 2000, 'changed, in order': 100}),
    Scenario('limits', limits, 600, 6000, setup=setup, floors={'too long': 150, 'within the limit': 200}),
    Scenario('games', games, 700, 7000, setup=setup, floors={'games': 1500}),
]
