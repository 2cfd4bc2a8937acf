# -*- coding: us-ascii -*-
"""I03 a picture shows what the styled elements say, scaled to the size asked for."""
import glob
import os
import shutil
import tempfile

import bglib.image.css as C
import bglib.image.draw as D
from bglib.image.theme import themata
from bglib.model import constants as K

from harness import Scenario
from ref import picture, sheet, states

RULE = ('a case is a random board, a style sheet (of a bundled theme, alone or followed by random rules of its own) and a random size; the drawing operations '
        'that bglib asks its backend for are recorded and compared with those computed from an independent tree, cascade and geometry: same operations, '
        'and everything after what it lies upon; drawn again and next to other boards and sizes by the same drawer; a state is board, sheet and size')
ASSUMPTIONS = ['style sheets give a font to the board, eyesize to dice and max_count to chequers, as all bundled themes do',
               'the player of the action while a double is pending is free']

FLOORS_OPS = {'image': 2000, 'ellipse': 4000, 'polygon': 4000, 'rect': 2000, 'text': 1500}


class Recorder(D.Draw):
  """the backend: keeps what it is asked for."""
  def load_image(self, uri, size, flip):
    return ('image', uri, flip, tuple(size))

  def paste_image(self, src, position, size):
    assert self.dc is not None
    assert src[0] == 'image' and src[3] == tuple(size), 'image loaded in another size'
    self.dc.append(src[:3] + (tuple(position), tuple(size)))

  def draw_text(self, position, size, text, font_name, fill):
    self.dc.append(('text', tuple(position), tuple(size), text, font_name, fill))

  def draw_ellipse(self, position, size, fill=None):
    self.dc.append(('ellipse', tuple(position), tuple(size), fill))

  def draw_polygon(self, points, fill=None):
    self.dc.append(('polygon', tuple(sorted([tuple(p) for p in points])), fill))

  def draw_rect(self, position, size, fill=None):
    self.dc.append(('rect', tuple(position), tuple(size), fill))


def tidy(ops):
  """operations, equal ellipses side by side in any order."""
  r, run = [], []
  for op in ops:
    if op[0] == 'polygon':
      op = (op[0], tuple(sorted(op[1])), op[2])
    if op[0] == 'ellipse' and (not run or run[-1][2:] == op[2:]):
      run.append(op)
      continue
    r += sorted(run)
    run = []
    if op[0] == 'ellipse':
      run = [op]
    else:
      r.append(op)
  return r + sorted(run)


def difference(got, want):
  for n, (a, b) in enumerate(zip(got, want)):
    if a != b:
      return 'operation %d is %r, expected %r' % (n, a, b)
  if len(got) != len(want):
    n = min(len(got), len(want))
    return '%d operations, expected %d: %r, expected %r' % (len(got), len(want), got[n:n + 1], want[n:n + 1])


def setup():
  d = tempfile.mkdtemp('bgdraw')
  themes = sorted(glob.glob(os.path.join(themata, '*', 'default.css')))
  assert len(themes) >= 8
  env = dict(dir=d, themes=themes, loaded={}, rules={}, drawers={})
  for t in themes:
    env['loaded'][t] = C.load(t)
    env['rules'][t] = picture.read(t)
    env['drawers'][t] = Recorder(env['loaded'][t])
  return env


def size_of(rng):
  k = rng.random()
  if k < 0.25:
    return rng.choice(((400, 300), (341, 262), (341, 232), (400, 400), (640, 480), (1000, 800), (200, 100), (100, 400)))
  if k < 0.85:
    return (rng.randint(40, 1200), rng.randint(40, 1200))
  return (rng.randint(1, 60), rng.randint(1, 60))


def reference(b, rules, size, player):
  top = picture.style(with_player(picture.tree(b, K.CENTER), player), rules)
  return tidy(picture.drawing(top, size)), top


def with_player(top, player):
  if player is not None:
    for n in top.walk():
      if n.name == 'action' and 'take or drop' in n.texts[0]:
        n.own['player'] = player
  return top


def drawn(ctx, drawer, b, rules, size, what):
  got = tidy(drawer.draw(b, size))
  for player in (None, 'you', 'him'):
    want, top = reference(b, rules, size, player)
    d = difference(got, want)
    if d is None:
      break
    if not b.doubled:
      break
  ctx.check(d is None, 'drawing', lambda: '%s at %r: %s' % (what, size, d))
  ctx.check(drawer.dc is None, 'dc', lambda: '%s: drawing is not over' % what)
  for op in want:
    ctx.event(op[0])
  return got, top


def fresh_sheet(ctx, rng, i, theme):
  """a theme with rules of its own"""
  path = os.path.join(os.path.dirname(theme), 'bg%d.css' % i)
  rules = list(ctx.env['rules'][theme])
  lines = [l.rstrip('\r\n') for l in open(theme).readlines()]
  names = None
  for _ in range(rng.choice((1, 3, 10))):
    element = rng.choice([e for e in picture.DTD if e not in ('match', 'position')])
    r = sheet.rule(rng, theme, len(lines) + 1, element)
    if element == 'board':
      r.block.pop('font', None)
      for n in ('width', 'height'):
        if n in r.block:
          r.block[n] = str(rng.choice((88, 200, 341, 1000)))
    lines.append(sheet.write(rng, r))
    rules.append(r)
  path = os.path.join(ctx.env['dir'], 'x.css')
  f = open(path, 'wb')
  f.write('\n'.join(lines) + '\n')
  f.close()
  dir = os.path.dirname(path)
  return path, [picture.Rule(path, r.line, r.selectors, r.block) for r in rules], '\n'.join(lines[-10:])


def themes(ctx, rng, i):
  theme = ctx.env['themes'][i % len(ctx.env['themes'])]
  drawer = ctx.env['drawers'][theme]
  rules = ctx.env['rules'][theme]
  kind, b = states.state(rng)
  size = size_of(rng)
  ctx.detail = '%s %r %r' % (theme, size, b)
  what = os.path.basename(os.path.dirname(theme))
  got, top = drawn(ctx, drawer, b, rules, size, what)
  ctx.event('pictures')
  ctx.event('theme ' + what)
  ctx.state(ctx.detail)
  if rng.random() < 0.4:
    for _ in range(rng.randint(0, 2)):
      k, other = states.state(rng)
      drawn(ctx, drawer, other, rules, size_of(rng), what)
    ctx.equal(tidy(drawer.draw(b, size)), got, 'again', 'drawn again')
    ctx.event('drawn again')
  # all of it inside of the picture, when no coordinate is beyond the board
  bw, bh = [int(top.get(n) * min(float(size[0]) / top.get('width'), float(size[1]) / top.get('height'))) for n in ('width', 'height')]
  ctx.check(bw <= size[0] and bh <= size[1], 'larger', lambda: 'board of %r in %r' % ((bw, bh), size))
  if i < 1:
    ctx.sample(repr(got[:8]))


def dice(ctx, rng, i):
  """dots of a die: as many as it shows, inside of it, symmetric."""
  from bglib.model import Board
  theme = rng.choice([t for t in ctx.env['themes'] if os.path.basename(os.path.dirname(t)) in ('minimal', 'deutsche', 'nature', 'matrix', 'neon')])
  who = rng.choice((K.YOU, K.HIM))
  roll = (rng.randint(1, 6), rng.randint(1, 6))
  eye, w, h = rng.choice((2, 3, 4, 6, 8)), rng.randint(16, 60), rng.randint(16, 60)
  path = os.path.join(ctx.env['dir'], 'd.css')
  f = open(path, 'wb')
  f.write('board {x: 0; y: 0; width: 200; height: 200; font: uri("a.ttf")}\nmatch {x: 0}\n'
          'die {color: red; background: white; eyesize: %d; width: %d; height: %d; y: 50}\ndie[id=left] {x: 20}\ndie[id=right] {x: 110}\n' % (eye, w, h))
  f.close()
  mag = rng.choice((1, 1, 2, 3, 5))
  size = (200 * mag, 200 * mag)
  b = Board(game_state=K.ON_GOING, on_action=who, on_inner_action=who, rolled=roll)
  ops = Recorder(C.load(path)).draw(b, size)
  for x, n in ((110, roll[0]), (20, roll[1])):
    x0, y0, x1, y1 = x * mag, 50 * mag, (x + w) * mag, (50 + h) * mag
    mine = [o for o in ops if o[0] == 'ellipse' and x0 <= o[1][0] < x1 and y0 <= o[1][1] < y1]
    ctx.equal(len(mine), n, 'dots', 'dots of a die that shows %d' % n)
    for o in mine:
      ctx.check(o[1][0] + o[2][0] <= x1 and o[1][1] + o[2][1] <= y1, 'dot-outside', lambda: 'dot %r of a die at %r' % (o, (x0, y0, x1, y1)))
      ctx.check(o[3] == 'red' and o[2] == (eye * mag, eye * mag), 'dot', lambda: 'dot %r' % (o,))
    # point symmetric, up to rounding
    for o in mine:
      cx, cy = x0 + x1 - o[1][0] - o[2][0], y0 + y1 - o[1][1] - o[2][1]
      ctx.check([p for p in mine if abs(p[1][0] - cx) <= 2 and abs(p[1][1] - cy) <= 2], 'dots-symmetric', lambda: 'no dot opposite of %r among %r' % (o, mine))
    ctx.check(len(set([o[1] for o in mine])) == n, 'dots-same', lambda: 'dots %r' % mine)
    ctx.event('dice')
  ctx.equal(len([o for o in ops if o[0] == 'ellipse']), sum(roll), 'dots-all', 'dots of %r' % (roll,))


def sheets(ctx, rng, i):
  theme = rng.choice(ctx.env['themes'])
  path, rules, last = fresh_sheet(ctx, rng, i, theme)
  drawer = Recorder(C.load(path))
  ctx.detail = last
  for _ in range(2):
    kind, b = states.state(rng)
    size = size_of(rng)
    drawn(ctx, drawer, b, rules, size, 'sheet %r' % last)
    ctx.event('pictures of sheets')
    ctx.state('%s %r %r' % (last, size, b))


SCENARIOS = [
    Scenario('themes', themes, 640, 30000, setup=setup, floors=dict(FLOORS_OPS, **{'pictures': 600, 'drawn again': 150})),
    Scenario('sheets', sheets, 400, 16000, setup=setup, floors={'pictures of sheets': 700}),
    Scenario('dice', dice, 400, 8000, setup=setup, floors={'dice': 700}),
]
