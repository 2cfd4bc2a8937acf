# -*- coding: us-ascii -*-
"""I04 the PIL backend makes each operation real, and every bundled theme draws every board."""
import glob
import imp
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fakepil'))
import Image
import ImageDraw
import ImageFont

import bglib.image.PIL
import bglib.image.css as C
from bglib.image.theme import themata
from bglib.model import constants as K

from harness import Scenario
from ref import picture, states

RULE = ('a case is a random board drawn by the drawer of a bundled theme at a random size, with stand-ins for PIL that keep all operations; they are compared with '
        'those an independent account of the board, its style and the geometry gives: files as they are in the theme, flipped, in the size asked for, '
        'pasted at their place through their mask, texts in the largest font that fits, in the middle; a state is theme, size and board')
ASSUMPTIONS = ['PIL is not installed here: stand-ins record the calls, with a made-up but growing size of letters']


def setup():
  env = {}
  for path in sorted(glob.glob(os.path.join(themata, '*.py'))):
    name = os.path.splitext(os.path.basename(path))[0]
    css = os.path.join(themata, name, 'default.css')
    if os.path.isfile(css):
      m = imp.load_source('bgtheme_' + name, path)
      assert isinstance(m.draw, bglib.image.PIL.Draw)
      env[name] = (m, picture.read(css))
  assert len(env) >= 8
  return env


def font_of(name, size, text):
  """the largest size of a font that fits, from the height down to 8"""
  n = size[1]
  while True:
    w, h = ImageFont.measure(name, n, text)
    if w < size[0] and h < size[1]:
      return n, w, h
    n -= 1
    if n < 8:
      return None, w, h


def expected(ops):
  r = []
  for op in ops:
    if op[0] == 'image':
      uri, flip, (x, y), size = op[1:]
      h = (('open', uri),)
      if flip:
        h += (('transpose', Image.FLIP_TOP_BOTTOM),)
      h += (('resize', size),)
      r.append(('image', h, (x, y), size, uri.endswith('.png') and h or None))
    elif op[0] == 'rect':
      (x, y), (w, h), fill = op[1:]
      r.append(('rect', (x, y, x + w - 1, y + h - 1), fill, None))
    elif op[0] == 'ellipse':
      (x, y), (w, h), fill = op[1:]
      r.append(('ellipse', (x, y, x + w, y + h), fill, None))
    elif op[0] == 'polygon':
      r.append(('polygon', tuple(sorted(op[1])), op[2], None))
    elif op[0] == 'text':
      (x, y), size, text, font, fill = op[1:]
      n, w, h = font_of(font, size, text)
      if n is not None:
        r.append(('text', (x + (size[0] - w) / 2, y + (size[1] - h) / 2), text, font, n, fill))
  return r


def tidy(ops):
  """the same, ellipses of a colour and size that follow one another in any order"""
  def kind(o):
    x0, y0, x1, y1 = o[1]
    return (x1 - x0, y1 - y0) + o[2:]
  r, run = [], []
  for o in ops:
    if o[0] == 'polygon':
      o = ('polygon', tuple(sorted(o[1]))) + o[2:]
    if o[0] == 'ellipse' and (not run or kind(run[-1]) == kind(o)):
      run.append(o)
      continue
    r += sorted(run)
    run = []
    if o[0] == 'ellipse':
      run = [o]
    else:
      r.append(o)
  return r + sorted(run)


def first(got, want):
  for n, (a, b) in enumerate(zip(got, want)):
    if a != b:
      return 'operation %d is %r, expected %r' % (n, a, b)
  if len(got) != len(want):
    n = min(len(got), len(want))
    return '%d operations, expected %d: %r, expected %r' % (len(got), len(want), got[n:n + 1], want[n:n + 1])


def one(ctx, name, drawer, rules, b, size):
  alternatives = []
  for player in (None, 'you', 'him'):
    if player is not None and not b.doubled:
      continue
    top = picture.tree(b, K.CENTER)
    for n in top.walk():
      if player is not None and n.name == 'action' and 'take or drop' in n.texts[0]:
        n.own['player'] = player
    alternatives.append(picture.drawing(picture.style(top, rules), size))
  image = drawer.draw(b, size)
  got = tidy(image.ops)
  for ops in alternatives:
    d = first(got, tidy(expected(ops)))
    if d is None:
      break
  ctx.check(d is None, 'picture', lambda: '%s at %r: %s' % (name, size, d))
  ctx.equal((image.mode, image.size), ('RGBA', tuple(size)), 'image', 'mode and size of the picture')
  for o in got:
    ctx.event(o[0])
  return image


def pictures(ctx, rng, i):
  names = sorted(ctx.env)
  name = names[i % len(names)]
  m, rules = ctx.env[name]
  drawer = m.draw
  kind, b = states.state(rng)
  size = (rng.randint(60, 1000), rng.randint(60, 1000))
  if rng.random() < 0.4:
    size = rng.choice(((400, 300), (341, 262), (400, 400), (640, 480), (200, 150)))
  ctx.detail = '%s %r %r' % (name, size, b)
  image = one(ctx, name, drawer, rules, b, size)
  ctx.event('pictures')
  ctx.event('theme ' + name)
  ctx.state(ctx.detail)
  if rng.random() < 0.3:
    kind, other = states.state(rng)
    one(ctx, name, drawer, rules, other, rng.choice((size, (size[1], size[0]), (300, 200))))
    before = list(image.ops)
    again = drawer.draw(b, size)
    ctx.check(again is not image, 'same-image', 'the same image is given twice')
    ctx.equal(tidy(again.ops), tidy(image.ops), 'again', 'drawn again')
    ctx.equal(image.ops, before, 'drawn-over', 'picture given before')
    ctx.event('drawn again')
  if rng.random() < 0.1:
    fresh = bglib.image.PIL.Draw(m.css)
    ctx.equal(tidy(fresh.draw(b, size).ops), tidy(image.ops), 'cache', 'drawn by a new drawer')
    ctx.event('drawn by a new drawer')


def texts(ctx, rng, i):
  """texts in boxes of any size."""
  d = bglib.image.PIL.Draw(None)
  fonts = glob.glob(os.path.join(themata, '*', '*.ttf'))
  d.create_dc((500, 500))
  want = []
  for _ in range(rng.randint(1, 6)):
    pos = (rng.randint(-5, 400), rng.randint(-5, 400))
    size = (rng.randint(1, 120), rng.randint(1, rng.choice((12, 60))))
    font = rng.choice(fonts)
    text = ''.join([rng.choice('0123456789abcXYZ *.') for _ in range(rng.randint(1, rng.choice((2, 20))))])
    fill = rng.choice(('white', '#123456'))
    d.draw_text(rng.choice((pos, list(pos))), rng.choice((size, list(size))), text, font, fill)
    new = expected([('text', pos, size, text, font, fill)])
    want += new
    ctx.event(new and 'text written' or 'text too large')
    for o in new:
      w, h = ImageFont.measure(font, o[4], text)
      ctx.check(w < size[0] and h < size[1], 'fits', 'text fits')
  got = d.result_from_dc().ops
  ctx.check(got == want, 'text', lambda: 'texts %r, expected %r' % (got, want))
  ctx.state(repr(want))


def files(ctx, rng, i):
  """what the style of a bundled theme names is there."""
  if i >= len(ctx.env):
    return
  name, uri = ctx.env[i]
  here = os.path.join(themata, name)
  ctx.check(os.path.isfile(uri), 'file-missing:%s/%s' % (name, os.path.relpath(uri, here)), 'theme %s names %s, which is not there' % (name, os.path.relpath(uri, here)))
  ctx.event('files looked for')
  ctx.state(uri)


def named():
  """theme and file of every uri of every bundled style."""
  r = set()
  for path in glob.glob(os.path.join(themata, '*', 'default.css')):
    for rule in picture.read(path):
      for text in rule.block.values():
        if text.startswith('uri('):
          r.add((os.path.basename(os.path.dirname(path)), picture.value(picture.URI, text, path)))
  return sorted(r)


SCENARIOS = [
    Scenario('files', files, 400, 400, setup=named, exhaustive=True, floors={'files looked for': 150}),
    Scenario('pictures', pictures, 480, 20000, setup=setup, floors={'pictures': 400, 'drawn again': 70, 'image': 3000, 'ellipse': 3000, 'polygon': 3000, 'text': 500}),
    Scenario('texts', texts, 800, 40000, floors={'text written': 700, 'text too large': 300}),
]
