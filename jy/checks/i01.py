# -*- coding: us-ascii -*-
"""I01 style sheets give every element exactly what the rules that match it say."""
import os
import shutil
import tempfile

import bglib.image.base as B
import bglib.image.css as C
from bglib.model import constants as K

from harness import Scenario
from ref import picture, sheet, states
from checks.i02 import of_tree

RULE = ('a case is a random style sheet, written to a file and read back by bglib, and the '
        'tree of a random board; after applying it, every attribute of every element (own, '
        'inherited or default) and the lines of the rules applied are compared with an '
        'independent cascade; also rules one by one, and trees styled twice; a state is the text of the style sheet')
ASSUMPTIONS = ['one rule a line; values without spaces, as the documents of bglib.image.css tell']


def setup():
  d = tempfile.mkdtemp('bgcss')
  return d


def pairs(node, element):
  """the reference's node with bglib's element, all the way down"""
  yield node, element
  kids = [c for c in element.children if isinstance(c, B.BaseElement)]
  assert len(kids) == len(node.kids)
  left = list(kids)
  for k in node.kids:
    for c in left:
      own = dict([(n, v.get()) for n, v in c.attributes.items() if n in ('player', 'id')])
      mine = dict([(n, k.own[n]) for n in ('player', 'id') if n in k.own])
      if c.name == 'action':
        own.pop('player', None)
        mine.pop('player', None)
      if c.name == k.name and own == mine and [t for t in c.children if not isinstance(t, B.BaseElement)] == k.texts:
        left.remove(c)
        for p in pairs(k, c):
          yield p
        break
    else:
      raise AssertionError('no %s' % k.key())


def value(e, name):
  try:
    return getattr(e, name)
  except AttributeError:
    return picture.MISSING


def compare(ctx, found, text, lines=True):
  """found: pairs made before the style sheet was applied."""
  n = 0
  for node, e in found:
    for name in picture.DTD[node.name]:
      want = node.get(name)
      got = value(e, name)
      n += 1
      if not (got == want and type(got) == type(want)):
        ctx.check(False, 'value', lambda: '%s of %s is %r, expected %r; style sheet %r' % (name, node.key(), got, want, text))
        return
    own = dict([(k, v.get()) for k, v in e.attributes.items()])
    if not ctx.check(own == node.own, 'own', lambda: 'attributes of %s are %r, expected %r; style sheet %r' % (node.key(), own, node.own, text)):
      return
    if lines and not ctx.check(list(e.css_lineno) == node.lines, 'lines', lambda: 'lines applied to %s: %r, expected %r; style sheet %r' % (node.key(), e.css_lineno, node.lines, text)):
      return
    ctx.event('matches', len(node.lines))
  ctx.evaluations += n
  ctx.event('values', n)


def fresh(b):
  t = B.ElementTree(b)
  top = picture.tree(b, K.CENTER)
  found = list(pairs(top, t.board))
  for node, e in found:
    if e.name == 'action':
      node.own['player'] = e.player # free while a double is pending
  return t, top, found


def sheets(ctx, rng, i):
  kind, b = states.state(rng)
  d = os.path.join(ctx.env, rng.choice(('a', 'b', 'c d')))
  if not os.path.isdir(d):
    os.mkdir(d)
  if rng.random() < 0.25:
    # by a name relative to the current directory
    os.chdir(rng.choice((d, ctx.env)))
    d = os.path.relpath(d)
    if d == '.':
      d = rng.choice(('', '.'))
    ctx.event('relative names')
  path = os.path.join(d, 'x%d.css' % (i % 7))
  text, rules = sheet.sheet(rng, path, rng.choice((1, 3, 10, 40)))
  ctx.detail = (text, repr(b))
  f = open(path, 'wb')
  f.write(text)
  f.close()
  t, top, found = fresh(b)
  if rng.random() < 0.7:
    C.load(path).apply(t)
  else:
    t.css(path)
  picture.style(top, rules)
  compare(ctx, found, text)
  ctx.event('sheets')
  ctx.state(text)
  if i < 1:
    ctx.sample(text)
  if rng.random() < 0.3:
    # one more sheet on top
    other = os.path.join(ctx.env, 'y.css')
    text2, rules2 = sheet.sheet(rng, other, 5)
    f = open(other, 'wb')
    f.write(text2)
    f.close()
    C.load(other).apply(t)
    picture.style(top, rules2)
    compare(ctx, found, text + ' then ' + text2)
    ctx.event('second sheets')
  if rng.random() < 0.3:
    # the same sheet for another board, loaded once
    binder = C.load(path)
    for _ in range(2):
      kind, b = states.state(rng)
      t, top, found = fresh(b)
      binder.apply(t)
      picture.style(top, rules)
      compare(ctx, found, text)
      ctx.event('sheet used again')


def single(ctx, rng, i):
  """one rule, all elements: matched exactly where it says."""
  kind, b = states.state(rng)
  path = '/some/dir/x.css'
  r = sheet.rule(rng, path, rng.randint(1, 999))
  text = sheet.write(rng, r)
  ctx.detail = text
  got = C.CSSParser().rule(path, r.line, text)
  if not ctx.check(got is not None, 'no-rule', lambda: '%r is no rule' % text):
    return
  ctx.equal((got.lineno, got.css_path, got.block), (r.line, path, r.block), 'parsed', 'rule of %r' % text)
  ctx.equal([(s.element, s.name and (s.name, s.value) or None, s.data) for s in got.pattern], r.selectors, 'parsed-selectors', 'selectors of %r' % text)
  t, top, found = fresh(b)
  if rng.random() < 0.5:
    # more texts, behind what an element has
    said = [x[2] for x in r.selectors if x[2]] or ['1']
    for n, e in found:
      if '#PCDATA' in e.DTD_ELEMENT and rng.random() < 0.4:
        more = rng.choice(said + ['7', 'x'])
        e.append(more)
        n.texts.append(more)
    ctx.event('more texts')
  where = dict([(id(e), n) for n, e in found])
  hits = []
  def visit(p):
    n = where[id(p[-1])]
    want = picture.matches(n, r)
    ctx.check(bool(got.is_match(p)) == want, 'is-match', lambda: '%r on %s: %r, expected %r' % (text, n.key(), not want, want))
    hits.append(want)
  t.visit(visit)
  ctx.event('rule matches', sum(hits))
  ctx.event('rule misses', len(hits) - sum(hits))
  ctx.state(text)
  for line in sheet.NOISE:
    ctx.check(C.CSSParser().rule(path, 1, line) is None, 'noise', lambda: '%r is no rule' % line)


SCENARIOS = [
    Scenario('sheets', sheets, 500, 20000, setup=setup, floors={'sheets': 450, 'relative names': 60, 'matches': 10000, 'values': 100000}),
    Scenario('single', single, 1000, 40000, floors={'rule matches': 800, 'rule misses': 10000, 'more texts': 400}),
]
