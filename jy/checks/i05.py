# -*- coding: us-ascii -*-
"""I05 elements hold what their type lists, and refuse anything else without a trace."""
import sys

import bglib.image.base as B

from harness import Scenario, caught
from checks.i02 import parse, invalid
from ref import picture

RULE = ('a case is a series of random operations on a few trees of elements (made with attributes, appended to each other, texts appended, attributes set and applied as '
        'style sheets do, allowed and not), and a shadow of them; after every operation the elements involved, and at the end all, are compared in structure and in every attribute, '
        'own, inherited or default, and as XML; pairs of elements are enumerated for appending and for the document type; a state is the shadow of a tree')
ASSUMPTIONS = ['elements are appended once, to one place', 'values given to the constructor are of their type', 'whether a bool passes for a number is free']

MISSING = picture.MISSING
NAMES = sorted(picture.DTD)
ENUM = dict(player=('you', 'him'), parity=('even', 'odd'), diestyle=('dot', 'numeric'))
WORDS = ('red', '#00ff00', 'a b', '', '<&>', '"x"', 'None', '0')


class S(object):
  """shadow of an element"""
  def __init__(self, name, own):
    self.name, self.own = name, dict(own)
    self.kids = []
    self.parent = None

  def top(self):
    n = self
    while n.parent:
      n = n.parent
    return n

  def get(self, name):
    if name in self.own:
      return self.own[name]
    kind, inherited, default = picture.DTD[self.name][name]
    if inherited and self.parent is not None and name in picture.DTD[self.parent.name]:
      return self.parent.get(name)
    return default

  def walk(self):
    yield self
    for k in self.kids:
      if isinstance(k, S):
        for n in k.walk():
          yield n


def good(rng, name, kind):
  if name in ENUM:
    return rng.choice(ENUM[name])
  if kind == picture.INT:
    return rng.choice((0, 1, -3, 12, 99999, rng.randint(-1000, 1000)))
  if kind == picture.FLOAT:
    return rng.choice((0.5, 1.0, 2.25, -0.125))
  if kind == picture.BOOL:
    return rng.choice((True, False))
  return rng.choice(WORDS)


def bad(rng, name, kind):
  """a value of another type, or not one of those listed"""
  out = [None, (1, 2), [], object()]
  if kind != picture.INT:
    out += [3, 0]
  if kind not in (picture.FLOAT,):
    out += [1.5]
  if kind in (picture.INT, picture.FLOAT, picture.BOOL):
    out += ['7', '', 'True']
  if name in ENUM:
    out += ['', 'x', ENUM[name][0].upper(), ' ' + ENUM[name][1], ''.join(ENUM[name])]
  return rng.choice(out)


def written(rng, name, kind, css):
  """what a style sheet says, and what it means"""
  v = good(rng, name, kind)
  if kind == picture.URI:
    return '"pic/x%d.png"' % (abs(hash(v)) % 9), css.rsplit('/', 1)[0] + '/pic/x%d.png' % (abs(hash(v)) % 9)
  if kind == picture.BOOL:
    return rng.choice(v and ('True', 'true', '1', ' True ') or ('False', 'false', '0', '')), v
  return str(v), v


def value(e, name):
  try:
    return getattr(e, name)
  except AttributeError:
    return MISSING


def refused(ctx, what, kinds, f, *args, **kw):
  ctx.evaluations += 1
  try:
    f(*args, **kw)
  except kinds:
    ctx.event('refused')
    return
  except Exception, e:
    ctx.check(False, 'refused-with', lambda: '%s: refused with %r' % (what, e))
    return
  ctx.check(False, 'accepted', '%s: not refused' % what)


def structure(ctx, n, e, what):
  if not ctx.check(e.name == n.name and len(e.children) == len(n.kids), 'children', lambda: '%s: children of %s are %r, expected %r' % (what, n.name, e.children, n.kids)):
    return
  for k, c in zip(n.kids, e.children):
    if isinstance(k, S):
      if not ctx.check(c is k.element, 'child', lambda: '%s: a child of %s is %r, expected %s' % (what, n.name, c, k.name)):
        return
    else:
      ctx.check(c == k and type(c) is str, 'text', lambda: '%s: a text of %s is %r, expected %r' % (what, n.name, c, k))
  p = n.parent and n.parent.element
  ctx.check(e.parent is p, 'parent', lambda: '%s: parent of %s is %r, expected %r' % (what, n.name, e.parent, p))


def values(ctx, n, e, what):
  for name in picture.DTD[n.name]:
    want = n.get(name)
    got = value(e, name)
    ctx.evaluations += 1
    if not (got == want and type(got) == type(want)):
      ctx.check(False, 'value', lambda: '%s: %s of %s is %r, expected %r' % (what, name, n.name, got, want))
    if hasattr(e, name) != (want is not MISSING):
      ctx.check(False, 'has', lambda: '%s: %s of %s, hasattr is %r' % (what, name, n.name, want is MISSING))
    if want is not MISSING and name not in n.own and want != picture.DTD[n.name][name][2]:
      ctx.event('inherited')
  own = dict([(k, v.get()) for k, v in e.attributes.items()])
  ctx.check(own == n.own, 'own', lambda: '%s: attributes of %s are %r, expected %r' % (what, n.name, own, n.own))


def xml(n):
  """as parse gives it"""
  texts = ' '.join([k for k in n.kids if not isinstance(k, S)])
  # line ends and tabs in attributes do not occur
  return (n.name, dict([(k, str(v)) for k, v in n.own.items()]), ' '.join(texts.split()), [xml(k) for k in n.kids if isinstance(k, S)])


def make(ctx, rng, pool):
  name = rng.choice(NAMES)
  own = {}
  for a in rng.sample(sorted(picture.DTD[name]), rng.choice((0, 0, 1, 3))):
    own[a] = good(rng, a, picture.DTD[name][a][0])
  n = S(name, own)
  n.element = B.Element(name, **own)
  pool.append(n)
  return n


def histories(ctx, rng, i):
  pool = []
  log = []
  for _ in range(4):
    make(ctx, rng, pool)
  for step in range(rng.choice((10, 40, 120))):
    r = rng.random()
    n = rng.choice(pool)
    e = n.element
    dtd = picture.DTD[n.name]
    ctx.detail = '; '.join(log[-12:])
    touched = [n]
    if r < 0.1:
      n = make(ctx, rng, pool)
      touched = [n]
      what = 'made %s %r' % (n.name, n.own)
    elif r < 0.35:
      roots = [m for m in pool if m.parent is None and m is not n.top()]
      m = rng.choice(roots + [S(rng.choice(NAMES), {})])
      if rng.random() < 0.6:
        some = [x for x in roots if x.name in picture.HOLDS.get(n.name, ())]
        if some:
          m = rng.choice(some)
        elif n.name in picture.HOLDS:
          m = S(rng.choice(picture.HOLDS[n.name]), {})
      if not hasattr(m, 'element'):
        m.element = B.Element(m.name)
        pool.append(m)
      what = 'append %s to %s' % (m.name, n.name)
      touched.append(m)
      if m.name in picture.HOLDS.get(n.name, ()):
        try:
          e.append(m.element)
        except Exception:
          caught(ctx, what)
          return
        n.kids.append(m)
        m.parent = n
        ctx.event('appended')
      else:
        refused(ctx, what, TypeError, e.append, m.element)
    elif r < 0.5:
      t = rng.choice(('1', '15', 'you to move.', 'a', '', '<b>', 'x & y'))
      what = 'append text %r to %s' % (t, n.name)
      if n.name in ('board', 'match', 'position'):
        refused(ctx, what, TypeError, e.append, t)
      else:
        e.append(t)
        n.kids.append(t)
        ctx.event('texts')
    elif r < 0.55:
      thing = rng.choice((3, None, u'x', ['a'], B.Board, 1.5))
      what = 'append %r to %s' % (thing, n.name)
      refused(ctx, what, (TypeError, AssertionError), e.append, thing)
    elif r < 0.75:
      a = rng.choice(sorted(dtd))
      if rng.random() < 0.3:
        a = rng.choice(('x', 'mag', 'flip', 'font', 'width'))
      v = good(rng, a, dtd[a][0])
      what = 'set %s of %s to %r' % (a, n.name, v)
      setattr(e, a, v)
      n.own[a] = v
      ctx.event('set')
      touched += [m for m in n.walk()]
    elif r < 0.85:
      a = rng.choice(sorted(dtd))
      v = bad(rng, a, dtd[a][0])
      what = 'set %s of %s to %r' % (a, n.name, v)
      refused(ctx, what, TypeError, setattr, e, a, v)
      ctx.event('bad values')
    elif r < 0.93:
      css = '/some/%s/x.css' % rng.choice('ab')
      d, want = {}, {}
      for a in rng.sample(sorted(dtd), rng.choice((1, 2, 4))):
        d[a], want[a] = written(rng, a, dtd[a][0], css)
      what = 'apply %r to %s' % (d, n.name)
      e.apply(css, d)
      n.own.update(want)
      ctx.event('applied')
      touched += [m for m in n.walk()]
    elif r < 0.97:
      ints = [a for a in sorted(dtd) if dtd[a][0] in (picture.INT, picture.FLOAT)]
      if rng.random() < 0.5:
        a = rng.choice(ints)
        v = rng.choice(('', 'x', '1 2', '0x', '--1', 'None'))
        kinds = ValueError
      else:
        enum = [a for a in sorted(dtd) if a in ENUM]
        if enum:
          a = rng.choice(enum)
          v = rng.choice(('', 'x', 'You'))
          kinds = TypeError
        else:
          a, v, kinds = 'x', '1.5.2', ValueError
      what = 'apply %s: %r to %s' % (a, v, n.name)
      refused(ctx, what, kinds, e.apply, '/some/x.css', {a: v})
    else:
      others = [a for a in ('colour', 'eyesize', 'parity', 'text', 'initialCube', 'max_count', 'X', '') if a not in dtd]
      a = rng.choice(others)
      what = 'apply %s to %s' % (a, n.name)
      refused(ctx, what, KeyError, e.apply, '/some/x.css', {a: '1'})
      if a:
        ctx.check(not hasattr(e, a), 'unknown', lambda: '%s has %s' % (n.name, a))
      ctx.event('unknown attributes')
    log.append(what)
    for m in touched[:6]:
      structure(ctx, m, m.element, what)
      values(ctx, m, m.element, what)
    ctx.event('operations')
  what = 'at the end'
  for n in pool:
    structure(ctx, n, n.element, what)
    values(ctx, n, n.element, what)
    if n.parent is None:
      text = n.element.format(rng.choice((0, 2)))
      try:
        got = parse(text)
      except Exception, x:
        ctx.check(False, 'xml', lambda: '%r: %r' % (x, text))
        continue
      ctx.check(got == xml(n), 'xml-tree', lambda: '%r is read as %r, expected %r' % (text, got, xml(n)))
      visits(ctx, n)
      ctx.state(repr(xml(n)))
  ctx.event('histories')


def visits(ctx, n):
  seen = []
  def callback(path, *args, **kw):
    seen.append(path[-1])
    ctx.check(path[0] is n.element and args == ('x', 3) and kw == dict(key='y'), 'visit-args', lambda: 'visited with %r, %r, %r' % (path, args, kw))
    for a, b in zip(path, path[1:]):
      ctx.check(b.parent is a, 'visit-path', lambda: 'path %r' % [p.name for p in path])
  t = B.ElementTree()
  t.visit(callback, [n.element], 'x', 3, key='y')
  want = [m.element for m in n.walk()]
  ctx.check(len(seen) == len(want) and not [1 for a, b in zip(seen, want) if a is not b], 'visited', lambda: 'visited %r, expected %r' % ([e.name for e in seen], [e.name for e in want]))
  ctx.event('visits')


def pairs(ctx, rng, i):
  """which element may be in which: append and document type say the same"""
  a, b = NAMES[i // len(NAMES)], NAMES[i % len(NAMES)]
  ctx.detail = '%s in %s' % (b, a)
  allowed = b in picture.HOLDS.get(a, ())
  p, c = B.Element(a), B.Element(b)
  ctx.check(p.name == a and c.name == b and p is not B.Element(a) and p.children == [] and p.parent is None, 'made', 'Element(%r) is %r' % (a, p))
  if allowed:
    p.append(c)
    ctx.check(p.children == [c] and c.parent is p, 'append', '%s is not in %s' % (b, a))
    ctx.event('allowed pairs')
  else:
    refused(ctx, ctx.detail, TypeError, p.append, c)
    ctx.check(p.children == [] and c.parent is None, 'append', 'after a refusal %s is in %s' % (b, a))
    ctx.event('other pairs')
  # document type
  text = '<?xml version="1.0"?>\n<!DOCTYPE %s SYSTEM "http://dtd.wxpygammon.org/backgammon.dtd">\n<%s><%s></%s></%s>' % (a, a, b, b, a)
  found = invalid(text)
  ctx.check(bool(found) != allowed, 'dtd', lambda: '%s: the validating parser says %r' % (ctx.detail, found[:2]))
  if b == NAMES[0]:
    text = '<?xml version="1.0"?>\n<!DOCTYPE %s SYSTEM "http://dtd.wxpygammon.org/backgammon.dtd">\n<%s>5</%s>' % (a, a, a)
    texts = a not in ('board', 'match', 'position')
    ctx.check(bool(invalid(text)) != texts, 'dtd-text', lambda: 'text in %s: %r' % (a, invalid(text)[:2]))
    for name in sorted(set(sum([list(picture.DTD[k]) for k in NAMES], []))) + ['foo']:
      text = '<?xml version="1.0"?>\n<!DOCTYPE %s SYSTEM "http://dtd.wxpygammon.org/backgammon.dtd">\n<%s %s="1"></%s>' % (a, a, name, a)
      known = name in picture.DTD[a]
      ctx.check(bool(invalid(text)) != known, 'dtd-attribute', lambda: '%s of %s: %r' % (name, a, invalid(text)[:2]))
      ctx.event('attributes in the document type')
  ctx.state((a, b))


SCENARIOS = [
    Scenario('histories', histories, 600, 12000, floors={'histories': 500, 'appended': 2000, 'refused': 3000, 'bad values': 1000, 'unknown attributes': 400, 'inherited': 3000, 'applied': 1000}),
    Scenario('pairs', pairs, len(NAMES) ** 2, len(NAMES) ** 2, exhaustive=True, floors={'allowed pairs': 20, 'other pairs': 250}),
]
