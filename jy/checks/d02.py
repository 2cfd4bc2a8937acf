# -*- coding: us-ascii -*-
"""D02 well-nested wiki text renders to the structure it describes."""
from harness import Scenario
from ref import wikidoc, xhtml

import bglib.doc.bgwiki as W

RULE = ('a case is a document generated from a grammar together with the tree it '
        'means (paragraphs, headings, lists, tables, quotes, definitions, '
        'citations, preformatted text; nested emphasis, links, escapes and '
        'hostile texts inside); the rendering is read by an XML parser and '
        'compared with that tree word by word; a state is the text')
ASSUMPTIONS = ['white space between words and tags is free, except in preformatted text',
               'markup is properly nested']


def diff(a, b, path='document'):
  """first difference of two trees"""
  if isinstance(a, tuple) and isinstance(b, tuple):
    if a[:2] != b[:2]:
      return 'in %s: got %r, expected %r' % (path, a[:2], b[:2])
    p = path + '/' + a[0]
    for x, y in zip(a[2], b[2]):
      d = diff(x, y, p)
      if d:
        return d
    if len(a[2]) != len(b[2]):
      n = min(len(a[2]), len(b[2]))
      return 'in %s: got then %r, expected %r' % (p, a[2][n:n + 2], b[2][n:n + 2])
    return None
  if a != b:
    return 'in %s: got %r, expected %r' % (path, a, b)
  return None


def structure(ctx, rng, i):
  lines, root, names = wikidoc.document(rng)
  text = '\n'.join(lines) + rng.choice(('', '\n', '\n\n'))
  if i % 5 == 0:
    text = unicode(text)
  ctx.detail = text
  f = W.Formatter(None, wikipath='/wiki/')
  f.parse(text)
  got = f.make_html()
  try:
    tree = xhtml.parse(got)
  except xhtml.Broken, e:
    ctx.check(False, 'not-well-formed', lambda: '%r renders to %r: %s' % (text, got, e))
    return
  want = wikidoc.joined(('x', [], root))
  d = diff(xhtml.normal(tree), want)
  ctx.check(d is None, 'structure', lambda: '%s; text %r' % (d, text))
  for n in names:
    ctx.event(n)
  ctx.state(text.encode('utf-8'))
  if i < 2:
    ctx.sample(text)


SCENARIOS = [
    Scenario('structure', structure, 3200, 60000, floors=dict([(n, 600) for n in wikidoc.NAMES])),
]
