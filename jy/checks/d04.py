# -*- coding: us-ascii -*-
"""D04 text goes through escaping and the document tree unharmed; the tree is always
well-formed."""
import bglib.doc.bgwiki
import bglib.doc.doctree as T
import bglib.doc.html as H

from harness import Scenario
from ref import wikidoc, xhtml

RULE = ('escaping: random texts of hostile letters, read back by an XML parser as text and '
        'as attribute; editing: random sequences of entering, leaving and adding text, in '
        'lock step with a plain model of a tree of open elements: after every step the '
        'place of the editor, parents, and what may be in what; at the end the rendering is '
        'read by an XML parser and compared; a state is the text or the sequence')
ASSUMPTIONS = ['texts of letters that XML can hold']

LETTERS = list(u'<>&?"\'=/!-[](){};:#%\\ abzAZ09_.,|*') + [u'&lt;', u'&amp;', u'&#38;', u'<!--', u'-->', u']]>', u'<b>', u'</b>', u'\xe9', u'\u3042', u'<?', u'?>', u'&amp', u'&&']


def escaping(ctx, rng, i):
  def make():
    return u''.join([rng.choice(LETTERS) for _ in range(rng.choice((0, 1, 2, 5, 20, 80)))])
  a, b = make(), make()
  if rng.random() < 0.5:
    a, b = a.encode('ascii', 'ignore'), b.encode('ascii', 'ignore')
  ctx.detail = repr((a, b))
  e = H.escape(a)
  try:
    tree = xhtml.parse(e)
    ctx.equal(tree.text(), unicode(a), 'escape-text', 'text read back of escape(%r)' % a)
    ctx.equal(len(tree.children) <= 1, True, 'escape-elements', 'no elements in escape(%r)' % a)
  except xhtml.Broken, x:
    ctx.check(False, 'escape-broken', lambda: 'escape(%r) == %r: %s' % (a, e, x))
  ctx.equal(H.escape(a + b), e + H.escape(b), 'escape-joined', 'escape(%r + %r)' % (a, b))
  ctx.check(isinstance(e, type(a)), 'escape-type', lambda: 'escape(%r) is %r' % (a, e))
  node = rng.choice((T.AnchorElement, T.SpanElement, T.TableElement, T.ImgElement, T.H1Element, T.TableCellElement))(None, **{'title': a, 'href': b})
  html = node.open() + node.close()
  try:
    tree = xhtml.parse(html)
    got = [c for c in tree.children if isinstance(c, xhtml.Element)]
    ctx.equal([(c.tag, c.attrs) for c in got], [(node.html_element, {'title': unicode(a), 'href': unicode(b)})], 'attributes', 'element of %r' % html)
  except xhtml.Broken, x:
    ctx.check(False, 'attributes-broken', lambda: '%r, %r give %r: %s' % (a, b, html, x))
  ctx.event('texts escaped', 2)
  ctx.state(repr((a, b)))


INLINE = (T.BoldElement, T.ItalicElement, T.UnderlineElement, T.StrikeElement, T.SubscriptElement, T.SuperscriptElement, T.MonospaceElement, T.SpanElement, T.AnchorElement)
BLOCK = (T.DivElement, T.H1Element, T.H2Element, T.H3Element, T.TableElement, T.TableRowElement, T.TableCellElement, T.TableHeaderElement, T.ListElement, T.ItemizeElement,
         T.BlockQuoteElement, T.CitationElement, T.CitationContentElement, T.DefinitionListElement, T.DefinitionHeaderElement, T.DefinitionBodyElement)
SINGLE = (T.BRElement, T.ImgElement)
HOME = {  # an element and where it must never be directly
    T.TableRowElement: (T.DivElement, T.ListElement, T.H1Element, T.H2Element, T.H3Element, T.BlockQuoteElement, T.DefinitionListElement, T.TableCellElement),
    T.ItemizeElement: (T.DivElement, T.TableElement, T.H1Element, T.H2Element, T.H3Element, T.BlockQuoteElement, T.TableCellElement),
    T.DefinitionHeaderElement: (T.DivElement, T.ListElement, T.TableElement, T.ItemizeElement, T.H1Element),
    T.TableElement: (T.H1Element, T.TableRowElement, T.TableCellElement, T.BlockQuoteElement, T.DefinitionListElement),
    T.H1Element: (T.TableElement, T.ListElement, T.H2Element, T.TableCellElement, T.BlockQuoteElement),
}
LIST = dict(star=None, ordered_numeric=None, ordered_roman=None, ordered_alpha=None, sign=None)


class M(object):
  """an element as the model sees it."""
  def __init__(self, node, parent):
    self.node = node
    self.parent = parent
    self.inside = []

  def up(self):
    m = self
    while m:
      yield m
      m = m.parent


def same(ctx, m, ops):
  """the tree below is the model's."""
  got = []
  for c in m.node.children:
    if isinstance(c, T.Text):
      if got and isinstance(got[-1], basestring):
        got[-1] += c.text  # what was between two texts has been removed
      else:
        got.append(c.text)
    else:
      got.append(c)
  want = []
  for x in m.inside:
    if isinstance(x, M):
      want.append(x.node)
    elif want and isinstance(want[-1], basestring):
      want[-1] += x
    else:
      want.append(x)
  if not ctx.check(got == want, 'children', lambda: '%r: children of %r are %r, expected %r' % (ops, m.node, got, want)):
    return False
  for x in m.inside:
    if isinstance(x, M):
      if not ctx.check(x.node.parent is m.node, 'parent', lambda: '%r: parent of %r is %r, it is in %r' % (ops, x.node, x.node.parent, m.node)):
        return False
      if not same(ctx, x, ops):
        return False
  return True


def editing(ctx, rng, i):
  w = wikidoc.Words(rng)
  root = T.BgWikiElementRoot()
  ed = (T.Editor, T.HtmlEditor)[i % 2]()
  ed.start(root)
  top = here = M(root, None)
  ops = []
  said = []
  blocky = rng.random()
  for _ in range(rng.choice((3, 8, 20, 60))):
    r = rng.random()
    if r < 0.35:
      c = rng.random() < blocky and rng.choice(BLOCK) or rng.choice(INLINE)
      d = {}
      if c is T.ListElement:
        d = dict(LIST)
        k = rng.choice((None, 'star', 'ordered_numeric', 'ordered_roman', 'ordered_alpha', 'sign'))
        if k:
          d[k] = 'x'
      elif c is T.ItemizeElement:
        d = dict(style=None)
      elif rng.random() < 0.3:
        d = {'class': 'c%d' % rng.randint(0, 9)}
      ops.append(('enter', c.__name__))
      got = ed.enter(c, **d)
      ctx.check(got is ed.current and got.__class__ is c, 'entered', lambda: '%r: enter gave %r at %r' % (ops, got, ed.current))
      # it goes to the nearest open element that can hold it
      for m in here.up():
        if m.node.is_acceptable(got):
          break
      new = M(got, m)
      m.inside.append(new)
      here = new
      ctx.event('entered')
    elif r < 0.6:
      c = rng.choice(BLOCK + INLINE)
      opened = [m.node.__class__ for m in here.up() if m.parent]
      if opened and rng.random() < 0.7:
        c = rng.choice(opened)
      if rng.random() < 0.2:
        c = (c, rng.choice(INLINE))
      ops.append(('leave', c))
      ed.leave(c)
      for m in here.up():
        if m is not top and isinstance(m.node, c):
          here = m.parent
          break
      ctx.event('left')
    elif r < 0.65:
      c = rng.choice(SINGLE)
      ops.append(('single', c.__name__))
      got = ed.enter(c, **(c is T.ImgElement and {'src': 'x'} or {}))
      for m in here.up():
        if m.node.is_acceptable(got):
          break
      new = M(got, m)
      m.inside.append(new)
      ed.leave(c)
      here = m
    elif r < 0.7:
      c = rng.choice(BLOCK + INLINE)
      ops.append(('ask', c.__name__))
      want = [m.node for m in here.up() if isinstance(m.node, c)]
      ctx.equal(ed.count_nesting(c), len(want), 'count-nesting', '%r: nesting of %s' % (ops, c.__name__))
      ctx.equal(ed.ancestor(c), want and want[0] or None, 'ancestor', '%r: ancestor %s' % (ops, c.__name__))
    elif r < 0.73:
      held = [x for x in here.inside if isinstance(x, M)]
      if held:
        x = rng.choice(held)
        ops.append(('remove', here.inside.index(x)))
        if rng.random() < 0.5:
          ed.remove(x.node)
        else:
          here.node.remove(x.node)
        here.inside.remove(x)
        ctx.event('removed')
        if not same(ctx, here, ops):
          return
    elif r < 0.75:
      ops.append('done')
      ctx.check(ed.done() is root, 'done', 'done() gives the root')
      here = top
    else:
      t = ' ' + w() + ' '
      ops.append(('text', t))
      ed.append_text(t)
      here.inside.append(t)
      said.append(t.strip())
    if not ctx.check(ed.current is here.node, 'place', lambda: '%r: editor is at %r, expected %r' % (ops, ed.current, here.node)):
      return
  ctx.detail = ops
  ed.done()
  if not same(ctx, top, ops):
    return
  # what is in what
  def look(m):
    for x in m.inside:
      if isinstance(x, M):
        p, c = m.node.__class__, x.node.__class__
        ctx.check(not (p in INLINE and c in BLOCK), 'block-in-inline', lambda: '%r: %s in %s' % (ops, c.__name__, p.__name__))
        ctx.check(p not in HOME.get(c, ()), 'misplaced', lambda: '%r: %s in %s' % (ops, c.__name__, p.__name__))
        ctx.check(p not in SINGLE, 'in-single', lambda: '%r: %s in %s' % (ops, c.__name__, p.__name__))
        look(x)
  look(top)
  # what is written
  wr = T.HtmlWriter()
  root.accept(wr)
  try:
    tree = xhtml.parse(wr.html())
  except xhtml.Broken, x:
    ctx.check(False, 'not-well-formed', lambda: '%r: %r: %s' % (ops, wr.html(), x))
    return
  seen = []
  def order(m):
    for x in m.inside:
      if isinstance(x, M):
        order(x)
      else:
        seen.append(x.strip())
  order(top)
  ctx.equal(xhtml.words(tree), seen, 'words', '%r: words written' % ops)
  ctx.event('edited')
  ctx.state(repr(ops))
  if i < 1:
    ctx.sample(repr(ops))


SCENARIOS = [
    Scenario('escaping', escaping, 4000, 120000, floors={'texts escaped': 6000}),
    Scenario('editing', editing, 3000, 80000, floors={'edited': 2700, 'entered': 15000, 'left': 8000, 'removed': 150}),
]
