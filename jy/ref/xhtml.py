# -*- coding: us-ascii -*-
"""Reads markup with a real XML parser into plain trees, knows nothing of bglib."""
import xml.parsers.expat

ELEMENTS = {
    # element -> attributes the renderer may give it
    'div': (), 'p': (), 'strong': (), 'i': (), 'del': (), 'sub': (), 'sup': (), 'br': (),
    'h1': ('id',), 'h2': ('id',), 'h3': ('id',), 'pre': ('class',), 'span': ('class',),
    'a': ('href', 'title', 'class'), 'img': ('src',),
    'ul': ('class',), 'ol': ('class',), 'li': ('class',), 'dl': (), 'dt': (), 'dd': (),
    'table': ('class',), 'tr': ('class',), 'td': ('class', 'rowspan', 'colspan'),
    'th': ('class', 'rowspan', 'colspan'), 'blockquote': ('class',),
}


class Broken(Exception):
  pass


class Element(object):
  def __init__(self, tag, attrs):
    self.tag = tag
    self.attrs = attrs
    self.children = []

  def text(self):
    r = []
    for c in self.children:
      if isinstance(c, Element):
        r.append(c.text())
      else:
        r.append(c)
    return u''.join(r)

  def walk(self):
    yield self
    for c in self.children:
      if isinstance(c, Element):
        for d in c.walk():
          yield d


def parse(fragment):
  """root element of the fragment, or Broken."""
  if isinstance(fragment, unicode):
    fragment = fragment.encode('utf-8')
  root = Element('root', {})
  stack = [root]
  p = xml.parsers.expat.ParserCreate('UTF-8')
  def start(tag, attrs):
    e = Element(str(tag), dict([(str(k), v) for k, v in attrs.items()]))
    stack[-1].children.append(e)
    stack.append(e)
  def end(tag):
    stack.pop()
  def data(text):
    c = stack[-1].children
    if c and not isinstance(c[-1], Element):
      c[-1] += text
    else:
      c.append(text)
  p.StartElementHandler = start
  p.EndElementHandler = end
  p.CharacterDataHandler = data
  try:
    p.Parse('<x>' + fragment + '</x>', True)
  except xml.parsers.expat.ExpatError, e:
    raise Broken(str(e))
  return root.children[0]


def normal(e):
  """(tag, sorted attributes, children), text as single words, empty divs gone."""
  r = []
  for c in e.children:
    if isinstance(c, Element):
      if c.tag == 'div' and not c.text().strip() and not [d for d in c.children if isinstance(d, Element)]:
        continue
      if c.tag == 'pre':
        r.append(('pre', sorted(c.attrs.items()), [c.text()]))
      else:
        r.append(normal(c))
    else:
      r.extend(c.split())
  return (e.tag, sorted([(k, unicode(v)) for k, v in e.attrs.items()]), r)


def words(e):
  """all words of the text in document order; elements separate words."""
  r = []
  for c in e.children:
    if isinstance(c, Element):
      r.extend(words(c))
    else:
      r.extend(c.split())
  return r


def strange(e):
  """what no rendering of wiki text may contain, or None."""
  for d in e.walk():
    if d is e:
      continue
    if d.tag not in ELEMENTS:
      return 'element %r' % d.tag
    for k, v in d.attrs.items():
      if k not in ELEMENTS[d.tag]:
        return 'attribute %r of %r' % (k, d.tag)
      if k == 'href' and not (v.startswith('/') or v.startswith('#') or v.startswith('http://') or v.startswith('https://')):
        return 'link to %r' % v
      if k == 'src' and not v.startswith('/image?'):
        return 'image of %r' % v
  return None
