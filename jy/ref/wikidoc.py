# -*- coding: us-ascii -*-
"""Writes wiki texts together with the tree they mean. The trees are made from the
generated structure, never from the text, and never with the code under test."""
import itertools

LETTERS = 'abcdefghjklnopqrstuvwxyz'    # no m: m1 is a match


class Words(object):
  """unique lower case words that are no markup."""
  def __init__(self, rng):
    self.rng = rng
    self.n = 0
  def __call__(self):
    self.n += 1
    n, s = self.n, ''
    while n:
      s = LETTERS[n % 24] + s
      n //= 24
    return self.rng.choice(('qu', 'wo', 'ze')) + s + 'x'


def E(tag, attrs=None, children=()):
  return (tag, sorted([(k, unicode(v)) for k, v in (attrs or {}).items()]), list(children))


MARKS = [("'''", 'strong', {}), ("''", 'i', {}), ('__', 'span', {'class': 'underline'}), ('~~', 'del', {}),
         (',,', 'sub', {}), ('^', 'sup', {}), ('`', 'span', {'class': 'monospace'})]
SPECIAL = ['<', '>', '&', '"', '&amp;', '<b>', '</div>', '<script>alert("x")</script>', '<!--', ']]>', "it's", '?', '\\', '$', '%s', '<a href>', '<!DOCTYPE x>']
ESCAPABLE = ['#12', 'entry:4', 'query:7', '{8}', 'match:3', '[9]', '__', '~~', '^', '`', ',,', "'''", "''",
             'CamelCase', 'http://x.example/a?b=c&d', '[wiki:Name]', '[http://x.example/ text]']


def link(rng, w):
  """(text, tree) of one link."""
  n = str(rng.randint(0, 99999))
  k = rng.randrange(11)
  a = lambda cls, title, href, body: E('a', {'class': cls, 'title': title, 'href': href}, body)
  if k == 0:
    return '#' + n, a('entry', '#' + n, '/entry/' + n, ['#' + n])
  if k == 1:
    return 'entry:' + n, a('entry', 'entry:' + n, '/entry/' + n, ['entry:' + n])
  if k == 2:
    return '{%s}' % n, a('query', '{%s}' % n, '/query/' + n, ['{%s}' % n])
  if k == 3:
    return 'query:' + n, a('query', 'query:' + n, '/query/' + n, ['query:' + n])
  if k == 4:
    return 'm' + n, a('match', 'title', '/match/' + n, ['m' + n])
  if k == 5:
    return '[%s]' % n, a('match', 'title', '/match/' + n, ['[%s]' % n])
  if k == 6:
    return 'match:' + n, a('match', 'title', '/match/' + n, ['match:' + n])
  if k == 7:
    name = w().capitalize() + w().capitalize()
    if rng.random() < 0.3:
      name += w().capitalize()
    return name, a('wiki-link', name, '/wiki/' + name, [name])
  if k == 8:
    name = rng.choice((w(), w().capitalize(), w().capitalize() + w().capitalize()))
    return '[wiki:%s]' % name, a('wiki-link', name, '/wiki/' + name, [name])
  url = rng.choice(('http://', 'https://')) + rng.choice(('www.example.com/', 'a_b-c.example/~nori/')) + w()
  if rng.random() < 0.5:
    url += '?q=%s&r=%%20#top' % w()
  if k == 9:
    return url, E('a', {'class': 'ext-link', 'title': 'title', 'href': url}, [E('span', {'class': 'icon'}, [url])])
  if rng.random() < 0.4:
    return '[%s]' % url, E('a', {'class': 'ext-link', 'title': url, 'href': url}, [E('span', {'class': 'icon'}, [url])])
  disp = ' '.join([rng.random() < 0.8 and w() or rng.choice([s for s in SPECIAL if ']' not in s]) for _ in range(rng.randint(1, 4))])
  return '[%s %s]' % (url, disp), E('a', {'class': 'ext-link', 'title': disp, 'href': url}, [E('span', {'class': 'icon'}, disp.split())])


def inline(rng, w, depth=0, used=(), heading=False, quote=True):
  """(text, children): text has no markup of lines, and starts with no blank."""
  texts, children = [], []
  for _ in range(rng.randint(1, depth and 3 or 5)):
    r = rng.random()
    if r < 0.5:
      s = w()
      texts.append(s)
      children.append(s)
    elif r < 0.6:
      s = rng.choice(SPECIAL)
      if heading and '=' in s or not texts:
        s = w()
      texts.append(s)
      children.extend(s.split())
    elif r < 0.72:
      s, t = link(rng, w)
      if heading and '=' in s or 'a' in used:
        s = t = w()
      texts.append(s)
      children.append(t)
    elif r < 0.78:
      s = rng.choice(ESCAPABLE)
      if heading and '=' in s:
        s = '#12'
      texts.append('!' + s)
      children.extend(s.split())
    elif r < 0.81:
      texts.append('[[BR]]')
      children.append(E('br'))
    elif depth < 3:
      left = [m for m in MARKS if m[0] not in used]
      k = rng.random()
      if k < 0.15 and "'''" not in used and "''" not in used:
        s, c = inline(rng, w, depth + 1, used + ("'''", "''"), heading)
        texts.append("''''' %s '''''" % s)
        children.append(E('strong', {}, [E('i', {}, c)]))
      elif k < 0.3 and '`' not in used:
        s, c = inline(rng, w, depth + 1, used + ('`',), heading)
        texts.append('{{{ %s }}}' % s)
        children.append(E('span', {'class': 'monospace'}, c))
      elif left:
        mark, tag, attrs = rng.choice(left)
        s, c = inline(rng, w, depth + 1, used + (mark,), heading)
        texts.append('%s %s %s' % (mark, s, mark))
        children.append(E(tag, attrs, c))
  if not texts:
    s = w()
    texts.append(s)
    children.append(s)
  return ' '.join(texts), children


def line(rng, w, **kw):
  """an inline text that stands on a line of its own."""
  s, c = inline(rng, w, **kw)
  if s.endswith('::') or s.startswith('{{{') or s.startswith('}}}') or s.startswith('>') or s.startswith('!'):
    a = w()
    return a + ' ' + s, [a] + c
  return s, c


def paragraph(rng, w):
  lines, children = [], []
  for _ in range(rng.randint(1, 3)):
    s, c = line(rng, w)
    lines.append(s)
    children.extend(c)
  return lines, children


def heading(rng, w):
  n = rng.randint(1, 3)
  s, c = inline(rng, w, heading=True)
  mark = '=' * n
  lines = ['%s %s %s' % (mark, s, mark)]
  children = [E('h%d' % n, {}, c)]
  if rng.random() < 0.5:
    more, c = paragraph(rng, w)
    lines += more
    children += c
  return lines, children


DESIGNS = {
    'star': (['*'], 'ul', {}), 'numeric': (['1', '2.', '8', '3.'], 'ol', {}),
    'alpha': (['a', 'b.', 'h', 'c.'], 'ol', {'class': 'loweralpha'}),
    'roman': (['i', 'ii.', 'iv', 'viii.'], 'ol', {'class': 'lowerroman'}),
    'sign': (['+', '++', '+++', '-', '--', '---'], 'ul', {'class': 'sign'}),
}
SIGN = {'+': 'plus', '++': 'doubleplus', '+++': 'tripleplus', '-': 'minus', '--': 'doubleminus', '---': 'tripleminus'}


def listing(rng, w):
  """items nest by one more blank; the first item of a list decides its looks."""
  lines = []
  def make(level, room):
    design = rng.choice(sorted(DESIGNS))
    marks, tag, attrs = DESIGNS[design]
    items = []
    for _ in range(rng.randint(1, 3)):
      other = items and rng.random() < 0.1
      mark = rng.choice(other and DESIGNS[rng.choice(sorted(DESIGNS))][0] or marks)
      s, c = inline(rng, w)
      if s.endswith('::'):
        s, c = s + ' ' + 'x', c + ['x']
      lines.append(' ' * level + mark + ' ' + s)
      if room[0] > 0 and level < 5 and rng.random() < 0.4:
        room[0] -= 1
        c = c + [make(level + 1, room)]
      cls = design == 'sign' and SIGN.get(mark)
      items.append(E('li', cls and {'class': cls} or {}, c))
    return E(tag, attrs, items)
  tree = make(1, [4])
  return lines, [tree]


def table(rng, w):
  lines, rows = [], []
  n = rng.randint(1, 4)
  for _ in range(rng.randint(1, 4)):
    cells = [inline(rng, w) for _ in range(n)]
    lines.append('||' + ''.join(['%s||' % s for s, c in cells]))
    rows.append(E('tr', {}, [E('td', {}, c) for s, c in cells]))
  return lines, [E('table', {'class': 'wiki'}, rows)]


def quote(rng, w):
  lines, children = [], []
  for _ in range(rng.randint(1, 3)):
    s, c = line(rng, w)
    if s[0] in '*+-' or s.split()[0].rstrip('.') in tuple('12345678abcdefgh') or not s.split()[0].rstrip('.').strip('iv'):
      a = w()
      s, c = a + ' ' + s, [a] + c
    lines.append(' ' * rng.randint(2, 5) + s)
    children.extend(c)
  return lines, [E('blockquote', {}, [E('p', {}, children)])]


def definition(rng, w):
  lines, children = [], []
  for _ in range(rng.randint(1, 3)):
    s, c = line(rng, w)
    lines.append(s + ' ::')
    children.append(E('dt', {}, c))
    body = []
    for _ in range(rng.randint(1, 2)):
      a = w()
      s, c = line(rng, w)
      lines.append('  ' + a + ' ' + s)
      body += [a] + c
    children.append(E('dd', {}, body))
  return lines, [E('dl', {}, children)]


def citation(rng, w):
  """levels that only go down."""
  level = rng.randint(1, 4)
  lines, frames = [], []
  stack = []
  levels = sorted([rng.randint(1, level) for _ in range(rng.randint(0, 3))] + [level], reverse=True)
  root = []
  def build(rest, n):
    """children of a blockquote at level n; rest is consumed."""
    out = []
    if rest and rest[0] > n:
      out.append(E('blockquote', {'class': 'citation'}, build(rest, n + 1)))
    body = []
    while rest and rest[0] == n:
      rest.pop(0)
      s, c = line(rng, w)
      lines.append('>' * n + ' ' + s)
      body.extend(c)
    if body:
      out.append(E('p', {}, body))
    return out
  rest = list(levels)
  children = [E('blockquote', {'class': 'citation'}, build(rest, 1))]
  return lines, children


PRE = ['', ' ', 'a < b && c > d', "'''no bold'''", ' * no item', '[[BR]]', '{{{x}}}', '||x||', '<script>', '#12', '  indented   twice', 'CamelCase', '= x =', '"q"', '\ttab', '}}} x', 'x }}}']


def preformat(rng, w):
  body = []
  for _ in range(rng.randint(0, 5)):
    body.append(rng.random() < 0.5 and rng.choice(PRE) or (w() + ' ' * rng.randint(1, 3) + w()))
  return ['{{{'] + (rng.random() < 0.2 and ['#!preformat'] or []) + body + ['}}}'], ''.join([s + '\n' for s in body])


BLOCKS = dict(paragraph=paragraph, heading=heading, listing=listing, table=table, quote=quote,
              definition=definition, citation=citation)
NAMES = sorted(BLOCKS) + ['preformat']


def document(rng):
  """(lines, children of the root, names of blocks)"""
  w = Words(rng)
  lines, root, names = [], [], []
  for _ in range(rng.randint(1, 6)):
    name = rng.choice(NAMES)
    names.append(name)
    if lines:
      lines += [''] * rng.randint(1, 2)
    if name == 'preformat':
      some, text = preformat(rng, w)
      lines += some
      root.append(('pre', [('class', u'wiki')], [text]))
    else:
      some, children = BLOCKS[name](rng, w)
      if name != 'definition' and rng.random() < 0.2:
        some = [x and x + rng.choice(('', ' ', '   ')) for x in some]
      lines += some
      root.append(E('div', {}, children))
      # the next block may follow at once where nothing is ambiguous
  return lines, root, names


def joined(tree):
  """unicode words, as the parser gives them."""
  tag, attrs, children = tree
  r = []
  for c in children:
    if isinstance(c, tuple):
      r.append(joined(c))
    else:
      r.append(unicode(c))
  return (tag, attrs, r)
