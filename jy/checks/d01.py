# -*- coding: us-ascii -*-
"""D01 any text at all renders to well-formed, harmless markup with every word of
it in order."""
import bglib.doc.bgwiki as W
import bglib.doc.macro

from harness import Scenario
from ref import wikidoc, xhtml
import timelimit as _sf

RULE = ('a case is a text of random tokens: markup of every kind, unbalanced and '
        'badly nested, hostile tags, macros good and bad, unique words; the '
        'rendering is read by an XML parser: well-formed, only known elements, '
        'attributes and kinds of links, every word once and in order; a state is '
        'the text')
ASSUMPTIONS = ['printable text; macros that read a database get one that knows every position',
               'blocks handed to other formatters (#!rst) are not judged by this property']

MARK = ["'''''", "'''", "''", '__', '~~', ',,', '^', '`', '{{{', '}}}', '===', '==', '=', '||', '::', '!', '>', '>>', '!!',
        '[', ']', '[[', ']]', '{', '}', '(', ')', '#', 'http:', 'https://', 'm', 'match:', 'query:', 'entry:', 'wiki:', '*', '+', '-', '.', ':', '/']
START = ['', '', '', ' ', '  ', '   ', '      ', ' * ', '  * ', '   * ', ' + ', ' -- ', '  1. ', ' a ', ' i. ', '  iv ', ' 8 ', '    - ',
         '> ', '>> ', '>>>> ', '>', '||', '= ', '== ', '=== ', '{{{', '}}}', '!{{{', "'''", ' || ', '\t', '  ::', '!= ']
END = ['', '', '', '', '::', '||', '|| ', ' =', ' ==', ' ===', ' ', '{{{', '}}}', '!', ' ::', "''", '||::']
HOSTILE = ['<', '>', '&', '"', "'", '<script>', '</div>', '</x>', '<!--', '-->', '<![CDATA[', ']]>', '&lt;', '&bogus;', '&#0;', '<a href="javascript:alert(1)">',
           'javascript:alert(1)', '<?xml', '%s', '%(x)s', '\\', '\\1', '${name}', '$', '" onclick="x', "' onclick='x", '?', ';', '\xc2\xa0', '|', '~', '_', ',', '@', '--']
IDS = ['vzsAAFhu2xFABA:QYkqASAAIAAA', 'cNcxAxCY54YBBg:cAn7ADAAIAAA', '4HPwATDgc/ABMA:MAAAAAAAAAAA', 'jM/BATDQc+QBMA:cAkWAAAAAAAA']
MACRO = ['[[BR]]', '[[BR(x)]]', '[[NoSuch]]', '[[NoSuch(a=b, c)]]', '[[Position]]', '[[Position(nonsense)]]', '[[Position(%s)]]' % IDS[0],
         '[[Position(%s, css=safari)]]' % IDS[3], '[[Position(%s,width=10,height=7)]]' % IDS[1], '[[Analysis]]', '[[Analysis(none)]]',
         '[[Analysis(%s)]]' % IDS[0], '[[Analysis(%s)]]' % IDS[1], '[[Timestamp]]']
LINKS = ['#%d', 'entry:%d', '{%d}', 'query:%d', 'm%d', 'match:%d', '[%d]', 'http://h.example/%d?a=b&c="d"<e>', '[http://h.example/%d]', '[https://h.example/%d a "b" <c> & d]',
         '[wiki:Name]', 'CamelCase', 'CamelCase%dX', '[wiki:x%d]', '[http://h.example/%d a b', '[[http://x/%d]]']


class AnyDatabase(object):
  """knows every position."""
  def get_analysis(self, pid, mid):
    if ord(pid[0]) % 2:
      head = dict(name='CubelessEquity', ply=2, cubeless=0.011, money=0.008, Win=0.5, WinG=0.1, WinBg=0.0, Lose=0.5, LoseG=0.1, LoseBg=0.0)
      return True, (head,) + tuple([dict(nth=n + 1, action=a, equity=0.2 - n, diff=n and -0.1 * n or None, actual=n == 1) for n, a in enumerate((0, 1, 2))])
    return False, tuple([dict(nth=n + 1, ply=n, move='13/%d*' % n, equity=0.1, diff=-0.2 * n, Win=0.7, WinG=0.1, WinBg=0.0, Lose=0.3, LoseG=0.1, LoseBg=0.0, actual=n == 2) for n in range(3)])


def setup():
  bglib.doc.macro.setup(AnyDatabase())


def soup(rng, w, toc=False):
  """lines, and the words they hold in order"""
  lines, said = [], []
  for _ in range(rng.choice((1, 2, 3, 5, 8, 13, 25))):
    if rng.random() < 0.1:
      lines.append('')
      continue
    s = rng.choice(START)
    for _ in range(rng.choice((0, 1, 2, 3, 6, 10))):
      r = rng.random()
      if r < 0.35:
        k = w()
        said.append(k)
        s += rng.choice(('', ' ')) + ' ' + k + ' '
      elif r < 0.68:
        s += rng.choice(MARK)
      elif r < 0.78:
        s += rng.choice(HOSTILE)
      elif r < 0.88:
        t = rng.choice(LINKS)
        s += '%d' in t and t % rng.randint(0, 99999) or t
      elif r < 0.93:
        s += rng.choice(MACRO)
      else:
        s += ' '
    s += rng.choice(END)
    if toc and rng.random() < 0.1:
      s += '[[TableOfContent]]'
    if s.startswith('#!'):
      s = ' ' + s
    lines.append(s)
  return lines, said


def render(ctx, text):
  f = W.Formatter(None, wikipath='/wiki/')
  f.parse(text)
  got = f.make_html()
  try:
    tree = xhtml.parse(got.decode('utf-8', 'replace') if isinstance(got, str) else got)
  except xhtml.Broken, e:
    ctx.check(False, 'not-well-formed', lambda: '%r renders to %r: %s' % (text, got, e))
    return None
  ctx.evaluations += 1
  s = xhtml.strange(tree)
  ctx.check(s is None, 'strange-markup', lambda: '%r renders with %s: %r' % (text, s, got))
  return tree


def any_text(ctx, rng, i):
  w = wikidoc.Words(rng)
  lines, said = soup(rng, w)
  text = rng.choice(('\n', '\n', '\r\n')).join(lines)
  ctx.detail = text
  box = []
  out = _sf.within(lambda: box.append(render(ctx, text)), 60)
  if not ctx.check(out is not _sf.TIMEOUT, 'never-ends', lambda: repr(text)):
    return
  ctx.state(text)
  if box[0] is None:
    return
  # words in addresses and tooltips are no text; macro arguments hold no words
  heard = [x for x in xhtml.words(box[0]) if x in set(said)]
  # [http://... word] and the like keep their words, too
  ctx.check(heard == said, 'words', lambda: '%r: words %r, expected %r' % (text, heard, said))
  ctx.event('words', len(said))
  ctx.event('texts')
  if i < 2:
    ctx.sample(text)


def hostile(ctx, rng, i):
  """plain text with hostile pieces is shown as it is, letter for letter."""
  w = wikidoc.Words(rng)
  pieces = [w()]
  for _ in range(rng.randint(1, 12)):
    if rng.random() < 0.6:
      # nothing here may be taken as markup: no = # [ ] | { } ! ' ` ^ ~ _ , :
      pieces.append(rng.choice([h for h in HOSTILE if not [c for c in h if c in '=#[]|{}!\'`^~_,:\xc2\xa0']]))
    else:
      pieces.append(w())
  text = ''.join([p + rng.choice(('', ' ')) for p in pieces]).strip()
  if rng.random() < 0.3:
    text = unicode(text) + rng.choice((u'\u3042\u3044', u'\xe9', u' \u0416 ')) + text
  ctx.detail = ascii_of(text)
  tree = render(ctx, text)
  if tree is not None:
    ctx.equal(tree.text().split(), unicode(text).split(), 'text-shown', 'text shown of %r' % text)
    ctx.equal([d.tag for d in tree.walk()], ['x', 'div'], 'elements-of-plain-text', 'elements of %r' % text)
  ctx.event('hostile texts')
  ctx.state(repr(text))


def ascii_of(s):
  return s.encode('ascii', 'backslashreplace') if isinstance(s, unicode) else s


def contents(ctx, rng, i):
  """tables of contents list the headings, in order, and link to them."""
  w = wikidoc.Words(rng)
  if i % 2:
    lines, said = soup(rng, w, toc=True)
    lines = lines + ['', '[[TableOfContent]]']
    want = None
  else:
    lines, want = [], []
    n = rng.randint(0, 6)
    at = rng.randint(0, n)
    for k in range(n):
      if k == at:
        lines.append('[[TableOfContent]]')
      level = '=' * rng.randint(1, 3)
      s, c = wikidoc.inline(rng, w, heading=True)
      lines += ['%s %s %s' % (level, s, level), wikidoc.line(rng, w)[0]] + [''] * rng.randint(0, 1)
    if at == n:
      lines.append('[[TableOfContent]]')
  text = '\n'.join(lines)
  ctx.detail = text
  tree = render(ctx, text)
  if tree is None:
    return
  heads = [d for d in tree.walk() if d.tag in ('h1', 'h2', 'h3')]
  ids = [h.attrs.get('id') for h in heads]
  links = [d for d in tree.walk() if d.tag == 'a' and d.attrs['href'].startswith('#')]
  # the table may be inside of preformatted text: then there is none, and no need of ids
  given = [x for x in ids if x is not None]
  ctx.check((len(given) == len(ids) or not (links or i % 2 == 0)) and len(set(given)) == len(given),
            'heading-ids', lambda: '%r: ids %r' % (text, ids))
  if i % 2 == 0:
    ctx.equal([a.attrs['href'] for a in links], ['#' + x for x in ids if x], 'contents-links', 'links of the table of contents')
    ctx.equal([u''.join(xhtml.words(a)) for a in links], [u''.join(xhtml.words(h)) for h in heads], 'contents-text', 'texts in the table of contents')
    depths = []
    def go(d, depth):
      if isinstance(d, xhtml.Element):
        if d.tag == 'a' and d.attrs['href'].startswith('#'):
          depths.append(depth)
        for c in d.children:
          go(c, depth + (d.tag in ('ol', 'ul')))
    go(tree, 0)
    ctx.equal(depths, [int(h.tag[1]) for h in heads], 'contents-depth', 'lists that links of the table of contents are in')
    ctx.event('headings', len(heads))
  else:
    dead = [a.attrs['href'] for a in links if a.attrs['href'][1:] not in ids]
    ctx.check(not dead, 'dead-links', lambda: '%r: dead links %r' % (text, dead))
  ctx.event('contents')
  ctx.state(text)


SCENARIOS = [
    Scenario('any_text', any_text, 4000, 120000, setup=setup, floors={'texts': 3500, 'words': 20000}),
    Scenario('hostile', hostile, 1600, 20000, setup=setup, floors={'hostile texts': 1500}),
    Scenario('contents', contents, 800, 20000, setup=setup, floors={'contents': 700, 'headings': 500}),
]
