# -*- coding: us-ascii -*-
"""D03 rendering is a function of the text alone: any number of times, fed in any
pieces, next to any other document."""
import bglib.doc.bgwiki as W
import bglib.doc.macro
import bglib.doc.mkdn
import bglib.doc.rst

from harness import Scenario
from ref import wikidoc
from checks import d01

RULE = ('a case is a set of random texts (markup soups and well-formed documents); each '
        'is rendered by a new formatter as a whole, and the result is compared with those '
        'of rendering again, of references taken before and between, of the text fed line '
        'by line or in blocks, of other line ends, of formatters fed in turns with others, '
        'and of documents joined by an empty line; a state is the text')
ASSUMPTIONS = ['pieces end where lines end (parse takes lines)',
               'the Timestamp macro, which tells the time, is left out']


def text_of(rng, toc=True):
  """lines of a random text, True when no preformatted block can be left open."""
  w = wikidoc.Words(rng)
  if rng.random() < 0.35:
    lines, root, names = wikidoc.document(rng)
  else:
    lines, said = d01.soup(rng, w, toc=toc)
  lines = [l.replace('[[Timestamp]]', '[[BR]]').replace('\t', ' ') for l in lines]
  return lines


def once(text):
  f = W.Formatter(None, wikipath='/wiki/')
  f.parse(text)
  return f.make_html()


def again(ctx, rng, i):
  lines = text_of(rng)
  text = '\n'.join(lines)
  ctx.detail = text
  want = once(text)
  f = W.Formatter(None, wikipath='/wiki/')
  f.parse(text)
  if rng.random() < 0.5:
    f.extract_references()
  for n in range(rng.randint(2, 4)):
    got = f.make_html()
    ctx.check(got == want, 'again', lambda: '%r renders to %r, then (%d) to %r' % (text, want, n, got))
    if rng.random() < 0.3:
      f.extract_references()
    if rng.random() < 0.2:
      ctx.equal(f.make_pdf(), '', 'pdf', 'pdf')
    ctx.event('rendered again')
  end = rng.choice(('\r\n', '\r'))
  ctx.check(once(text.replace('\n', end)) == want, 'line-ends', lambda: '%r: differs with lines that end with %r' % (text, end))
  some = ''.join([c == '\n' and rng.choice(('\n', '\r\n')) or c for c in text])
  ctx.check(once(some) == want, 'line-ends', lambda: '%r: differs from %r' % (some, text))
  ctx.event('other line ends', 2)
  ctx.check(once(text) == want, 'new-formatter', lambda: '%r: differs in a new formatter' % text)
  ctx.state(text)


def pieces(ctx, rng, i):
  lines = text_of(rng)
  text = '\n'.join(lines)
  ctx.detail = text
  want = once(text)
  f = W.Formatter(None, wikipath='/wiki/')
  n = 0
  while n < len(lines):
    k = rng.choice((1, 1, 2, 3, 10))
    part = lines[n:n + k]
    end = rng.choice(('\n', '\r\n', '\r'))
    # a last line that is empty needs its line end to be one
    f.parse(end.join(part) + ((part[-1] == '' or rng.random() < 0.5) and end or ''))
    n += k
    ctx.event('pieces')
    if rng.random() < 0.2:
      f.extract_references()
      ctx.event('references between pieces')
    if rng.random() < 0.05:
      f.make_pdf()
  got = f.make_html()
  ctx.check(squeeze(got) == squeeze(want), 'pieces', lambda: '%r in pieces renders to %r, not %r' % (lines, got, want))
  ctx.state(text)


def squeeze(html):
  return '\n'.join([l for l in html.split('\n') if l.strip()])


def turns(ctx, rng, i):
  """several formatters fed and rendered in turns: each as if alone."""
  docs = [text_of(rng) for _ in range(rng.randint(2, 4))]
  ctx.detail = docs
  wants = [once('\n'.join(d)) for d in docs]
  fs = [W.Formatter(None, wikipath='/wiki/') for d in docs]
  todo = [list(d) for d in docs]
  order = []
  while [t for t in todo if t]:
    k = rng.choice([k for k, t in enumerate(todo) if t])
    fs[k].parse(todo[k].pop(0) + '\n')
    order.append(k)
    if rng.random() < 0.1:
      rng.choice(fs).extract_references()
  ks = range(len(docs))
  rng.shuffle(ks)
  for k in ks:
    got = fs[k].make_html()
    ctx.check(squeeze(got) == squeeze(wants[k]), 'turns', lambda: '%r: with others %r, alone %r' % (docs[k], got, wants[k]))
    ctx.event('documents in turns')
  ctx.state(repr(docs))


def joined(ctx, rng, i):
  """documents divided by an empty line do not touch one another."""
  docs = []
  for _ in range(rng.randint(2, 5)):
    lines = text_of(rng, toc=False)
    # nothing left open: a line that ends preformatted text, wherever one starts
    fixed, opened = [], False
    for l in lines:
      if opened:
        if l == '}}}':
          opened = False
      elif l == '{{{':
        opened = True
      fixed.append(l)
    if opened or [l for l in lines if '{{{' in l and l.strip() != '{{{']:
      fixed += ['}}}', '']
    docs.append(fixed)
  text = '\n\n'.join(['\n'.join(d) for d in docs])
  ctx.detail = docs
  want = ''.join([once('\n'.join(d) + '\n\n') for d in docs])
  got = once(text)
  ctx.check(squeeze(got) == squeeze(want), 'joined', lambda: '%r together %r, one by one %r' % (docs, got, want))
  ctx.event('documents joined', len(docs))
  ctx.state(text)


WORDS = ['*', '**', '_', '`', '#', '##', '- ', '+ ', '1. ', '> ', '    ', '[', '](http://h.example/)', '![x]', '<', '&', '::', '..', '====', '----', '|', '\\', '`x`_', '.. _x:', 'a', 'b c']


def others(ctx, rng, i):
  """the markdown and the reStructuredText formatters: again, in pieces, in turns."""
  w = wikidoc.Words(rng)
  def doc():
    return [''.join([rng.random() < 0.5 and w() + ' ' or rng.choice(WORDS) for _ in range(rng.randint(0, 6))]) for _ in range(rng.randint(1, 8))]
  make = (bglib.doc.mkdn.Formatter, bglib.doc.rst.Formatter)[i % 4 == 0]
  docs = [doc(), doc()]
  ctx.detail = docs
  def render(d):
    f = make()
    f.parse('\n'.join(d) + '\n')
    return f.make_html()
  wants = [render(d) for d in docs]
  fs = [make(), make()]
  for k in (0, 1):
    for l in docs[k]:
      fs[k].parse(l + '\n')
      if rng.random() < 0.3:
        fs[1 - k].make_html()
  for k in (1, 0, 1):
    ctx.equal(fs[k].make_html(), wants[k], 'other-formatters', 'rendering of %r' % docs[k])
    ctx.event('other formatters')
  ctx.state(repr(docs))


def quiet_setup():
  d01.setup()
  import sys, StringIO
  sys.stderr = StringIO.StringIO()


SCENARIOS = [
    Scenario('again', again, 900, 40000, setup=d01.setup, floors={'rendered again': 1700, 'other line ends': 1700}),
    Scenario('pieces', pieces, 1000, 40000, setup=d01.setup, floors={'pieces': 2500, 'references between pieces': 400}),
    Scenario('turns', turns, 400, 16000, setup=d01.setup, floors={'documents in turns': 800}),
    Scenario('joined', joined, 700, 30000, setup=d01.setup, floors={'documents joined': 1400}),
    Scenario('others', others, 80, 3000, setup=quiet_setup, floors={'other formatters': 200}),
]
