# -*- coding: us-ascii -*-
"""I02 the element tree of a board shows exactly that board."""
import glob
import os
import os.path
import shutil
import tempfile
import xml.parsers.expat

from java.io import StringReader
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import EntityResolver, ErrorHandler, InputSource

import bglib.encoding.gnubgid
import bglib.image
import bglib.image.base as B
import bglib.image.css
import bglib.image.testwriter
from bglib.model import Board, BoardEditor
from bglib.model import constants as K

from harness import Scenario
from ref import picture, rules, sheet, states

RULE = ('a case is a board at a random moment of a game (to roll, to move, doubled, taken, resignation offered before '
        'and after the roll), or every state of a random game in turn; its tree, and the XML of it as read by a parser, are compared with '
        'a tree built from the fields of the board; the trees kept with the bundled '
        'themes are compared, too; a state is the set of fields of a board')
ASSUMPTIONS = ['a game is going on; who is shown with the action while a double is pending is free']


class X(object):
  pass


def parse(text):
  """(name, attributes, text, children) of an XML document"""
  stack = [('', {}, [], [])]
  p = xml.parsers.expat.ParserCreate()
  p.buffer_text = True
  def start(name, attrs):
    e = (str(name), dict([(str(k), str(v)) for k, v in attrs.items()]), [], [])
    stack[-1][3].append(e)
    stack.append(e)
  p.StartElementHandler = start
  p.EndElementHandler = lambda name: stack.pop()
  p.CharacterDataHandler = lambda s: stack[-1][2].append(s)
  p.Parse(text, True)
  def tidy(e):
    return (e[0], e[1], ' '.join(''.join(e[2]).split()), [tidy(c) for c in e[3]])
  return tidy(stack[0][3][0])


class Resolver(EntityResolver):
  """gives the document type of bglib, whatever is asked for"""
  def resolveEntity(self, public, system):
    return InputSource(StringReader(B.Element.make_dtd()))


class Errors(ErrorHandler):
  def __init__(self):
    self.found = []

  def warning(self, e):
    self.found.append(str(e))
  error = fatalError = warning


def invalid(text):
  """what a validating parser says of a document"""
  factory = DocumentBuilderFactory.newInstance()
  factory.setValidating(True)
  builder = factory.newDocumentBuilder()
  errors = Errors()
  builder.setEntityResolver(Resolver())
  builder.setErrorHandler(errors)
  builder.parse(InputSource(StringReader(text)))
  return errors.found


def of_tree(e):
  """the same of elements of bglib"""
  own = dict([(k, str(v.get())) for k, v in e.attributes.items()])
  texts = [c for c in e.children if not isinstance(c, B.BaseElement)]
  return (e.name, own, ' '.join(texts), [of_tree(c) for c in e.children if isinstance(c, B.BaseElement)])


def of_ref(n):
  return (n.name, dict([(k, str(v)) for k, v in n.own.items()]), ' '.join(n.texts), [of_ref(k) for k in n.kids])


def loose(e):
  """order of siblings and the player of a pending double left out"""
  own = dict(e[1])
  if e[0] == 'action' and 'take or drop' in e[2]:
    own.pop('player', None)
  return (e[0], sorted(own.items()), e[2], sorted([loose(c) for c in e[3]]))


def first(a, b, path=''):
  """first difference"""
  p = '%s/%s' % (path, b[0])
  if a[:3] != b[:3]:
    return 'in %s: got %r, expected %r' % (p, a[:3], b[:3])
  for x, y in zip(a[3], b[3]):
    d = first(x, y, p)
    if d:
      return d
  if len(a[3]) != len(b[3]):
    n = min(len(a[3]), len(b[3]))
    return 'in %s: got then %r, expected %r' % (p, a[3][n:n + 1], b[3][n:n + 1])
  return None


def compare(ctx, board, what):
  want = loose(of_ref(picture.tree(board, K.CENTER)))
  t = B.ElementTree(board)
  d = first(loose(of_tree(t.board)), want)
  ctx.check(d is None, 'tree', lambda: '%s: %s; board %r' % (what, d, board))
  text = t.xml()
  try:
    got = parse(text)
  except xml.parsers.expat.ExpatError, e:
    ctx.check(False, 'xml', lambda: '%s: %s: %r' % (what, e, text))
    return
  d = first(loose(got), want)
  ctx.check(d is None, 'xml-tree', lambda: '%s: %s; board %r' % (what, d, board))
  bad = invalid(text)
  ctx.check(not bad, 'valid', lambda: '%s: not valid by the document type: %r' % (what, bad[:2]))
  # an element knows where it is
  def visit(path):
    e = path[-1]
    seen.append(e)
    for a, b in zip(path, path[1:]):
      ctx.check(b.parent is a and b in a.children, 'path', lambda: '%s: path %r' % (what, [x.name for x in path]))
    for c in e.children:
      if isinstance(c, B.BaseElement):
        ctx.check(c.name in e.DTD_ELEMENT, 'dtd', lambda: '%s in %s' % (c.name, e.name))
  seen = []
  t.visit(visit)
  def count(e):
    return 1 + sum([count(c) for c in e[3]])
  ctx.equal(len(seen), count(want), 'visited', '%s: elements visited' % what)
  ctx.equal(len(set([id(e) for e in seen])), len(seen), 'visited-twice', '%s: elements visited once' % what)
  ctx.event(what)
  ctx.event('trees')
  ctx.state(repr([(f, getattr(board, f)) for f in sorted(Board.defaults)]))


def moments(ctx, rng, i):
  kind, b = states.state(rng)
  ctx.detail = repr(b)
  compare(ctx, b, kind)
  if i < 2:
    ctx.sample('%s: %r' % (kind, b))


def games(ctx, rng, i):
  """trees along a game: what happened before leaves nothing behind."""
  e = BoardEditor(Board(position=rules.join(*(rules.random_position(rng) + (K.YOU,))), game_state=K.ON_GOING, match_length=rng.choice((0, 5, 9))))
  for _ in range(rng.randint(3, 14)):
    who = e.on_action
    r = rng.random()
    if e.on_inner_action != who:
      if e.resign_offer != K.RESIGN_NONE:
        e.reject_resign(1 - who)
      else:
        e.take(1 - who)
    elif e.rolled == (0, 0):
      if r < 0.25 and e.is_leagal_to_double(who):
        e.double(who)
      elif r < 0.45:
        e.offer_resign(who, rng.choice((1, 2, 3)))
      else:
        e.rolled = rules.random_roll(rng)
    elif r < 0.2:
      e.offer_resign(who, rng.choice((1, 2, 3)))
    else:
      e.position = rules.join(*(tuple(rules.random_position(rng)) + (who,)))
      e.pickupdice()
    ctx.detail = repr(e)
    compare(ctx, rng.random() < 0.5 and e.freeze() or e, 'game')
  ctx.event('games')


MIRROR = {}
for _a, _b in (('you to roll or double.', 'him to roll or double.'), ('you to move.', 'him to move.'),
               ('you doubled. him to take or drop.', 'he doubled. you to take or drop.'),
               ('you doubled. he took. you to roll.', 'he doubled. you took. him to roll.'),
               ('you to accept his resignation or not.', 'him to accept your resignation or not.')):
  MIRROR[_a] = _b
  MIRROR[_b] = _a


def swapped(ctx, rng, i):
  """seen from the other side, everything of you is of him."""
  kind, b = states.state(rng)
  s = dict([(f, getattr(b, f)) for f in Board.defaults])
  swap = {K.YOU: K.HIM, K.HIM: K.YOU}
  for f in ('on_action', 'on_inner_action', 'cube_owner'):
    s[f] = swap.get(s[f], s[f])
  for f in ('position', 'score'):
    s[f] = (s[f][1], s[f][0])
  other = Board(**s)
  def mirror(e):
    own = dict(e[1])
    if 'player' in own:
      own['player'] = {'you': 'him', 'him': 'you'}[own['player']]
    text = e[2]
    if e[0] == 'action':
      own.pop('player', None)
      text = MIRROR.get(text, 'no text: ' + text)
    if e[0] == 'point':
      text = str(25 - int(text))
      own.pop('parity')
    return (e[0], own, text, [mirror(c) for c in e[3]])
  def plain(e):
    own = dict(e[1])
    text = e[2]
    if e[0] == 'action':
      own.pop('player', None)
    if e[0] == 'point':
      own.pop('parity')
    return (e[0], own, text, [plain(c) for c in e[3]])
  a = of_tree(B.ElementTree(b).board)
  c = of_tree(B.ElementTree(other).board)
  d = first(loose(mirror(a)), loose(plain(c)))
  ctx.check(d is None, 'swapped', lambda: '%s: %s; board %r' % (kind, d, b))
  ctx.event('swapped')
  ctx.state(repr(other))


FOLDERS = ('themes', 'my themes', "nori's", 'black&white', 'a<b', 'x;y', '&amp;', '1 > 0', 'a&#65;', '{}', 'q"q')


def scratch():
  d = tempfile.mkdtemp(prefix='bgverif-i02.')
  return d


def styled(ctx, rng, i):
  """the XML of a styled tree reads back with every attribute the styles gave."""
  kind, b = states.state(rng)
  t = B.ElementTree(b)
  folder = os.path.join(ctx.env, rng.choice(FOLDERS))
  if not os.path.isdir(folder):
    os.mkdir(folder)
  path = os.path.join(folder, 'x%d.css' % (i % 7))
  text, said = sheet.sheet(rng, path, rng.choice((2, 10, 40)))
  f = open(path, 'wb')
  f.write(text)
  f.close()
  bglib.image.css.load(path).apply(t)
  want = of_tree(t.board)
  ctx.detail = (path, text, repr(b))
  for what, got in (('xml', t.xml()), ('str', str(t))):
    try:
      got = parse(got)
    except xml.parsers.expat.ExpatError, e:
      ctx.check(False, 'xml', lambda: 'styled: %s: %r' % (e, got))
      return
    d = first(got, want)
    ctx.check(d is None, 'styled-xml', lambda: 'styled by %r: %s; board %r' % (path, d, b))
  bad = invalid(t.xml())
  ctx.check(not bad, 'valid', lambda: 'styled: not valid by the document type: %r' % (bad[:2],))
  def count(e):
    return len([v for v in e[1].values() if v.startswith(ctx.env)]) + sum([count(c) for c in e[3]])
  ctx.event('paths', count(want))
  ctx.event('styled trees')
  ctx.state(path + text)


THEMES = os.path.join(os.path.dirname(bglib.image.__file__), 'resource')


def kept_trees():
  r = []
  for css in sorted(glob.glob(os.path.join(THEMES, '*', 'default.css'))):
    for name in sorted(bglib.image.testwriter.tests):
      f = os.path.join(os.path.dirname(css), 'test', name + '.xml')
      if os.path.exists(f):
        r.append((css, f, bglib.image.testwriter.tests[name]))
  return r


def kept(ctx, rng, i):
  """the trees the maintainer keeps with the themes."""
  css, f, (pid, mid) = kept_trees()[i]
  b = BoardEditor()
  bglib.encoding.gnubgid.decode(b, pid, mid)
  t = B.ElementTree(b)
  bglib.image.css.load(css).apply(t)
  def base(e):
    own = dict([(k, k in ('font', 'image') and os.path.basename(v) or v) for k, v in e[1].items()])
    return (e[0], own, e[2], [base(c) for c in e[3]])
  d = first(base(parse(str(t))), base(parse(open(f).read())))
  ctx.check(d is None, 'kept-tree', lambda: '%s:%s in %s differs from %s: %s' % (pid, mid, css, f, d))
  ctx.event('kept trees')
  ctx.state((css, pid, mid))


SCENARIOS = [
    Scenario('moments', moments, 800, 40000, floors={'trees': 700, 'doubled': 50, 'resigned after': 50, 'taken and resigned': 50}),
    Scenario('games', games, 96, 5000, floors={'games': 90}),
    Scenario('swapped', swapped, 400, 12000, floors={'swapped': 350}),
    Scenario('styled', styled, 300, 12000, setup=scratch, floors={'styled trees': 250, 'paths': 600}),
    Scenario('kept', kept, lambda: len(kept_trees()), lambda: len(kept_trees()), exhaustive=True, floors={'kept trees': 20}),
]
