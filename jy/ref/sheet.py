# -*- coding: us-ascii -*-
"""Random style sheets, as text and as rules."""
from ref.picture import DTD, HOLDS, INT, FLOAT, STR, URI, BOOL, Rule

COLORS = ['white', 'black', '#596580', 'red', '#ee40d6', 'gold']
UP = {}
for _p in HOLDS:
  for _c in HOLDS[_p]:
    UP.setdefault(_c, []).append(_p)


def text_of(rng, element, name):
  kind = DTD[element][name][0]
  if name == 'diestyle':
    return rng.choice(('dot', 'numeric'))
  if name == 'id':
    return rng.choice(('left', 'right'))
  if name == 'player':
    return rng.choice(('you', 'him'))
  if name == 'parity':
    return rng.choice(('odd', 'even'))
  if kind == INT:
    if name in ('width', 'height', 'eyesize', 'max_count'):
      return str(rng.choice((1, 2, 3, 5, 16, 88, 341)))
    return str(rng.choice((0, 0, 1, 5, 17, 133, 266, -18, -1)))
  if kind == FLOAT:
    return rng.choice(('1.0', '0.5', '2.25'))
  if kind == BOOL:
    return rng.choice(('True', 'False'))
  if kind == URI:
    return 'uri("%s")' % rng.choice(('a.png', 'b.jpg', 'sub/c.png', 'x_1-2.ttf'))
  return rng.choice(COLORS)


SKIP = ('mag', 'backgammon', 'player', 'parity', 'id')


def selector(rng, element, texts):
  """(element, attribute, data)"""
  attr = data = None
  names = [n for n in ('player', 'parity', 'id') if n in DTD[element]]
  if names and rng.random() < 0.4:
    n = rng.choice(names)
    attr = (n, text_of(rng, element, n))
  elif rng.random() < 0.08:
    n = rng.choice([m for m in ('x', 'flip', 'color', 'width') if m in DTD[element]] or ['x'])
    v = text_of(rng, element, n)
    if n == 'color':
      v = rng.choice(('white', 'red', 'gold')) # letters, digits, - and _ only
    attr = (n, v)
  if rng.random() < 0.3:
    data = rng.choice(texts.get(element, ['1']))
  return (element, attr, data)


TEXTS = dict(point=[str(n) for n in range(1, 25)], chequer=[str(n) for n in range(1, 16)], die=list('123456'), cube=list('0123456789'), resign=list('123'),
             crawford=['True', 'False'], score=list('01234'), length=list('01357'))


def rule(rng, path, line, element=None, names=None):
  element = element or rng.choice(DTD.keys())
  sel = [selector(rng, element, TEXTS)]
  e = element
  while e in UP and rng.random() < 0.35:
    e = rng.choice(UP[e])
    if rng.random() < 0.8:
      sel.insert(0, selector(rng, e, TEXTS))
  if rng.random() < 0.03:
    sel.insert(0, (rng.choice(DTD.keys()), None, None)) # hardly an ancestor
  block = {}
  pool = names or [n for n in DTD[element] if n not in SKIP]
  for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
    n = rng.choice(pool)
    block[n] = text_of(rng, element, n)
  return Rule(path, line, sel, block)


def write(rng, r):
  """the line of a rule"""
  sp = lambda: ' ' * rng.choice((0, 0, 1, 2))
  parts = []
  for e, attr, data in r.selectors:
    q, q2 = [rng.choice(('', '', '', '"', "'")) for _ in '12']
    parts.append(e + (attr and '[%s=%s%s%s]' % (attr[0], q, attr[1], q) or '') + (data and ':data(%s%s%s)' % (q2, data, q2) or ''))
  decls = ['%s%s%s:%s%s%s' % (sp(), n, sp(), sp(), v, sp()) for n, v in r.block.items()]
  body = ';'.join(decls)
  if decls and rng.random() < 0.5:
    body += ';' + sp()
  return sp() + (' ' * rng.choice((1, 1, 2))).join(parts) + sp() + '{' + (body or sp()) + '}' + sp()


NOISE = ['', '', '   ', '#; flip=True}', '# a comment', '#point {x: 1}', '# chequer {color: red; max_count: 3}', ' #board {background: red}']


def sheet(rng, path, n):
  """text of a style sheet, its rules"""
  lines, rules = [], []
  for _ in range(n):
    while rng.random() < 0.25:
      lines.append(rng.choice(NOISE))
    r = rule(rng, path, len(lines) + 1)
    lines.append(write(rng, r))
    rules.append(r)
  return rng.choice(('\n', '\n', '\r\n')).join(lines) + rng.choice(('', '\n')), rules
