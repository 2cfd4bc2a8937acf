# -*- coding: us-ascii -*-
"""What a picture of a board is made of: elements of a board, style sheets applied to
them, and the drawing that follows. Written from the documents of bglib.image; uses
nothing of it."""
import os.path

MISSING = object()

INT, FLOAT, STR, URI, BOOL = 'int', 'float', 'str', 'uri', 'bool'
# name -> (type, inherited, default)
COMMON = dict(x=(INT, True, MISSING), y=(INT, True, MISSING), width=(INT, True, MISSING), height=(INT, True, MISSING),
              image=(URI, False, MISSING), flip=(BOOL, True, False), background=(STR, False, MISSING), color=(STR, False, MISSING),
              font=(URI, True, MISSING), mag=(FLOAT, True, MISSING))
PLAYER = dict(player=(STR, False, MISSING))
OFFSETS = dict(x_offset=(INT, False, 0), y_offset=(INT, False, 0))
DTD = dict(board={}, match={}, action=PLAYER, length={}, crawford={}, score=PLAYER, position={}, top_frame={}, bottom_frame={}, cubeholder={},
           field=dict(PLAYER, text=(STR, False, MISSING)),
           die=dict(backgammon=(STR, False, MISSING), diestyle=(STR, False, 'dot'), eyesize=(INT, False, MISSING), id=(STR, False, MISSING)),
           cube=dict(initialCube=(STR, False, MISSING)),
           resign=dict(PLAYER, **OFFSETS),
           home=dict(PLAYER, fill=(BOOL, True, True)),
           chequer=dict(PLAYER, x_offset2=(INT, False, 0), y_offset2=(INT, False, 0), hide_count=(BOOL, False, False), max_count=(INT, False, MISSING), **OFFSETS),
           bar=PLAYER,
           point=dict(fill=(BOOL, True, True), parity=(STR, False, MISSING)))
for _k in DTD:
  DTD[_k] = dict(COMMON, **DTD[_k])
HOLDS = dict(board=('match', 'position'), match=('action', 'length', 'crawford', 'score'),
             position=('cubeholder', 'field', 'home', 'bar', 'point', 'top_frame', 'bottom_frame'), cubeholder=('cube',), field=('die', 'cube', 'resign'),
             home=('cube', 'chequer'), bar=('chequer',), point=('chequer',))

NAMES = ('you', 'him')
YOU, HIM, CENTER = 0, 1, 3


class N(object):
  def __init__(self, name, text=None, **own):
    self.name = name
    self.texts = text is not None and [text] or []
    self.own = own
    self.kids = []
    self.parent = None
    self.lines = []

  def add(self, *kids):
    for k in kids:
      k.parent = self
      self.kids.append(k)
    return self

  def path(self):
    r, n = [], self
    while n:
      r.append(n)
      n = n.parent
    return r

  def walk(self):
    yield self
    for k in self.kids:
      for n in k.walk():
        yield n

  def key(self):
    return '/'.join(['%s%s%s' % (n.name, n.texts or '', [n.own[k] for k in ('player', 'id') if k in n.own] or '') for n in reversed(self.path())])

  def get(self, name):
    """value as shown: own, inherited or default"""
    if name not in DTD[self.name]:
      return MISSING
    if name in self.own:
      return self.own[name]
    kind, inherited, default = DTD[self.name][name]
    if inherited and self.parent is not None and name in DTD[self.parent.name]:
      return self.parent.get(name)
    return default


def tree(b, center=CENTER):
  """elements of a board, b has the fields of a board."""
  def chequers(who, n):
    return n and [N('chequer', str(n), player=NAMES[who])] or []
  other = 1 - b.on_action
  asked = b.on_inner_action != b.on_action
  resign = asked and b.resign_offer in (1, 2, 3)
  doubling = asked and b.doubled and not resign
  cube = str(b.cube_in_logarithm)
  fields = [N('field', player=NAMES[w]) for w in (YOU, HIM)]
  homes = [N('home', player=NAMES[w]) for w in (YOU, HIM)]
  bars = [N('bar', player=NAMES[w]) for w in (YOU, HIM)]
  holder = N('cubeholder')
  points = [N('point', str(i), parity=i % 2 and 'odd' or 'even') for i in range(1, 25)]
  for who in (YOU, HIM):
    for n in range(24):
      points[(n, 23 - n)[who]].add(*chequers(who, b.position[who][n]))
    bars[who].add(*chequers(who, b.position[who][24]))
    homes[who].add(*chequers(who, 15 - sum(b.position[who])))
  if not doubling:
    if b.cube_owner == center:
      holder.add(N('cube', cube))
    else:
      homes[b.cube_owner].add(N('cube', cube))
  if b.rolled != (0, 0):
    fields[b.on_action].add(N('die', str(b.rolled[0]), id='right'), N('die', str(b.rolled[1]), id='left'))
  he = b.on_action == HIM
  if resign:
    fields[other].add(N('resign', str(b.resign_offer)))
    say = (other, he and 'you to accept his resignation or not.' or 'him to accept your resignation or not.')
  elif doubling:
    fields[other].add(N('cube', str(b.cube_in_logarithm + 1)))
    say = (None, he and 'he doubled. you to take or drop.' or 'you doubled. him to take or drop.')
  elif b.rolled != (0, 0):
    say = (b.on_action, he and 'him to move.' or 'you to move.')
  elif b.doubled:
    say = (b.on_action, he and 'he doubled. you took. him to roll.' or 'you doubled. he took. you to roll.')
  else:
    say = (b.on_action, he and 'him to roll or double.' or 'you to roll or double.')
  action = N('action', say[1])
  # who is shown with the action while a double is pending is not told by any document
  action.own['player'] = say[0] is None and 'you' or NAMES[say[0]]
  match = N('match').add(action, N('length', str(b.match_length)), N('crawford', str(b.crawford)), N('score', str(b.score[YOU]), player='you'), N('score', str(b.score[HIM]), player='him'))
  position = N('position').add(N('top_frame'), N('bottom_frame'), holder, fields[YOU], homes[YOU], bars[HIM])
  position.add(*points)
  position.add(bars[YOU], homes[HIM], fields[HIM])
  return N('board').add(match, position)


# style sheets

class Rule(object):
  def __init__(self, path, line, selectors, block):
    self.path = path
    self.line = line
    self.selectors = selectors # (element, (name, value) or None, data or None)
    self.block = block # name -> text


def read(path):
  """rules of a file, one a line."""
  rules = []
  for no, line in enumerate(open(path).readlines()):
    if line.lstrip().startswith('#') or '{' not in line or '}' not in line.split('{', 1)[1]:
      continue
    head, body = line.split('{', 1)
    body = body[:body.rindex('}')]
    selectors = []
    for s in head.split():
      data = attr = None
      if ':data(' in s:
        s, data = s[:-1].split(':data(')
      if '[' in s:
        s, a = s[:-1].split('[')
        attr = tuple(a.split('='))
      selectors.append((s, attr, data))
    block = {}
    for d in body.split(';'):
      if ':' in d:
        name, value = d.split(':', 1)
        block[name.strip()] = value.split()[0]
    rules.append(Rule(path, no + 1, selectors, block))
  return rules


def value(kind, text, path):
  if kind == INT:
    return int(text)
  if kind == FLOAT:
    return float(text)
  if kind == BOOL:
    return text == 'True'
  if kind == URI:
    return os.path.join(os.path.dirname(path), text.split('"')[1])
  return text


def fits(node, selector):
  element, attr, data = selector
  if node.name != element:
    return False
  if attr is not None:
    if attr[0] not in node.own:
      return False
    if node.own[attr[0]] != value(DTD[node.name][attr[0]][0], attr[1], ''):
      return False
  return data is None or data in node.texts


def matches(node, rule):
  sel = rule.selectors
  if not fits(node, sel[-1]):
    return False
  def rest(path, k):
    # some ancestor for each selector, in order
    if k < 0:
      return True
    for i, a in enumerate(path):
      if fits(a, sel[k]) and rest(path[i + 1:], k - 1):
        return True
    return False
  return rest(node.path()[1:], len(sel) - 2)


def style(top, rules):
  for node in top.walk():
    for r in rules:
      if matches(node, r):
        for name, text in r.block.items():
          node.own[name] = value(DTD[node.name][name][0], text, r.path)
        node.lines.append(r.line)
  return top


# drawing

def drawing(top, size):
  """what is drawn: ('rect', position, size, colour), ('image', file, flip, position, size),
  ('ellipse', position, size, colour), ('polygon', points, colour), ('text', position, size, text, font, colour)"""
  mag = min(float(size[0]) / top.get('width'), float(size[1]) / top.get('height'))
  ops = []
  def m(n):
    return int(n * mag)
  for e in top.walk():
    g = lambda name: e.get(name)
    has = lambda name: e.get(name) is not MISSING
    if not (has('background') or has('image') or has('color')):
      continue
    pos = (m(g('x')), m(g('y')))
    box = (m(g('width')), m(g('height')))
    text = e.texts and e.texts[0]
    font = has('font') and g('font') or None
    if has('background'):
      ops.append(('rect', pos, box, g('background')))
    if not (has('image') or has('color')):
      continue
    color = has('color') and g('color') or None
    image = has('image') and ('image', g('image'), g('flip')) or None
    def write(s):
      ops.append(('text', pos, box, s, font, color))
    if e.name == 'chequer':
      n, most = int(text), g('max_count')
      x, y = pos
      for k in range(min(n, most)):
        ops.append(image and image + ((x, y), box) or ('ellipse', (x, y), box, color))
        x, y = x + m(g('x_offset')), y + m(g('y_offset'))
        p = e.parent
        if x + box[0] > m(p.get('x')) + m(p.get('width')) or y + box[1] > m(p.get('y')) + m(p.get('height')):
          x, y = x + m(g('x_offset2')), y + m(g('y_offset2'))
      if font and not g('hide_count') and n > most:
        ops.append(('text', (x, y), box, str(n), font, color or 'white'))
    elif e.name == 'resign' and image:
      x, y = pos
      for k in range(int(text)):
        x, y = x + m(g('x_offset')), y + m(g('y_offset'))
        ops.append(('image', g('image'), False, (x, y), box))
    elif image:
      ops.append(image + (pos, box))
    elif e.name == 'point':
      x, y, w, h = pos + box
      base, apex = g('flip') and (y, y + h) or (y + h, y)
      ops.append(('polygon', ((x, base), (x + w / 2, apex), (x + w, base)), g('fill') and color or None))
    elif e.name == 'die' and g('diestyle') == 'dot':
      d = m(g('eyesize'))
      at = lambda i, j: (pos[0] + box[0] * i / 4 - d / 2, pos[1] + box[1] * j / 4 - d / 2)
      mid = (pos[0] + box[0] / 2 - d / 2, pos[1] + box[1] / 2 - d / 2)
      n = int(text)
      dots = []
      if n > 1:
        dots += [at(3, 1), at(1, 3)]
      if n > 3:
        dots += [at(1, 1), at(3, 3)]
      if n == 6:
        dots += [at(1, 2), at(3, 2)]
      if n % 2:
        dots.append(mid)
      ops += [('ellipse', p, (d, d), color) for p in dots]
    elif font:
      if e.name in ('action', 'length', 'score') or e.name == 'die':
        write(text)
      elif e.name == 'crawford':
        if text == 'True':
          write('*')
      elif e.name == 'field':
        if has('text') and g('text'):
          write(g('text'))
      elif e.name == 'cube':
        write(text == '0' and has('initialCube') and g('initialCube') or str(2 ** int(text)))
      elif e.name == 'resign':
        write(('none', 'single', 'gammon', 'backgammon')[int(text)])
  return ops
