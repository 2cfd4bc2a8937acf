# -*- coding: us-ascii -*-
"""D05 macros: pictures of positions, tables of analyses, errors, own macros."""
import urlparse

import bglib.doc.bgwiki as W
import bglib.doc.doctree as T
import bglib.doc.macro as K

from harness import Scenario
from ref import wikidoc, xhtml

RULE = ('a case is a macro with random arguments, given by dispatch or inside of wiki text, '
        'and a data base of random analyses; the rendering is read by an XML parser: the '
        'query of the picture and every cell of the tables are compared with what was asked '
        'for and what the data base said; a state is the macro with its arguments')
ASSUMPTIONS = ['options in the documented order (css, format, width, height)',
               'probabilities and equities are shown as %2.1f and %+1.3f of what the data base gives']

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def gnubgid(rng):
  return ''.join([rng.choice(B64) for _ in range(14)]) + ':' + ''.join([rng.choice(B64) for _ in range(12)])


def options(rng):
  """text of options, what they mean"""
  d = dict(css='minimal', format='png', width='400', height='300')
  s = ''
  for k in ('css', 'format', 'width', 'height'):
    if rng.random() < 0.45:
      if k in ('css', 'format'):
        v = ''.join([rng.choice('abcxyzSVGpng') for _ in range(rng.randint(1, 9))])
      else:
        v = str(rng.choice((1, 7, 10, 100, 399, 640, 12345)))
      s += ',' + ' ' * rng.choice((0, 0, 1, 2)) + k + '=' + v
      d[k] = v
  return s, d


def rendered(ctx, macro, args, wiki, before='', after=''):
  """tree of the page with that macro between two words."""
  if wiki:
    f = W.Formatter(None)
    f.parse('%s[[%s%s]]%s' % (before, macro, args is not None and '(%s)' % args or '', after))
    html = f.make_html()
  else:
    root = T.BgWikiElementRoot()
    ed = T.Editor()
    ed.start(root)
    ed.enter(T.DivElement)
    ed.append_text(before)
    K.dispatch(ed, macro, args)
    ed.append_text(after)
    ed.done()
    wr = T.HtmlWriter()
    ed.accept(wr)
    html = wr.html()
  try:
    return xhtml.parse(html)
  except xhtml.Broken, e:
    ctx.check(False, 'not-well-formed', lambda: '%s(%s) renders to %r: %s' % (macro, args, html, e))
    return None


def find(tree, tag, **attrs):
  return [d for d in tree.walk() if d.tag == tag and not [k for k in attrs if d.attrs.get(k.replace('_', '')) != attrs[k]]]


def flat(e):
  return ' '.join(e.text().split())


def position(ctx, rng, i):
  gid = gnubgid(rng)
  s, want = options(rng)
  want['gnubgid'] = gid
  ctx.detail = gid + s
  tree = rendered(ctx, 'Position', gid + s, rng.random() < 0.6, 'before ', ' after')
  if tree is None:
    return
  img = find(tree, 'img')
  if ctx.equal(len(img), 1, 'picture', 'pictures of Position(%s)' % (gid + s)):
    u = urlparse.urlparse(img[0].attrs['src'])
    ctx.equal((u[0], u[1], u[2], u[5]), ('', '', '/image', ''), 'picture-address', 'address of the picture')
    got = urlparse.parse_qs(u[4], True, True)
    ctx.equal(dict([(str(k), [str(x) for x in v]) for k, v in got.items()]), dict([(k, [v]) for k, v in want.items()]), 'picture-query', 'query of the picture of Position(%s)' % (gid + s))
    box = find(tree, 'span', class_='position')
    ctx.check(len(box) == 1 and img[0] in box[0].children and not box[0].text().strip(), 'picture-box', lambda: 'Position(%s) stands in its span alone' % gid)
  ctx.equal(flat(tree), 'before after', 'text-around', 'text around Position(%s)' % gid)
  ctx.event('pictures')
  ctx.state(gid + s)


class Db(object):
  def __init__(self, answer):
    self.answer = answer
    self.asked = []
  def get_analysis(self, pid, mid):
    self.asked.append((pid, mid))
    return self.answer


def probs(rng):
  d = {}
  for k in ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg'):
    d[k] = rng.choice((0.0, 1.0, 0.049, 0.51, rng.random(), rng.random() * 100, 100.0, 99.97))
  return d


def cells(d):
  return ['%2.1f' % d[k] for k in ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg')]


def equity(rng):
  return rng.choice((0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.uniform(-3, 3), 0.0004, -2.9999))


HEADS = ['Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg']
ACTIONS = ['No double', 'Double, take', 'Double, pass', 'Too good to double']


def table(t):
  return [(r.attrs.get('class'), [(c.tag, flat(c), str(c.attrs.get('rowspan', '1')), str(c.attrs.get('colspan', '1'))) for c in r.children if isinstance(c, xhtml.Element)])
          for r in t.children if isinstance(r, xhtml.Element)]


def row(klass, *cs):
  r = []
  for c in cs:
    if isinstance(c, tuple):
      r.append((c[0], c[1], str(c[2]), str(c[3])))
    else:
      r.append(('td', c, '1', '1'))
  return (klass, r)


def th(s, down=1, over=1):
  return ('th', s, down, over)


def shade(n, actual):
  return actual and 'actualrow' or ('evenrow', 'oddrow')[n % 2]


def analysis(ctx, rng, i):
  gid = gnubgid(rng)
  s, _ = options(rng)
  wants = []
  extra = rng.random() < 0.5 and {'cubeful': True, 'other': 'x'} or {}
  if i % 2:
    kind = 'cube'
    head = dict(name='CubelessEquity', ply=rng.randint(0, 4), cubeless=equity(rng), money=equity(rng))
    head.update(probs(rng))
    ps = cells(head)
    wants.append(('cubeless', [row('headerrow', th('Ply', 2), th('Cubeless Eq.', 1, 6)), row('headerrow', *[th(h) for h in HEADS]),
                               row('oddrow', ('td', '%d' % head['ply'], 2, 1), ('td', '%+1.3f (Money %+1.3f)' % (head['cubeless'], head['money']), 1, 6)),
                               row('oddrow', *ps)]))
    rows, want = [], [row('headerrow', th('#'), th('action'), th('Cubeful Eq.', 1, 2))]
    for n in range(1, rng.choice((1, 3, 3, 4, 5)) + 1):
      d = dict(nth=n, action=rng.randint(0, 3), equity=equity(rng))
      if rng.random() < 0.8:
        d['diff'] = rng.choice((None, 0.0, equity(rng)))
      if rng.random() < 0.7:
        d['actual'] = rng.random() < 0.4
      d.update(extra)
      rows.append(d)
      diff = d.get('diff')
      want.append(row(shade(n, d.get('actual')), th('%d' % n), ACTIONS[d['action']], '%+1.3f' % d['equity'], diff and '%+1.3f' % diff or ''))
    wants.append(('cubeaction', want))
    answer = (True, (head,) + tuple(rows))
  else:
    kind = 'move'
    rows = []
    want = [row('headerrow', th('#', 2), th('move', 2), th('Ply', 2), th('Eq.(diff)', 1, 6)), row('headerrow', *[th(h) for h in HEADS])]
    for n in range(1, rng.choice((1, 2, 3, 8, 20)) + 1):
      d = dict(nth=n, ply=rng.randint(0, 4), equity=equity(rng), diff=rng.choice((None, 0.0, equity(rng))),
               move=rng.choice(('21/15(2) 13/7(2)', 'bar/20 24/off', '8/2*(2)', 'Cannot move', '13/7*/3', '')))
      d.update(probs(rng))
      if rng.random() < 0.7:
        d['actual'] = rng.random() < 0.4
      d.update(extra)
      rows.append(d)
      k = shade(n, d.get('actual'))
      eq = '%+1.3f' % d['equity'] + (d['diff'] and ' (%+1.3f)' % d['diff'] or '')
      want.append(row(k, th('%d' % n, 2), ('td', d['move'], 2, 1), ('td', '%d' % d['ply'], 2, 1), ('td', eq, 1, 6)))
      want.append(row(k, *cells(d)))
    wants.append(('move', want))
    answer = (False, tuple(rows))
  ctx.detail = (gid + s, answer)
  db = Db(answer)
  K.setup(db)
  tree = rendered(ctx, 'Analysis', gid + s, rng.random() < 0.6, 'before ', ' after')
  if tree is None:
    return
  ctx.equal(db.asked, [(gid[:14], gid[15:])], 'asked', 'what the data base was asked for by Analysis(%s)' % gid)
  got = [(t.attrs.get('class'), table(t)) for t in find(tree, 'table')]
  ctx.equal(got, wants, 'tables', 'tables of Analysis(%s)' % gid)
  rest = [c for c in tree.children if isinstance(c, xhtml.Element)]
  top = rest and rest[0] or tree
  around = ' '.join(''.join([c for c in top.children if not isinstance(c, xhtml.Element)]).split())
  ctx.equal(around, 'before after', 'text-around', 'text around Analysis')
  ctx.event('%s rows' % kind, len(rows))
  ctx.state(repr(answer))
  # the same again, the data base having changed its mind
  if rng.random() < 0.2:
    K.setup(Db((answer[0], answer[1][:answer[0] and 2 or 1])))
    tree = rendered(ctx, 'Analysis', gid, False)
    got = [(t.attrs.get('class'), table(t)) for t in find(tree, 'table')]
    cut = [(k, t[:{'cubeless': 4, 'cubeaction': 2, 'move': 4}[k]]) for k, t in wants]
    ctx.equal(got, cut, 'another-data-base', 'tables of another data base')


BAD = ['haha:hahaha', 'vzsAAFhu2xFAB:QYkqASAAIAAA', ':', '', ' vzsAAFhu2xFABA:QYkqASAAIAAA', 'css=safari', 'vzsAAFhu2xFABA,QYkqASAAIAAA', 'vzsAAFhu2xFABA QYkqASAAIAAA',
       '<b>:&amp;"', 'vzs_AFhu2xFABA:QYkqASAAIAAA', 'vzsAAFhu2xFABA:QYkqASAAIAA']


def errors(ctx, rng, i):
  K.setup(Db(None))
  if i % 2:
    macro = rng.choice(('Position', 'Analysis'))
    args = rng.choice(BAD)
    if rng.random() < 0.15:
      args = None
    tree = rendered(ctx, macro, args, False, 'before ', ' after')
    want = 'Bad args "%s" for %s' % (args or 'None', macro)
  else:
    macro = rng.choice(('NoSuch', 'position', 'Positio', 'Positions', 'setup', 'dispatch', 'X_1', '<b>', '$name'))
    args = rng.choice((None, 'a', 'a, b=c', '<x>&"', '$args', '%s', '$$', gnubgid(rng)))
    tree = rendered(ctx, macro, args, False, 'before ', ' after')
    want = 'No such macro "%s" with argument "%s"' % (macro, args or 'None')
  ctx.detail = (macro, args)
  if tree is None:
    return
  span = find(tree, 'span', class_='error')
  ctx.equal([flat(x) for x in span], [' '.join(want.split())], 'error-text', 'error of %s(%s)' % (macro, args))
  ctx.equal([d.tag for d in tree.walk()], ['x', 'div', 'span'], 'error-alone', 'elements with the error of %s(%s)' % (macro, args))
  ctx.equal(flat(tree), ' '.join(('before ' + want + ' after').split()), 'text-around', 'text around the error of %s(%s)' % (macro, args))
  ctx.event('errors')
  ctx.state(repr((macro, args)))


def own(ctx, rng, i):
  """macros of the application: found by name, arguments as written, gone when unregistered."""
  heard = []
  name = 'Mine%d' % rng.randint(0, 3)
  result = rng.choice((True, True, False))
  def make(n, res):
    def f(editor, args):
      heard.append((n, args))
      editor.append_text(' %s! ' % n)
      return res
    f.func_name = n
    return f
  f = make(name, result)
  g = make('Other', True)
  class Caller(K.Processor):
    def __call__(self, editor, args):
      heard.append(('Caller', args))
      return True
  c = Caller()
  K.register(f)
  K.register(g)
  K.register(c)
  args = rng.choice((None, 'a', 'a, b=c', '1+1=2', '/x/y:z', 'a.b#c', ' ', 'a,,b'))
  try:
    ctx.detail = (name, args, result)
    for who in (name, 'Other', name, 'Caller'):
      del heard[:]
      tree = rendered(ctx, who, args, rng.random() < 0.7, 'before ', ' after')
      ctx.equal(heard, [(who, args)], 'own-arguments', 'calls of macros for [[%s(%s)]]' % (who, args))
      text = flat(tree)
      said = who != 'Caller' and ' %s!' % who or ''
      bad = (who == name and not result) and ' Bad args "%s" for %s' % (args or 'None', who) or ''
      ctx.equal(text, ' '.join(('before%s%s after' % (said, bad)).split()), 'own-text', 'text with [[%s(%s)]]' % (who, args))
      ctx.event('own macros')
  finally:
    K.unregister(name, f)
    K.unregister('Caller', c)
  del heard[:]
  for who in (name, 'Caller'):
    tree = rendered(ctx, who, args, True)
    ctx.equal([flat(x) for x in find(tree, 'span', class_='error')], [' '.join(('No such macro "%s" with argument "%s"' % (who, args or 'None')).split())], 'unregistered', 'unregistered %s' % who)
  ctx.equal(heard, [], 'unregistered-called', 'calls of unregistered macros')
  tree = rendered(ctx, 'Other', 'x', True)
  ctx.equal(heard, [('Other', 'x')], 'others-stay', 'a macro left registered')
  K.unregister('Other', g)
  ctx.state(repr((name, args, result, i % 50)))


SCENARIOS = [
    Scenario('position', position, 1600, 50000, floors={'pictures': 1500}),
    Scenario('analysis', analysis, 1200, 30000, floors={'cube rows': 800, 'move rows': 2000}),
    Scenario('errors', errors, 600, 8000, floors={'errors': 500}),
    Scenario('own', own, 400, 8000, floors={'own macros': 1000}),
]
