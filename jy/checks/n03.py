# -*- coding: us-ascii -*-
"""N03 subscribers hear every line of the server once, in order, whole, however
the network cuts the stream."""
import time
import threading
from harness import Scenario
from ref import fibsmsg, fibsphase as P, wire

from bglib.protocol import session as S

RULE = ('a case is one connection over the loopback: a generated conversation is '
        'sent in randomly cut pieces (down to single bytes, inside line ends and '
        'prompts, or many lines at once); the log of every subscriber is compared '
        'with the lines sent; a state is the sequence of cut kinds and phases')
ASSUMPTIONS = ['lines end with carriage return and line feed; only the login prompt comes without',
               'no telnet control bytes are sent']


class Counting(S.Session):
  """counts what the network really delivered at a time."""
  def __init__(self):
    S.Session.__init__(self)
    self.reads = 0
  def fill_rawq(self):
    self.reads += 1
    S.Session.fill_rawq(self)


def plain(text):
  """nothing the telnet layer would interpret."""
  return not [c for c in text if c in '\xff\x00\x11\r\n']


def conversation(rng, n):
  """[(names, text, bytes on the wire)]"""
  out = []
  phase = P.BEFORE
  move = 3.0 / n
  while len(out) < n:
    names = None
    if phase == P.RUNNING:
      if rng.random() < 0.02:
        text = '           Goodbye.'
      elif rng.random() < 0.2:
        names, text = ('CLIP_SHOUTS',), '13 %s %s' % (
            rng.choice(fibsmsg.NAMES),
            rng.choice(('please login: now', 'login: ', 'my login: and yours', 'login: login: ', ' login: x')))
      else:
        names, text = fibsmsg.message(rng)
    else:
      text = P.line(rng, phase, fibsmsg, max(move, 0.1))
    if not plain(text):
      continue
    want, after = P.step(phase, text)
    if want is not None:
      names = (want,)
    data = text + '\r\n'
    if text == 'login: ':
      # a prompt, wherever a line starts with it; the rest of the line is empty
      if phase != P.BEFORE:
        continue
      data = text
    elif text.startswith('login:'):
      # not a prompt but easily taken for one while it is incomplete
      if text.startswith('login: '):
        continue
    out.append((names, text, data))
    phase = after
  return out


END = "** There's no saved match with THE_END."


def cuts(rng, data, how):
  n = len(data)
  if how == 'bytes':
    lo = rng.randint(0, max(0, n - 120))
    at = range(lo, min(n, lo + 120))
  elif how == 'once':
    at = []
  elif how == 'nasty':
    at = []
    for mark in ('\r\n', 'login: ', 'board:'):
      k = data.find(mark)
      while k >= 0:
        if rng.random() < 0.4:
          at.append(k + rng.randint(0, len(mark)))
        k = data.find(mark, k + 1)
    rng.shuffle(at)
    at = at[:60]
  else:
    at = [rng.randint(0, n) for _ in range(rng.randint(1, 30))]
  at = sorted(set(at + [0, n]))
  return [data[a:b] for a, b in zip(at, at[1:])]


def stream(ctx, rng, i):
  how = ('nasty', 'bytes', 'random', 'once', 'nasty')[i % 5]
  lines = conversation(rng, rng.randint(10, 80))
  server = wire.Server()
  session = Counting()
  subs = [wire.Recorder('first'), wire.Recorder('deaf', deaf=('FIBS_PreLogin', 'FIBS_MOTD', 'CLIP_SHOUTS')), wire.Recorder('last')]
  session.register(*subs)
  conn = server.connect(session)
  try:
    pieces = cuts(rng, ''.join([d for _, _, d in lines]), how)
    for p in pieces:
      if p:
        conn.sendall(p)
        if len(pieces) > 1:
          time.sleep(rng.choice((0, 0.001, 0.002)))
    conn.sendall(END + '\r\n')
    def ended():
      return subs[2].got and subs[2].got[-1][1] == END
    arrived = wire.wait_for(ended)
    ctx.detail = 'how %s\nsent %r' % (how, [t for _, t, _ in lines])
    ctx.check(arrived, 'stream-lost', lambda: 'the last line never arrived; heard %d of %d' % (len(subs[2].got), len(lines)))
    for sub in subs:
      got = [g for g in sub.lines() if g[1] != END]
      want = [(names, text) for names, text, _ in lines
              if not [n for n in names if n in sub.deaf]]
      for k in range(max(len(got), len(want))):
        if not ctx.check(k < len(got) and k < len(want) and got[k][1] == want[k][1] and got[k][0] in want[k][0],
                         'stream-differs', lambda: '%s, subscriber %s, message %d: heard %r, sent %r; pieces around %r' % (
                             how, sub.name, k, got[k:k + 2], want[k:k + 2],
                             [p for p in pieces if k < len(want) and want[k][1][:8] in p][:3])):
          break
      ctx.check(not sub.overlap, 'handlers-overlap', 'two messages were handled at a time')
      ctx.event('messages heard', len(got))
    ctx.event('streams cut ' + how)
    ctx.event('network reads', session.reads)
    ctx.event('pieces sent', len(pieces))
    ctx.state((how, session.reads, [n for n, _, _ in lines]))
    if i < 2:
      ctx.sample(repr(pieces[:6]))
  finally:
    session.close()
    conn.close()
    server.close()


def same_anyway(ctx, rng, i):
  """one stream, two connections, cut differently: the same is heard."""
  lines = conversation(rng, rng.randint(10, 40))
  data = ''.join([d for _, _, d in lines])
  heard = []
  for how in ('once', rng.choice(('nasty', 'random'))):
    server = wire.Server()
    session = Counting()
    sub = wire.Recorder()
    session.register(sub)
    conn = server.connect(session)
    try:
      pieces = cuts(rng, data + END + '\r\n', how)
      for p in pieces:
        if p:
          conn.sendall(p)
          time.sleep(0.001)
      ctx.check(wire.wait_for(lambda: sub.got and sub.got[-1][1] == END), 'stream-lost', 'the last line never arrived')
      heard.append(sub.lines())
    finally:
      session.close()
      conn.close()
      server.close()
  ctx.detail = repr(data)
  ctx.check(heard[0] == heard[1], 'segmentation-matters',
            lambda: 'heard %r or %r' % ([x for x in zip(*heard) if x[0] != x[1]][:1], map(len, heard)))
  ctx.state(data)
  ctx.event('compared connections')


SCENARIOS = [
    Scenario('stream', stream, 160, 3000, floors={'streams cut nasty': 50, 'streams cut bytes': 25, 'streams cut once': 25,
             'messages heard': 10000, 'network reads': 2000}, cap=dict(quick=250.0, thorough=2400.0)),
    Scenario('same_anyway', same_anyway, 80, 1500, floors={'compared connections': 70}, cap=dict(quick=150.0, thorough=1500.0)),
]
