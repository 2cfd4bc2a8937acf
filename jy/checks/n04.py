# -*- coding: us-ascii -*-
"""N04 registration, sending and termination of live sessions."""
import socket
import threading
import time
from harness import Scenario
from ref import fibsmsg, wire

from bglib.protocol import session as S

RULE = ('a case is one live session over the loopback with a random history of '
        'registering, unregistering (also from inside a handler), sending from '
        'several threads, or closing at a random moment from a random place; the '
        'logs on both ends are compared with what the history allows; a state is '
        'the history')
ASSUMPTIONS = ['handlers return normally', 'a session is opened once',
               'what a subscriber hears of the very message during which another handler registers or unregisters it is left open']


def say(conn, k):
  conn.sendall('13 someplayer message %d\r\n' % k)


def expect(k):
  return ('CLIP_SHOUTS', '13 someplayer message %d' % k)


def start(server, session):
  conn = server.connect(session)
  conn.sendall('3\r\n4\r\n')
  return conn


def registration(ctx, rng, i):
  """each subscriber hears exactly what is said while it is registered."""
  server = wire.Server()
  session = S.Session()
  control = wire.Recorder('control')
  session.register(control)
  subs = {}     # name -> [recorder, registered?, expected]
  log = []
  conn = start(server, session)
  said = 0
  fresh = [0]
  def new():
    fresh[0] += 1
    r = wire.Recorder('s%d' % fresh[0])
    subs[r.name] = [r, False, []]
    return r
  try:
    wire.wait_for(lambda: len(control.got) == 2)
    for _ in range(rng.randint(5, 25)):
      op = rng.choice(('register', 'register', 'register many', 'unregister', 'say', 'say', 'say', 'again'))
      if op == 'register':
        r = new()
        session.register(r)
        subs[r.name][1] = True
      elif op == 'register many':
        rs = [new() for _ in range(rng.randint(2, 4))]
        session.register(*rs)
        for r in rs:
          subs[r.name][1] = True
      elif op == 'unregister':
        on = [s for s in subs.values() if s[1]]
        if not on:
          continue
        some = rng.sample(on, rng.randint(1, min(2, len(on))))
        session.unregister(*[s[0] for s in some])
        for s in some:
          s[1] = False
      elif op == 'again':
        off = [s for s in subs.values() if not s[1]]
        if not off:
          continue
        s = rng.choice(off)
        session.register(s[0])
        s[1] = True
      else:
        for _ in range(rng.randint(1, 4)):
          say(conn, said)
          for s in subs.values():
            if s[1]:
              s[2].append(expect(said))
          said += 1
        if not ctx.check(wire.wait_for(lambda: len(control.got) == said + 2), 'message-lost',
                         lambda: 'said %d messages, heard %r; log %r' % (said, control.got[-2:], log)):
          return
        # the control subscriber is first: let the others of this message finish
        session.register()
      log.append(op)
      ctx.event(op)
    ctx.detail = repr(log)
    for name, (r, on, want) in sorted(subs.items()):
      ctx.check(r.got == want, 'registration', lambda: '%s heard %r, expected %r; log %r' % (name, r.got[:8], want[:8], log))
      ctx.event('subscribers')
    ctx.state(log)
    if i < 2:
      ctx.sample(repr(log))
  finally:
    session.close()
    conn.close()
    server.close()


def inside(ctx, rng, i):
  """handlers that come and go while a message is handed out."""
  server = wire.Server()
  session = S.Session()
  n = rng.randint(2, 6)
  subs = []
  quits = {}
  joins = {}
  late = []
  def make(k):
    def hook(name, got):
      if not got.startswith('13 '):
        return
      number = int(got.split()[-1])
      if quits.get(k) == number:
        session.unregister(subs[k])
      if joins.get(k) == number:
        r = wire.Recorder('late%d' % k)
        late.append((r, number))
        session.register(r)
    return wire.Recorder('s%d' % k, hook=hook)
  for k in range(n):
    subs.append(make(k))
    if rng.random() < 0.5:
      quits[k] = rng.randint(0, 5)
    if rng.random() < 0.3:
      joins[k] = rng.randint(0, 5)
  stay = rng.randrange(n)
  quits.pop(stay, None)
  last = wire.Recorder('last')
  session.register(*subs)
  session.register(last)
  conn = start(server, session)
  try:
    for k in range(8):
      say(conn, k)
      if rng.random() < 0.5:
        time.sleep(0.002)
    ctx.detail = 'quits %r joins %r of %d' % (quits, joins, n)
    if not ctx.check(wire.wait_for(lambda: last.got and last.got[-1] == expect(7)), 'message-lost',
                     lambda: '%s: last subscriber heard %r' % (ctx.detail, last.got[-2:])):
      return
    session.register()
    head = [('CLIP_MOTD_BEGIN', '3'), ('CLIP_MOTD_END', '4')]
    for k, r in enumerate(subs + [last]):
      upto = quits.get(k, 7) if k < n else 7
      want = head + [expect(m) for m in range(upto + 1)]
      ctx.check(r.got == want, 'hidden-by-others', lambda: '%s: %s heard %r, expected %r' % (ctx.detail, r.name, r.got, want))
    for r, number in late:
      got = [g for g in r.got if g != expect(number)]
      # it joins after the message it was registered in; it never quits
      want = [expect(m) for m in range(number + 1, 8)]
      ctx.check(got == want, 'late-joiner', lambda: '%s: %s joined in %d heard %r' % (ctx.detail, r.name, number, r.got))
      ctx.event('joined inside')
    ctx.event('quit inside', len(quits))
    ctx.event('sessions')
    ctx.state((n, sorted(quits.items()), sorted(joins.items())))
  finally:
    session.close()
    conn.close()
    server.close()


def sending(ctx, rng, i):
  """lines written by many threads reach the server whole, each once."""
  server = wire.Server()
  session = S.Session()
  conn = start(server, session)
  n, m = rng.randint(2, 6), rng.randint(5, 30)
  lines = [['say t%d l%d %s' % (t, k, 'x' * rng.choice((0, 1, 10, 200, 2000))) for k in range(m)] for t in range(n)]
  errors = []
  def work(mine):
    try:
      for s in mine:
        session.send_line(s)
    except Exception, e:
      errors.append(repr(e))
  box = []
  def read():
    data = ''
    want = sum([len(s) + 2 for mine in lines for s in mine])
    conn.settimeout(20)
    try:
      while len(data) < want:
        more = conn.recv(65536)
        if not more:
          break
        data += more
    except socket.error, e:
      errors.append(repr(e))
    box.append(data)
  try:
    threads = [threading.Thread(target=work, args=(mine,)) for mine in lines]
    reader = threading.Thread(target=read)
    for t in threads + [reader]:
      t.setDaemon(True)
      t.start()
    for t in threads + [reader]:
      t.join(30)
    ctx.check(not errors and box, 'send-failed', lambda: repr(errors))
    data = box and box[0] or ''
    ctx.check(data.endswith('\r\n'), 'line-not-ended', lambda: repr(data[-20:]))
    got = data.split('\r\n')[:-1]
    for t, mine in enumerate(lines):
      heard = [s for s in got if s.startswith('say t%d ' % t)]
      ctx.check(heard == mine, 'line-torn', lambda: 'thread %d of %d: server read %r' % (
          t, n, [a for a, b in zip(heard, mine) if a != b][:2] or len(heard)))
    ctx.equal(len(got), n * m, 'lines-count', 'lines the server read')
    switches = len([1 for a, b in zip(got, got[1:]) if a.split(' ')[1] != b.split(' ')[1]])
    ctx.event('lines sent', len(got))
    ctx.event('switches between senders', switches)
    ctx.state((n, m, switches, i))
  finally:
    session.close()
    conn.close()
    server.close()


def closing(ctx, rng, i):
  """close ends a session for good, whatever it is doing at that moment."""
  where = ('idle', 'flood', 'inside handler', 'during handler', 'after end of file', 'mid line', 'flood')[i % 7]
  server = wire.Server()
  session = S.Session()
  inside = threading.Event()
  go = threading.Event()
  def hook(name, got):
    if where == 'inside handler' and got == expect(3)[1]:
      session.close()
      inside.set()
    if where == 'during handler' and got == expect(3)[1]:
      inside.set()
      go.wait(20)
  sub = wire.Recorder('s', hook=hook)
  session.register(sub)
  ctx.check(not session.is_active(), 'active-before-open', 'active before it is opened')
  conn = start(server, session)
  ctx.check(session.is_active(), 'inactive-after-open', 'not active after it is opened')
  ctx.check(not session.terminated.isSet(), 'terminated-early', 'terminated before it is closed')
  stop = threading.Event()
  sent = [0]
  def flood():
    try:
      while not stop.isSet():
        say(conn, sent[0])
        sent[0] += 1
        if sent[0] % 7 == 0:
          time.sleep(0.001)
    except Exception:
      pass
  flooder = None
  try:
    if where in ('flood', 'inside handler', 'during handler'):
      flooder = threading.Thread(target=flood)
      flooder.setDaemon(True)
      flooder.start()
    if where in ('inside handler', 'during handler'):
      ctx.check(inside.wait(20), 'handler-never-ran', 'the message never arrived')
    if where == 'flood':
      wire.wait_for(lambda: len(sub.got) > rng.randint(3, 60))
    if where == 'after end of file':
      for k in range(5):
        say(conn, k)
      conn.close()
      ctx.check(wire.wait_for(lambda: sub.got and sub.got[-1][0] in ('EOFError', 'socket_error')), 'end-not-told',
                lambda: 'heard %r after the server closed' % sub.got[-2:])
      said = [g for g in sub.got if g[0] == 'CLIP_SHOUTS']
      ctx.check(said == [expect(k) for k in range(5)], 'lines-before-end', lambda: 'heard %r before the end' % said)
      ctx.check(len([g for g in sub.got if g[0] == 'EOFError']) == 1, 'end-told-wrong', lambda: repr(sub.got[-3:]))
    if where == 'mid line':
      conn.sendall('13 someplayer mess')
      time.sleep(0.01)
    if where == 'idle':
      wire.wait_for(lambda: len(sub.got) == 2)
    closer = None
    if where == 'during handler':
      # close has to wait for the handler, it must not cut it short
      closer = threading.Thread(target=session.close)
      closer.setDaemon(True)
      closer.start()
      time.sleep(0.01)
      ctx.check(session.terminated.isSet() == False, 'terminated-during-handler', 'terminated while a handler runs')
      go.set()
      closer.join(20)
      ctx.check(not closer.isAlive(), 'close-hangs', 'close never returned')
    elif where != 'inside handler':
      session.close()
    ctx.check(wire.wait_for(session.terminated.isSet), 'never-terminated', lambda: '%s: the end of the session is never told' % where)
    ctx.check(not session.is_active(), 'active-after-close', lambda: '%s: still active' % where)
    n = len(sub.got)
    time.sleep(0.03)
    ctx.check(len(sub.got) == n, 'heard-after-end', lambda: '%s: heard %r after the end' % (where, sub.got[n:n + 2]))
    if where not in ('after end of file', 'mid line'):
      said = [g for g in sub.got if g[0] == 'CLIP_SHOUTS']
      ctx.check(said == [expect(k) for k in range(len(said))], 'messages-skipped', lambda: '%s: heard %r' % (where, said[-3:]))
    if where == 'inside handler':
      ctx.check(said[-1:] == [expect(3)], 'heard-after-close', lambda: 'closed in message 3, heard %r' % said[-2:])
    ctx.event('closed ' + where)
    ctx.state((where, n))
    # closing twice is harmless
    session.close()
    ctx.check(session.terminated.isSet() and not session.is_active(), 'second-close', 'closing twice')
  finally:
    stop.set()
    go.set()
    session.close()
    conn.close()
    server.close()


def two(ctx, rng, i):
  """two sessions at a time do not hear each other."""
  server = wire.Server()
  sessions = [S.Session(), S.Session()]
  subs = [wire.Recorder('a'), wire.Recorder('b')]
  conns = []
  try:
    for s, r in zip(sessions, subs):
      s.register(r)
      conns.append(start(server, s))
    sent = [[], []]
    for k in range(rng.randint(10, 60)):
      w = rng.randrange(2)
      names, text = fibsmsg.message(rng)
      if [c for c in text if c in '\xff\x00\x11\r\n'] or text.startswith('login:'):
        continue
      conns[w].sendall(text + '\r\n')
      sent[w].append((names, text))
    for w in (0, 1):
      conns[w].sendall('** You terminated the game, %d\r\n' % w)
    for w in (0, 1):
      r = subs[w]
      ctx.check(wire.wait_for(lambda: r.got and r.got[-1] == ('FIBS_YouTerminated', '** You terminated the game, %d' % w)),
                'stream-lost', lambda: repr(r.got[-2:]))
      got = r.got[2:-1]
      ctx.check(len(got) == len(sent[w]) and not [1 for a, b in zip(got, sent[w]) if a[1] != b[1] or a[0] not in b[0]],
                'sessions-mixed', lambda: 'session %d heard %r, was sent %r' % (w, got[:5], sent[w][:5]))
    # one ends, the other goes on
    sessions[0].close()
    ctx.check(wire.wait_for(sessions[0].terminated.isSet), 'never-terminated', 'first of two')
    ctx.check(sessions[1].is_active() and not sessions[1].terminated.isSet(), 'other-ended', 'closing one session ended the other')
    say(conns[1], 77)
    ctx.check(wire.wait_for(lambda: subs[1].got[-1] == expect(77)), 'other-deaf', 'closing one session made the other deaf')
    ctx.event('pairs of sessions')
    ctx.state(repr(sent))
  finally:
    for s in sessions:
      s.close()
    for c in conns:
      c.close()
    server.close()


SCENARIOS = [
    Scenario('registration', registration, 80, 1500, floors={'register': 100, 'unregister': 60, 'say': 200, 'again': 30, 'subscribers': 200},
             cap=dict(quick=150.0, thorough=1200.0)),
    Scenario('inside', inside, 80, 1500, floors={'quit inside': 25, 'joined inside': 8, 'sessions': 70},
             cap=dict(quick=150.0, thorough=1200.0)),
    Scenario('sending', sending, 56, 1000, floors={'lines sent': 2000, 'switches between senders': 50},
             cap=dict(quick=120.0, thorough=900.0)),
    Scenario('closing', closing, 112, 2000, floors=dict([('closed ' + w, 14) for w in (
        'idle', 'inside handler', 'during handler', 'after end of file', 'mid line')] + [('closed flood', 28)]),
             cap=dict(quick=200.0, thorough=1500.0)),
    Scenario('two', two, 40, 600, floors={'pairs of sessions': 36}, cap=dict(quick=100.0, thorough=800.0)),
]
