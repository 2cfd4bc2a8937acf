# -*- coding: us-ascii -*-
"""A scripted FIBS server on the loopback, and recording subscribers."""
import socket
import threading
import time

from bglib.protocol import session as S


class Server(object):
  def __init__(self):
    self.listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    self.listener.bind(('127.0.0.1', 0))
    self.listener.listen(20)
    self.port = self.listener.getsockname()[1]

  def connect(self, session):
    """open the session to this server; returns the server's end."""
    box = []
    def accept():
      box.append(self.listener.accept()[0])
    t = threading.Thread(target=accept)
    t.setDaemon(True)
    t.start()
    session.open('127.0.0.1', self.port)
    t.join(20)
    conn = box[0]
    conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return conn

  def close(self):
    self.listener.close()


class Recorder(S.Subscriber):
  """hears everything; on_message may act on it, in the listener's thread."""
  def __init__(self, name='', deaf=(), hook=None):
    S.Subscriber.__init__(self)
    self.name = name
    self.deaf = deaf
    self.hook = hook
    self.got = []
    self.busy = 0
    self.overlap = False

  def __getattr__(self, name):
    if name.startswith('FIBS_') or name.startswith('CLIP_') or name in ('EOFError', 'socket_error'):
      if name in self.deaf:
        raise AttributeError(name)
      return Handler(self, name)
    raise AttributeError(name)

  def lines(self):
    return [g for g in list(self.got) if g[0] not in ('EOFError', 'socket_error')]


class Handler(object):
  def __init__(self, recorder, name):
    self.recorder = recorder
    self.name = name
  def __call__(self, got):
    r = self.recorder
    r.busy += 1
    if r.busy > 1:
      r.overlap = True
    try:
      if self.name in ('EOFError', 'socket_error'):
        got = None
      r.got.append((self.name, got))
      if r.hook is not None:
        r.hook(self.name, got)
    finally:
      r.busy -= 1


def wait_for(condition, seconds=20.0):
  end = time.time() + seconds
  while time.time() < end:
    if condition():
      return True
    time.sleep(0.002)
  return condition()


# Jython 2.7.3's socket.close() throws away the end-of-stream mark it has just
# handed to whoever waits for the socket; one that had not looked yet waits
# forever (1 in 100 closes). The mark is put back, so that what is judged is the
# session's doing
# and not that race of the platform.
import _socket
drop_mark = _socket._realsocket._finish_closing


def keep_mark(self, future):
  drop_mark(self, future)
  if self.socket_type != _socket.SERVER_SOCKET:
    self.incoming.put(_socket._PEER_CLOSED)
    self._notify_selectors(hangup=True)


_socket._realsocket._finish_closing = keep_mark
