# -*- coding: us-ascii -*-
"""Run a call with a time limit.  The JVM has no alarm for a busy thread, so
the call runs in a daemon thread of its own; a call that does not return is
abandoned there (the worker leaves through os._exit)."""
import sys
import threading

TIMEOUT = object()


def within(fn, seconds):
  box = []
  def run():
    try:
      box.append((True, fn()))
    except:
      box.append((False, sys.exc_info()))
  t = threading.Thread(target=run)
  t.setDaemon(True)
  t.start()
  t.join(seconds)
  if not box:
    t.join(seconds)     # a loaded machine, not yet a hang
  if not box:
    return TIMEOUT
  ok, value = box[0]
  if ok:
    return value
  raise value[0], value[1], value[2]
