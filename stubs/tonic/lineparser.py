# -*- coding: us-ascii -*-
import re


class LineParser(object):
  _first = ''
  _last = ''

  def regexp(self):
    cls = self.__class__
    r = cls.__dict__.get('_compiled')
    if r is None:
      parts = [p for p in (cls._first, cls._last) if p]
      r = re.compile('|'.join(parts))
      cls._compiled = r
    return r

  def parse(self, line):
    m = self.regexp().match(line)
    if m is None:
      return
    for name, text in m.groupdict().items():
      if text is None:
        continue
      handler = getattr(self, 'handle_' + name, None)
      if handler is not None:
        handler(text, m)
        return
