# -*- coding: us-ascii -*-
"""Stand-in for PIL's ImageFont: letters of a size that grows with that of the font."""
import os.path
import zlib

made = []


class FakeFont(object):
  def __init__(self, name, size):
    self.name = name
    self.size = size

  def getsize(self, text):
    return measure(self.name, self.size, text)


def measure(name, size, text):
  k = zlib.crc32(os.path.basename(name)) & 3
  w = sum([(ord(c) % 5 + 4 + k) for c in text]) * size / 14
  return (w, size * (9 + k) / 10)


def truetype(filename, size, index=0, encoding=''):
  assert isinstance(size, (int, long)) and size >= 0
  made.append((filename, size))
  return FakeFont(filename, size)
