# -*- coding: us-ascii -*-
"""Stand-in for the parts of python-tonic-library bglib uses (not installed here).

Semantics are pinned by bglib's own tests (gnubgid_test, xgid_test,
bearoff/test, nori_test, gnubgdb_test, snowietxt_test)."""


class BitsArray(object):
  def __init__(self, size, binary=None, endian='<', bits=None):
    assert endian == '<'
    self.size = size
    self.endian = endian
    if bits is not None:
      assert len(bits) == size
      self._bits = list(bits)
    else:
      self._bits = [0] * size
      if binary is not None:
        for i in range(size):
          byte, off = divmod(i, 8)
          if byte < len(binary):
            self._bits[i] = (ord(binary[byte]) >> off) & 1

  def _slice(self, begin, end):
    begin = max(0, min(begin, self.size))
    end = max(begin, min(end, self.size))
    return BitsArray(end - begin, bits=self._bits[begin:end])

  def __getslice__(self, begin, end):
    return self._slice(begin, end)

  def __getitem__(self, key):
    if isinstance(key, slice):
      begin, end, step = key.indices(self.size)
      assert step == 1
      return self._slice(begin, end)
    return self._bits[key]

  def __iter__(self):
    return iter(self._bits)

  def __len__(self):
    return self.size

  def __int__(self):
    n = 0
    for i, b in enumerate(self._bits):
      n |= b << i
    return n

  def __nonzero__(self):
    return int(self) != 0

  def __repr__(self):
    return "<BitsArray Instance '%s'>" % ':'.join(map(str, self._bits))

  def set_shiftable(self, value, begin, end):
    value = int(value)
    if value < 0 or value >> (end - begin):
      raise ValueError('%d does not fit in %d bits' % (value, end - begin))
    for i in range(begin, end):
      self._bits[i] = (value >> (i - begin)) & 1

  @property
  def binary(self):
    out = []
    for i in range(0, self.size, 8):
      n = 0
      for j, b in enumerate(self._bits[i:i + 8]):
        n |= b << j
      out.append(chr(n))
    return ''.join(out)
