# -*- coding: us-ascii -*-


def fact(n):
  r = 1
  for i in range(2, n + 1):
    r *= i
  return r


def C(n, r):
  if r < 0 or n < 0 or r > n:
    return 0
  x = 1
  for i in range(r):
    x = x * (n - i) // (i + 1)
  return x


def C_Hash(xs, r):
  """Rank of the bit list xs (last entry least significant) among the lists of
  its length with r ones, in colexicographic order."""
  xs = list(xs)
  n = 0
  k = 0
  for pos, b in enumerate(reversed(xs)):
    if b:
      k += 1
      n += C(pos, k)
  assert k == r
  return n


def C_RHash(value, n, r):
  """Inverse of C_Hash for lists of length n with r ones."""
  assert 0 <= value < C(n, r)
  bits = []
  for pos in range(n - 1, -1, -1):
    c = C(pos, r)
    if r and value >= c:
      value -= c
      r -= 1
      bits.append(1)
    else:
      bits.append(0)
  assert r == 0 and value == 0
  return bits
