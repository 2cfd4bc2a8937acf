# -*- coding: us-ascii -*-
"""Independent encoder of GNU Backgammon position and match ids, straight from
the published description of the formats: a bit string written as text."""

ALPHABET = ('ABCDEFGHIJKLMNOPQRSTUVWXYZ' 'abcdefghijklmnopqrstuvwxyz'
            '0123456789+/')


def text_of(bits, nbytes):
  """bits: string of 0/1, first character is bit 0 of byte 0."""
  assert len(bits) <= nbytes * 8, (bits, nbytes)
  bits = bits + '0' * (nbytes * 8 - len(bits))
  big = ''
  for k in range(0, len(bits), 8):
    big += ''.join(reversed(bits[k:k + 8]))
  out = ''
  big += '0' * (-len(big) % 6)
  for k in range(0, len(big), 6):
    out += ALPHABET[int(big[k:k + 6], 2)]
  return out


def position_id(opponent, on_roll):
  """opponent first, then the player on roll; each from his own ace point to
  his bar, a run of ones closed by a zero per point."""
  bits = ''.join(['1' * n + '0' for n in tuple(opponent) + tuple(on_roll)])
  return text_of(bits, 10)


def field(n, width):
  assert 0 <= n < 1 << width, (n, width)
  return ''.join([str((n >> k) & 1) for k in range(width)])


def match_id(d):
  bits = (field(d['cube_in_logarithm'], 4) + field(d['cube_owner'], 2) +
          field(d['on_action'], 1) + field(int(d['crawford']), 1) +
          field(d['game_state'], 3) + field(d['on_inner_action'], 1) +
          field(int(d['doubled']), 1) + field(d['resign_offer'], 2) +
          field(d['rolled'][0], 3) + field(d['rolled'][1], 3) +
          field(d['match_length'], 15) +
          field(d['score'][0], 15) + field(d['score'][1], 15))
  assert len(bits) == 66
  return text_of(bits, 9)
