# -*- coding: us-ascii -*-
"""Stand-in for PIL's Image: an image is the record of how it was made."""
FLIP_LEFT_RIGHT = 0
FLIP_TOP_BOTTOM = 1
LOG = []


class FakeImage(object):
  def __init__(self, mode, size, history):
    self.mode = mode
    self.size = tuple(size)
    self.history = tuple(history)
    self.ops = []

  def transpose(self, how):
    return FakeImage(self.mode, self.size, self.history + (('transpose', how),))

  def resize(self, size, resample=None):
    assert isinstance(size, (tuple, list)) and len(size) == 2
    for n in size:
      assert isinstance(n, (int, long)) and n >= 0, 'bad size %r' % (size,)
    return FakeImage(self.mode, size, self.history + (('resize', tuple(size)),))

  def paste(self, im, box=None, mask=None):
    assert isinstance(im, FakeImage)
    assert len(box) == 4
    assert (box[2] - box[0], box[3] - box[1]) == im.size, 'images do not match'
    if mask is not None:
      assert mask.size == im.size and mask.mode in ('1', 'L', 'RGBA'), 'bad transparency mask'
    self.ops.append(('image', im.history, tuple(box[:2]), im.size, mask is not None and mask.history or None))


def new(mode, size, color=0):
  im = FakeImage(mode, size, (('new', mode, tuple(size)),))
  LOG.append(im)
  return im


def open(fp, mode='r'):
  return FakeImage(fp.endswith('.png') and 'RGBA' or 'RGB', (64, 48), (('open', fp),))
