# -*- coding: us-ascii -*-
"""Stand-in for PIL's ImageDraw: keeps what is drawn."""


class FakeDraw(object):
  def __init__(self, im):
    self.im = im

  def text(self, xy, text, fill=None, font=None):
    self.im.ops.append(('text', tuple(xy), text, font.name, font.size, fill))

  def ellipse(self, xy, fill=None, outline=None):
    self.im.ops.append(('ellipse', tuple(flat(xy)), fill, outline))

  def polygon(self, xy, fill=None, outline=None):
    self.im.ops.append(('polygon', tuple([tuple(p) for p in xy]), fill, outline))

  def rectangle(self, xy, fill=None, outline=None):
    self.im.ops.append(('rect', tuple(flat(xy)), fill, outline))


def flat(xy):
  r = []
  for p in xy:
    if isinstance(p, (tuple, list)):
      r += list(p)
    else:
      r.append(p)
  return r


def Draw(im, mode=None):
  return FakeDraw(im)
