# -*- coding: us-ascii -*-
"""One Jython worker: runs a shard of every scenario of one property."""
import sys
import os


def main(argv):
  import harness
  pid, tier, seed, shard, nshards, out = argv[1:7]
  only = None
  if len(argv) > 7:
    only = (argv[7], int(argv[8]))
  harness.run(pid, tier, int(seed), int(shard), int(nshards), out, only)


if __name__ == '__main__':
  main(sys.argv)
