From 6163d91018ff1f7da86bd32019717f81f8ce0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/57] fix: find the ace point when bearing off with a larger
 die

find_src_of_bearoff_with scanned die..1 and never looked at index 0, so a
last chequer on the ace point was not found for any die but 1.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..e4c1e5e 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 1, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From 07f899d326033a73fed63a5c217db3e2d2511d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 02/57] fix: do not look for a source chequer beyond the bar

guess_your_single_pm_from_dest raised IndexError when dest + die is past
the bar, e.g. for the 24 point with any die larger than 1.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..95e9534 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -331,7 +331,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From 7b92fee3b81ab970cd306cb2064d96dd67ded7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 03/57] fix: leave the caller's dice alone when guessing a bear
 off

guess_your_single_pm_from_dest(OFF, available=...) consumed dice from the
object the caller passed; the branch for points already works on a copy.
---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 95e9534..c62fcb4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From 69b1ac8cab666645495a509febba3e58e4e37815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 04/57] fix: try the smaller die first when the larger one
 leads nowhere

guess_your_multiple_pms gave up when going on after the largest die was
not possible, e.g. 7/off with 6-4 and chequers on the 3 point (7/3, 3/off
is legal, 7/1 leaves a 4 that can not be played from the ace point).
---
 bglib/model/move.py | 55 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index c62fcb4..6e1cb96 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -367,35 +367,34 @@ class MoveFactory(object):
     assert isinstance(available, AvailableToPlay)
     assert isinstance(mv, Move)
 
-    pm = self.guess_your_single_pm_from_source(src, b, available)
-    print pm
-    if not pm:
-      return pm 
-
-    assert pm.src == src
-    if pm.dest == dest:
-      mv.append(pm)
-      return mv
-    elif pm.dest > dest:
-      # need to go further
-      mv.append(pm)
-      available.consume(pm.die)
-      b.make_partial_move(pm)
-      mv = self.guess_your_multiple_pms(pm.dest, dest, b, available, mv)
-      rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
-      b.make_partial_move(rewind)
-      return mv
-    else:
-      # over run
-      print 'over run'
-      assert pm.dest < dest
-      available.consume(pm.die)
+    untried = AvailableToPlay(rolled=None, copy_src=available)
+    while True:
+      pm = self.guess_your_single_pm_from_source(src, b, untried)
+      print pm
+      if not pm:
+        return pm
+
+      assert pm.src == src
+      if pm.dest == dest:
+        mv.append(pm)
+        return mv
+      elif pm.dest > dest:
+        # need to go further
+        left = AvailableToPlay(rolled=None, copy_src=available)
+        left.consume(pm.die)
+        b.make_partial_move(pm)
+        rest = self.guess_your_multiple_pms(pm.dest, dest, b, left)
+        rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
+        b.make_partial_move(rewind)
+        if rest:
+          mv.append(pm)
+          mv.add(rest)
+          return mv
+      else:
+        # over run
+        print 'over run'
       # retry with other die
-      mv = self.guess_your_multiple_pms(src, dest, b, available, mv)
-      #rewind = PartialMove(die=pm.die, src=src, dest=pm.dest, is_hitting=pm.is_hitting)
-      #b.make_partial_move(rewind)
-      return mv
-    assert False
+      untried[pm.die] = 0
 
   def guess_your_multiple_partial_undoes(self, src, dest, b=None, available=None, mv=None):
     if b is None:
-- 
2.43.0


From 5c33c34f82e729c80445f7b7686bf62ebffad25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/57] fix: suggest point making moves without touching the
 board

guess_your_making_point used the None returned by consume() and
make_partial_move(): it moved a chequer on the caller's board and looked
for the second one with all dice available again.
---
 bglib/model/move.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 6e1cb96..354e4d7 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -425,24 +425,23 @@ class MoveFactory(object):
                 (util.move_ntop(src), util.move_ntop(dest)))
 
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
-    b = self.board
+    b = BoardEditor(self.board)
     if available is None:
-      available = AvailableToPlay(self.board.rolled)
-    if position is None:
-      position = self.board.position
+      available = self.available
+    available = AvailableToPlay(rolled=None, copy_src=available)
+    if position is not None:
+      b.position = position
     if pms is None:
       pms = []
 
-    pm = self.guess_your_single_pm_from_dest(dest)
+    pm = self.guess_your_single_pm_from_dest(dest, b=b, available=available)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
-      pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
-                available=available)
+      available.consume(pm.die)
+      b.make_partial_move(pm)
+      pm = self.guess_your_single_pm_from_dest(dest, b=b, available=available)
       if pm:
         pms.append(pm)
         return pms
     return None
 
-
-- 
2.43.0


From 848f287c24211236ccee6b34c8c24c0fce94242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/57] fix: judge picking up the dice by the most dice
 playable, on a copy

is_leagal_to_pickup_dice rewound the caller's board while it looked for
other plays, let the dice be picked up with a chequer on the bar that can
still enter, and only knew plays of both dice by one chequer.
---
 bglib/model/move.py | 68 +++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 354e4d7..5dd9559 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -204,57 +204,51 @@ class MoveFactory(object):
     assert self.board.rolled != (0, 0)
     if not self.available:
       return True
-    bar = util.move_pton('bar')
-    if self.board.has_chequer_to_move(bar):
-      if not self.guess_your_single_pm_from_source(bar):
-        return True #dance
-
-    for pt in POINTS:
-      if self.board.has_chequer_to_move(pt):
-        if self.guess_your_single_pm_from_source(pt):
-          return False
-          #if self.board.rolled[0] == self.board.rolled[1]:
-          #  print 'can move checker from', util.move_ntop(pt);
+    for src in range(BAR, -1, -1):
+      if self.guess_your_single_pm_from_source(src):
+        return False
 
     if self.board.is_doubles():
       return True
             
-    #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
-    inverses  = []
-    for pm in mf.move:
-      inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-    for i in inverses:
-      mf.append(i)
+    #rewind all moves, on a copy, and check for blocked moves.
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
+    for pm in self.move:
+      mf.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
 
     assert len(mf.move) == 0
 
-    # No need to check doubles.
+    # No need to check doubles. 
     # care only about small-big use.
     # thus ...
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        for dst in range(0, src):
-          if mf.board.is_open_to_land(dst) or mf.board.is_hitting_to_land(dst):
-            pms = mf.guess_your_multiple_pms(src, dst)
-            if pms and len(pms) == 2:
-              # all dice are used.
-              # that means there is way to use all dice.
-              return False
+    dice = [die for die, count in mf.available.items() if count]
+    playable = []
+    for die in dice:
+      for src in range(BAR, -1, -1):
+        pm = mf.guess_your_single_pm_from_source(src, available=self._only(die))
+        if pm:
+          playable.append(die)
+          b = BoardEditor(mf.board)
+          b.make_partial_move(pm)
+          for other in dice:
+            if other != die:
+              for s in range(BAR, -1, -1):
+                if mf.guess_your_single_pm_from_source(s, b, self._only(other)):
+                  # all dice are used.
+                  # that means there is way to use all dice.
+                  return False
     # There is no way to use both dice
     # Make sure use big one
     # thus ... 
-    if self.available.get_max() != mf.available.get_max():
-      return True #max is used.
-
-    die = mf.available.get_max()
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        pm = mf.guess_your_single_pm_from_source(src, available=AvailableToPlay(rolled=(die, 0)))
-        if pm:
-          return False # There is way to use big one.
+    if playable and max(playable) in self.available:
+      return False # There is way to use big one.
     return True
 
+  def _only(self, die):
+    available = AvailableToPlay(rolled=(0, 0))
+    available.add(die)
+    return available
+
   def guess_your_single_pm_from_source(self, src, b=None, available=None):
     '''
     returns
-- 
2.43.0


From 06f4e35bed4579e178c39b9c1f15d919d960f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 07/57] fix: rewind the board after guessing how to undo
 several steps

guess_your_multiple_partial_undoes left the undone steps on the board it
was asked about, so undoing the move it returned moved the chequer twice.
---
 bglib/model/move.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 5dd9559..7c08d25 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -410,7 +410,9 @@ class MoveFactory(object):
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
         available.add(inverse.die)
-        return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        b.make_partial_move(pm)
+        return mv
       else:
         assert(inverse.dest > dest)
         return self.Error('Overrun, bad (src, dest)=(%s, %s)'%
-- 
2.43.0


From 2675777718b4c4f128d9bf8624056f6d3674d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/57] fix: keep an empty set of dice handed to MoveFactory

An AvailableToPlay with all dice played is false, so MoveFactory gave the
whole roll back.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 7c08d25..dc1e0e5 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -177,7 +177,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From ee1e17dcfff3894395a4264e6ea3cc7f53386ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/57] fix: raise a real error when a die is consumed that is
 not left

A bare raise without an active exception raised TypeError or, inside an
except clause, an unrelated exception.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index dc1e0e5..78a550a 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -52,7 +52,7 @@ class AvailableToPlay(object):
       assert self[die] > 0
       self[die] -= 1
     else:
-      raise
+      raise ValueError('%i is not available to play'%die)
 
   def add(self, die):
     assert(die in [1, 2, 3, 4, 5, 6])
-- 
2.43.0


From f35b231878e40fa248166a72992d80a716eab0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 10/57] fix: treat both players alike when a double is
 pointless

YOU could double with a score at which winning the current stake already
wins the match (even in a one point match), HIM could not.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e4c1e5e..20fc109 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -162,7 +162,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From 2dd050e25e2658158b9c2591a4f5ff9b25482f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 11/57] fix: only the owner of a turned cube may double

is_leagal_to_double did not look at cube_owner, so a player could double
with the cube on the other side.
---
 bglib/model/board.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 20fc109..87fce97 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -156,6 +156,8 @@ class AbstractBoard(object):
       return False
     if self.doubled:
       return False
+    if self.cube_owner not in (CENTER, who):
+      return False
     if self.on_action == YOU:
       if who != YOU:
         return False
-- 
2.43.0


From c08ca8fa7ff7376f5cea754d2d0bb48f0d5f414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 12/57] fix: a cube or resignation offer can be answered only
 once

After drop() or accept_resign() ended the game the offer still looked
open and could be answered again, scoring the game twice; a resignation
offered after a taken double looked like a new cube offer.
---
 bglib/model/board.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 87fce97..506cffa 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -129,7 +129,9 @@ class AbstractBoard(object):
     return self.rolled[0] == self.rolled[1]
 
   def is_cube_take_or_pass(self, who):
-    return self.doubled and self.on_inner_action != self.on_action and \
+    return self.game_state == ON_GOING and \
+      self.resign_offer == RESIGN_NONE and \
+      self.doubled and self.on_inner_action != self.on_action and \
       self.on_inner_action == who
   
   def find_src_of_bearoff_with(self, die):
@@ -187,7 +189,8 @@ class AbstractBoard(object):
     return self.on_action == who and self.on_inner_action == who
 
   def is_to_accept_resign(self, who):
-    return self.resign_offer in (RESIGN_SINGLE, 
+    return self.game_state == ON_GOING and \
+           self.resign_offer in (RESIGN_SINGLE, 
                                  RESIGN_GAMMON,
                                  RESIGN_BACKGAMMON
                                  ) \
-- 
2.43.0


From f7d89d76605dca144e1540fa8ea680d0123c7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/57] fix: attributes of a Board can not be deleted

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 506cffa..c3bddc0 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -215,6 +215,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to mutate immutable object by deleting attr of "%s"'%(name,))
+
   def __hash__(self):
     pass
 
-- 
2.43.0


From 5c3b583c807addffe2b4af7cc41e861a9b7f860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 14/57] fix: gnubg position ids are always 10 bytes

---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..243b25f 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -55,8 +55,9 @@ def seq2bytes (xs):
       count += 1
       yield byte.pack()
   if byte.count != 0:
+    count += 1
     yield byte.pad()
-  while count < 9:
+  while count < 10:
     count += 1
     yield byte.pad()
 
-- 
2.43.0


From 8199a6efa29686d19e72ae5b2eee67941b759b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 15/57] fix: stop on gnubg ids that no padding completes

---
 bglib/encoding/gnubgid.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 243b25f..238bc5e 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -97,19 +97,22 @@ def encode_position(xs):
   return standard_b64encode(twoside_encode(xs)).rstrip('=')
 
 
-def decode_position(s):
-  """ decode tuple expression from gnubg position id """
+def decode_base64(s):
+  """ decode base64 data written without padding"""
   if '=' in s:
     raise TypeError
-  while True:
+  for padding in ('', '=', '=='):
     try:
-      bin = standard_b64decode(s)
+      return standard_b64decode(s + padding)
     except TypeError, e:
       if str(e) != 'Incorrect padding':
         raise
-      s += '='
-    else:
-      break
+  raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
+
+
+def decode_position(s):
+  """ decode tuple expression from gnubg position id """
+  bin = decode_base64(s)
   r = twoside_decode(bin)
   if not len(r) == 2 or not len(r[0])==25 or not len(r[1])==25:
     raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
@@ -197,17 +200,7 @@ def encode_match(m):
 
 def decode_match(s):
   """ decode tuple expression from gnubg position id """
-  if '=' in s:
-    raise TypeError
-  while True:
-    try:
-      bin = standard_b64decode(s)
-    except TypeError, e:
-      if str(e) != 'Incorrect padding':
-        raise
-      s += '='
-    else:
-      break
+  bin = decode_base64(s)
   return MatchProxy(bin)
 
 def encode(model):
-- 
2.43.0


From 17edcdb1140fb740bbf1dc96a024b19ac8429f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 16/57] fix: accept the beaver flag of money games in XGID

---
 bglib/encoding/xgid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..345de1b 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -122,15 +122,16 @@ def decode(model, s):
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer Crawford/Jacoby flag: %s '%(is_crawford_jacoby,))
 
-  if is_crawford_jacoby not in (0, 1):
-    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
-
 
   try:
     match_length = int(match_length)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer match length: %s '%(match_length,))
 
+  # In money game, it is sum of 1 for Jacoby and 2 for beaver.
+  if is_crawford_jacoby not in (match_length == 0 and (0, 1, 2, 3) or (0, 1)):
+    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
+
   if match_length == 0:
     model.crawford = False
     model.match_length = match_length
-- 
2.43.0


From 7c114a371f928da4c32ea2dd5bd6507c3e0a515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 17/57] fix: report a bad score in XGID as DecodeError

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 345de1b..e31f90c 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s:%s '%(your_score, his_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 4aec53dd2b694ce2c1563bcdc0d227b360b63667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 18/57] fix: decode FIBS boards of the opponent's turn and of
 finished games

---
 bglib/encoding/FIBS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..72bf2c2 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,10 +118,11 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
+    m.on_action = CENTER
+    m.on_inner_action = CENTER
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From 8fa7e8a5e51fedce1c732b0629fe48107d624a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 19/57] fix: positions of 15 chequers have an index in nori's
 bearoff numbering too

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From 2f930e74c04197e77a9e7d07d37abad389ecd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 20/57] fix: import human_readable_eq where nori's bearoff
 reader uses it

---
 bglib/encoding/bearoff/nori.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 52003fa..221b04e 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -9,6 +9,7 @@ from bglib.encoding.gnubgid import decode_position
 from bglib.encoding import bearoff
 from bglib.encoding.bearoff import C, C_Hash, C_RHash, D, D_Hash
 from bglib.encoding.bearoff import count, backward
+from bglib.encoding.bearoff.trice import human_readable_eq
 
 '''
   nori's original indexing
-- 
2.43.0


From 645f1cde6719af4c6966548f566d854cf7e8b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 21/57] fix: let FIBS messages of several forms be recognized
 in all of them

---
 bglib/protocol/fibs.py | 86 +++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 8e4f4da..0d2232c 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -131,7 +131,7 @@ class RunState(State):
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
-  FIBS_YouStopWatching = ["^You stop watching "]
+  FIBS_YouStopWatching += ["^You stop watching "]
   # overloaded
 
   FIBS_PlayerStartsWatching = ["[a-zA-Z_<>]+ starts watching [a-zA-Z_<>]+\\.",
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign = ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["wants to resign\\."]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -217,7 +217,7 @@ class RunState(State):
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
   FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
-  FIBS_WavesAgain = ["^You wave goodbye again and log out\\."]
+  FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
   FIBS_SavedMatch = ["^  [a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +"]
@@ -313,10 +313,10 @@ class RunState(State):
                    "^5 [^ ]+ - [^ ]+ [01]",
                    ]
 
-  FIBS_Average = ["^[0-9][0-9]:[0-9][0-9]-"]
+  FIBS_Average += ["^[0-9][0-9]:[0-9][0-9]-"]
   # output of average command
 
-  FIBS_DiceTest = ["^[1-6]-1 [0-9]", # output of dicetest command
+  FIBS_DiceTest += ["^[1-6]-1 [0-9]", # output of dicetest command
                    "^[1-6]: [0-9]",
                    ]
 
@@ -344,7 +344,7 @@ class RunState(State):
 
   # class StarsBatch(Batch):
   FIBS_Username = ["^\\*\\* User"]
-  FIBS_Junk = ["^\\*\\* You tell "]
+  FIBS_Junk += ["^\\*\\* You tell "]
   # "** You tell PLAYER: xxxxx"]
 
   FIBS_YouGag = ["^\\*\\* You gag"]
@@ -367,40 +367,40 @@ class RunState(State):
   FIBS_YouInvited = ["^\\*\\* You invited"]
   FIBS_YourLastLogin = ["^\\*\\* Last login:"]
   FIBS_NoOne = ["^\\*\\* There is no one called"]
-  FIBS_AllowpipFalse = ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
-  FIBS_AllowpipTrue = ["^\\*\\* You allow the use the server's 'pip' command\\."]
-  FIBS_AutoboardFalse = ["^\\*\\* The board won't be refreshed"]
-  FIBS_AutoboardTrue = ["^\\*\\* The board will be refreshed"]
-  FIBS_AutodoubleTrue = ["^\\*\\* You agree that doublets"]
-  FIBS_AutodoubleFalse = ["^\\*\\* You don't agree that doublets"]
-  FIBS_AutomoveFalse = ["^\\*\\* Forced moves won't"]
-  FIBS_AutomoveTrue = ["^\\*\\* Forced moves will"]
-  FIBS_BellFalse = ["^\\*\\* Your terminal won't ring"]
-  FIBS_BellTrue = ["^\\*\\* Your terminal will ring"]
-  FIBS_CrawfordFalse = ["^\\*\\* You would like to play without using the Crawford rule\\."]
-  FIBS_CrawfordTrue = ["^\\*\\* You insist on playing with the Crawford rule\\."]
-  FIBS_DoubleFalse = ["^\\*\\* You won't be asked if you want to double\\."]
-  FIBS_DoubleTrue = ["^\\*\\* You will be asked if you want to double\\."]
-  FIBS_GreedyTrue = ["^\\*\\* Will use automatic greedy bearoffs\\."]
-  FIBS_GreedyFalse = ["^\\*\\* Won't use automatic greedy bearoffs\\."]
-  FIBS_MoreboardsTrue = ["^\\*\\* Will send rawboards after rolling\\."]
-  FIBS_MoreboardsFalse = ["^\\*\\* Won't send rawboards after rolling\\."]
-  FIBS_MovesTrue = ["^\\*\\* You want a list of moves after this game\\."]
-  FIBS_MovesFalse = ["^\\*\\* You won't see a list of moves after this game\\."]
-  FIBS_NotifyFalse = ["^\\*\\* You won't be notified"]
-  FIBS_NotifyTrue = ["^\\*\\* You'll be notified"]
-  FIBS_RatingsTrue = ["^\\*\\* You'll see how the rating changes are calculated\\."]
-  FIBS_RatingsFalse = ["^\\*\\* You won't see how the rating changes are calculated\\."]
-  FIBS_ReadyTrue = ["^\\*\\* You're now ready to invite or join someone\\."]
-  FIBS_ReadyFalse = ["^\\*\\* You're now refusing to play with someone\\."]
-  FIBS_ReportFalse = ["^\\*\\* You won't be informed"]
-  FIBS_ReportTrue = ["^\\*\\* You will be informed"]
-  FIBS_SilentTrue = ["^\\*\\* You won't hear what other players shout\\."]
-  FIBS_SilentFalse = ["^\\*\\* You will hear what other players shout\\."]
-  FIBS_TelnetFalse = ["^\\*\\* You use a client program"]
-  FIBS_TelnetTrue = ["^\\*\\* You use telnet"]
-  FIBS_WrapFalse = ["^\\*\\* The server will wrap"]
-  FIBS_WrapTrue = ["^\\*\\* Your terminal knows how to wrap"]
+  FIBS_AllowpipFalse += ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
+  FIBS_AllowpipTrue += ["^\\*\\* You allow the use the server's 'pip' command\\."]
+  FIBS_AutoboardFalse += ["^\\*\\* The board won't be refreshed"]
+  FIBS_AutoboardTrue += ["^\\*\\* The board will be refreshed"]
+  FIBS_AutodoubleTrue += ["^\\*\\* You agree that doublets"]
+  FIBS_AutodoubleFalse += ["^\\*\\* You don't agree that doublets"]
+  FIBS_AutomoveFalse += ["^\\*\\* Forced moves won't"]
+  FIBS_AutomoveTrue += ["^\\*\\* Forced moves will"]
+  FIBS_BellFalse += ["^\\*\\* Your terminal won't ring"]
+  FIBS_BellTrue += ["^\\*\\* Your terminal will ring"]
+  FIBS_CrawfordFalse += ["^\\*\\* You would like to play without using the Crawford rule\\."]
+  FIBS_CrawfordTrue += ["^\\*\\* You insist on playing with the Crawford rule\\."]
+  FIBS_DoubleFalse += ["^\\*\\* You won't be asked if you want to double\\."]
+  FIBS_DoubleTrue += ["^\\*\\* You will be asked if you want to double\\."]
+  FIBS_GreedyTrue += ["^\\*\\* Will use automatic greedy bearoffs\\."]
+  FIBS_GreedyFalse += ["^\\*\\* Won't use automatic greedy bearoffs\\."]
+  FIBS_MoreboardsTrue += ["^\\*\\* Will send rawboards after rolling\\."]
+  FIBS_MoreboardsFalse += ["^\\*\\* Won't send rawboards after rolling\\."]
+  FIBS_MovesTrue += ["^\\*\\* You want a list of moves after this game\\."]
+  FIBS_MovesFalse += ["^\\*\\* You won't see a list of moves after this game\\."]
+  FIBS_NotifyFalse += ["^\\*\\* You won't be notified"]
+  FIBS_NotifyTrue += ["^\\*\\* You'll be notified"]
+  FIBS_RatingsTrue += ["^\\*\\* You'll see how the rating changes are calculated\\."]
+  FIBS_RatingsFalse += ["^\\*\\* You won't see how the rating changes are calculated\\."]
+  FIBS_ReadyTrue += ["^\\*\\* You're now ready to invite or join someone\\."]
+  FIBS_ReadyFalse += ["^\\*\\* You're now refusing to play with someone\\."]
+  FIBS_ReportFalse += ["^\\*\\* You won't be informed"]
+  FIBS_ReportTrue += ["^\\*\\* You will be informed"]
+  FIBS_SilentTrue += ["^\\*\\* You won't hear what other players shout\\."]
+  FIBS_SilentFalse += ["^\\*\\* You will hear what other players shout\\."]
+  FIBS_TelnetFalse += ["^\\*\\* You use a client program"]
+  FIBS_TelnetTrue += ["^\\*\\* You use telnet"]
+  FIBS_WrapFalse += ["^\\*\\* The server will wrap"]
+  FIBS_WrapTrue += ["^\\*\\* Your terminal knows how to wrap"]
   FIBS_PlayerRefusingGames = ["^\\*\\* [a-zA-Z_<>]+ is refusing games\\."]
   FIBS_NotWatching = ["^\\*\\* You're not watching\\."]
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
@@ -416,13 +416,13 @@ class RunState(State):
   FIBS_MustMove = ["^\\*\\* You must give [1-4] moves"]
   FIBS_MustComeIn = ["^\\*\\* You have to remove pieces from the bar in your first move\\."]
   FIBS_UsersHeardYou = ["^\\*\\* [0-9]+ users? heard you\\."]
-  FIBS_Junk = ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
+  FIBS_Junk += ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
   FIBS_SavedMatchReady = ["^\\*\\*[a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +[0-9]+"]
   # double star before a name indicates you have a saved game with this player
 
   FIBS_NotYourTurnToRoll = ["^\\*\\* It's not your turn to roll the dice\\."]
   FIBS_NotYourTurnToMove = ["^\\*\\* It's not your turn to move\\."]
-  FIBS_YouStopWatching = ["^\\*\\* You stop watching"]
+  FIBS_YouStopWatching += ["^\\*\\* You stop watching"]
   FIBS_UnknownCommand = ["^\\*\\* Unknown command:"]
   FIBS_CantWatch = ["^\\*\\* You can't watch another game while you're playing\\."]
   FIBS_CantInviteSelf = ["^\\*\\* You can't invite yourself\\."]
@@ -436,7 +436,7 @@ class RunState(State):
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
   FIBS_NoSavedMatch = ["^\\*\\* There's no saved match with "]
-  FIBS_WARNINGSavedMatch = ["^\\*\\* WARNING: Don't accept if you want to continue"]
+  FIBS_WARNINGSavedMatch += ["^\\*\\* WARNING: Don't accept if you want to continue"]
   FIBS_CantGagYourself = ["^\\*\\* You talk too much, don't you\\?"]
   FIBS_CantBlindYourself = ["^\\*\\* You can't read this message now, can you\\?"]
 
-- 
2.43.0


From 989b8d72f09bd1a15e65c74b0deeee0cb0a4fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 22/57] fix: recognize FIBS messages by texts that follow a
 player's name

---
 bglib/protocol/fibs.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 0d2232c..0039f49 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -98,21 +98,21 @@ class RunState(State):
   FIBS_RollOrDouble = ["^It's your turn to roll or double\\.",
                        "^It's your turn\\. Please roll or double",
                       ]
-  FIBS_AcceptRejectDouble = ["doubles\\. Type 'accept' or 'reject'\\."]
+  FIBS_AcceptRejectDouble = ["^[a-zA-Z_<>]+ doubles\\. Type 'accept' or 'reject'\\."]
   FIBS_Doubles = ["^[a-zA-Z_<>]+ doubles\\."]
   FIBS_PleaseMove = ["^Please move [1-4] pieces?\\."]
   FIBS_PlayerMoves = ["^[a-zA-Z_<>]+ moves"]
   FIBS_BearingOff = ["^Bearing off:"]
   FIBS_YouReject = ["^You reject\\. The game continues\\."]
-  FIBS_YouStopWatching = ["You're not watching anymore\\."]
+  FIBS_YouStopWatching = ["^[a-zA-Z_<>]+ [a-z ]+\\.+ You're not watching anymore\\."]
   # overloaded  //PLAYER logs out.. You're not watching anymore.
 
-  FIBS_OpponentLogsOut = ["The game was saved\\."]
+  FIBS_OpponentLogsOut = ["^[a-zA-Z_<>]+ [a-z ]+\\.+ The game was saved\\."]
   # PLAYER logs out. The game was saved. ||  PLAYER drops connection. The game was saved.
 
   FIBS_OnlyPossibleMove = ["^The only possible move is"]
   FIBS_FirstRoll = ["[a-zA-Z_<>]+ rolled [1-6].+rolled [1-6]"]
-  FIBS_MakesFirstMove = [" makes the first move\\."]
+  FIBS_MakesFirstMove = ["^[a-zA-Z_<>]+ makes the first move\\."]
   FIBS_YouDouble = ["^You double\\. Please wait for "]
   # You double. Please wait for PLAYER to accept or reject.
 
@@ -127,7 +127,7 @@ class RunState(State):
   FIBS_JoinNextGame = ["^Type 'join' if you want to play the next game, type 'leave' if you don't\\."]
   FIBS_NewMatchRequest = ["^[a-zA-Z_<>]+ wants to play a [0-9]+ point match with you\\."]
   FIBS_WARNINGSavedMatch = ["^WARNING: Don't accept if you want to continue"]
-  FIBS_ResignRefused = ["rejects\\. The game continues\\."]
+  FIBS_ResignRefused = ["^[a-zA-Z_<>]+ rejects\\. The game continues\\."]
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign += ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["^[a-zA-Z_<>]+ wants to resign\\.$"]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -172,15 +172,15 @@ class RunState(State):
                              ]
 
   FIBS_ResumeMatchRequest = ["^[a-zA-Z_<>]+ wants to resume a saved match with you\\."]
-  FIBS_ResumeMatchAck0 = ["has joined you\\. Your running match was loaded"]
+  FIBS_ResumeMatchAck0 = ["^(\\*\\* Player )?[a-zA-Z_<>]+ has joined you\\. Your running match was loaded"]
   FIBS_YouWinGame = ["^You win the game and get"]
   FIBS_UnlimitedInvite = ["^[a-zA-Z_<>]+ wants to play an unlimted match with you\\."]
   FIBS_PlayerWinsGame = ["^[a-zA-Z_<>]+ wins the game and gets [0-9]+ points?. Sorry.", 
                          "^[a-zA-Z_<>]+ wins the game and gets [0-9]+ points?.", # (when watching)
                          ]
 
-  FIBS_WatchGameWins = ["wins the game and gets"]
-  FIBS_PlayersStartingUnlimitedMatch = ["start an unlimited match\\."]
+  FIBS_WatchGameWins = ["^[a-zA-Z_<>]+ wins the game and gets"]
+  FIBS_PlayersStartingUnlimitedMatch = ["^[a-zA-Z_<>]+ and [a-zA-Z_<>]+ start an unlimited match\\."]
   # PLAYER_A and PLAYER_B start an unlimited match.
 
   FIBS_ReportLimitedMatch = ["^[a-zA-Z_<>]+ +- +[a-zA-Z_<>]+ .+ point match"]
@@ -216,7 +216,7 @@ class RunState(State):
   FIBS_EmailAddress = ["^  Email address:"]
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
-  FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
+  FIBS_Waves = ["^[a-zA-Z_<>]+ waves goodbye", "^You wave goodbye\\."]
   FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
@@ -274,7 +274,7 @@ class RunState(State):
   FIBS_LastLogout = ["^  Last logout:"]
   FIBS_RatingCalcStart = ["^rating calculation:"]
   FIBS_RatingCalcInfo = ["^Probability that underdog wins:", 
-                         "is 1-Pu if underdog wins", # P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins
+                         "^P=[0-9.]+ is 1-Pu if underdog wins", # P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins
                          "^Experience: ", # Experience: fergy 500 - jfk 5832
                          "^K=max\\(1", # K=max(1 ,    -Experience/100+5) for fergy: 1.000000
                          "^rating difference",
@@ -289,7 +289,7 @@ class RunState(State):
   # Rating: 1693.11 Experience: 5781
 
   FIBS_NotLoggedIn = ["^  Not logged in right now\\."]
-  FIBS_IsPlayingWith = ["is playing with"]
+  FIBS_IsPlayingWith = ["^ *[a-zA-Z_<>]+ is playing with"]
   FIBS_SavedScoreHeader = ["^opponent +matchlength"]
   #  opponent          matchlength   score (your points first)
 
@@ -361,7 +361,7 @@ class RunState(State):
 
   FIBS_YouTerminated = ["^\\*\\* You terminated the game"]
   FIBS_OpponentLeftGame = ["^\\*\\* Player [a-zA-Z_<>]+ has left the game. The game was saved\\."]
-  FIBS_PlayerLeftGame = ["has left the game\\."]
+  FIBS_PlayerLeftGame = ["^(\\*\\* Player )?[a-zA-Z_<>]+ has left the game\\."]
   # overloaded
 
   FIBS_YouInvited = ["^\\*\\* You invited"]
@@ -406,7 +406,7 @@ class RunState(State):
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
   FIBS_NotPlaying = ["^\\*\\* You're not playing\\."]
   FIBS_NoUser = ["^\\*\\* There is no one called "]
-  FIBS_AlreadyPlaying = ["is already playing with"]
+  FIBS_AlreadyPlaying = ["^\\*\\* [a-zA-Z_<>]+ is already playing with"]
   FIBS_DidntInvite = ["^\\*\\* [a-zA-Z_<>]+ didn't invite you."]
   FIBS_BadMove = ["^\\*\\* You can't remove this piece"]
   FIBS_CantMoveFirstMove = ["^\\*\\* You can't move "]
@@ -431,7 +431,7 @@ class RunState(State):
   FIBS_PlayerNotPlaying = ["^\\*\\* [a-zA-Z_<>]+ is not playing\\."]
   FIBS_CantTalk = ["^\\*\\* You can't talk if you won't listen\\."]
   FIBS_WontListen = ["^\\*\\* [a-zA-Z_<>]+ won't listen to you\\."]
-  FIBS_Why = ["Why would you want to do that"]
+  FIBS_Why = ["^\\*+ Why would you want to do that"]
   # (not sure about ** vs *** at front of line.)
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
-- 
2.43.0


From 5eff1cfcc8dfe26b37c43e04a306e2e2730901a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 23/57] fix: header of FIBS average command has parentheses

---
 bglib/protocol/fibs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 0039f49..e1f8987 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -269,7 +269,7 @@ class RunState(State):
   FIBS_FailedLogin = ["^> [0-9]+"]
   # bogus CLIP messages sent after a failed login
   
-  FIBS_Average = ["^Time (UTC)  average min max"]
+  FIBS_Average = ["^Time \\(UTC\\)  average min max"]
   FIBS_DiceTest = ["^[nST]: "]
   FIBS_LastLogout = ["^  Last logout:"]
   FIBS_RatingCalcStart = ["^rating calculation:"]
-- 
2.43.0


From 7ae8523ecb32000394c2f942bfb843fec6f44a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 24/57] fix: name of a FIBS message does not depend on messages
 before it

---
 bglib/protocol/fibs.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index e1f8987..11d4650 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -31,14 +31,22 @@ class CookieMonster(object):
 class State(object):
   regexp_cache = dict()
 
+  # They match also messages which others are meant for.
+  # So they are tried after all of others, in this order.
+  catch_all = ()
+
   def __init__(self):
     self.last_match = list()
     
   def last_match_first(self):
     for name in self.last_match:
-      yield name, getattr(self, name)
+      if name not in self.catch_all:
+        yield name, getattr(self, name)
     for name, value in self.__class__.__dict__.items():
-      yield name, value
+      if name not in self.catch_all:
+        yield name, value
+    for name in self.catch_all:
+      yield name, getattr(self, name)
     
   def candidates(self):
     # try to match latest match first.
@@ -73,6 +81,11 @@ class State(object):
 
 class RunState(State):
   ''' =  AlphaBatch + NumericBatch + StarsBatch'''
+  catch_all = ('FIBS_BAD_Board', 'FIBS_Doubles', 'FIBS_WatchResign',
+               'FIBS_PlayerIsWatching', 'FIBS_YouAcceptDouble',
+               'FIBS_PlayerAcceptsDouble', 'FIBS_WatchGameWins',
+               'FIBS_ShowMovesOther', 'FIBS_Waves', 'FIBS_PlayerLeftGame')
+
   def __init__(self):
     self.last_match = ['CLIP_WHO_INFO']
   def next_state(self, name):
-- 
2.43.0


From 69941078e5065dd651013c5004c60e7c545ed8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 25/57] fix: login prompt is recognized only at the top of line

---
 bglib/protocol/session.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..2c030ca 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -97,8 +97,10 @@ class Session(Transport):
       while True:
         if not self.is_active():
           break
-        nth, matchobj, s = self.expect([CRLF, 'login: '])
-        if not nth:
+        # prompt is not terminated by CRLF. It must be at the top of line,
+        # others may say so in the middle of line.
+        nth, matchobj, s = self.expect([r'\Alogin: ', CRLF])
+        if nth == 1:
           s = s[:-2] # remove CRLF
         self._dispatch(self.monster.make_cookie(s), s)
     except socket.error, e:
-- 
2.43.0


From 7764739782a6ac2763969ffeaeae7783ca9e8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 26/57] fix: tell that a session is terminated however its
 listener ends

---
 bglib/protocol/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 2c030ca..a3e4f27 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -111,6 +111,8 @@ class Session(Transport):
       logging.exception('exception in listener thread:')
     except:
       logging.exception('exception in listener thread:')
+    finally:
+      self.terminated.set()
     thread.exit()
 
   @synchronized_with(Transport.lock)
-- 
2.43.0


From f3f1f35c3847a6e9b026dab50ab35c6337dff309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 27/57] fix: a subscriber that unregisters itself does not hide
 messages from others

---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index a3e4f27..1365bc3 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -120,7 +120,7 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From 6c7f6a92fff5ae813177d1b2a0b14c9b8e2fe966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 28/57] fix: text after an element that its parent can not hold
 stays in order

---
 bglib/doc/doctree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..5005e41 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -330,7 +330,7 @@ class Editor(object):
     node = self.current
     while node:
       if isinstance(node, *klasses):
-        self.current = node.parent
+        self.current = node.parent or self.root
         return
       node = node.parent
       #implicitly leaving node.
@@ -343,6 +343,7 @@ class Editor(object):
     while c and not c.is_acceptable(node):
       c = c.parent
     c.append(node)
+    node.parent = c # leaving node goes back to where it is.
     self.current = c
     return node
 
-- 
2.43.0


From 483f77214e999220f5ecc1ce6a0c871d2aa0ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 29/57] fix: words of consecutive wiki lines do not run
 together

---
 bglib/doc/bgwiki.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..dc84859 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -233,6 +233,8 @@ class LineFormatter(BaseFormatter):
               handler(match, matchobj)
       if input_line.endswith('::'):
         self.end_definition_header()
+      if not isinstance(editor.current, WrappingFormatterElement):
+        editor.append_text('\n') # words of the next line are not of this line.
     else:
       editor.leave(bglib.doc.doctree.DivElement)
       editor.done()
-- 
2.43.0


From cd2b6013031baaf586487918a6eead25e22f25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 30/57] fix: items of other designs in a list of plus and minus

---
 bglib/doc/doctree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 5005e41..3005305 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -157,10 +157,10 @@ class ItemizeElement(LineElement):
     
   def open(self):
     style = self.attrs['style']
-    if style is None:
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m is None: # list may hold items of other designs.
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From 4cc27c69adedd16de22d8d5a547658496e4467f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 31/57] fix: quotes do not end the value of attributes

---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 3005305..07b29c5 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -66,7 +66,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From 2b1d8023a0b2d45583d73bc6cfc15b7dbdf2a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 32/57] fix: escape urls once, as text and as attribute

---
 bglib/doc/bgwiki.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index dc84859..a405114 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -464,13 +464,12 @@ class LineFormatter(BaseFormatter):
 
   def _handle_pattern_auto_anchor(self, match, matchobj):
     #t = string.Template('<a class="ext-link" href="$url"><span class="icon">$url</span></a>')
-    url=bglib.doc.html.escape(match)
     editor = self.editor
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':"title"})
-    a.set_url(url)
+    a.set_url(match)
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(bglib.doc.html.escape(match))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
@@ -491,16 +490,16 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     d = matchobj.groupdict()
     if d['disp']:
-      disp = bglib.doc.html.escape(d['disp'][1:])
+      disp = d['disp'][1:]
     else:
-      disp = bglib.doc.html.escape(d['url_1'])
+      disp = d['url_1']
     #t = string.Template('''<a class="ext-link" href="$url"><span class="icon">$disp</span></a>''')
     #return t.substitute(url=bglib.doc.html.escape(d['url_1']), disp=disp)
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':disp})
-    a.set_url("%s"%bglib.doc.html.escape(d['url_1']))
+    a.set_url(d['url_1'])
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(disp)
+    editor.append_text(bglib.doc.html.escape(disp))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From 6968d70bbc68872a89f0070c68c1e0846a6bcf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 33/57] fix: preformatted text does not grow each time it is
 rendered

---
 bglib/doc/bgwiki.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index a405114..667875d 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -96,8 +96,9 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
   def close(self):
     if self.wrapped is None:
       self.prepare_formatter()
-    self.wrapped.parse(self.buf)
-    return self.wrapped.make_html()
+    wrapped = self.wrapped.__class__() # new one, this may be visited again.
+    wrapped.parse(self.buf)
+    return wrapped.make_html()
 
   def set_editor(self, editor):
     self.editor = editor
-- 
2.43.0


From 30a9ad88f74ff6e68152b4a501ac1c765186b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 34/57] fix: Position and Analysis macros without argument

---
 bglib/doc/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..2e0ed59 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,7 +188,7 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
-  matchobj = _arg_pattern.match(s)
+  matchobj = _arg_pattern.match(s or '')
   if not matchobj:
     return None
   d = matchobj.groupdict()
-- 
2.43.0


From 3bb625daecb49db2b96087e2b05c9d79b9bd2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 35/57] fix: format, width and height are given as css is, with
 =

---
 bglib/doc/macro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 2e0ed59..9a2f0f7 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -182,9 +182,9 @@ register(TableOfContent)
 _arg_pattern = re.compile(
                       r"(?P<gnubgid>[a-zA-Z0-9/+]{14}:[a-zA-Z0-9/+]{12})"
                       r"(,[ ]*css=(?P<css>[a-zA-Z]+))?"
-                      r"(,[ ]*format(?P<format>[a-zA-Z]+))?"
-                      r"(,[ ]*width(?P<width>[0-9]+))?"
-                      r"(,[ ]*height(?P<height>[0-9]+))?"
+                      r"(,[ ]*format=(?P<format>[a-zA-Z]+))?"
+                      r"(,[ ]*width=(?P<width>[0-9]+))?"
+                      r"(,[ ]*height=(?P<height>[0-9]+))?"
                       )
 
 def _parse_position(s):
-- 
2.43.0


From 06a455291c853a62410c34988acc1702357c38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 36/57] fix: table of contents with headings of any inline
 element

---
 bglib/doc/macro.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 9a2f0f7..36a99b0 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -124,16 +124,11 @@ class TocVisitor(bglib.doc.doctree.Visitor):
   def de_anchor(self, node, parent):
       if isinstance(node, bglib.doc.doctree.Text):
         return node
-      elif isinstance(node, bglib.doc.doctree.AnchorElement):
-        text = ''
-        for n in node.children:
-          if isinstance(n, bglib.doc.doctree.Text):
-            text += n.text
-        return bglib.doc.doctree.Text(parent, text=text)
-      else:
-        pass
-      return None
-        
+      text = ''
+      for n in node.children:
+        text += self.de_anchor(n, parent).text
+      return bglib.doc.doctree.Text(parent, text=text)
+
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From cd919c4381e41dcaac8099d60c8b5032f9c1765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 37/57] fix: headings before the table of contents have id, too

---
 bglib/doc/macro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 36a99b0..f6351f0 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -170,7 +170,8 @@ class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
 
 
 def TableOfContent(editor, args):
-  editor.append(TableOfContentNode, editor=editor)
+  node = editor.append(TableOfContentNode, editor=editor)
+  node.open() # headings before it need id, too.
   return True
 register(TableOfContent)
 
-- 
2.43.0


From b77b62d20ee05eba816eaea833769d247a588d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 38/57] fix: macros can be unregistered

---
 bglib/doc/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index f6351f0..10bfdbc 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -38,7 +38,7 @@ def register(handler):
   _handlers.update({_get_name(handler):handler})
 
 def unregister(name, handler):
-  _handlers.remove(_get_name(handler))
+  del _handlers[_get_name(handler)]
 
 _db = None
 def setup(db):
-- 
2.43.0


From 94870ec7b72fbdc2606020951dbda184405f8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:24 +0000
Subject: [PATCH 39/57] fix: text after a position is not in the element of the
 position

---
 bglib/doc/macro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 10bfdbc..60f151a 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -206,6 +206,7 @@ def Position(editor, args):
     return False
   editor.enter(bglib.doc.doctree.SpanElement, **{"class":"position"})
   editor.enter(bglib.doc.doctree.ImgElement, src='/image?'+urllib.urlencode(d, True))
+  editor.leave(bglib.doc.doctree.ImgElement)
   editor.leave(bglib.doc.doctree.SpanElement)
   return True
 register(Position)
-- 
2.43.0


From 879a323176b14234982e5e2144d8117a051a9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 40/57] fix: show offers of resignation after roll and after
 doubling, too

---
 bglib/image/base.py | 55 +++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..f51b0d0 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -764,7 +764,10 @@ class ElementTree(object):
       chequer.append(str(chequer_count))
       self.home[HIM].append(chequer)
 
-    if not board.doubled or board.on_inner_action == board.on_action:
+    resigning = board.on_inner_action != board.on_action and \
+                board.resign_offer in bglib.model.constants.RESIGN_TYPES
+
+    if not board.doubled or board.on_inner_action == board.on_action or resigning:
       if board.cube_owner == YOU:
         cube = Element('cube')
         cube.append(str(board.cube_in_logarithm))
@@ -780,20 +783,26 @@ class ElementTree(object):
       else:
         assert False
 
+    if resigning and board.on_action in (YOU, HIM):
+      # may be offered before or after roll.
+      if board.rolled != (0, 0):
+        self.append_dice(board.on_action, board.rolled)
+      resign = Element('resign')
+      resign.append(str(board.resign_offer))
+      self.field[board.on_inner_action].append(resign)
+      self.action.player = bglib.model.constants.PLAYER_STRING[board.on_inner_action]
+      if board.on_inner_action == HIM:
+        self.action.append('him to accept your resignation or not.')
+      else:
+        self.action.append('you to accept his resignation or not.')
+      return
+
     if board.on_action == YOU and board.rolled == (0, 0):
       if not board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
         self.action.append('you to roll or double.')
         return
 
-      if not board.doubled and board.on_inner_action == HIM and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
-        self.action.append('him to accept your resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[HIM].append(resign)
-        return
-
       if board.doubled and board.on_inner_action == HIM:
         cube = Element('cube')
         cube.append(str(board.cube_in_logarithm+1))
@@ -810,12 +819,7 @@ class ElementTree(object):
     if board.on_action == YOU and  board.rolled != (0, 0):
       self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
       self.action.append('you to move.')
-      die = Element('die', id='right')
-      die.append(str(board.rolled[0]))
-      self.field[YOU].append(die)
-      die = Element('die', id='left')
-      die.append(str(board.rolled[1]))
-      self.field[YOU].append(die)
+      self.append_dice(YOU, board.rolled)
       return
 
     if board.on_action == HIM and board.rolled == (0, 0):
@@ -823,14 +827,6 @@ class ElementTree(object):
         self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
         self.action.append('him to roll or double.')
         return
-      if not board.doubled and board.on_inner_action == YOU and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-        self.action.append('you to accept his resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[YOU].append(resign)
-        return
-
       if board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
         cube = Element('cube')
@@ -847,12 +843,7 @@ class ElementTree(object):
     if board.on_action == HIM and  board.rolled !=(0, 0):
       self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
       self.action.append('him to move.')
-      die = Element('die', id='right')
-      die.append( str(board.rolled[0]))
-      self.field[HIM].append(die)
-      die = Element('die', id='left')
-      die.append(str(board.rolled[1]))
-      self.field[HIM].append(die)
+      self.append_dice(HIM, board.rolled)
       return
 
     #assert not board.doubled and board.on_inner_action == HIM and board.resign_offer not in bglib.model.constants.resign_types
@@ -874,6 +865,12 @@ class ElementTree(object):
     board.resign_offer
     ))
 
+  def append_dice(self, who, rolled):
+    for name, n in (('right', rolled[0]), ('left', rolled[1])):
+      die = Element('die', id=name)
+      die.append(str(n))
+      self.field[who].append(die)
+
   def create_tree(self):
     score = list()
     score.append(Element('score', player=bglib.model.constants.PLAYER_STRING[YOU]))
-- 
2.43.0


From 435301f2539251b7463f5b2ee7ed9c14e7594a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 41/57] fix: image or font given by more than one rule of css

---
 bglib/image/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index f51b0d0..751a435 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -228,7 +228,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
+      a = self.DTD_ATTLIST[name](css_path=css_path)
       assert a
       v = a.parse(value)
       setattr(self, name, v)
-- 
2.43.0


From 4293b7d3e675cf61deb79de8da703fce32886587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 42/57] fix: False is false in css

---
 bglib/image/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 751a435..9f6023e 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -133,7 +133,7 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    return s.strip() not in ('', 'False', 'false', '0')
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -148,8 +148,6 @@ class FillAttribute(InheritMixIn, BoolAttribute):
 class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
-  def parse(self, s):
-    return bool(s)
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From d9dae64d13c64f997a1d8bc03dbd12e51fdef1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 43/57] fix: default of fill where parent has no such attribute

---
 bglib/image/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 9f6023e..ef14c82 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -280,7 +280,7 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
+      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None and name in self.parent.DTD_ATTLIST:
         return getattr(self.parent, name)
       else:
         try:
-- 
2.43.0


From 23ecce613cb0c97da8016261cc06dffd28d020a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 44/57] fix: rules commented out with # are not applied

---
 bglib/image/css.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index d51848f..1d9c01e 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -170,6 +170,8 @@ class CSSParser(object):
   def rule(self, css_path, lineno, s):
     if not s:
       return 
+    if s.lstrip().startswith('#'): # commented out.
+      return
     r = re.compile(r"^[ ]*(?P<pattern>[^{]*)[ ]*{(?P<block>[^]]*)}")
     m = r.search(s)
     if m:
-- 
2.43.0


From 0f372f1e21d1a06fa6f746e563e96bf3837753f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:17 +0000
Subject: [PATCH 45/57] fix: pictures of any size can be drawn

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index ef14c82..71ebfd6 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -311,8 +311,8 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From a4529723cc368afc71675e42374e701e6a785ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 46/57] fix: name of the one who takes is found by its own
 expression

---
 bglib/encoding/FIBS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 72bf2c2..04e3ed9 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -157,9 +157,9 @@ def get_name(got):
     return None
   return got[m.start():m.end()]
 
-taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accpets")
+taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accepts")
 def get_taker_name(got):
-  m = name_expr.search(got)
+  m = taker_name_expr.search(got)
   if m is None:
     return None
   try:
-- 
2.43.0


From 0aea852ccad19c0dd7eca3802c23133b1b28ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 47/57] fix: score in a FIBS message is its first number

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 04e3ed9..a96bf0f 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -190,7 +190,7 @@ def get_move(got, who):
 
 score_expr = re.compile("[0-9]+")
 def get_score(got):
-  score = score_expr.findall(got)
+  score = score_expr.findall(got)[0]
   return int(score)
 
 match_score_expr = re.compile("[0-9]+")
-- 
2.43.0


From 65a3dd8c66d645c16a2a07dacb5f53c3989b23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 48/57] fix: FIBS board without a double pending clears the one
 in the model

---
 bglib/encoding/FIBS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index a96bf0f..69ef30e 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -128,8 +128,8 @@ def decode(m, s):
     #ugh! There is no way to define it
     #may be we need to add some thing.
 
-  if fibs.was_doubled:
-    m.doubled = True
+  m.doubled = bool(fibs.was_doubled)
+  if m.doubled:
     if m.on_action == YOU:
       m.on_inner_action = HIM
     elif m.on_action == HIM:
-- 
2.43.0


From 505b6d15e75ccf50899d1c6ab630167d256d1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 49/57] fix: decoding XGID clears offers in the model

---
 bglib/encoding/xgid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index e31f90c..ade35f5 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -148,9 +148,8 @@ def decode(model, s):
   #UGH!
   model.on_inner_action = model.on_action
 
-  '''
-  #model.doubled = mp.doubled
-  #model.resign_offer = mp.resign_offer
-  '''
+  #UGH! no double nor resign is offered.
+  model.doubled = False
+  model.resign_offer = RESIGN_NONE
 
 
-- 
2.43.0


From c19f15b4959ceedd6ec447d44ca43b6abeb8e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 50/57] fix: unknown letters in position of XGID were read as
 empty points

---
 bglib/encoding/xgid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index ade35f5..61026d7 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -33,6 +33,10 @@ def decode_position(s):
   you = s[1:26]
   him = "".join(reversed(s[0:25]))
 
+  for c in s:
+    if c not in conv_him and c not in conv_you:
+      raise bglib.encoding.DecodeError('got bad data, unknown letter in position: %s '%(s,))
+
   return tuple([conv_him.get(h, 0) for h in him]), \
          tuple([conv_you.get(y, 0) for y in you])
     
-- 
2.43.0


From 1d75d168d0af5c9890c6fd50ae224ca55db2a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 51/57] fix: dice, score and cube of no meaning in XGID are
 refused

---
 bglib/encoding/xgid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 61026d7..8530c21 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -71,6 +71,8 @@ def decode(model, s):
     model.cube_in_logarithm = int(cube_in_logarithm)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer cube logarithm: %s '%(cube_in_logarithm,))
+  if model.cube_in_logarithm < 0:
+    raise bglib.encoding.InconsistentData('negative cube logarithm: %s '%(cube_in_logarithm,))
 
 
   '''
@@ -115,11 +117,15 @@ def decode(model, s):
     model.rolled = int(rolled[0]), int(rolled[1])
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer roll: %s '%(rolled,))
+  if max(model.rolled) > 6:
+    raise bglib.encoding.InconsistentData('bad roll: %s '%(rolled, ))
 
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non interger score: %s:%s '%(your_score, his_score,))
+  if min(model.score) < 0:
+    raise bglib.encoding.InconsistentData('negative score: %s:%s '%(your_score, his_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From e5761f9ac12238fe3a459dd3cd342f741c90d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:53 +0000
Subject: [PATCH 52/57] fix: paths with & < or quotes in XML of pictures

---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 71ebfd6..b9207d9 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -6,6 +6,7 @@
 #
 
 import os.path
+from xml.sax.saxutils import escape, quoteattr
 
 import bglib.image.css
 import bglib.model.constants
@@ -234,13 +235,13 @@ class BaseElement(object):
   def format(self, indent):
     s = ' '*indent + "<%s"%(self.name)
     for n, v in self.attributes.items():
-      s+= ' %s="%s"'%(n, str(v))
+      s+= ' %s=%s'%(n, quoteattr(str(v)))
     s+=">\n"
     for c in self.children:
       if isinstance(c, BaseElement):
         s += c.format(indent+2)
       else:
-        s += ' '*(indent +2) + str(c) + '\n'
+        s += ' '*(indent +2) + escape(str(c)) + '\n'
     s+= ' '*indent + "</%s>\n"%(self.name)
     return s
 
-- 
2.43.0


From 26b153d7e4e860574177397bd999ed6d647e3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:19 +0000
Subject: [PATCH 53/57] fix: a side with no chequers left has no rearmost
 chequer

---
 bglib/encoding/bearoff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/__init__.py b/bglib/encoding/bearoff/__init__.py
index dec5e92..8701935 100644
--- a/bglib/encoding/bearoff/__init__.py
+++ b/bglib/encoding/bearoff/__init__.py
@@ -13,7 +13,7 @@ from tonic.combination import fact, C, C_Hash, C_RHash
 
 def backward(t):
   i = 24
-  while not t[i]:
+  while i >= 0 and not t[i]:
     i -= 1
   return i + 1
 
-- 
2.43.0


From 2775cd8669355506abdebc7ca016fa410b3ef4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:44 +0000
Subject: [PATCH 54/57] fix: read quoted values of attribute and data
 conditions of style sheets

---
 bglib/image/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index 1d9c01e..dbd18ff 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -190,8 +190,8 @@ class CSSParser(object):
     assert s
     r = re.compile("""
         (?P<element>[_a-zA-Z]+)
-        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<value>[\-_a-zA-Z0-9]+)\])?
-        (:data\((?P<data>[^)]+)\))?
+        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<q1>["']?)(?P<value>[\-_a-zA-Z0-9]+)(?P=q1)\])?
+        (:data\((?P<q2>["']?)(?P<data>[^)]+?)(?P=q2)\))?
       """, re.VERBOSE)
     m = r.search(s)
     if m:
-- 
2.43.0


From b27f9f31d5aa3e9786003fa738508c8c89e90e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:44 +0000
Subject: [PATCH 55/57] fix: an empty block of a style sheet is a rule without
 attributes

---
 bglib/image/css.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index dbd18ff..531cd2a 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -201,7 +201,6 @@ class CSSParser(object):
                         m.group('data')))
 
   def block(self, rule, s):
-    assert s
     for t in s.split(";"):
       if t:
         self.attribute(rule, t)
-- 
2.43.0


From d0e246d2b95c954739a94b98a63fe3e9a13a9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:44 +0000
Subject: [PATCH 56/57] fix: boards and editors can be copied, shallowly or
 deeply

---
 bglib/model/board.py       | 3 +++
 bglib/model/boardeditor.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index c3bddc0..c90c52c 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -224,4 +224,7 @@ class Board(AbstractBoard):
   def __copy__(self):
     return self #immutable
 
+  def __deepcopy__(self, memo):
+    return self #immutable
+
 
diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index d6f733f..d5777a7 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -36,6 +36,12 @@ class BoardEditor(AbstractBoard):
     print '%s:%s'%(name, value)
     self.__dict__['_d'][name] = value
 
+  def __copy__(self):
+    return BoardEditor(self)
+
+  def __deepcopy__(self, memo):
+    return BoardEditor(self) # values are immutable
+
   def freeze(self):
     return Board(**self._d)
 
-- 
2.43.0


From bf6c8f6601ef83734a24d18ddd8a6b6b85ffe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:50 +0000
Subject: [PATCH 57/57] fix: finding an undo leaves the dice that were given as
 they are

---
 bglib/model/move.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 78a550a..7a225a6 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -409,8 +409,9 @@ class MoveFactory(object):
         return mv
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
-        available.add(inverse.die)
-        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        left = AvailableToPlay(rolled=None, copy_src=available)
+        left.add(inverse.die)
+        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, left, mv)
         b.make_partial_move(pm)
         return mv
       else:
-- 
2.43.0

