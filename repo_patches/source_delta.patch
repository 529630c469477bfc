From 41293c5a99fb22739eb873f3ecf9301c85c6483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 01/34] fix: LinkConeCard adds the link counts instead of
 and-ing their bits

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..21ff22f 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -416,10 +416,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 25b52bc826acbe7bf3016299a8100b6f11576eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 02/34] fix: unlink (and disjoin) of an event that was never
 linked does not raise

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 21ff22f..743bb5b 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From de73a1bb5116d42da82f4567de9c4e72fa9e26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 03/34] fix: removing an event recomputes the links of its
 relatives without it

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 743bb5b..63c1f97 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -109,18 +109,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From 3495819acd21753069ba75b8fcb8fb0414822670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 04/34] fix: isLink is False for unrelated events

---
 causetevent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 63c1f97..9136ea3 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -82,10 +82,10 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
+            self._prec.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(other, self):
                 self._lprec -= other._prec
                 self._lprec.add(other)
-            self._prec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -97,10 +97,10 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
+            self._succ.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(self, other):
                 self._lsucc -= other._succ
                 self._lsucc.add(other)
-            self._succ.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
@@ -228,7 +228,7 @@ class CausetEvent(object):
         method many times, faster access is achieved with the call of 
         a.isFutureLink(b).
         '''
-        return not (a._succ & b._prec)
+        return (a in b._prec or b in a._succ) and not (a._succ & b._prec)
 
     def isPastLink(self, other: 'CausetEvent') -> bool:
         '''
-- 
2.43.0


From 8dd0adf329f9ca9312d7a7345e01d3df4b328e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 05/34] fix: a new relative also removes outdated links when it
 is not linked itself

---
 causetevent.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 9136ea3..e119687 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -83,9 +83,10 @@ class CausetEvent(object):
             return False
         else:
             self._prec.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if self.hasBeenLinked():
                 self._lprec -= other._prec
-                self._lprec.add(other)
+                if CausetEvent.isLink(other, self):
+                    self._lprec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -98,9 +99,10 @@ class CausetEvent(object):
             return False
         else:
             self._succ.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if self.hasBeenLinked():
                 self._lsucc -= other._succ
-                self._lsucc.add(other)
+                if CausetEvent.isLink(self, other):
+                    self._lsucc.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
-- 
2.43.0


From 33b732decdf7217397d2e8515f622273b8e9e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 06/34] fix: an event created between past and future events
 relates these

---
 causetevent.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causetevent.py b/causetevent.py
index e119687..c8bb1f0 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -65,6 +65,11 @@ class CausetEvent(object):
             e._addToFuture(self)
         for e in self._succ:
             e._addToPast(self)
+        # Relate the past events to the future events (transitivity):
+        for p in self._prec:
+            for f in self._succ:
+                p._addToFuture(f)
+                f._addToPast(p)
 
     def hasBeenLinked(self) -> bool:
         '''
-- 
2.43.0


From 269cc8f308ec3c7350b9eedd1dd3c3f8c3aaa554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 07/34] fix: an event created without coordinates is not
 embedded

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index c8bb1f0..b2d0e89 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From b7d3e16af580b2f493a680b97f5fd8b25a6fe244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 08/34] fix: PastOf, FutureOf and ConeOf intersect the cones if
 requested

---
 causet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index 5b5785f..0bfb33d 100644
--- a/causet.py
+++ b/causet.py
@@ -552,11 +552,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.PresentOrPast for e in eventSet))
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.Past for e in eventSet))
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -572,11 +574,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.PresentOrFuture for e in eventSet))
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.Future for e in eventSet))
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -592,11 +596,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.Cone for e in eventSet))
         elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+            if eventSet:
+                newEventSet = set.intersection(
+                    *(e.Past | e.Future for e in eventSet))
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From 9dcbdd87adce1dd5add1cacbf84d91b58755d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/34] fix: set minus causet removes the events of the causet

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 0bfb33d..2e15f75 100644
--- a/causet.py
+++ b/causet.py
@@ -392,7 +392,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From 293283ac1377d249885d277a22ec14d36e2bf32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/34] fix: merge resets the link memory of the joined events

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index 2e15f75..441bf33 100644
--- a/causet.py
+++ b/causet.py
@@ -234,6 +234,8 @@ class Causet(object):
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
+            for e in set(pastSet) | set(futureSet):
+                e.unlink()
         return Causet(set(pastSet) | set(futureSet))
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
-- 
2.43.0


From dc7cee61f0e6d3e60f4fa4ad28ed88f7a63f76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/34] fix: isPath is False for linked events that are no
 chain

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 441bf33..c7831a5 100644
--- a/causet.py
+++ b/causet.py
@@ -467,7 +467,7 @@ class Causet(object):
                     extremal += 1
                     if extremal > 2:
                         return False
-        return True
+            return self.isChain(events)
 
     def isAntichain(self, events: Optional[Iterable[CausetEvent]] = None) -> \
             bool:
-- 
2.43.0


From c8f5d3b76a44af859f44ba8c05cf8c4adaff8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 12/34] fix: valid colour code for 'lime' of ImperialLondon

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From 5d8fb37e1bd9cd46b69a5041d687d3af5406424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 13/34] fix: repr of a coordinate shape does not raise

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From 540bf65dbf082bab6da400ea895016a5c2624933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 14/34] fix: repr of a non-periodic flat spacetime does not
 raise

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..2539efc 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,8 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Any = self.Parameter('period') \
+            if self.Parameter('isPeriodic') else 0.0
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From 53a705a2f47b07566f54d3626e7842f6e93d07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 15/34] fix: LengthScale is the inverse d-root of the density

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..6477a06 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,7 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 5b66db3c0ce21582f9eb52df26a3f36f0b91d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 16/34] fix: NewtonsMethod restricts the result to its
 documented interval

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..1400844 100644
--- a/calculations.py
+++ b/calculations.py
@@ -92,9 +92,9 @@ def NewtonsMethod(f: Callable[[Any], Any], fprime: Callable[[Any], Any],
         if yprime_n == 0.0:
             break
         x_next: float = x_n - (f(x_n) - y) / yprime_n
-        if x_next < xmin:
+        if x_next < xmin + precission:
             x_next = xmin + precission
-        elif x_next > xmax:
+        elif x_next > xmax - precission:
             x_next = xmax - precission
         if abs(x_n - x_next) < precission:
             return x_next
-- 
2.43.0


From 6cbaa37b6a364ca190db70f58bac38b09cf548b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 17/34] fix: discarding from an empty sprinkled causet does not
 divide by zero

---
 sprinkledcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..8a4a8ab 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -177,4 +177,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From 1f2fe3b531a45140aabd64457d4a4032c7313df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 18/34] fix: plotting a hollow bicone does not change its
 radius

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 4eef303..d9e5a20 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = r * hollow
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From 9a67d78374ada6b8b35698d8a9783af7cbf095d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 19/34] fix: coordinate lists of a wrong dimension are rejected

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 6477a06..e8c5b11 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -115,6 +115,8 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            if any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From 984d48dc8961b5af9d92ff48b378a9f05ed91de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 20/34] fix: a causet from a matrix is transitively closed and
 free of causal loops

---
 causet.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/causet.py b/causet.py
index c7831a5..b46e6fb 100644
--- a/causet.py
+++ b/causet.py
@@ -181,20 +181,18 @@ class Causet(object):
                              'to a square matrix.')
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
-        e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
         # complete pasts and futures (if the input contains links only)
+        R: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        R[:rowcount, :] = C
+        for k in range(colcount):
+            R |= np.outer(R[:, k], R[k, :])
+        if np.any(np.diagonal(R)):
+            raise ValueError('The causet is not anti-symmetric.')
+        e: CausetEvent
         for i in range(colcount):
             e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+            e._prec = set(events[np.where(R[i, :])[0]])
+            e._succ = set(events[np.where(R[:, i])[0]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 48ec8b08bf1ffab1c5fa3caf854bbd03d7d34137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 21/34] fix: sprinkling into a bicone assigns coordinates
 around its center

---
 sprinkledcauset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 8a4a8ab..32d9e59 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,10 +82,10 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond:
@@ -95,6 +95,7 @@ class SprinkledCauset(EmbeddedCauset):
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
@@ -119,7 +120,8 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-- 
2.43.0


From 20063a4186576c9823170398e1178aeaedd1cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 22/34] fix: sprinkling into a hollow bicone leaves its
 interior empty

---
 sprinkledcauset.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 32d9e59..29a5d1f 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -108,7 +108,8 @@ class SprinkledCauset(EmbeddedCauset):
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond \
+                    else shape.Parameter('hollow')**b_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
@@ -126,6 +127,15 @@ class SprinkledCauset(EmbeddedCauset):
                         r_scaling *= h_squeeze
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
                         (r_scaling * b_r / r) * coord
+            if isDiamond and (shape.Parameter('hollow') > 0.0):
+                # move radially out of the hollow interior:
+                rel: np.ndarray = coords - shape.Center
+                size: np.ndarray = np.abs(rel[:, 0]) + \
+                    np.sqrt(np.sum(np.square(rel[:, 1:]), axis=1))
+                new_size: np.ndarray = b_r * rng.uniform(
+                    low=shape.Parameter('hollow')**d,
+                    size=(count,))**(1.0 / d)
+                coords = shape.Center + rel * (new_size / size)[:, np.newaxis]
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From bb76ce0377cb083ca9f4c3760dbe4eb622f3c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 23/34] fix: conetimefade='' switches off the fading of causal
 cones

---
 causetplotting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..2dda19b 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -394,7 +394,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         plot_spacetime = spacetime
         coordattr = 'Coordinates'
     if isPlottingPastcones:
-        pcn_alpha_max: float
+        pcn_alpha_max: float = 1.0
         if plotting['conetimefade'] != '':
             try:
                 pcn_alpha_max = plotting['pastcones']['alpha']
@@ -404,9 +404,10 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
             dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
                                            abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+                                           pcn_alpha_max)
+            if plotting['conetimefade'] != '' else None)
     if isPlottingFuturecones:
-        fcn_alpha_max: float
+        fcn_alpha_max: float = 1.0
         if plotting['conetimefade'] != '':
             try:
                 fcn_alpha_max = plotting['futurecones']['alpha']
@@ -416,7 +417,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
             dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
                                            abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+                                           fcn_alpha_max)
+            if plotting['conetimefade'] != '' else None)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From 700b7f7d740632268bd298a96267fe4fed688d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 24/34] fix: a dynamic plot without links does not raise

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 2dda19b..46b1428 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -435,7 +435,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From d80edc33fa925cc082a1e728ed623a871cf65b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 25/34] fix: the shape of an embedded causet determines the
 axis limits

---
 causetplotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 46b1428..e52ae0d 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and \
+            (kwargs.get('axislim') == 'shape'):
+        kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
@@ -358,7 +361,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset):
         events = list(E)
         spacetime = E.Spacetime
-        kwargs.update({'shape': E.Shape})
     elif isinstance(E, CausetEvent):
         events = [E]
     else:
-- 
2.43.0


From 8446213237bd02a665bccfaf3046185c684e3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 26/34] fix: sprinkling into a one-dimensional bicone or
 cylinder does not divide by zero

---
 sprinkledcauset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 29a5d1f..808cb2f 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -115,7 +115,8 @@ class SprinkledCauset(EmbeddedCauset):
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
                     r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d) \
+                        if b_d > 0 else 0.0
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
@@ -125,8 +126,9 @@ class SprinkledCauset(EmbeddedCauset):
                             h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
-                    coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                        (r_scaling * b_r / r) * coord
+                    if b_d > 0:
+                        coords[i, b_dstart:] = shape.Center[b_dstart:] + \
+                            (r_scaling * b_r / r) * coord
             if isDiamond and (shape.Parameter('hollow') > 0.0):
                 # move radially out of the hollow interior:
                 rel: np.ndarray = coords - shape.Center
-- 
2.43.0


From 0abebef04cd931462c1d5cb7492c66bc498f0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 27/34] fix: cylinder and cone surfaces are centred for every
 time axis

---
 shapes.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shapes.py b/shapes.py
index d9e5a20..32a5e41 100644
--- a/shapes.py
+++ b/shapes.py
@@ -555,15 +555,15 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         radii = radius * np.array([hollow, 1.0, 1.0, hollow, hollow])
         relZ = np.array([-sampling, -sampling, sampling, sampling, -sampling])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + center[0],
-         np.outer(radii, np.sin(phi)) + center[1],
-         (height / 2) * relZ + center[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         (height / 2) * relZ)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + center[0], XYZ[1] + center[1], XYZ[2] + center[2])]
 
 
 def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
@@ -580,13 +580,12 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + tip[0],
-         np.outer(radii, np.sin(phi)) + tip[1],
-         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height
-         + tip[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + tip[0], XYZ[1] + tip[1], XYZ[2] + tip[2])]
-- 
2.43.0


From 67895dd32c65c42efef454b88981696fb5f1ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 28/34] fix: a cut through a cylinder is centred when time is
 horizontal

---
 shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 32a5e41..8970857 100644
--- a/shapes.py
+++ b/shapes.py
@@ -347,8 +347,11 @@ class CoordinateShape(object):
                                    hollow),
                         **plotoptions)
             elif self.Name == 'cylinder':
+                cutcenter: np.ndarray = self.Center[dims]
+                if timeaxis == 0:
+                    cutcenter = cutcenter[[1, 0]]
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
+                    cutcenter, self._params['radius'],
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-- 
2.43.0


From 329349a8a42c9fd1bca803d9291eaef3a68bf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 29/34] fix: powers in the asymptotic harmonic numbers do not
 overflow

---
 calculations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 1400844..d162d41 100644
--- a/calculations.py
+++ b/calculations.py
@@ -43,10 +43,11 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         total += 1. / (k + 1)
     if n >= approximate:
         n_range: np.ndarray = np.arange(approximate, n + 1)
+        n_float: np.ndarray = n_range.astype(float)
         H[n_range] = np.log(n_range) + np.euler_gamma
         H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        H[n_range] -= 0.25 / 3 / np.square(n_float)
+        H[n_range] += 0.025 / 3 / np.square(np.square(n_float))
     return H
 
 
-- 
2.43.0


From c0925ac3dc69c981ecafa858e757513ece18c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 30/34] fix: a position given to the constructor of an event
 needs two components

---
 causetevent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetevent.py b/causetevent.py
index b2d0e89..f3dbe54 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -61,7 +61,7 @@ class CausetEvent(object):
         if 'coordinates' in kwargs:
             self._coordinates = list(kwargs['coordinates'])
         if 'position' in kwargs:
-            self._position = list(kwargs['position'])
+            self.Position = kwargs['position']
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 7030165941d713bff22dad8990f3c7a806a71ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 31/34] fix: cone plots do not change the plotting parameters
 of the caller

---
 spacetimes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 2539efc..bd553d7 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -185,11 +185,12 @@ class Spacetime(object):
             r: float = timesign * (timeslice - origin[0])
             if r <= 0.0:  # radius non-positive
                 return None
+            params: Dict[str, Any] = plotting_params
             if dynamicAlpha is not None:
                 conealpha = dynamicAlpha(r)
                 if conealpha <= 0.0:
                     return None
-                plotting_params.update({'alpha': conealpha})
+                params = {**plotting_params, 'alpha': conealpha}
             XY: np.ndarray = None
             T: np.ndarray
             samplesize_t: int
@@ -219,7 +220,7 @@ class Spacetime(object):
                         X, Y, Z = Z, X, Y
                     elif timeaxis == 1:
                         X, Y, Z = Y, Z, X
-                _axes.plot_surface(X, Y, Z, **plotting_params)
+                _axes.plot_surface(X, Y, Z, **params)
                 return [(X, Y, Z)]
             else:
                 if timeaxis < 0:
@@ -233,7 +234,7 @@ class Spacetime(object):
                 # rotate:
                 if timeaxis == 0:
                     XY = np.fliplr(XY)
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                p: Patch = patches.Polygon(XY, **params)
                 _axes.add_patch(p)
                 return p
 
@@ -413,11 +414,12 @@ class FlatSpacetime(Spacetime):
             r: float = timesign * (timeslice - origin[0])
             if r <= 0.0:  # radius non-positive
                 return None
+            params: Dict[str, Any] = plotting_params
             if dynamicAlpha is not None:
                 conealpha = dynamicAlpha(r)
                 if conealpha <= 0.0:
                     return None
-                plotting_params.update({'alpha': conealpha})
+                params = {**plotting_params, 'alpha': conealpha}
             origin = origin[dims]
             if is3d:
                 XYZ_list: List[Tuple[np.ndarray, np.ndarray, np.ndarray]] = []
@@ -431,7 +433,7 @@ class FlatSpacetime(Spacetime):
                             origin - s, r, timesign * r,
                             timeaxis, samplingsize)
                 for XYZ in XYZ_list:
-                    _axes.plot_surface(*XYZ, **plotting_params)
+                    _axes.plot_surface(*XYZ, **params)
                 return XYZ_list
             else:
                 XY: np.array = None
@@ -455,7 +457,7 @@ class FlatSpacetime(Spacetime):
                     XY = XYpart if i == 0 \
                         else np.concatenate(
                             (XY, np.array([[np.nan, np.nan]]), XYpart))
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                p: Patch = patches.Polygon(XY, **params)
                 _axes.add_patch(p)
                 return p
 
-- 
2.43.0


From ec10a97862bd7282397a36be959c46d85363558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 32/34] fix: every call of a plotter returns its own dictionary
 of handles

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index e52ae0d..22b2235 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -354,7 +354,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             (kwargs.get('axislim') == 'shape'):
         kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
-    _h = {}  # holds Dict of artists
     # ====================
     # get set of events:
     events: List[CausetEvent]
@@ -449,6 +448,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         Core plot function that returns a dictionary of plot object 
         pointers.
         '''
+        _h: Dict[str, Any] = {}  # holds Dict of artists
         if isinstance(time, float):
             time = [time, time]  # list of floats required
         # ====================
-- 
2.43.0


From 1d0053479830b0b4179e9393cc3dc6724f7e832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 33/34] fix: a text file with the matrix of one event or none
 can be imported

---
 causet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index b46e6fb..5945722 100644
--- a/causet.py
+++ b/causet.py
@@ -211,7 +211,10 @@ class Causet(object):
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
-                                      delimiter=delimiter, **kwargs)
+                                      delimiter=delimiter,
+                                      **{'ndmin': 2, **kwargs})
+        if C.size == 0:  # no event
+            C = np.zeros((0, 0), dtype=int)
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From 3b7fc9fbed7d540d9614912911c9db922ca97b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:56 +0000
Subject: [PATCH 34/34] fix: sort events without labels by causality

---
 causet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 5945722..6777d4c 100644
--- a/causet.py
+++ b/causet.py
@@ -1162,7 +1162,11 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        eList: List[CausetEvent] = self.sortedByLabels(eventSet, reverse=True)
+        eList: List[CausetEvent]
+        if any(e.Label is None for e in eventSet):  # not all are labelled
+            eList = list(eventSet)
+        else:
+            eList = self.sortedByLabels(eventSet, reverse=True)
         c: int = len(eList)
         for i in range(c):
             for j in range(i):
-- 
2.43.0

