From eeb3c9057d2458c87c0083a9b8ea862bd315c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:14 +0000
Subject: [PATCH 01/43] fix: hash individuals consistently with equality and
 across processes

The hash packed the SSE as a single-precision float, which raises an
error for huge SSEs while the history holds its lock, and it was of a
salted bytes object, so history lookups failed after unpickling in
another process. Equal individuals could also have different hashes.
---
 ade/individual.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..f11e2ad 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,7 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        return hash(tuple(float(x) for x in [self.SSE] + list(self.values)))
     
     def __eq__(self, other):
         """
-- 
2.43.0


From c1bb4f751078f430bf5598458799a1df3ce775d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:13 +0000
Subject: [PATCH 02/43] fix: ignore records too big for the history's precision

Adding an SSE beyond the single-precision range raised an error while
the history lock was held, so the evolution never finished.
---
 ade/history.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..09844af 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1006,7 +1006,8 @@ class History(object):
     def add(self, i, neverInPop=False):
         """
         Adds the SSE and parameter values of the supplied individual I{i}
-        to my roster, unless it has an SSE of C{inf}, in which case it
+        to my roster, unless it has an SSE of C{inf} (or anything else
+        that is not finite in the precision I use), in which case it
         is ignored.
 
         If the roster is already full, bumps the record deemed most
@@ -1026,7 +1027,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1046,7 +1046,10 @@ class History(object):
                 self.kr[hash(i)] = kr
 
         SSE = i.SSE
-        if np.isfinite(SSE):
+        with np.errstate(over='ignore'):
+            # Same precision as my X array, where a huge value is inf
+            SV = np.array([SSE] + list(i.values), dtype=self.X.dtype)
+        if np.all(np.isfinite(SV)):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From 472f9638c16764b0291b6aa71398b92da76b7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:47 +0000
Subject: [PATCH 03/43] fix: never let the history reuse an occupied row

With certain holes in the allocated rows, the row picked for a new
record was one that already had a record, which thus got overwritten
and was listed twice.
---
 ade/history.py | 54 ++++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 09844af..46cf4b9 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -951,38 +951,14 @@ class History(object):
 
         First, index I{k} is obtained, by seeing where the I{K}
         list points to a record with an SSE closest but above the
-        new one. Then each row index in the I{K} list is examined
-        to see if the previous row of my I{X} array is
-        unallocated. If so, that is the row index for the new
-        record. Otherwise, is the next row of my I{X} array is
-        unallocated, that is used instead. If both adjacent rows
-        of I{X} are already allocated, the next row index in the
-        I{K} list is examined.
-
-        If there are no row indices in I{K} that point to a row of
-        I{X} with an unallocated adjacent row, the row index is
-        determined to be the current length of I{k}.
-
-        B{Note}: With the original for-loop Python, the search for an
-        unallocated row was very CPU intensive when you get a big
-        history accumulated:::
-
-            # Pick a row index for the new record
-            for kr in self.K:
-                if kr > 0 and kr-1 not in self.K:
-                    return k, kr-1
-                if kr < N-1 and kr+1 not in self.K:
-                    return k, kr+1
-            return k, N
-
-        The reason is that the list was being searched for an item
-        with every iteration, twice!
-        
-        The optimized version does this same thing with much more
-        efficiently, by creating a local (array) copy of I{K} and
-        sorting it in place. Then only adjacent elements needs to be
-        inspected with each iteration. (It may be just as fast with a
-        local sorted list instead of a Numpy array.)
+        new one. Then a row of my I{X} array is picked that none of
+        the row indices in the I{K} list refers to: The first gap in
+        the rows allocated, if any, or else the row before the first
+        one allocated or, if that is row zero, the row after the last
+        one allocated.
+
+        That is done efficiently, by creating a local (array) copy of
+        I{K} and sorting it in place.
         """
         K = np.array(self.K)
         # Find the index in K of the row index for the closest
@@ -991,16 +967,12 @@ class History(object):
         #--- Pick a row index for the new record ------------------------------
         # Sort local array version of K in place
         K.sort()
-        for kk, kr in enumerate(K[1:-1]):
-            if kr == 0: continue
-            if kr == N-1: break
-            if K[kk] != kr-1:
-                return k, kr-1
-            if K[kk+2] != kr+1:
-                return k, kr+1
+        gaps = np.flatnonzero(np.diff(K) > 1)
+        if len(gaps):
+            return k, int(K[gaps[0]]) + 1
         if K[0] > 0:
-            return k, K[0]-1
-        return k, min([N, K[-1]+1])
+            return k, int(K[0]) - 1
+        return k, int(K[-1]) + 1
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 4b1eaa8fd8ba7a97950bda15fcabce1d592d98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:47 +0000
Subject: [PATCH 04/43] fix: let the history cope with having nobody to bump

With a full roster consisting of current population members only, the
search for an expendable record raised an error with the history lock
held, so evolution never finished.
---
 ade/history.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 46cf4b9..4b14692 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1036,9 +1038,12 @@ class History(object):
                 # in the current population are protected and exempt)
                 # before adding
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
-            writeRecord(k, kr)
+                if kr is not None:
+                    self.purge(kr)
+                    N -= 1
+                    k, kr = self.kkr(SSE, N) if N else (0, 0)
+            # Nothing gets written if there's nobody to bump
+            if kr is not None: writeRecord(k, kr)
             self.dLock.release()
         else: kr = None
         defer.returnValue(kr)
-- 
2.43.0


From 0a5ccf894ea56d89328334de5cfcb95dad024b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:22 +0000
Subject: [PATCH 05/43] fix: treat an SSE of NaN as infinite

An initial individual with an SSE of NaN became a population member that
no challenger could ever be better than.
---
 ade/individual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index f11e2ad..414bc1f 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -115,9 +115,9 @@ class Individual(object):
         """
         Property: My SSE value, which must at least behave like a
         float. Infinite if no SSE computed yet, a fatal error occurred
-        during evaluation, or was set to C{None}.
+        during evaluation, or was set to C{None} or C{NaN}.
         """
-        if self._SSE is None or self._SSE < 0:
+        if self._SSE is None or self._SSE < 0 or np.isnan(float(self._SSE)):
             return float('+inf')
         return self._SSE #float(self._SSE)
     @SSE.setter
-- 
2.43.0


From 9a9789ee186d97eb66efc92d3fa9081ce72317a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:32 +0000
Subject: [PATCH 06/43] fix: abort a loaded population with the Enter key, too

---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 75a3a24..64a29ca 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -471,6 +471,7 @@ class Population(object):
             for i in p:
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
+        abort.callOnAbort(p.abort)
         return p
         
     def __getstate__(self):
-- 
2.43.0


From a5f22083f406a37e44bcefd2d4026fdee5165cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:48 +0000
Subject: [PATCH 07/43] fix: stop evolution as soon as the population is
 aborted

With just the population object aborted, or before the Enter key got to
shutting down the evolution object, challenges went on and could put
challengers into the population that had been evaluated with None or
too late. Also, a challenge whose release of locks led to a fatal
evaluation still went on to evaluate its own challenger.
---
 ade/de.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..ce84300 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -441,6 +441,17 @@ class DifferentialEvolution(object):
             if self.dChallenges and not self.dChallenges.called:
                 self.dChallenges.errback(abort.AbortError())
         
+    def stillRunning(self):
+        """
+        Returns C{True} unless I have been shut down.
+
+        If my L{Population} object got aborted without anybody having
+        shut me down yet, I do so now. There's no point in going on
+        without a running population.
+        """
+        if self.p.running is False: self.shutdown()
+        return self.running
+        
     def crossover(self, parent, mutant):
         """
         Crossover of I{parent} and I{mutant} individuals.
@@ -507,13 +518,13 @@ class DifferentialEvolution(object):
 
         The "returned" C{Deferred} fires with C{None}.
         """
-        if self.running:
+        if self.stillRunning():
             # Indices of two randomly chosen unique individuals that
             # are not at index kt or kb.
             k0, k1 = self.p.sample(2, kt, kb)
             # Await legit values for all individuals used here
             yield self.p.lock(kt, kb, k0, k1)
-            if self.running:
+            if self.stillRunning():
                 sample = self.p.individuals(kt, kb, k0, k1)
             else: sample = None
             if sample is None:            
@@ -533,13 +544,17 @@ class DifferentialEvolution(object):
                 self.crossover(iTarget, iChallenger)
                 # Continue with Pr(values) / Pr(midpoints)
                 self.p.limit(iChallenger)
-                if self.p.pm.passesConstraints(iChallenger.values):
+                if not self.stillRunning():
+                    # Releasing the locks let somebody else proceed
+                    # who got us shut down
+                    pass
+                elif self.p.pm.passesConstraints(iChallenger.values):
                     # Passes constraints!
                     # Now the hard part: Evaluate fitness of the challenger
                     if self.xSSE:
                         yield iChallenger.evaluate(iTarget.SSE)
                     else: yield iChallenger.evaluate()
-                    if iChallenger and self.running:
+                    if iChallenger and self.stillRunning():
                         if iChallenger < iTarget:
                             # The challenger won the tournament, replace
                             # the target
@@ -584,7 +599,7 @@ class DifferentialEvolution(object):
             info = sub("  F={}  N_hist={:d}", self.fm, self.p.history.N_total)
             msg(-1, "Generation {:d}/{:d}{}", kg+1, self.maxiter, info , '-')
             yield self.p.waitForReports()
-            if not self.running: break
+            if not self.stillRunning(): break
             dList = []
             iBest = self.p.best()
             for kt in range(self.p.Np):
@@ -597,7 +612,7 @@ class DifferentialEvolution(object):
                     break
                 d = self.challenge(kt, kb)
                 dList.append(d)
-                if not self.running: break
+                if not self.stillRunning(): break
             else:
                 # Only wait for the challenges if there was no abort,
                 # and abort if any challenge results in a failure
@@ -607,7 +622,7 @@ class DifferentialEvolution(object):
                 self.dChallenges = None
                 if result is None:
                     self.shutdown()
-            if not self.running: break
+            if not self.stillRunning(): break
             if self.goalSSE and self.p.best < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
-- 
2.43.0


From a0524797253094c88b61d2e383b77349a3db261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:35 +0000
Subject: [PATCH 08/43] fix: don't evaluate or add an individual known not to
 conform

When setup couldn't find an individual passing the constraints, it
aborted but still evaluated the last candidate and could even add it to
the population.
---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 64a29ca..5c8b725 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -790,6 +790,7 @@ class Population(object):
             else:
                 msg(0, "Couldn't generate a conforming Individual, aborting!")
                 self.abort()
+                return
             return Individual(self, self.pm.limit(values))
 
         def addIndividual(i):
@@ -818,6 +819,7 @@ class Population(object):
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                if i is None: break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From 27383b6bd85d5ab6ff1138f38fc847128207f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:44 +0000
Subject: [PATCH 09/43] fix: sample several positions with any best-biased
 setting

With a small randomBase, only the best position was ever drawn and so
sampling more than one never ended.
---
 ade/population.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 5c8b725..3c96b4c 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1111,7 +1111,9 @@ class Population(object):
             result = []
             while len(result) < N:
                 k = self.ps(K, rb)
-                if k in result: continue
+                # Those not as good won't ever get sampled with a
+                # small value unless the ones ahead of them are gone
+                K.remove(k)
                 result.append(k)
         return result[0] if N == 1 else result
 
-- 
2.43.0


From 91b8d8eed18678237b175c4dd5a72aaad8022617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:44 +0000
Subject: [PATCH 10/43] fix: rank individuals added after a query during setup,
 too

---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 3c96b4c..8009054 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -799,6 +799,8 @@ class Population(object):
             is manipulated.
             """
             self.iList.append(i)
+            # Individuals may have been ranked before this one got added
+            del self.KS
             self.dLocks.append(defer.DeferredLock())
             self.history.add(i)
 
-- 
2.43.0


From 92a22680802fa3e0f0114a836b36d831c013e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:52 +0000
Subject: [PATCH 11/43] fix: keep a critical lower bound of F within the
 configured range

---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ce84300..322922f 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -87,7 +87,7 @@ class FManager(object):
             self.F = list(F)
             if self.F[0] == 0:
                 self.is_adaptive = False
-                self.F[0] = self.criticalF
+                self.F[0] = min([self.criticalF, self.F[1]])
             self.scales = (self.scaleLowest, self.scaleHighest)
         else:
             self.F = F
-- 
2.43.0


From 76520f5b66df74845e60c4fb34e98a970e92fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:03 +0000
Subject: [PATCH 12/43] fix: compare the best individual with the goal SSE

---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 322922f..76ca748 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -623,7 +623,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.stillRunning(): break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From 21260a13dc20362a603cae1922b1d8519f789a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:22 +0000
Subject: [PATCH 13/43] fix: keep track of equal individuals in the history

---
 ade/history.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 4b14692..b2c758e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -829,7 +829,8 @@ class History(object):
         individuals who never were in the population.
     
     @ivar kr: A dict containing row indices, keyed by the hashes of
-        I{Individual} instances.
+        I{Individual} instances. (Consecutive integers starting with
+        the hash for equal ones.)
     """
     N_max = 1500
     
@@ -1017,7 +1018,10 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                self.kr[hash(i)] = kr
+                key = hash(i)
+                # There may be equal individuals in the population
+                while key in self.kr: key += 1
+                self.kr[key] = kr
 
         SSE = i.SSE
         with np.errstate(over='ignore'):
@@ -1067,6 +1071,20 @@ class History(object):
         self.Kp.discard(kr)     # May already have been discarded with .pop
         self.Kn.discard(kr)
         
+    def forget(self, key):
+        """
+        Removes the entry I{key} from my I{kr} dict and returns its row
+        index.
+
+        Any entries for equal individuals, which have the keys
+        following, get moved up one.
+        """
+        kr = self.kr.pop(key)
+        while key+1 in self.kr:
+            self.kr[key] = self.kr.pop(key+1)
+            key += 1
+        return kr
+        
     def notInPop(self, x):
         """
         Call this with an integer row index or an I{Individual} instance
@@ -1083,7 +1101,7 @@ class History(object):
                 # Must be an Individual
                 key = hash(x)
                 if key not in self.kr: return
-                kr = self.kr.pop(key)
+                kr = self.forget(key)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
-- 
2.43.0


From 5c455962842bf73180a6e589c78c733208348d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:52 +0000
Subject: [PATCH 14/43] fix: forget the individual whose history record got
 purged or excluded by row

---
 ade/history.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index b2c758e..ade6a90 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1060,14 +1060,16 @@ class History(object):
         instance of L{ClosestPairFinder} disregard the row, because
         it's now gone.
 
-        B{Note}: Does not remove the index from the values of my I{kr}
-        dict, as that is a time-consuming process and the caller can
-        likely just clear the whole thing anyhow.
+        B{Note}: The index only gets removed from the values of my
+        I{kr} dict if it is (still) in I{Kp}, as that is a
+        time-consuming process. L{purgePop} just clears the whole
+        thing.
         """
         if kr not in self.K:
             raise IndexError(sub("No row index {} in my K list!", kr))
         self.K.remove(kr)
         self.cpf.clearRow(kr)
+        if kr in self.Kp: self.forgetRow(kr)
         self.Kp.discard(kr)     # May already have been discarded with .pop
         self.Kn.discard(kr)
         
@@ -1085,6 +1087,15 @@ class History(object):
             key += 1
         return kr
         
+    def forgetRow(self, kr):
+        """
+        Removes the entry for row index I{kr}, if any, from my I{kr} dict.
+        """
+        for key, value in self.kr.items():
+            if value == kr:
+                self.forget(key)
+                break
+        
     def notInPop(self, x):
         """
         Call this with an integer row index or an I{Individual} instance
@@ -1092,16 +1103,18 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
+            if isinstance(x, (int, np.integer)):
                 # This was tricky to find; sometimes shows up as int,
                 # sometimes as np.int64, and Py3 distinguishes between
                 # them
                 kr = x
+                self.forgetRow(kr)
             else:
                 # Must be an Individual
                 key = hash(x)
                 if key not in self.kr: return
                 kr = self.forget(key)
+            if kr not in self.Kp: return
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
-- 
2.43.0


From c18556b7e606ff805da726219ebe733051b07502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:44 +0000
Subject: [PATCH 15/43] fix: exclude a blacklisted individual from the
 history's population

---
 ade/history.py    | 11 +++++++----
 ade/individual.py |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index ade6a90..7ce5f7d 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1018,12 +1018,14 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                key = hash(i)
+                key = iHash
                 # There may be equal individuals in the population
                 while key in self.kr: key += 1
                 self.kr[key] = kr
 
         SSE = i.SSE
+        # The individual may get changed while waiting for the lock
+        iHash = hash(i)
         with np.errstate(over='ignore'):
             # Same precision as my X array, where a huge value is inf
             SV = np.array([SSE] + list(i.values), dtype=self.X.dtype)
@@ -1111,14 +1113,15 @@ class History(object):
                 self.forgetRow(kr)
             else:
                 # Must be an Individual
-                key = hash(x)
-                if key not in self.kr: return
-                kr = self.forget(key)
+                if iHash not in self.kr: return
+                kr = self.forget(iHash)
             if kr not in self.Kp: return
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+        # The individual may get changed while waiting for the lock
+        iHash = hash(x)
         return self.dLock.run(gotLock)
 
     def purgePop(self):
diff --git a/ade/individual.py b/ade/individual.py
index 414bc1f..7707b05 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -244,7 +244,12 @@ class Individual(object):
         """
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
+
+        If I am (still) in the population, the history record with my
+        former SSE is no longer one of a current population member.
         """
+        for i in self.p:
+            if i is self: self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 0bb52a8ccad1b0cadf949343ad27373a7c4c5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:13 +0000
Subject: [PATCH 16/43] fix: keep the history in step with a population loaded
 with new bounds

---
 ade/population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 8009054..4a23ba6 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -469,7 +469,11 @@ class Population(object):
         if bounds:
             p.pm.setup(bounds)
             for i in p:
+                if i.equals(p.pm.limit(i.values)): continue
+                # The history has the former values on record
+                p.history.notInPop(i)
                 p.limit(i)
+                p.history.add(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
         abort.callOnAbort(p.abort)
         return p
-- 
2.43.0


From 54d3a5e6b6c5cadce5c7c004ab26f9a1aa943fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:01 +0000
Subject: [PATCH 17/43] fix: save the replacement score along with a population

---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 4a23ba6..87e94c3 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -489,6 +489,7 @@ class Population(object):
             'debug', 'running',
             # Scalars
             'Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore',
+            'replacementScore',
             # Other
             'iList', 'kr', 'pm', 'history',
         }
-- 
2.43.0


From c59812104ac918c5cc7005379c7fa1ff38fcae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:14 +0000
Subject: [PATCH 18/43] fix: restore the previous best individual after a
 complaint

---
 ade/report.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..1386ffc 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -67,6 +67,7 @@ class Reporter(object):
         self.complaintCallback = complaintCallback
         self.pm = self.p.pm
         self.iBest = None
+        self.iPrevBests = []
         self.iLastReported = None
         self.callbacks = []
         self.cbrInProgress = False
@@ -114,7 +115,7 @@ class Reporter(object):
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
-    def runCallbacks(self, i, iPrevBest=None):
+    def runCallbacks(self, i):
         """
         Queues up a report for the supplied L{Individual} I{i}, calling
         each of my registered callbacks in turn.
@@ -132,10 +133,6 @@ class Reporter(object):
 
         If the callback had an error, it is logged, processing of any
         further callbacks is halted, and I get aborted.
-
-        @keyword iPrevBest: Set to the previous best individual to
-            allow for it to be restored to its rightful place if a
-            callback complains about I{i}.
         """
         def failed(failureObj, func):
             # TODO: Provide a complete func(*args, **kw).
@@ -181,8 +178,7 @@ class Reporter(object):
                         # Modify the individual in-place to never again be
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
-                        if iPrevBest and iPrevBest < self.iBest:
-                            self.iBest = iPrevBest
+                        self.restoreBest()
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
@@ -191,6 +187,14 @@ class Reporter(object):
             return
         self.dt.put(runUntilFree())
 
+    def restoreBest(self):
+        """
+        Restores the latest previous best individual that hasn't been
+        blacklisted to its rightful place if my current I{iBest} has.
+        """
+        while self.iPrevBests and np.isinf(float(self.iBest)):
+            self.iBest = self.iPrevBests.pop()
+        
     def waitForCallbacks(self):
         """
         Returns a C{Deferred} that fires when all reporting callbacks
@@ -243,6 +247,7 @@ class Reporter(object):
         
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
+            if self.iBest is not None: self.iPrevBests.append(self.iBest)
             self.iBest = i
             isBest = True
         else: isBest = False
@@ -250,8 +255,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
-            self.runCallbacks(i, iBackupBest)
+            self.runCallbacks(i)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From 13596bd0c20c9a34fddb7ea3bd913bc2f4cc5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:29 +0000
Subject: [PATCH 19/43] fix: treat two SSEs of zero as equivalent in reports

The ratio between two perfect individuals was reported as 1000 instead
of no significant difference, because a zero SSE in the denominator was
never considered equivalent to anything.
---
 ade/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index 1386ffc..d2d02c5 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -110,8 +110,10 @@ class Reporter(object):
             return False
         betterSSE = iBetter.SSE
         worseSSE = iWorse.SSE
-        if betterSSE is None or worseSSE == 0 or worseSSE is None:
+        if betterSSE is None or worseSSE is None:
             return False
+        if worseSSE == 0:
+            return betterSSE == 0
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
-- 
2.43.0


From d535a5e292d70e1e57d0dcb97b77b7176f7578bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:29 +0000
Subject: [PATCH 20/43] fix: include perfect and empty histories in value
 queries

A best SSE of zero made every ratio NaN or infinite, so that even the
best record was left out of the result. Asking an empty history for
values raised IndexError.
---
 ade/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 7ce5f7d..62d3dfb 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[0],0] if len(self.K) else 0
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
@@ -232,8 +232,8 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
-        K = np.array(K)[KK]
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
+        K = np.array(K, dtype=int)[KK]
         result = [subset(0)]
         for name in names:
             result.append(subset(self.name2k(name)))
-- 
2.43.0


From baa5bc41c3e82317b919b997a8988b704bfd006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:36 +0000
Subject: [PATCH 21/43] fix: give each constraint method its own view of the
 parameters

The wrappers yielded by a Constraints object shared one dict and looked
up the loop variables when called. A parameter that was linear for one
method and log-space for another was only transformed once, a method
saw what had been gathered for the ones before it, and wrappers kept in
a list all called the last method. Names may also be in any container.
---
 ade/constraints.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..6643e2a 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -134,27 +134,25 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
-            if linearParams:
-                if not linearParams.issubset(params):
-                    return True
-                for name in linearParams:
-                    if name not in newParams:
-                        newParams[name] = params[name]
-            if logParams:
-                if not logParams.issubset(params):
-                    return True
-                for name in logParams:
-                    if name not in newParams:
-                        newParams[name] = np.power(10.0, params[name])
-            result = func(newParams)
-            if self.debug:
-                print(sub("BOGUS: {}, {}", func.__name__, newParams))
-            return result
+        def wrap(func, linearParams, logParams):
+            def wrapper(params):
+                newParams = {}
+                for name in linearParams or ():
+                    if name not in params:
+                        return True
+                    newParams[name] = params[name]
+                for name in logParams or ():
+                    if name not in params:
+                        return True
+                    newParams[name] = np.power(10.0, params[name])
+                result = func(newParams)
+                if self.debug:
+                    print(sub("BOGUS: {}, {}", func.__name__, newParams))
+                return result
+            return wrapper
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield wrap(func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From 5b79d63911eacf65911ac18b2fa8c4acaed3a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:56 +0000
Subject: [PATCH 22/43] fix: ignore every trailing comment in specs files

A comment attached to a value or following the name of a dict wasn't
recognized as such, and a file without any lines couldn't be loaded.
---
 ade/specs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..c6de497 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -217,9 +217,11 @@ class SpecsLoader(object):
         """
         dictDef = False
         dictName = None
+        k = -1
         for k, line in enumerate(fh):
-            line = line.strip()
-            if not line or line.startswith('#'):
+            # Ignore comments, trailing or not
+            line = line.split('#', 1)[0].strip()
+            if not line:
                 continue
             if line.startswith('--'):
                 # Start or end of a dict definition
@@ -253,9 +255,6 @@ class SpecsLoader(object):
                 tokens.pop(0)
             seq = []
             for token in tokens:
-                if token.startswith('#'):
-                    # Trailing comment
-                    break
                 seq.append(self.parseValue(token.rstrip(',')))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
-- 
2.43.0


From 1832db862548ffb031bc7d522dcfe9067b1936d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:56 +0000
Subject: [PATCH 23/43] fix: read all decimal numbers and keep the case of text
 in specs files

Numbers like .5 and 5. were taken for text, and text values such as
parameter names were changed to lower case.
---
 ade/specs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index c6de497..43f101a 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -169,7 +169,7 @@ class SpecsLoader(object):
     Comments (lines beginning with '#', and trailing parts of a line
     after a '#') and blank lines are ignored.
     """
-    reNum = re.compile(r'[\+\-]?[0-9]+(\.[0-9]+)?([e][\+\-]?[0-9]+)?$')
+    reNum = re.compile(r'[\+\-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[\+\-]?[0-9]+)?$')
     
     def __init__(self, filePath):
         self.filePath = filePath
@@ -198,12 +198,12 @@ class SpecsLoader(object):
         I call this when I encounter a line defining just one or more
         space-delimited value, once per value.
         """
-        value = value.lower()
+        lowered = value.lower()
         for string, assignedValue in (
                 ('none', None), ('true', True), ('false', False)):
-            if value == string:
+            if lowered == string:
                 return assignedValue
-        match = self.reNum.match(value)
+        match = self.reNum.match(lowered)
         if match:
             return float(value)
         return value
-- 
2.43.0


From bdcb552323c16798c1d0b8a930d763024073cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:56 +0000
Subject: [PATCH 24/43] fix: don't silently lose incomplete entries of specs
 files

A dict without its final line of hyphens and a name without anything to
go with it disappeared without an error, as did a value with an equals
sign that has no spaces around it. The equals sign now works with or
without spaces.
---
 ade/specs.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 43f101a..f68819a 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -170,6 +170,7 @@ class SpecsLoader(object):
     after a '#') and blank lines are ignored.
     """
     reNum = re.compile(r'[\+\-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[\+\-]?[0-9]+)?$')
+    reEquals = re.compile(r'^([^\s=]+)\s*=')
     
     def __init__(self, filePath):
         self.filePath = filePath
@@ -240,7 +241,11 @@ class SpecsLoader(object):
                     raise ValueError(
                         "Dict region must be preceded by a dict name")
                 continue
-            tokens = line.split()
+            if dictName and not dictDef:
+                raise ValueError(sub(
+                    "Dict name '{}' must be followed by hyphens", dictName))
+            # An equals sign is semantic fluff
+            tokens = self.reEquals.sub(r'\1 ', line).split()
             nameParts = self.parseName(tokens)
             if not dictDef:
                 if len(nameParts) > 1:
@@ -250,9 +255,8 @@ class SpecsLoader(object):
                     # A standalone name is the start of a dict definition
                     dictName = nameParts[0]
                     continue
-            if tokens[0] == "=":
-                # An equals sign is semantic fluff
-                tokens.pop(0)
+            if not tokens:
+                raise ValueError(sub("No value for {}", nameParts))
             seq = []
             for token in tokens:
                 seq.append(self.parseValue(token.rstrip(',')))
@@ -268,6 +272,8 @@ class SpecsLoader(object):
             # values). We know at this point that there is but a
             # single item in nameParts
             s.add(nameParts[0], seq)
+        if dictName:
+            raise ValueError(sub("Dict '{}' is incomplete", dictName))
         return k+1
         
     def __call__(self):
-- 
2.43.0


From c5e12453d555a8c0974b689c517065708e0c6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:56 +0000
Subject: [PATCH 25/43] fix: return an empty dict for nonexistent entries below
 a plain value

Specs.get ignored further names once it got to something not a dict.
---
 ade/specs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index f68819a..54babdd 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -147,13 +147,13 @@ class Specs(object):
                 if names and isinstance(obj, dict):
                     kw['dct'] = obj
                     return self.get(*names, **kw)
-                return obj
+                return {} if names else obj
             return {}
         obj = getattr(self, first, {})
         if names and isinstance(obj, dict):
             kw['dct'] = obj
             return self.get(*names, **kw)
-        return obj
+        return {} if names else obj
     
         
 class SpecsLoader(object):
-- 
2.43.0


From a7289b848ba6f2664fd5d625aa922ebea8ae6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:38 +0000
Subject: [PATCH 26/43] fix: average the elapsed time of evaluation parts

EvalTimer added up the times of day at which calls completed rather
than how long they took, so that parts came out in the order of their
(average) completion instead of fastest first.
---
 ade/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..d775e39 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,8 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            elapsed = time.time() - t0
+            self.times[ID] = self.times.get(ID, 0) + elapsed
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From fe509da222a3bd57b0655257861252cce1dc1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:31 +0000
Subject: [PATCH 27/43] fix: remember that a line of text was written

The message object set a different attribute than the one it checks
when asked, so it always answered that no line had been written.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index d775e39..33c9fae 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -232,7 +232,7 @@ class Messenger(object):
         """
         if not self.fh:
             return
-        self._lineWritten = True
+        self._lineWasWritten = True
         try:
             if self.newlineNeeded:
                 self.fh.write("\n")
-- 
2.43.0


From 2b8b03fed719020e6ff230d70be52b8d28e0d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:23 +0000
Subject: [PATCH 28/43] fix: return the present destination after a formatted
 message

A message with several arguments returned the destination from before
it was redirected by the same call, and None if preceded by zero.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 33c9fae..d18ae33 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -360,5 +360,5 @@ class Messenger(object):
             else: break;
             args.pop()
         self.writeLine(prefix + sub(*args) + suffix)
-        return fh
+        return self.fh
 msg = Messenger()
-- 
2.43.0


From fceaf50bd6565389a20fd846f757bbd3dcef22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:09 +0000
Subject: [PATCH 29/43] fix: keep the fatal status of a copied individual

The copy of an individual with a fatal evaluation error got an infinite
SSE instead, as if nothing serious had happened.
---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7707b05..9b437c4 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -140,7 +140,7 @@ class Individual(object):
         the same population, values, and SSE.
         """
         i = Individual(self.p, list(self.values))
-        i.SSE = self.SSE
+        i.SSE = self._SSE
         return i
 
     def __float__(self):
-- 
2.43.0


From a08c4b25b372ed728cfcd28427e91bc8dd954077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 30/43] fix: lgg couldn't be started because of a bad escape in
 a regular expression

Since Python 3.7, an unknown escape like \E is an error.
---
 ade/scripts/lgg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 5d6b1d6..a7c0c8a 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -100,7 +100,7 @@ class RowManager(object):
         for k, name in enumerate(self.names):
             self.indices[name] = k
             self.rp[name] = re.compile(sub(
-                r'(^|\s){}\=([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)', name))
+                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)', name))
         self.SSE = []
         self.values = []
         self.stars = []
@@ -207,7 +207,7 @@ class Grepper(object):
     reSSE = re.compile(r'SSE\=([\d\.eE\-\+]+)')
     reParam = re.compile(
         r'(^|\s)([a-zA-Z]+[_a-zA-Z0-9]*)\='+\
-        r'([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)')
+        r'([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)')
 
     def __init__(self, filePath, args):
         self.filePath = filePath
-- 
2.43.0


From 3f9148d0dc570c433c8d38cbbaf5eacf0902fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 31/43] fix: lgg treated different negative parameter values as
 similar

---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index a7c0c8a..5e46458 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -177,7 +177,7 @@ class RowManager(object):
         def diffEnough(a, b):
             if b == 0:
                 return abs(a) > maxDiff
-            return abs(a-b)/b > maxDiff
+            return abs((a-b)/b) > maxDiff
         
         K = np.argsort(self.SSE)
         bestSSE = np.min(self.SSE)
-- 
2.43.0


From 6c1b436684f5ce97112c5ce474c800990d29a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 32/43] fix: lgg left out the best entries when there were too
 many to show

---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 5e46458..926942c 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -191,7 +191,7 @@ class RowManager(object):
                         break
                 else: continue
             KS.append(k)
-        KS = list(reversed(KS[-maxRows:]))
+        KS = list(reversed(KS[:maxRows]))
         self.SSE = self.SSE[KS]
         self.values = self.values[KS]
         self.stars = self.stars[KS]
-- 
2.43.0


From af143c5d62a3c5ad086000adbbade3223f848a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 33/43] fix: lgg mixed up values of two entries with no blank
 line in between

That happens with the debug messages about replaced individuals.
---
 ade/scripts/lgg.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 926942c..ea31022 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -229,14 +229,12 @@ class Grepper(object):
         a 2-tuple of (1) parameter value as a string, and (2) stars.
         """
         with open(self.filePath, 'r') as fh:
-            keepLooping = True
-            lineCount = 0
-            while keepLooping:
-                line = fh.readline()
-                lineCount += 1
-                if not line: break
+            line = fh.readline()
+            while line:
                 match = self.reSSE.search(line)
-                if not match: continue
+                if not match:
+                    line = fh.readline()
+                    continue
                 SSE = float(match.group(1))
                 pd = {}
                 line = line[match.end(0):]
@@ -244,12 +242,8 @@ class Grepper(object):
                     match = self.reParam.search(line)
                     if not match:
                         line = fh.readline()
-                        if line is None:
-                            # EOF
-                            keepLooping = False
-                            break
-                        line = line.strip()
-                        if line: continue
+                        if line.strip() and not self.reSSE.search(line):
+                            continue
                         # All done with this SSE entry
                         yield SSE, pd
                         break
-- 
2.43.0


From c0cc17de801fcd3c7144e2e90c792aaaef862e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 34/43] fix: lgg ignored ranges of parameters like x1-3

---
 ade/scripts/lgg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index ea31022..39097e0 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -100,7 +100,8 @@ class RowManager(object):
         for k, name in enumerate(self.names):
             self.indices[name] = k
             self.rp[name] = re.compile(sub(
-                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)', name))
+                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)',
+                re.escape(name)))
         self.SSE = []
         self.values = []
         self.stars = []
@@ -215,7 +216,8 @@ class Grepper(object):
             names = self.starredNames()
         else:
             names = []
-            for pattern in args:
+            # Any ranges get expanded
+            for pattern in RowManager(args).names:
                 for name in self.globNames(pattern):
                     if name not in names:
                         names.append(name)
-- 
2.43.0


From ee4222528eb21b190899b47993f4834062afa6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:09 +0000
Subject: [PATCH 35/43] fix: Args without positional arguments had no length or
 truth value

---
 ade/args.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/args.py b/ade/args.py
index 0550b85..ce5926c 100644
--- a/ade/args.py
+++ b/ade/args.py
@@ -91,14 +91,14 @@ class Args(object):
         return text
 
     def __iter__(self):
-        for x in getattr(self, '_args_', []):
+        for x in self._args_ or []:
             yield x
 
     def __len__(self):
-        return len(getattr(self, '_args_', []))
+        return len(self._args_ or [])
 
     def __getitem__(self, k):
-        return getattr(self, '_args_', [])[k]
+        return (self._args_ or [])[k]
     
     def __getattr__(self, name):
         if self.args is None:
-- 
2.43.0


From fb652c4f22898f9314e1c8b8b5aa6d59b187f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:44 +0000
Subject: [PATCH 36/43] fix: correlated parameters weren't in order if a
 parameter was constant

The correlation with a constant parameter is NaN, which can't be sorted.
---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 62d3dfb..932a642 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -136,7 +136,7 @@ class Analysis(object):
             for k2 in range(1, Nc):
                 if k2 > k1: 
                     kkR.append([k1, k2, self.corr(k1, k2)])
-        kkR.sort(key=lambda row: abs(row[2]), reverse=True)
+        kkR.sort(key=lambda row: abs(np.nan_to_num(row[2])), reverse=True)
         for k1, k2, R in kkR:
             yield k1, k2, R
 
-- 
2.43.0


From df8f82c8d248f4b122cb4b1d42420fdc56d91ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:44 +0000
Subject: [PATCH 37/43] fix: plots of a parameter's correlations lacked those
 with parameters before it

---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 932a642..f64bc32 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -523,7 +523,8 @@ class Analysis(object):
             count = 0
             for stuff in self.correlator():
                 k1, k2, R = stuff
-                if name and name != self.k2name(k1): continue
+                if name and name not in (self.k2name(k1), self.k2name(k2)):
+                    continue
                 corr = sub("R={:+.3f}", R)
                 sp.add_textBox("SE" if R > 0 else "NE", corr)
                 xName, yName, m, b = self.plotXY(k1, k2, sp)
-- 
2.43.0


From e6d314847c74dc43c2da212473ca9702f4d23dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:44 +0000
Subject: [PATCH 38/43] fix: Analysis.plot ignored the plotter supplied with
 the keyword sp

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index f64bc32..9572bdc 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -411,7 +411,7 @@ class Analysis(object):
         noShow = kw.pop('noShow', False)
         semilog = kw.pop('semilog', False)
         dims = kw.pop('dims', None)
-        sp = kw.pop('kw', None)
+        sp = kw.pop('sp', None)
         names = self.args2names(names)
         inPop = kw.get('inPop', False)
         kw['inPop'] = True
-- 
2.43.0


From 9115ce83e0dad02cc825d7658e9de37c9a61f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:09 +0000
Subject: [PATCH 39/43] fix: image viewers were run without most of their
 options

Only an option with a place for the file name got supplied.
---
 ade/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/image.py b/ade/image.py
index f21d0cd..21f83bb 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -150,7 +150,7 @@ class ImageViewer(object):
                 for arg in ex[1:]:
                     if "{}" in arg:
                         arg = arg.replace("{}", os.path.basename(fp.path))
-                        args.append(arg)
+                    args.append(arg)
                 args.append(fp.path)
                 self.transport = reactor.spawnProcess(
                     self.ivp, exPath, args, env=None)
-- 
2.43.0


From 8a0f3bf11a32437d21074b2644a3ee907b4eb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:41 +0000
Subject: [PATCH 40/43] fix: last vector of each Latin hypercube was never used

An initial population took all but one of its members from one hypercube
and the last one from another. Thus there was a part of each parameter's
range without an initial value.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 87e94c3..e279e5c 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -780,7 +780,7 @@ class Population(object):
 
         def getNextIV():
             k, IV = kIV
-            if k+1 == IV.shape[0]:
+            if k == IV.shape[0]:
                 refreshIV()
                 k, IV = kIV
             kIV[0] += 1
-- 
2.43.0


From 8801e0daa07198f6e9b29c803372ef062cf27658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:38 +0000
Subject: [PATCH 41/43] fix: values of individuals could not be read by a numpy
 integer

---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 9b437c4..1ee4f99 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -155,7 +155,7 @@ class Individual(object):
         Sequence-like read access to values when I{k} is an integer,
         dict-like access otherwise.
         """
-        if not isinstance(k, int):
+        if not isinstance(k, (int, np.integer)):
             k = self.p.pm.names.index(k)
         return self.values[k]
 
-- 
2.43.0


From 6197ee02d72b0ebcec675cb90e6a8316ab8cac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:38 +0000
Subject: [PATCH 42/43] fix: values set in an individual made from integers
 were truncated

---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 1ee4f99..57cde80 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -265,7 +265,7 @@ class Individual(object):
             raise ValueError(sub(
                 "Expected {:d} values, not {:d}", self.p.Nd, len(values)))
         if isinstance(values, (list, tuple)):
-            values = np.array(values)
+            values = np.array(values, dtype=float)
         self.values = values
     
     def evaluate(self, xSSE=None):
-- 
2.43.0


From 770f4264ee2be002979791f2bb641e869d460f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:38 +0000
Subject: [PATCH 43/43] fix: an error in the complaint handler silently stopped
 all further reports

---
 ade/report.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index d2d02c5..e3be924 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -169,8 +169,13 @@ class Reporter(object):
                         break
                     if result is not None and i and not aborted():
                         if self.complaintCallback:
-                            yield defer.maybeDeferred(
+                            d = defer.maybeDeferred(
                                 self.complaintCallback, i, result)
+                            d.addErrback(failed, self.complaintCallback)
+                            result = yield d
+                            if isinstance(result, CallbackFailureToken):
+                                self.abort()
+                                break
                         else:
                             text = sub(
                                 "\n\n" +\
-- 
2.43.0

