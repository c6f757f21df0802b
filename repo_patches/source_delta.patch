From e8c772460034652b35473ba45e30185bd9db3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 01/53] fix: restore the number of threads after sample_pairs

SetOMPThreads returns the new maximum, not the previous one, so the number of
threads was left at 1 by every call of sample_pairs.
---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..e5b0b03 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -1127,7 +1127,8 @@ long SamplePairs(BaseCorr2& corr, BaseField<C>& field1, BaseField<C>& field2,
     Sampler sampler(corr, minsep, maxsep, i1, i2, sep, n);
 
     // I don't know how to do the sampling safely in parallel, so temporarily set num_threads=1.
-    int old_num_threads = SetOMPThreads(1);
+    int old_num_threads = GetOMPThreads();
+    SetOMPThreads(1);
     ProcessCross(sampler, field1, field2, false, metric);
     SetOMPThreads(old_num_threads);
 
-- 
2.43.0


From be846839dc3fa073c6b8834b436b6033ab725501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 02/53] fix: accept a numpy Generator as rng for every kind of
 field

Some fields called rng.random_sample(), which only RandomState has; the
documented rng may be a Generator too, as other field kinds already allow.
---
 treecorr/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..6f414d7 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -678,7 +678,7 @@ class ZField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -741,7 +741,7 @@ class VField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -867,7 +867,7 @@ class TField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -929,7 +929,7 @@ class QField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
-- 
2.43.0


From 62c0a2fd1d7929b55cf0d0720a7ed7ef9f0fb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 03/53] fix: make randomly split trees reproducible from their
 seed

The cells are built lazily, possibly after other uses of the C library
generator, and were built by several threads drawing from that one generator,
so a tree with split_method='random' depended on timing and history even when
the catalog was given an rng.  Seed again when the cells are built, and build
them in a definite order in this case.
---
 include/Field.h | 1 +
 src/Field.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Field.h b/include/Field.h
index 6b2fd25..19a2e22 100644
--- a/include/Field.h
+++ b/include/Field.h
@@ -71,6 +71,7 @@ public:
     double _minsize;
     double _maxsize;
     SplitMethod _sm;
+    long long _seed;
     bool _brute;
     int _mintop;
     int _maxtop;
diff --git a/src/Field.cpp b/src/Field.cpp
index 3ecd669..afc5c71 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -154,7 +154,7 @@ inline WPosLeafInfo get_wpos(const double* wpos, const double* w, long i)
 template <int C>
 BaseField<C>::BaseField(long nobj, double minsize, double maxsize,
                         SplitMethod sm, long long seed, bool brute, int mintop, int maxtop) :
-    _nobj(nobj), _minsize(minsize), _maxsize(maxsize), _sm(sm),
+    _nobj(nobj), _minsize(minsize), _maxsize(maxsize), _sm(sm), _seed(seed),
     _brute(brute), _mintop(mintop), _maxtop(maxtop)
 {
     if (seed != 0) { urand(seed); }
@@ -220,6 +220,8 @@ void Field<D,C>::BuildCells() const
            DoBuildCells<Mean>();
            break;
       case Random:
+           // The cells may be built long after the constructor, so seed again.
+           if (this->_seed != 0) urand(this->_seed);
            DoBuildCells<Random>();
            break;
       default:
@@ -257,8 +259,10 @@ void Field<D,C>::DoBuildCells() const
     // Now build the lower cells in parallel
     dbg<<"Field has "<<n<<" top-level nodes.  Building lower nodes...\n";
     this->_cells.resize(n);
+    // Note: For Random, the random numbers need to be drawn in a definite order, so don't use
+    // multiple threads in that case.
 #ifdef _OPENMP
-#pragma omp parallel for
+#pragma omp parallel for if(SM != Random)
 #endif
     for(ptrdiff_t i=0;i<n;++i) {
         CellData<D,C>* top_data_i = static_cast<CellData<D,C>*>(top_data[i]);
-- 
2.43.0


From 213711e68f15cf483f9d2608747971fc5d00927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 04/53] fix: use exactly the given range in sample_pairs

The sampler kept the bin size of the correlation function, so with a range not
aligned with the bins, cells reaching beyond min_sep or max_sep could be taken
as a whole into 'a single bin', even for bin_slop=0 where the range is
documented to be exact (and the bin index could leave the valid range).
---
 src/Corr2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index e5b0b03..731ecb5 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -712,6 +712,11 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
+    // The given range need not be aligned with the original bins, so it is the only bin here.
+    _nbins = 1;
+    if (base_corr2.getBinType() == Linear) _binsize = _maxsep - _minsep;
+    else if (base_corr2.getBinType() == TwoD) _binsize = 2.*_maxsep;
+    else if (_minsep > 0.) _binsize = log(_maxsep) - _logminsep;
     _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
-- 
2.43.0


From bd3aa9a03d03aee4051842b68817cf01ebacc80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 05/53] fix: fill every slot of the list in sample_pairs

When some of the n places were still free, a place whose selected item was from
the original list after one swap was never filled, so that a bogus pair (0,0)
with zero separation was returned.
---
 src/Corr2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 731ecb5..5ecb784 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -875,8 +875,8 @@ void Sampler::finishProcess(
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            // Note: The one we swap for might also be from the original set, so keep going.
+            while (selection[i] < _k) std::swap(selection[i], selection[selection[i]]);
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From dd04f7d5c9a476ce76caa74fc5684bf49cb2369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 06/53] fix: do not drop cells into one log bin beyond the
 validity of the test

log(r-x) > log(r) - x/r - x^2/r^2 holds only up to x ~ 0.68 r, so for wide bins
with a large angle_slop, pairs below a bin's lower edge could be put into it
even with bin_slop=0.
---
 include/BinType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..7866e2b 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -139,8 +139,9 @@ struct BinTypeHelper<Log>
         // This test is safe for the up direction, but slightly too liberal in the down
         // direction.  log(r-x) < log(r) - x/r
         // So refine the test slightly to make sure we have a conservative check here.
-        // log(r-x) > log(r) - x/r - x^2/r^2   (if x<r)
+        // log(r-x) > log(r) - x/r - x^2/r^2   (if x<0.68r)
         // s/r + s^2/r^2 > f*binsize + b
+        if (s1ps2sq > 0.46 * rsq) return false;
         if (s1ps2sq > SQR(frackk*binsize + b - s1ps2sq/rsq) * rsq) return false;
 
         xdbg<<"Both checks passed.\n";
-- 
2.43.0


From 75c1eb33f50291170ac081bb81cee08278295076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 07/53] fix: do not leave the previous row's values in a
 covariance row without pairs

Clearing an NN or NNN correlation left xi (zeta) and the RR weight of the
previous calculation, so a row of the design matrix without any patch pairs
repeated the row before it, which under MPI depends on the number of
processes.
---
 treecorr/nncorrelation.py  | 4 ++++
 treecorr/nnncorrelation.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..c95d483 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -216,6 +216,10 @@ class NNCorrelation(Corr2):
         """
         super()._clear()
         self.tot = 0.
+        if self._rr_weight is not None:
+            # Don't leave the values of an earlier calculation behind.
+            self.xi = np.zeros_like(self.xi)
+            self._rr_weight = np.zeros_like(self._rr_weight)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..b0e4d71 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -320,6 +320,10 @@ class NNNCorrelation(Corr3):
     def _clear(self):
         super()._clear()
         self.tot = 0.
+        if self._rrr_weight is not None:
+            # Don't leave the values of an earlier calculation behind.
+            self.zeta = np.zeros_like(self.zeta)
+            self._rrr_weight = np.zeros_like(self._rrr_weight)
 
     def _sum(self, others):
         # Equivalent to the operation of:
-- 
2.43.0


From e598b6ce3029ce62bf41c9ded0d2b7a372fa9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 08/53] fix: keep per-patch results right when accumulating in
 several steps

Keep the tot of earlier results, never change results shared with copies, and
forget which results exist when there may be more.  Copies get their own dict and lists.
---
 treecorr/corr2base.py      | 37 +++++++++++++++++++++++++------------
 treecorr/corr3base.py      | 22 ++++++++++------------
 treecorr/nncorrelation.py  |  2 +-
 treecorr/nnncorrelation.py |  2 +-
 4 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..7f3f147 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -673,13 +673,14 @@ class Corr2(object):
             if isinstance(item, np.ndarray):
                 # Only items that might change need to by deep copied.
                 ret.__dict__[key] = item.copy()
+            elif key in ('results', '_processed_cats1', '_processed_cats2'):
+                # The items in these never change, but either object may add or remove some.
+                ret.__dict__[key] = item.copy()
             else:
                 # For everything else, shallow copy is fine.
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
@@ -781,6 +782,18 @@ class Corr2(object):
                 cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
+    def _add_result(self, ij, corr):
+        # Helper function to add corr to the results for this (i,j).
+        # If there are already some, they are replaced, rather than changed, since they may be
+        # shared with other copies of this object.
+        if ij in self.results:
+            prev = self.results[ij]
+            corr, other = (prev.copy(), corr) if prev.nonzero else (corr.copy(), prev)
+            corr.__dict__.pop('_nonzero',None)
+            corr += other
+        self.results[ij] = corr
+        self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
+
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
@@ -790,10 +803,7 @@ class Corr2(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
         if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+            self._add_result(ij, temp.copy())
             self += temp
         else:
             # NNCorrelation needs to add the tot value
@@ -860,7 +870,9 @@ class Corr2(object):
 
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
-            temp.results = {}  # Don't mess up the original results
+            temp.results = {}
+            temp._processed_cats1 = []
+            temp._processed_cats2 = []
 
             if local:
                 for ii,c1 in enumerate(cat1):
@@ -878,10 +890,7 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        self._add_result((i,i), temp.copy())
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
@@ -954,7 +963,9 @@ class Corr2(object):
 
             self._set_metric(metric, cat1[0].coords, cat2[0].coords)
             temp = self.copy()
-            temp.results = {}  # Don't mess up the original results
+            temp.results = {}
+            temp._processed_cats1 = []
+            temp._processed_cats2 = []
 
             if local:
                 for ii,c1 in enumerate(cat1):
@@ -1759,6 +1770,7 @@ class Corr2(object):
         self._read_from_data(data, params)
 
         self.results = {}
+        self.__dict__.pop('_ok',None)
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
             key, tot = eval(params[zp_name])
@@ -1766,6 +1778,7 @@ class Corr2(object):
         for i in range(num_patch_pairs):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.results = {}
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..0b741cb 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1065,6 +1065,9 @@ class Corr3(object):
             if isinstance(item, np.ndarray):
                 # Only items that might change need to by deep copied.
                 ret.__dict__[key] = item.copy()
+            elif key == 'results':
+                # The items in this never change, but either object may add or remove some.
+                ret.__dict__[key] = item.copy()
             else:
                 # For everything else, shallow copy is fine.
                 # In particular don't deep copy config or logger
@@ -1122,6 +1125,7 @@ class Corr3(object):
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
     _make_expanded_patch = Corr2._make_expanded_patch
+    _add_result = Corr2._add_result
 
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
@@ -1134,10 +1138,7 @@ class Corr3(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
         if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+            self._add_result(ijj, temp.copy())
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1154,10 +1155,7 @@ class Corr3(object):
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
         if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+            self._add_result(ijk, temp.copy())
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1238,10 +1236,7 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        self._add_result((i,i,i), temp.copy())
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
@@ -2011,6 +2006,7 @@ class Corr3(object):
 
         for k,v in self.results.items():
             temp = sas.copy()
+            temp.results = {}
             temp.weightr[:] = np.real(v.weight.dot(expiphi)) / (2*np.pi) * sas.phi_bin_size
             temp.ntri[:] = temp.weight * ratio[:,:,None]
 
@@ -2484,6 +2480,7 @@ class Corr3(object):
         self._read_from_data(data, params)
 
         self.results = {}
+        self.__dict__.pop('_ok',None)
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
             key, tot = eval(params[zp_name])
@@ -2491,6 +2488,7 @@ class Corr3(object):
         for i in range(num_patch_tri):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.results = {}
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index c95d483..d5e5230 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -261,7 +261,7 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        self._add_result(ij, self._zero_copy(tot))
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index b0e4d71..c4ac5b2 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -364,7 +364,7 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        self._add_result(ijk, self._zero_copy(tot))
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From ac077ca7f6f633c0d7f9629c47edb2ca2058e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 09/53] fix: redo the matrix of existing results after
 calculateXi adds some

---
 treecorr/nkcorrelation.py | 1 +
 treecorr/nzcorrelation.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..5e22c1f 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -233,6 +233,7 @@ class NKCorrelation(Corr2):
                     new_cij.xi.ravel()[:] = 0
                     new_cij.weight.ravel()[:] = 0
                     self.results[ij] = new_cij
+                self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..a1313e0 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -135,6 +135,7 @@ class BaseNZCorrelation(Corr2):
                     new_cij.xi.ravel()[:] = 0
                     new_cij.weight.ravel()[:] = 0
                     self.results[ij] = new_cij
+                self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
-- 
2.43.0


From dabf01f8e1bfa36f46c91546f416963cb2e99160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 10/53] fix: do not send accumulated results again in a second
 step with MPI

---
 treecorr/corr2base.py | 26 ++++++++++++++++++++++++--
 treecorr/corr3base.py | 13 ++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 7f3f147..8850fad 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -794,6 +794,24 @@ class Corr2(object):
         self.results[ij] = corr
         self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
+    def _set_aside(self, comm, initialize):
+        # Helper function for process.
+        # When using MPI, the other processes send rank 0 everything they have accumulated.
+        # If they have already done so in an earlier step, that needs to be set aside for now.
+        if comm is None or initialize or comm.Get_rank() == 0:
+            return None
+        prev = self.copy()
+        self._clear()
+        self.results = {}
+        return prev
+
+    def _restore(self, prev):
+        # Helper function for process.  Add back what was set aside by _set_aside.
+        if prev is not None and prev.metric is not None:
+            self += prev
+            for ij in prev.results:
+                self._add_result(ij, prev.results[ij])
+
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
@@ -914,7 +932,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij in temp.results:
+                            self._add_result(ij, temp.results[ij])
 
     def _process_all_cross(self, cat1, cat2, metric, num_threads, comm, low_mem, local):
 
@@ -1000,7 +1019,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij in temp.results:
+                            self._add_result(ij, temp.results[ij])
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
@@ -1136,10 +1156,12 @@ class Corr2(object):
         if cat2 is not None and not isinstance(cat2,list):
             cat2 = cat2.get_patches(low_mem=low_mem)
 
+        prev = self._set_aside(comm, initialize)
         if cat2 is None:
             self._process_all_auto(cat1, metric, num_threads, comm, low_mem, local)
         else:
             self._process_all_cross(cat1, cat2, metric, num_threads, comm, low_mem, local)
+        self._restore(prev)
 
         self._processed_cats1.extend(cat1)
         if cat2 is not None:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 0b741cb..69c486c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1126,6 +1126,8 @@ class Corr3(object):
 
     _make_expanded_patch = Corr2._make_expanded_patch
     _add_result = Corr2._add_result
+    _set_aside = Corr2._set_aside
+    _restore = Corr2._restore
 
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
@@ -1275,7 +1277,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk in temp.results:
+                            self._add_result(ijk, temp.results[ijk])
 
     def _process_all_cross12(self, cat1, cat2, metric, ordered, num_threads, comm, low_mem, local):
 
@@ -1399,7 +1402,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk in temp.results:
+                            self._add_result(ijk, temp.results[ijk])
 
     def _process_all_cross(self, cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                            local):
@@ -1525,7 +1529,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk in temp.results:
+                            self._add_result(ijk, temp.results[ijk])
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
@@ -1760,6 +1765,7 @@ class Corr3(object):
         if initialize:
             self.clear()
 
+        prev = self._set_aside(comm, initialize)
         if cat2 is None:
             if cat3 is not None:
                 raise ValueError("For two catalog case, use cat1,cat2, not cat1,cat3")
@@ -1770,6 +1776,7 @@ class Corr3(object):
         else:
             self._process_all_cross(cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                                     local)
+        self._restore(prev)
 
         if finalize:
             if cat2 is None:
-- 
2.43.0


From a2f9ec2862b49c27c142819c4562a832cae2f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 11/53] fix: use all the catalogs of several 3pt steps for the
 variance

---
 treecorr/corr3base.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 69c486c..ee9718a 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -735,6 +735,9 @@ class Corr3(object):
         self._ro.var_method = get(self.config,'var_method',str,'shot')
         self._ro.num_bootstrap = get(self.config,'num_bootstrap',int,500)
         self.results = {}  # for jackknife, etc. store the results of each pair of patches.
+        self._processed_cats1 = []
+        self._processed_cats2 = []
+        self._processed_cats3 = []
         self.npatch1 = self.npatch2 = self.npatch3 = 1
         self._rng = rng
 
@@ -1065,8 +1068,8 @@ class Corr3(object):
             if isinstance(item, np.ndarray):
                 # Only items that might change need to by deep copied.
                 ret.__dict__[key] = item.copy()
-            elif key == 'results':
-                # The items in this never change, but either object may add or remove some.
+            elif key in ('results', '_processed_cats1', '_processed_cats2', '_processed_cats3'):
+                # The items in these never change, but either object may add or remove some.
                 ret.__dict__[key] = item.copy()
             else:
                 # For everything else, shallow copy is fine.
@@ -1220,6 +1223,9 @@ class Corr3(object):
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
             temp.results = {}
+            temp._processed_cats1 = []
+            temp._processed_cats2 = []
+            temp._processed_cats3 = []
 
             if local:
                 for ii,c1 in enumerate(cat1):
@@ -1343,6 +1349,9 @@ class Corr3(object):
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
             temp.results = {}
+            temp._processed_cats1 = []
+            temp._processed_cats2 = []
+            temp._processed_cats3 = []
             ordered1 = 1 if ordered else 0
 
             if local:
@@ -1463,6 +1472,9 @@ class Corr3(object):
             self._set_metric(metric, cat1[0].coords)
             temp = self.copy()
             temp.results = {}
+            temp._processed_cats1 = []
+            temp._processed_cats2 = []
+            temp._processed_cats3 = []
 
             if local:
                 for ii,c1 in enumerate(cat1):
@@ -1764,6 +1776,9 @@ class Corr3(object):
 
         if initialize:
             self.clear()
+            self._processed_cats1.clear()
+            self._processed_cats2.clear()
+            self._processed_cats3.clear()
 
         prev = self._set_aside(comm, initialize)
         if cat2 is None:
@@ -1778,15 +1793,20 @@ class Corr3(object):
                                     local)
         self._restore(prev)
 
+        self._processed_cats1.extend(cat1)
+        if cat2 is not None:
+            self._processed_cats2.extend(cat2)
+        if cat3 is not None:
+            self._processed_cats3.extend(cat3)
         if finalize:
             if cat2 is None:
-                var1 = var2 = var3 = self._calculateVar1(cat1, low_mem=low_mem)
+                var1 = var2 = var3 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s = %f: {self._sig1} = %f",
                                      self._letter1.lower(), var1, math.sqrt(var1))
             elif cat3 is None:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = var3 = self._calculateVar2(cat2, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = var3 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
                 # For now, only the letter1 == letter2 case until we add cross type 3pt.
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
@@ -1794,9 +1814,9 @@ class Corr3(object):
                     self.logger.info(f"var%s2 = %f: {self._sig2} = %f",
                                      self._letter2, var2, math.sqrt(var2))
             else:
-                var1 = self._calculateVar1(cat1, low_mem=low_mem)
-                var2 = self._calculateVar2(cat2, low_mem=low_mem)
-                var3 = self._calculateVar3(cat3, low_mem=low_mem)
+                var1 = self._calculateVar1(self._processed_cats1, low_mem=low_mem)
+                var2 = self._calculateVar2(self._processed_cats2, low_mem=low_mem)
+                var3 = self._calculateVar3(self._processed_cats3, low_mem=low_mem)
                 if var1 is not None:
                     self.logger.info(f"var%s1 = %f: {self._sig1} = %f",
                                      self._letter1, var1, math.sqrt(var1))
@@ -1808,6 +1828,9 @@ class Corr3(object):
                 self.finalize()
             else:
                 self.finalize(var1, var2, var3)
+            self._processed_cats1.clear()
+            self._processed_cats2.clear()
+            self._processed_cats3.clear()
 
     def _finalize(self):
         mask1 = self.weightr != 0
-- 
2.43.0


From e92b03872d02d1a305ff4c26734e72f0e6aa270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 12/53] fix: forget xi or zeta when an NN or NNN correlation is
 cleared

---
 treecorr/nncorrelation.py  | 9 +++++++++
 treecorr/nnncorrelation.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index d5e5230..e00d264 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -211,6 +211,15 @@ class NNCorrelation(Corr2):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        self._rr_weight = None
+        self._rr = self._dr = self._rd = None
+        self.__dict__.pop('xi',None)
+        self.__dict__.pop('varxi',None)
+
     def _clear(self):
         """Clear the data vectors
         """
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index c4ac5b2..347ced8 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -317,6 +317,15 @@ class NNNCorrelation(Corr3):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        self._rrr_weight = None
+        self._rrr = self._drr = self._rdd = None
+        self.zeta = None
+        self.__dict__.pop('varzeta',None)
+
     def _clear(self):
         super()._clear()
         self.tot = 0.
-- 
2.43.0


From 6d1d18954548afed8079c5383d159f4ba9179785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 13/53] fix: give a covariance row without pairs the same
 weight as one with no randoms

---
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index e00d264..2717b40 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -228,7 +228,7 @@ class NNCorrelation(Corr2):
         if self._rr_weight is not None:
             # Don't leave the values of an earlier calculation behind.
             self.xi = np.zeros_like(self.xi)
-            self._rr_weight = np.zeros_like(self._rr_weight)
+            self._rr_weight = np.ones_like(self._rr_weight)  # As for denom=0.
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 347ced8..333086c 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -332,7 +332,7 @@ class NNNCorrelation(Corr3):
         if self._rrr_weight is not None:
             # Don't leave the values of an earlier calculation behind.
             self.zeta = np.zeros_like(self.zeta)
-            self._rrr_weight = np.zeros_like(self._rrr_weight)
+            self._rrr_weight = np.ones_like(self._rrr_weight)  # As for denom=0.
 
     def _sum(self, others):
         # Equivalent to the operation of:
-- 
2.43.0


From 34f20f5f3b5053b00042d9c05cbf90c673a8afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 14/53] fix: forget the catalogs processed so far when a
 correlation is cleared

---
 treecorr/corr2base.py | 4 ++--
 treecorr/corr3base.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 8850fad..6bf426b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -710,6 +710,8 @@ class Corr2(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = 1
+        self._processed_cats1 = []
+        self._processed_cats2 = []
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1144,8 +1146,6 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index ee9718a..5dd98f0 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1104,6 +1104,9 @@ class Corr3(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = self.npatch3 = 1
+        self._processed_cats1 = []
+        self._processed_cats2 = []
+        self._processed_cats3 = []
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1776,9 +1779,6 @@ class Corr3(object):
 
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
-            self._processed_cats3.clear()
 
         prev = self._set_aside(comm, initialize)
         if cat2 is None:
-- 
2.43.0


From ffb9f06e59b7efaebb8edc2e2253150c956c8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 15/53] fix: divide all the patches among the processes also
 when earlier steps had fewer

---
 treecorr/corr2base.py |  6 +++---
 treecorr/corr3base.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6bf426b..013c138 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -877,7 +877,7 @@ class Corr2(object):
             # When patch processing, keep track of the pair-wise results.
             if self.npatch1 == 1:
                 self.npatch1 = self.npatch2 = cat1[0].npatch if cat1[0].npatch != 1 else len(cat1)
-            n = self.npatch1
+            n = max(self.npatch1, cat1[0].npatch, len(cat1))
 
             # Setup for deciding when this is my job.
             if comm:
@@ -971,8 +971,8 @@ class Corr2(object):
                 raise RuntimeError("Cross correlation requires both catalogs use the same patches.")
 
             # Setup for deciding when this is my job.
-            n1 = self.npatch1
-            n2 = self.npatch2
+            n1 = max(self.npatch1, cat1[0].npatch, len(cat1))
+            n2 = max(self.npatch2, cat2[0].npatch, len(cat2))
             if comm:
                 size = comm.Get_size()
                 rank = comm.Get_rank()
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 5dd98f0..a35c53b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1212,7 +1212,7 @@ class Corr3(object):
             if self.npatch1 == 1:
                 self.npatch1 = cat1[0].npatch if cat1[0].npatch != 1 else len(cat1)
                 self.npatch2 = self.npatch3 = self.npatch1
-            n = self.npatch1
+            n = max(self.npatch1, cat1[0].npatch, len(cat1))
 
             # Setup for deciding when this is my job.
             if comm:
@@ -1338,8 +1338,8 @@ class Corr3(object):
                 raise RuntimeError("Cross correlation requires both catalogs use the same patches.")
 
             # Setup for deciding when this is my job.
-            n1 = self.npatch1
-            n2 = self.npatch2
+            n1 = max(self.npatch1, cat1[0].npatch, len(cat1))
+            n2 = max(self.npatch2, cat2[0].npatch, len(cat2))
             if comm:
                 size = comm.Get_size()
                 rank = comm.Get_rank()
@@ -1460,9 +1460,9 @@ class Corr3(object):
                 raise RuntimeError("Cross correlation requires all catalogs use the same patches.")
 
             # Setup for deciding when this is my job.
-            n1 = self.npatch1
-            n2 = self.npatch2
-            n3 = self.npatch3
+            n1 = max(self.npatch1, cat1[0].npatch, len(cat1))
+            n2 = max(self.npatch2, cat2[0].npatch, len(cat2))
+            n3 = max(self.npatch3, cat3[0].npatch, len(cat3))
             if comm:
                 size = comm.Get_size()
                 rank = comm.Get_rank()
-- 
2.43.0


From 0b48e5ef11299eca3035a755906a3e0e9cae240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 16/53] fix: get the NN and NNN totals right for every way of
 using patches

The total weight was lost for patches too far from an unpatched catalog, halved for
process(cat1, cat2, cat2), and three times too large with the local patch method
for unordered triangles, so patched and unpatched results did not combine correctly.
---
 treecorr/corr2base.py      | 10 +++++++--
 treecorr/corr3base.py      | 45 ++++++++++++++++++++++++++++----------
 treecorr/nnncorrelation.py | 14 ++++++++----
 3 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 013c138..81686dd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -21,6 +21,7 @@ import sys
 import coord
 import itertools
 import collections
+from types import SimpleNamespace
 
 from . import _treecorr
 from .config import merge_config, setup_logger, get, make_minimal_config
@@ -773,7 +774,8 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
+            # Nothing to correlate with here, but NN correlations still need the total weight.
+            return SimpleNamespace(sumw=sumw)
         else:
             cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
             # This is important for NN correlations to get the tot to work out right.
@@ -817,11 +819,15 @@ class Corr2(object):
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
-        if c2 is not None and not self._trivially_zero(c1, c2):
+        if isinstance(c2, Catalog) and not self._trivially_zero(c1, c2):
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
+            if force_write:
+                # NNCorrelation still needs the tot value
+                temp._add_tot(ij, c1, c2)
+                temp.results = {}
         if temp.nonzero or force_write:
             self._add_result(ij, temp.copy())
             self += temp
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index a35c53b..7b7ff8f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1116,7 +1116,11 @@ class Corr3(object):
         return np.any(self.ntri)
 
     def _add_tot(self, ijk, c1, c2, c3):
-        # No op for all but NNCorrelation, which needs to add the tot value
+        # No op for all but NNNCorrelation, which needs to add the tot value
+        pass
+
+    def _scale_tot(self, factor):
+        # No op for all but NNNCorrelation, which needs to scale the tot value
         pass
 
     def _trivially_zero(self, c1, c2, c3):
@@ -1135,33 +1139,48 @@ class Corr3(object):
     _set_aside = Corr2._set_aside
     _restore = Corr2._restore
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                          tot_factor=None):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
-        if c2 is not None and not self._trivially_zero(c1,c2,c2):
+        if isinstance(c2, Catalog) and not self._trivially_zero(c1,c2,c2):
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
+            if force_write:
+                # NNNCorrelation still needs the tot value
+                temp._add_tot(ijj, c1, c2, None)
+                temp.results = {}
+        if tot_factor is not None:
+            temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             self._add_result(ijj, temp.copy())
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijj, c1, c2, c2)
+            self._add_tot(ijj, c1, c2, None)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                           tot_factor=None):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
-        if c2 is not None and c3 is not None and not self._trivially_zero(c1,c2,c3):
+        if (isinstance(c2, Catalog) and isinstance(c3, Catalog)
+                and not self._trivially_zero(c1,c2,c3)):
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
+            if force_write:
+                # NNNCorrelation still needs the tot value
+                temp._add_tot(ijk, c1, c2, c3)
+                temp.results = {}
+        if tot_factor is not None:
+            temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             self._add_result(ijk, temp.copy())
             self += temp
@@ -1237,7 +1256,7 @@ class Corr3(object):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, 1./3.)
                         if low_mem:
                             c1.unload()
             else:
@@ -1364,7 +1383,8 @@ class Corr3(object):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c2e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True,
+                                               None if ordered else 1./3.)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1378,7 +1398,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c2.unload()
             else:
@@ -1488,7 +1508,8 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, (i,i,i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True,
+                                                None if ordered else 1./3.)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1502,7 +1523,7 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1512,7 +1533,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, 1./3.)
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 333086c..f6b58e8 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -365,16 +365,22 @@ class NNNCorrelation(Corr3):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
         # This only applies to NNNCorrelation.  For the other ones, this is a no op.
-        tot = c1.sumw * c2.sumw * c3.sumw
-        if c2 is c3:
-            # Account for 1/2 factor in cross12 cases.
-            tot /= 2.
+        # If c3 is None, then this is a cross12 case, which has a factor of 1/2.
+        if c3 is None:
+            tot = 0.5 * c1.sumw * c2.sumw**2
+        else:
+            tot = c1.sumw * c2.sumw * c3.sumw
         self.tot += tot
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
         self._add_result(ijk, self._zero_copy(tot))
 
+    def _scale_tot(self, factor):
+        # The local patch method finds each unordered triangle in only one of its three
+        # possible calls, so each call only counts for 1/3 of the total.
+        self.tot *= factor
+
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
 
-- 
2.43.0


From 1c3dc05560bbc098dc3fff6e2036efd8469c1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 17/53] fix: count every pair of TwoD auto-correlations in both
 directions

Pairs in different patches were only counted in one direction, and the total weight for NN
only accounted for one, which is wrong with respect to any cross-correlation.
---
 treecorr/corr2base.py     | 3 +++
 treecorr/nncorrelation.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 81686dd..75628ed 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -924,6 +924,9 @@ class Corr2(object):
                         if i < j and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
                             self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            if self.bin_type == 'TwoD':
+                                # TwoD auto-correlations include each pair in both directions.
+                                self._single_process12(c2, c1, (i,j), metric, num_threads, temp)
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 2717b40..2849d7c 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -175,7 +175,8 @@ class NNCorrelation(Corr2):
                                 in the constructor in the config dict.)
         """
         super()._process_auto(cat, metric, num_threads)
-        self.tot += 0.5 * cat.sumw**2
+        # TwoD binning counts each pair in both directions.
+        self.tot += cat.sumw**2 if self.bin_type == 'TwoD' else 0.5 * cat.sumw**2
 
     def process_cross(self, cat1, cat2, *, metric=None, num_threads=None):
         """Process a single pair of catalogs, accumulating the cross-correlation.
-- 
2.43.0


From a292dc21b7aca8c7637987bb341c0ceecbbecfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 18/53] fix: do not skip patches or objects that are within
 range

The local patch method missed pairs in the corners of TwoD binning, across periodic
boundaries and for 3d coordinates within a unit distance, and it paired objects with
themselves for min_sep=0.  Patches on the sphere or with the Arc, or (for three points)
the Periodic metric could be taken to be too far apart from each other.
---
 include/Metric.h      |  7 ++++-
 treecorr/corr2base.py | 72 +++++++++++++++++++++++++++++++------------
 treecorr/corr3base.py | 16 +++++-----
 3 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..c24a004 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -602,7 +602,12 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chord lengths, so need to convert them to the corresponding arcs.
+        if (s1 != 0.) s1 = 2. * std::asin(std::min(s1/2.,1.));
+        if (s2 != 0.) s2 = 2. * std::asin(std::min(s2/2.,1.));
+        return SQR(Dist(p1,p2));
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 75628ed..7dc27ec 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -725,46 +725,67 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _get_patch_circle(self, cat):
+        # Get a center and a distance from it, within which all of the points of cat are, in the
+        # space that matters for which patches may be close enough to each other.
+        x,y,z,s = cat._get_center_size()
+        if self._coords == _treecorr.Sphere:
+            # The C++ layer will move the center to the unit sphere.
+            r = np.sqrt(x**2 + y**2 + z**2)
+            return (x/r, y/r, z/r, s+abs(1-r)) if r != 0 else (1., 0., 0., 2.)
+        elif self._coords == _treecorr.ThreeD and self._metric == _treecorr.Arc:
+            # For Arc with 3d coords, we collapse everything onto the unit sphere.
+            # Then nothing is more than 2s/r from the center.
+            r = np.sqrt(x**2 + y**2 + z**2)
+            return (x/r, y/r, z/r, min(2*s/r, 2.)) if r != 0 else (1., 0., 0., 2.)
+        else:
+            return x,y,z,s
+
+    def _get_separation(self, dx, dy, dz):
+        # With periodic boundaries, the nearest copy is the one that matters.
+        d = [x - period * np.round(x/period) if period != 0 else x
+             for x, period in ((dx,self.xperiod), (dy,self.yperiod), (dz,self.zperiod))]
+        return np.sqrt(d[0]**2 + d[1]**2 + d[2]**2)
+
     def _trivially_zero(self, c1, c2):
-        x1,y1,z1,s1 = c1._get_center_size()
-        x2,y2,z2,s2 = c2._get_center_size()
+        x1,y1,z1,s1 = self._get_patch_circle(c1)
+        x2,y2,z2,s2 = self._get_patch_circle(c2)
+        if self._coords == _treecorr.ThreeD and self._metric == _treecorr.Arc:
+            # Convert from chord to arc.  (On the sphere, the C++ layer does this.)
+            s1 = 2*np.arcsin(min(s1/2, 1.))
+            s2 = 2*np.arcsin(min(s2/2, 1.))
         return self.corr.triviallyZero(self._metric, self._coords,
                                        x1, y1, z1, s1, x2, y2, z2, s2)
 
     def _make_expanded_patch(self, cat1, cat2, metric, low_mem):
         # First figure out the center and size of cat1.
-        x1,y1,z1,s1 = cat1._get_center_size()
+        x1,y1,z1,s1 = self._get_patch_circle(cat1)
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        # The maximum separation of any pair.  TwoD binning extends into the corners.
+        max_sep = self._max_sep
+        if self.bin_type == 'TwoD':
+            max_sep *= 2.**0.5
+        if self._metric not in (_treecorr.Euclidean, _treecorr.Periodic, _treecorr.Arc):
+            # Pairs may be arbitrarily far from each other in 3d for the other metrics.
+            max_sep = np.inf
 
         cat_list = []
         mask_list = []
         sumw = 0
         for p in cat2:
             sumw += p.sumw
-            x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            x2,y2,z2,s2 = self._get_patch_circle(p)
+            if self._get_separation(x2-x1, y2-y1, z2-z1) > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
+            if self._coords == _treecorr.ThreeD and self._metric == _treecorr.Arc:
                 pr = np.sqrt(px**2 + py**2 + pz**2)
                 pr[pr==0] = 1
                 # Don't divide in place.  That would change p's internals.
                 px = px/pr; py = py/pr; pz = pz/pr
-            dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
-            d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            mask = np.where(self._get_separation(px-x1, py-y1, pz-z1) <= s1+max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
@@ -904,7 +925,18 @@ class Corr2(object):
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, n):
-                        c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
+                        others = cat1
+                        if self.bin_type == 'Linear' and self.min_sep == 0:
+                            # Objects must not be paired with themselves at zero separation.
+                            # So do the pairs in this patch as an auto-correlation.
+                            # The local method counts each of these twice.
+                            others = [c2 for c2 in cat1 if c2 is not c1]
+                            for n2 in range(2):
+                                temp._clear()
+                                temp.process_auto(c1, metric=metric, num_threads=num_threads)
+                                self._add_result((i,i), temp.copy())
+                                self += temp
+                        c1e = self._make_expanded_patch(c1, others, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c1e, (i,i), metric, num_threads, temp, True)
                         if low_mem:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7b7ff8f..1995f46 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1124,16 +1124,18 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
-        # For now, ignore the metric.  Just be conservative about how much space we need.
-        x1,y1,z1,s1 = c1._get_center_size()
-        x2,y2,z2,s2 = c2._get_center_size()
-        x3,y3,z3,s3 = c3._get_center_size()
-        d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
-        d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
-        d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
+        # Just be conservative about how much space we need.
+        x1,y1,z1,s1 = self._get_patch_circle(c1)
+        x2,y2,z2,s2 = self._get_patch_circle(c2)
+        x3,y3,z3,s3 = self._get_patch_circle(c3)
+        d3 = self._get_separation(x1-x2, y1-y2, z1-z2)
+        d1 = self._get_separation(x2-x3, y2-y3, z2-z3)
+        d2 = self._get_separation(x3-x1, y3-y1, z3-z1)
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
+    _get_patch_circle = Corr2._get_patch_circle
+    _get_separation = Corr2._get_separation
     _make_expanded_patch = Corr2._make_expanded_patch
     _add_result = Corr2._add_result
     _set_aside = Corr2._set_aside
-- 
2.43.0


From 4e662490f4854e4d1b32a71c946b4536c9711ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 19/53] fix: keep triangles at the very top of the last bin
 inside the arrays

Rounding in the logarithm can give k == nbins for a separation just below max_sep.  The two-point
and direct three-point code allow for this; the multipole code wrote past the end of its arrays.
---
 src/Corr3.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..ddb52cf 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1348,6 +1348,11 @@ void Corr3<D1,D2,D3>::calculateGn(
     BaseMultipoleScratch& mp)
 {
     xdbg<<ws()<<"Gn Index = "<<k<<std::endl;
+    Assert(k >= 0);
+    Assert(k <= _nbins);
+    // As in the two-point case, k can (rarely) be _nbins because of numerical rounding when r is
+    // very close to the top of the last bin.
+    if (k == _nbins) --k;
     // For now we only include the counts and weight from c2.
     // We'll include c1 as part of the triple in calculateZeta.
     double n = c2.getN();
-- 
2.43.0


From d0e1d768839cb3b39882da31a9fa57f05462cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 20/53] fix: write output files completely or not at all

A full disk or I/O error could go unnoticed in FITS files (fitsio ignores errors in closing a file),
crashed the process in HDF5 files, and left partial ASCII files, which could also be the result of
being killed while writing and could later be read as valid.  Now everything is first formatted in
memory and stored with a plain write to a temporary name, which is moved to the right place when
complete.
---
 treecorr/writer.py | 56 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/treecorr/writer.py b/treecorr/writer.py
index 7855a3c..2661cfb 100644
--- a/treecorr/writer.py
+++ b/treecorr/writer.py
@@ -11,9 +11,41 @@
 #    this list of conditions, and the disclaimer given in the documentation
 #    and/or other materials provided with the distribution.
 
+import gzip
+import io
 import os
+import shutil
+import uuid
 import numpy as np
 
+def store(file_name, data):
+    """Store the complete contents of a file, or raise an exception and leave it as it was.
+
+    Parameters:
+        file_name:      The file name.
+        data:           The contents as a bytes-like object.
+    """
+    if os.path.exists(file_name) and not os.path.isfile(file_name):
+        # E.g. /dev/stdout or a named pipe.
+        with open(file_name, 'wb') as f:
+            f.write(data)
+        return
+
+    # If we are killed or run out of space, don't leave an incomplete file, so write to something
+    # else first, and then move it to the right place.
+    file_name = os.path.realpath(file_name)
+    temp_name = '%s.%s.tmp'%(file_name, uuid.uuid4().hex)
+    try:
+        with open(temp_name, 'wb') as f:
+            f.write(data)
+        if os.path.exists(file_name):
+            shutil.copymode(file_name, temp_name)
+        os.replace(temp_name, file_name)
+    except BaseException:
+        if os.path.exists(temp_name):
+            os.remove(temp_name)
+        raise
+
 def ensure_dir(target):
     d = os.path.dirname(target)
     if d != '':
@@ -88,12 +120,14 @@ class AsciiWriter(object):
         np.savetxt(self.file, data, fmt=self.fmt)
 
     def __enter__(self):
-        self._file = open(self.file_name, 'wb')
+        self._file = io.BytesIO()
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
-        self._file.close()
+        data = self._file.getvalue()
         self._file = None
+        if exc_type is None:
+            store(self.file_name, data)
 
 
 class FitsWriter(object):
@@ -152,12 +186,18 @@ class FitsWriter(object):
 
     def __enter__(self):
         import fitsio
-        self._file = fitsio.FITS(self.file_name, 'rw', clobber=True)
+        # Write to memory first.  fitsio doesn't report all errors when writing to a file.
+        self._file = fitsio.FITS('mem://', 'rw')
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
-        self.file.close()
+        data = self._file.read_raw() if exc_type is None else None
+        self._file.close()
         self._file = None
+        if exc_type is None:
+            if self.file_name.endswith('.gz'):
+                data = gzip.compress(data)
+            store(self.file_name, data)
 
 
 class HdfWriter(object):
@@ -225,10 +265,16 @@ class HdfWriter(object):
 
     def __enter__(self):
         import h5py
-        self._file = h5py.File(self.file_name, 'w')
+        # Write to memory first.  hdf5 may crash when it cannot write everything to a file.
+        self._buffer = io.BytesIO()
+        self._file = h5py.File(self._buffer, 'w')
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         # closes file at end of "with" statement
         self._file.close()
+        data = self._buffer.getbuffer()
         self._file = None
+        self._buffer = None
+        if exc_type is None:
+            store(self.file_name, data)
-- 
2.43.0


From 45d00b5d594666649f316cde15c8da67f7fd761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 21/53] fix: give correlations read from a file arrays of their
 own

The C++ layer kept pointers to converted copies or to the arrays of the previous contents, so
processing with an object that had been read gave garbage.  Also forget an earlier covariance.
---
 treecorr/corr2base.py | 16 ++++++++++++++++
 treecorr/corr3base.py | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 7dc27ec..c910362 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1828,9 +1828,13 @@ class Corr2(object):
         name = 'main' if num_patch_pairs and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Forget anything that belonged to the previous contents.
+        self._cov = None
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._own_arrays()
 
         self.results = {}
         self.__dict__.pop('_ok',None)
@@ -1845,6 +1849,7 @@ class Corr2(object):
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
+            corr._own_arrays()
             key = eval(params['key'])
             self.results[key] = corr
         if cov_shape is not None:
@@ -1852,6 +1857,17 @@ class Corr2(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    def _own_arrays(self):
+        # What was read are views of columns of the file's table, maybe with non-native byte order.
+        # The C++ layer needs regular arrays, and needs to be told about the new ones.
+        new = {}
+        for key, item in self.__dict__.items():
+            if isinstance(item, np.ndarray):
+                if id(item) not in new:  # Keep different names of the same array the same.
+                    new[id(item)] = np.array(item, dtype=item.dtype.newbyteorder('='), order='C')
+                self.__dict__[key] = new[id(item)]
+        self._corr = None
+
     def _read_from_data(self, data, params):
         s = self.logr.shape
         self.meanr = data['meanr'].reshape(s)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 1995f46..06785c0 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2528,9 +2528,13 @@ class Corr3(object):
         name = 'main' if num_patch_tri and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Forget anything that belonged to the previous contents.
+        self._cov = None
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._own_arrays()
 
         self.results = {}
         self.__dict__.pop('_ok',None)
@@ -2545,6 +2549,7 @@ class Corr3(object):
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
+            corr._own_arrays()
             key = eval(params['key'])
             self.results[key] = corr
         if cov_shape is not None:
@@ -2552,6 +2557,17 @@ class Corr3(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    def _own_arrays(self):
+        # What was read are views of columns of the file's table, maybe with non-native byte order.
+        # The C++ layer needs regular arrays, and needs to be told about the new ones.
+        new = {}
+        for key, item in self.__dict__.items():
+            if isinstance(item, np.ndarray):
+                if id(item) not in new:  # Keep different names of the same array the same.
+                    new[id(item)] = np.array(item, dtype=item.dtype.newbyteorder('='), order='C')
+                self.__dict__[key] = new[id(item)]
+        self._corr = None
+
     def _read_from_data(self, data, params):
         s = self.data_shape
         self.meand1 = data['meand1'].reshape(s)
-- 
2.43.0


From 7bb2e6936643806e1d63ba03758865fd637953df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 22/53] fix: store the numerator of the shot noise with a
 correlation

---
 treecorr/corr2base.py | 3 +++
 treecorr/corr3base.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c910362..50f531d 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1769,6 +1769,8 @@ class Corr2(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if np.isfinite(self._var_num):
+            params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -1879,6 +1881,7 @@ class Corr2(object):
         self.npairs = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 06785c0..c09b466 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2469,6 +2469,8 @@ class Corr3(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if np.isfinite(self._var_num):
+            params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -2592,6 +2594,7 @@ class Corr3(object):
         self.ntri = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
         self.npatch3 = params.get('npatch3', 1)
-- 
2.43.0


From ebf59a651969b46097a559eb2cb37a72b9d4fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 23/53] fix: make ASCII files with a covariance, or with empty
 patches only, readable

---
 treecorr/corr2base.py | 6 ++++--
 treecorr/corr3base.py | 6 ++++--
 treecorr/reader.py    | 4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 50f531d..d912dd4 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1782,12 +1782,14 @@ class Corr2(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # Something else follows the main table.
+            params['num_rows'] = len(self.rnom.ravel())
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
-            params['num_rows'] = len(self.rnom.ravel())
             num_patch_pairs = len(self.results)
             if zero_tot:
                 i = 0
@@ -1827,7 +1829,7 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # Forget anything that belonged to the previous contents.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index c09b466..e502966 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2481,13 +2481,15 @@ class Corr3(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # Something else follows the main table.
+            params['num_rows'] = self._nbins
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
             params['npatch3'] = self.npatch3
-            params['num_rows'] = self._nbins
             num_patch_tri = len(self.results)
             if zero_tot:
                 i = 0
@@ -2527,7 +2529,7 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # Forget anything that belonged to the previous contents.
diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..a1a0995 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -192,8 +192,8 @@ class AsciiReader(object):
             array
         """
         data = np.genfromtxt(self.file, max_rows=shape[0])
-        assert data.shape == shape
-        return data
+        # Note: A single value or row comes without one or both dimensions.
+        return data.reshape(shape)
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the file.
-- 
2.43.0


From c69182c344ca158fcea8906165569e8b1b06039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 24/53] fix: restore the randoms' weight of NN and NNN
 correlations with the randoms

---
 treecorr/nncorrelation.py  | 1 +
 treecorr/nnncorrelation.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 2849d7c..5dab5c6 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -710,6 +710,7 @@ class NNCorrelation(Corr2):
             rr = self.copy()
             rr._read(reader, name='_rr')
             self._rr = rr
+            self._rr_weight = rr.weight * (self.tot / rr.tot)
         if self._dr:
             dr = self.copy()
             dr._read(reader, name='_dr')
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6b58e8..b0d595e 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -950,6 +950,7 @@ class NNNCorrelation(Corr3):
             rrr = self.copy()
             rrr._read(reader, name='_rrr')
             self._rrr = rrr
+            self._rrr_weight = np.abs(rrr.weight) * (self.tot / rrr.tot)
         if self._drr:
             drr = self.copy()
             drr._read(reader, name='_drr')
-- 
2.43.0


From 02a805772c0326998101f881feb08eea139989e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 25/53] fix: accept numpy integers and bools for bool
 parameters

HDF5 files store them as such, so that brute=1 could not be read back, and brute=True meant 1.
---
 treecorr/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..7d11e92 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -77,10 +77,10 @@ def parse_bool(value):
             else:
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
-        return value
-    elif isinstance(value,int):
+        return bool(value)
+    elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
-        return value
+        return int(value)
     else:
         raise ValueError("Unable to parse %s as a bool."%value)
 
-- 
2.43.0


From e4202447c2836f6b87a81d0ebf4ac4cb48081866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 26/53] fix: store the randoms with the patch results of
 compensated correlations

Without them the covariance of the restored object was that of the uncompensated statistic.
---
 treecorr/nkcorrelation.py | 28 ++++++++++++++++++++++++++++
 treecorr/nzcorrelation.py | 29 +++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 5e22c1f..9ee8fce 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -120,6 +120,8 @@ class NKCorrelation(Corr2):
         self._xi2 = self._xi3 = self._xi4 = np.array([])
         self.xi = self.raw_xi
         self._rk = None
+        self._write_rk = None
+        self._read_rk = False
         self._varxi = None
         self._raw_varxi = None
         self.logger.debug('Finished building NKCorr')
@@ -304,8 +306,14 @@ class NKCorrelation(Corr2):
         self.logger.info('Writing NK correlations to %s',file_name)
         self.calculateXi(rk=rk)
         precision = self.config.get('precision', 4) if precision is None else precision
+        # Temporary attribute, so the helper functions can access it.
+        self._write_rk = rk if write_patch_results else None
         with make_writer(file_name, precision, file_type, self.logger) as writer:
             self._write(writer, None, write_patch_results, write_cov=write_cov)
+            if self._write_rk is not None:
+                # Also write out rk, so covariances can be computed on round trip.
+                rk._write(writer, '_rk', write_patch_results)
+        self._write_rk = None
 
     @property
     def _write_col_names(self):
@@ -318,6 +326,24 @@ class NKCorrelation(Corr2):
         data = [ col.flatten() for col in data ]
         return data
 
+    @property
+    def _write_params(self):
+        params = super()._write_params
+        if self._write_rk is not None:
+            params['_rk'] = True
+        return params
+
+    def _read(self, reader, name=None, params=None):
+        super()._read(reader, name=name, params=params)
+        if self._read_rk:
+            self._read_rk = False
+            rk = self.copy()
+            rk._read(reader, name='_rk')
+            # What is in the file are the compensated values.
+            self._xi1 = self.xi + rk.xi
+            self._raw_varxi = None if len(self.results) > 0 else self._varxi - rk.varxi
+            self._rk = rk
+
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
@@ -325,3 +351,5 @@ class NKCorrelation(Corr2):
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self._raw_varxi = self._varxi
+        self._rk = None
+        self._read_rk = params.get('_rk', False)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index a1313e0..fb490c4 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -43,6 +43,8 @@ class BaseNZCorrelation(Corr2):
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
         self._rz = None
+        self._write_rz = None
+        self._read_rz = False
         self._raw_varxi = None
         self._varxi = None
         self.logger.debug('Finished building %s', self._cls)
@@ -166,8 +168,14 @@ class BaseNZCorrelation(Corr2):
         self.logger.info(f'Writing {self._letters} correlations to %s',file_name)
         BaseNZCorrelation.calculateXi(self, rz)
         precision = self.config.get('precision', 4) if precision is None else precision
+        # Temporary attribute, so the helper functions can access it.
+        self._write_rz = rz if write_patch_results else None
         with make_writer(file_name, precision, file_type, self.logger) as writer:
             self._write(writer, None, write_patch_results, write_cov=write_cov)
+            if self._write_rz is not None:
+                # Also write out rz, so covariances can be computed on round trip.
+                rz._write(writer, '_rz', write_patch_results)
+        self._write_rz = None
 
     @property
     def _write_col_names(self):
@@ -180,6 +188,25 @@ class BaseNZCorrelation(Corr2):
         data = [ col.flatten() for col in data ]
         return data
 
+    @property
+    def _write_params(self):
+        params = super()._write_params
+        if self._write_rz is not None:
+            params['_rz'] = True
+        return params
+
+    def _read(self, reader, name=None, params=None):
+        super()._read(reader, name=name, params=params)
+        if self._read_rz:
+            self._read_rz = False
+            rz = self.copy()
+            rz._read(reader, name='_rz')
+            # What is in the file are the compensated values.
+            self._xi1 = self.xi + rz.xi
+            self._xi2 = self.xi_im + rz.xi_im
+            self._raw_varxi = None if len(self.results) > 0 else self._varxi - rz.varxi
+            self._rz = rz
+
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
@@ -189,6 +216,8 @@ class BaseNZCorrelation(Corr2):
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
         self._raw_varxi = self._varxi
+        self._rz = None
+        self._read_rz = params.get('_rz', False)
 
 class NZCorrelation(BaseNZCorrelation):
     r"""This class handles the calculation and storage of a 2-point count-complex correlation
-- 
2.43.0


From 67011fc3b1915149ede8053b54d977056b7d1cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 27/53] fix: the number of patches does not depend on whether a
 catalog is loaded

A given npatch larger than what the patch column needs was replaced when the
data were loaded, so the value depended on when it was asked for, and that of a
single patch became one more than its own number.
---
 treecorr/catalog.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..a53074d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -850,6 +850,8 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
+            if self._single_patch is None and self.config.get('patch_col',0) not in (0,'0'):
+                self._npatch = None  # The patch numbers may turn out to need fewer than this.
         elif self.config.get('patch_col',0) not in (0,'0'):
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
@@ -1526,10 +1528,12 @@ class Catalog(object):
 
     def _set_npatch(self):
         npatch = max(self._patch) + 1
-        if self._npatch not in [None, 1] and npatch > self._npatch:
-            # Note: it's permissible for self._npatch to be larger, but not smaller.
+        max_npatch = get(self.config,'npatch',int,1)
+        if max_npatch != 1 and npatch > max_npatch:
+            # Note: it's permissible for the given npatch to be larger, but not smaller.
             raise ValueError("npatch is incompatible with provided patch numbers")
-        self._npatch = npatch
+        if self._single_patch is None or self._npatch in [None, 1]:
+            self._npatch = npatch
         self.logger.info("Assigned patch numbers 0..%d",self._npatch-1)
 
     def _get_patch_index(self, single_patch):
-- 
2.43.0


From 10d78fd92f8bd4d1af81ae67d2e3e0eddd1eaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 28/53] fix: raise an error for missing patch and flag values
 in a text catalog

Pandas gives NaN for the absent columns of an incomplete row (e.g. when the
file was cut short), which was then converted to an arbitrary integer.
---
 treecorr/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index a53074d..4a93e11 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1945,6 +1945,8 @@ class Catalog(object):
                 x = math_eval(x_eval, data)
             else:
                 x = data[x_col]
+            if dtype is int and np.any(np.isnan(x)):
+                raise ValueError("Column %s of %s has missing values"%(x_col, file_name))
             return x.astype(dtype)
 
         def set_pos(data, x_col, y_col, z_col, ra_col, dec_col, r_col,
@@ -1972,7 +1974,7 @@ class Catalog(object):
 
         def set_patch(data, patch_col):
             if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+                self._patch = parse_value(data, patch_col, None, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
-- 
2.43.0


From ace048b0da0af31568295761b53be49708bc8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 29/53] fix: read the columns given by eval when selecting a
 single patch by its centers

---
 treecorr/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4a93e11..ec3926a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2112,7 +2112,8 @@ class Catalog(object):
 
                 # We might actually be done now, in which case, just return.
                 # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
+                if ((len(all_cols) == 0 and len(extra_cols) == 0)
+                        or (isinstance(s,np.ndarray) and len(s) == 0)):
                     return
 
             # Now read the rest using the updated s
-- 
2.43.0


From b7dd9f11d46fc360ac5b928ee9ce800eb1b17073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 30/53] fix: select the flags of a single patch along with the
 other columns

An in-memory catalog made for one patch with a flag column kept the flags of
all objects, and applied them to the wrong ones or failed.
---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index ec3926a..c2f85d0 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1609,6 +1609,7 @@ class Catalog(object):
         self._r = self._r[indx] if self._r is not None else None
         self._w = self._w[indx] if self._w is not None else None
         self._wpos = self._wpos[indx] if self._wpos is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
         self._k = self._k[indx] if self._k is not None else None
         self._z1 = self._z1[indx] if self._z1 is not None else None
         self._z2 = self._z2[indx] if self._z2 is not None else None
@@ -2781,6 +2782,7 @@ class Catalog(object):
             self._r = None
             self._w = None
             self._wpos = None
+            self._flag = None
             self._k = None
             self._z1 = None
             self._z2 = None
-- 
2.43.0


From 120445c28ecaa746fee0fbb5e27cabf6146302fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 31/53] fix: combine a single patch with a selection of rows in
 a file

When the patch had no objects in these rows, or was all of the file, reading it
failed with an unrelated error.
---
 treecorr/catalog.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index c2f85d0..eb6faad 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2105,9 +2105,8 @@ class Catalog(object):
                 self.select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif not isinstance(use, slice):
+                    s = s.start + s.step * use
                 self._patch = None
                 data = {}  # Start fresh, since the ones we used so far are done.
 
-- 
2.43.0


From 1a699512f00cbb7125cd247aed264bef32df5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 32/53] fix: return the K-Means centers also if the catalog is
 not yet loaded

---
 treecorr/catalog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index eb6faad..ad536b2 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2653,6 +2653,10 @@ class Catalog(object):
             spherical geometries.  In the latter case, the centers represent
             (x,y,z) coordinates on the unit sphere.
         """
+        # If using K-Means, the centers are not known until the data are loaded.
+        if self._centers is None and self._computed_centers is None:
+            self.load()
+
         # Early exit
         if self._centers is not None:
             return self._centers
@@ -2661,7 +2665,6 @@ class Catalog(object):
         # and the centers we find from the data by averaging the position in each patch
         # (self._computed_centers).  There are times that we only want the former.
         if self._computed_centers is None:
-            self.load()
             if self._patch is None:
                 if self.coords == 'flat':
                     centers = np.array([[self._weighted_mean(self.x),
-- 
2.43.0


From 231a1c02e7a02aba48863911103856bb3bcd9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 33/53] fix: use the variances given for a catalog also for its
 patches

---
 treecorr/catalog.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index ad536b2..cf9c5a0 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2915,6 +2915,8 @@ class Catalog(object):
         if self._q2 is not None or self.config.get('q2_col','0') != '0':
             kwargs['q2_col'] = 'q2'
 
+        kwargs.update(self._given_variances)
+
         file_names = self.get_patch_file_names(save_patch_dir)
         self._patches = []
         # Check that the files exist, although we won't actually load them yet.
@@ -2925,6 +2927,12 @@ class Catalog(object):
                          for i, name in enumerate(file_names)]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
+    @property
+    def _given_variances(self):
+        # The values of vark, etc. given by the user, which apply to the patches too.
+        return {key: self.config[key] for key in ('vark','varz','varv','varg','vart','varq')
+                if self.config.get(key,None) is not None}
+
     def get_patches(self, *, low_mem=False):
         """Return a list of Catalog instances each representing a single patch from this Catalog
 
@@ -2999,6 +3007,7 @@ class Catalog(object):
                 q2=self.q2[indx] if self.q2 is not None else None
                 check_wpos = self._wpos if self._wpos is not None else self._w
                 kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+                kwargs.update(self._given_variances)
                 if self.ra is not None:
                     kwargs['ra_units'] = 'rad'
                     kwargs['dec_units'] = 'rad'
-- 
2.43.0


From 8bf416977e66ce8ffebf895d15015b9c58a22021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 34/53] fix: use the same entries of list-valued options for
 the patches read from a file

---
 treecorr/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index cf9c5a0..3efd852 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2974,6 +2974,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-- 
2.43.0


From 831174c12f94e7382cf3661d34821827710664b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 35/53] fix: select objects equally close to two patch centers
 for only one of the patches

---
 src/KMeans.cpp | 67 ++++++--------------------------------------------
 1 file changed, 8 insertions(+), 59 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..c0b6982 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -943,68 +943,17 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& xp, py::array_t<double>& yp,
                  py::array_t<double>& zp, py::array_t<long>& usep)
 {
-    long n = xp.size();
-    Assert(yp.size() == n);
-    Assert(zp.size() == n || zp.size() == 0);
-    Assert(usep.size() == n);
     Assert(patch < npatch);
 
-    const double* centers = static_cast<const double*>(cenp.data());
-    const double* x = static_cast<const double*>(xp.data());
-    const double* y = static_cast<const double*>(yp.data());
-    long* use = static_cast<long*>(usep.mutable_data());
-
-    // Notation: p = the good patch we are looking for
-    //           q = other patches
-    //           if p is the closest, then use = 1, else use = 0.
+    // Do exactly what QuickAssign does, so points that are equally close to more than one
+    // center are selected for one and only one patch.
+    QuickAssign(cenp, npatch, xp, yp, zp, usep);
 
-    if (zp.size() > 0) {
-        // 3d version
-        Assert(cenp.size() == npatch * 3);
-        double px = centers[3*patch];
-        double py = centers[3*patch+1];
-        double pz = centers[3*patch+2];
-        const double* z = static_cast<const double*>(zp.data());
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py) + SQR(z[i]-pz);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[3*q];
-                double qy = centers[3*q+1];
-                double qz = centers[3*q+2];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    } else {
-        // 2d version
-        Assert(cenp.size() == npatch * 2);
-        double px = centers[2*patch];
-        double py = centers[2*patch+1];
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[2*q];
-                double qy = centers[2*q+1];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
+    // If patch is the closest, then use = 1, else use = 0.
+    long n = usep.size();
+    long* use = static_cast<long*>(usep.mutable_data());
+    for (long i=0; i<n; ++i) {
+        use[i] = use[i] == patch;
     }
 }
 
-- 
2.43.0


From 350edec0235143c6043580f37b9b132c572e186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 36/53] fix: leave out the patches without objects when reading
 the patches from a file

---
 treecorr/catalog.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3efd852..e2d967f 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2933,6 +2933,15 @@ class Catalog(object):
         return {key: self.config[key] for key in ('vark','varz','varv','varg','vart','varq')
                 if self.config.get(key,None) is not None}
 
+    def _get_nonempty_patches(self):
+        # Find which patches have any objects without triggering a load of this catalog.
+        # (All the columns matter here, since objects with any NaN values are dropped.)
+        cat = self
+        if not self.loaded:
+            cat = Catalog(self.file_name, self.config, num=self._num, is_rand=self._is_rand,
+                          npatch=self.npatch, patch_centers=self._centers)
+        return sorted(set(cat.patch))
+
     def get_patches(self, *, low_mem=False):
         """Return a list of Catalog instances each representing a single patch from this Catalog
 
@@ -2969,7 +2978,7 @@ class Catalog(object):
             # This is a litle tricky, since we don't want to trigger a load if the catalog
             # isn't loaded yet.  So try to get the patches from centers or single_patch first.
             if self._centers is not None:
-                patch_set = range(len(self._centers))
+                patch_set = self._get_nonempty_patches()
             else:
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
-- 
2.43.0


From a725d61ea0756301a13587fb634c3a9c907853b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 37/53] fix: raise an error rather than crash for a catalog
 with no objects

---
 treecorr/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6f414d7..772ab7b 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -92,6 +92,9 @@ class Field(object):
         raise NotImplementedError("Field is an abstract base class.  It cannot be instantiated.")
 
     def _determine_top(self, min_top, max_top):
+        if self.ntot == 0:
+            # The C++ layer cannot build a tree with no objects.
+            raise ValueError("Cannot build a field for a catalog with no objects")
         if min_top is None:
             n_cpu = get_omp_threads()
             # int.bit_length is a trick to avoid going through float.
-- 
2.43.0


From 4513ad65ada97f14bd10ace7659d142bbaf0f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 38/53] fix: do not leave a catalog partially loaded when
 reading it fails

---
 treecorr/catalog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e2d967f..d0aa93f 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2758,8 +2758,13 @@ class Catalog(object):
         """
         if not self.loaded:
             self.logger.info("Reading input file %s",self.name)
-            self._read_file(self.file_name, self.reader, self._num, self._is_rand)
-            self._finish_input()
+            try:
+                self._read_file(self.file_name, self.reader, self._num, self._is_rand)
+                self._finish_input()
+            except BaseException:
+                # Don't leave this only partially loaded.
+                self.unload()
+                raise
 
     def unload(self):
         """Bring the Catalog back to an "unloaded" state, if possible.
-- 
2.43.0


From b7f2b23328ba039e7d590e1b96b05547e2c65b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 39/53] fix: assign objects with NaN positions to only one of
 the patches

---
 treecorr/catalog.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index d0aa93f..f65e463 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1541,17 +1541,20 @@ class Catalog(object):
             # This is straightforward.  Just select the rows with patch == single_patch
             use = np.where(self._patch == single_patch)[0]
         elif self._centers is not None:
-            self._generate_xyz()
-            use = np.empty(self.ntot, dtype=int)
-            npatch = self._centers.shape[0]
+            # Any NaNs will become 0 (with w=0) in _finish_input.  So use 0 for the position here.
+            # But leave them as NaN in self for now, so we can still tell which ones they are.
+            pos = [np.where(np.isnan(a), 0., a) if a is not None else None
+                   for a in (self._x, self._y, self._z, self._ra, self._dec, self._r)]
+            x, y, z = pos[:3] if pos[0] is not None else self._make_xyz(*pos[3:])
+            use = np.empty(len(x), dtype=int)
             centers = np.ascontiguousarray(self._centers)
-            if self._z is None:
+            if z is None:
                 assert centers.shape[1] == 2
             else:
                 assert centers.shape[1] == 3
             set_omp_threads(self.config.get('num_threads',None))
-            zx = self._z if self._z is not None else np.array([])
-            _treecorr.SelectPatch(single_patch, centers, self.npatch, self._x, self._y, zx, use)
+            zx = z if z is not None else np.array([])
+            _treecorr.SelectPatch(single_patch, centers, self.npatch, x, y, zx, use)
             use = np.where(use)[0]
         else:
             use = slice(None)  # Which ironically means use all. :)
@@ -1575,15 +1578,19 @@ class Catalog(object):
             assert self._z is None
             assert self._ra is not None
             assert self._dec is not None
-            ntot = len(self._ra)
-            self._x = np.empty(ntot, dtype=float)
-            self._y = np.empty(ntot, dtype=float)
-            self._z = np.empty(ntot, dtype=float)
-            set_omp_threads(self.config.get('num_threads',None))
-            rx = self._r if self._r is not None else np.array([])
-            _treecorr.GenerateXYZ(self._x, self._y, self._z, self._ra, self._dec, rx)
+            self._x, self._y, self._z = self._make_xyz(self._ra, self._dec, self._r)
             self.x_units = self.y_units = 1.
 
+    def _make_xyz(self, ra, dec, r):
+        ntot = len(ra)
+        x = np.empty(ntot, dtype=float)
+        y = np.empty(ntot, dtype=float)
+        z = np.empty(ntot, dtype=float)
+        set_omp_threads(self.config.get('num_threads',None))
+        rx = r if r is not None else np.array([])
+        _treecorr.GenerateXYZ(x, y, z, ra, dec, rx)
+        return x, y, z
+
     def _select_patch(self, single_patch):
         # Trim the catalog to only include a single patch
         # Note: This is slightly inefficient in that it reads the whole catalog first
-- 
2.43.0


From f26ec573ad50c27bc49c58f5f48cbc8ca0bc3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 40/53] fix: read a single value of a text catalog

---
 treecorr/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index a1a0995..fb6ef11 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -121,7 +121,7 @@ class AsciiReader(object):
 
         # If only one column, then the shape comes in as one-d.  Reshape it:
         if len(icols) == 1:
-            data = data.reshape(len(data),1)
+            data = data.reshape(-1,1)
 
         # If only one row, then the shape comes in as one-d.  Reshape it:
         if len(data.shape) == 1:
-- 
2.43.0


From 3036c80e191afbbcad7a55ff2d833fd4a4feec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 41/53] fix: let several processes make the same output
 directory

---
 treecorr/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/writer.py b/treecorr/writer.py
index 2661cfb..a904b27 100644
--- a/treecorr/writer.py
+++ b/treecorr/writer.py
@@ -49,8 +49,8 @@ def store(file_name, data):
 def ensure_dir(target):
     d = os.path.dirname(target)
     if d != '':
-        if not os.path.exists(d):
-            os.makedirs(d)
+        # Note: Some other process might be making the same directory.
+        os.makedirs(d, exist_ok=True)
 
 class AsciiWriter(object):
     """Write data to an ASCII (text) file.
-- 
2.43.0


From af1d6a01b35b39b5339177d56dff8388385030ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 42/53] fix: name patch files by their patch number and never
 remove them before writing

---
 treecorr/catalog.py | 116 +++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f65e463..f2b88d8 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2847,18 +2847,25 @@ class Catalog(object):
         if save_patch_dir is None:
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
 
+        patches = self._patches
+        if patches is None:
+            # Don't use get_patches here, since that might read the existing files.
+            patches = self._patches = self._make_patches()
         file_names = self.get_patch_file_names(save_patch_dir)
-        # This next bit looks gratuitous, but without it, it's possible for self.patches to
-        # end up reading the existing files rather than build the patches and overwrite them.
-        for file_name in file_names:
-            if os.path.exists(file_name):
-                os.remove(file_name)
-        for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
-            self.logger.info('Writing patch %d to %s',i,file_name)
-            if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
-                p.ra_units = p.dec_units = 1
-            p.write(file_name)
+        for p in patches:
+            # Note: Any patch without any objects is not in this list.
+            i = p._single_patch if p._single_patch is not None else 0
+            self.logger.info('Writing patch %d to %s',i,file_names[i])
+            # Don't multiply and divide by the units on round trip.
+            unit_names = ('ra_units', 'dec_units') if p.ra is not None else ('x_units', 'y_units')
+            units = [getattr(p, name) for name in unit_names]
+            try:
+                for name in unit_names:
+                    setattr(p, name, 1)
+                p.write(file_names[i])
+            finally:
+                for name, unit in zip(unit_names, units):
+                    setattr(p, name, unit)
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
@@ -2954,6 +2961,52 @@ class Catalog(object):
                           npatch=self.npatch, patch_centers=self._centers)
         return sorted(set(cat.patch))
 
+    def _make_patches(self):
+        # Build the patches from the data in this catalog.
+        if self.npatch == 1 or self._single_patch is not None:
+            return [self]
+        patch_set = sorted(set(self.patch))
+        if len(patch_set) != self.npatch:
+            self.logger.error("WARNING: Some patch numbers do not contain any objects!")
+            missing = set(range(self.npatch)) - set(patch_set)
+            self.logger.warning("The following patch numbers have no objects: %s",missing)
+            self.logger.warning("This may be a problem depending on your use case.")
+        patches = []
+        for i in patch_set:
+            indx = np.where(self.patch == i)[0]
+            x=self.x[indx] if self.x is not None else None
+            y=self.y[indx] if self.y is not None else None
+            z=self.z[indx] if self.z is not None else None
+            ra=self.ra[indx] if self.ra is not None else None
+            dec=self.dec[indx] if self.dec is not None else None
+            r=self.r[indx] if self.r is not None else None
+            w=self.w[indx] if self.nontrivial_w else None
+            wpos=self.wpos[indx] if self.wpos is not None else None
+            k=self.k[indx] if self.k is not None else None
+            z1=self.z1[indx] if self.z1 is not None else None
+            z2=self.z2[indx] if self.z2 is not None else None
+            v1=self.v1[indx] if self.v1 is not None else None
+            v2=self.v2[indx] if self.v2 is not None else None
+            g1=self.g1[indx] if self.g1 is not None else None
+            g2=self.g2[indx] if self.g2 is not None else None
+            t1=self.t1[indx] if self.t1 is not None else None
+            t2=self.t2[indx] if self.t2 is not None else None
+            q1=self.q1[indx] if self.q1 is not None else None
+            q2=self.q2[indx] if self.q2 is not None else None
+            check_wpos = self._wpos if self._wpos is not None else self._w
+            kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+            kwargs.update(self._given_variances)
+            if self.ra is not None:
+                kwargs['ra_units'] = 'rad'
+                kwargs['dec_units'] = 'rad'
+                kwargs['allow_xyz'] = True
+            p = Catalog(x=x, y=y, z=z, ra=ra, dec=dec, r=r, w=w, wpos=wpos,
+                        k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
+                        t1=t1, t2=t2, q1=q1, q2=q2,
+                        patch=i, npatch=self.npatch, **kwargs)
+            patches.append(p)
+        return patches
+
     def get_patches(self, *, low_mem=False):
         """Return a list of Catalog instances each representing a single patch from this Catalog
 
@@ -2999,46 +3052,7 @@ class Catalog(object):
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-            patch_set = sorted(set(self.patch))
-            if len(patch_set) != self.npatch:
-                self.logger.error("WARNING: Some patch numbers do not contain any objects!")
-                missing = set(range(self.npatch)) - set(patch_set)
-                self.logger.warning("The following patch numbers have no objects: %s",missing)
-                self.logger.warning("This may be a problem depending on your use case.")
-            self._patches = []
-            for i in patch_set:
-                indx = np.where(self.patch == i)[0]
-                x=self.x[indx] if self.x is not None else None
-                y=self.y[indx] if self.y is not None else None
-                z=self.z[indx] if self.z is not None else None
-                ra=self.ra[indx] if self.ra is not None else None
-                dec=self.dec[indx] if self.dec is not None else None
-                r=self.r[indx] if self.r is not None else None
-                w=self.w[indx] if self.nontrivial_w else None
-                wpos=self.wpos[indx] if self.wpos is not None else None
-                k=self.k[indx] if self.k is not None else None
-                z1=self.z1[indx] if self.z1 is not None else None
-                z2=self.z2[indx] if self.z2 is not None else None
-                v1=self.v1[indx] if self.v1 is not None else None
-                v2=self.v2[indx] if self.v2 is not None else None
-                g1=self.g1[indx] if self.g1 is not None else None
-                g2=self.g2[indx] if self.g2 is not None else None
-                t1=self.t1[indx] if self.t1 is not None else None
-                t2=self.t2[indx] if self.t2 is not None else None
-                q1=self.q1[indx] if self.q1 is not None else None
-                q2=self.q2[indx] if self.q2 is not None else None
-                check_wpos = self._wpos if self._wpos is not None else self._w
-                kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
-                kwargs.update(self._given_variances)
-                if self.ra is not None:
-                    kwargs['ra_units'] = 'rad'
-                    kwargs['dec_units'] = 'rad'
-                    kwargs['allow_xyz'] = True
-                p = Catalog(x=x, y=y, z=z, ra=ra, dec=dec, r=r, w=w, wpos=wpos,
-                            k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
-                            t1=t1, t2=t2, q1=q1, q2=q2,
-                            patch=i, npatch=self.npatch, **kwargs)
-                self._patches.append(p)
+            self._patches = self._make_patches()
 
         # Write the patches to files if requested.
         if self.save_patch_dir is not None:
-- 
2.43.0


From 267cd56159bcb3c5d7a24a0125c595e4ab8bf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 43/53] fix: read patch files with the columns they have and
 the given keep_zero_weight

---
 treecorr/catalog.py | 85 +++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f2b88d8..d3ae652 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2890,61 +2890,46 @@ class Catalog(object):
         if save_patch_dir is None:
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
 
-        # Need to be careful here to not trigger a load by accident.
-        # This would be easier if we just checked e.g. if self.ra is not None, etc.
-        # But that would trigger an unnecessary load if we aren't loaded yet.
-        # So do all this with the underscore attributes.
+        file_names = self.get_patch_file_names(save_patch_dir)
+        # Be careful here to not trigger a load by accident.  If we aren't loaded yet, we don't
+        # know whether any of the patches are empty.
+        if self._single_patch is not None:
+            patch_set = [self._single_patch]
+        elif self._patch is not None:
+            patch_set = sorted(set(self._patch))
+        else:
+            patch_set = range(self.npatch)
+        # Check that the files exist, although we won't actually load them yet.
+        for i in patch_set:
+            if not os.path.isfile(file_names[i]):
+                raise OSError("Patch file %s not found"%file_names[i])
+        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
+                                 **self._get_patch_file_kwargs(file_names[i]))
+                         for i in patch_set]
+        self.logger.info('Patches created from files %s .. %s',
+                         self._patches[0].file_name, self._patches[-1].file_name)
+
+    def _get_patch_file_kwargs(self, file_name):
+        # The kwargs to use for reading a file that was written by write_patches.
         kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
-            kwargs['ra_col'] = 'ra'
-            kwargs['dec_col'] = 'dec'
+        # The columns may not be the same for all patches (e.g. if only some of them need w).
+        # And they aren't always clear from self.config.  (e.g. x_eval, lists, skipped columns)
+        with make_reader(file_name, logger=self.logger) as reader:
+            names = reader.names()
+        if 'ra' in names:
+            pos_cols = ['ra', 'dec', 'r']
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
-                kwargs['r_col'] = 'r'
         else:
-            kwargs['x_col'] = 'x'
-            kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
-                kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
-            kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
-            kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
-            kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
-            kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
-            kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
-            kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
-            kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
-            kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
-            kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
-            kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
-            kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
-            kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
-            kwargs['q2_col'] = 'q2'
-
+            pos_cols = ['x', 'y', 'z']
+        for col in pos_cols + ['w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2',
+                               'q1', 'q2']:
+            if col in names:
+                kwargs[col + '_col'] = col
+        # The zero-weight objects are only in the file if we want to keep them.
+        kwargs['keep_zero_weight'] = get(self.config,'keep_zero_weight',bool,False)
         kwargs.update(self._given_variances)
-
-        file_names = self.get_patch_file_names(save_patch_dir)
-        self._patches = []
-        # Check that the files exist, although we won't actually load them yet.
-        for i, file_name in zip(range(self.npatch), file_names):
-            if not os.path.isfile(file_name):
-                raise OSError("Patch file %s not found"%file_name)
-        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
-                         for i, name in enumerate(file_names)]
-        self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
+        return kwargs
 
     @property
     def _given_variances(self):
-- 
2.43.0


From 0be46aa918dac9f34bb8a858a96c0dc4ca41995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 44/53] fix: read back the patches that were written when some
 are empty

---
 treecorr/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index d3ae652..9bc3efb 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2854,7 +2854,7 @@ class Catalog(object):
         file_names = self.get_patch_file_names(save_patch_dir)
         for p in patches:
             # Note: Any patch without any objects is not in this list.
-            i = p._single_patch if p._single_patch is not None else 0
+            i = p._single_patch or 0
             self.logger.info('Writing patch %d to %s',i,file_names[i])
             # Don't multiply and divide by the units on round trip.
             unit_names = ('ra_units', 'dec_units') if p.ra is not None else ('x_units', 'y_units')
@@ -2893,7 +2893,9 @@ class Catalog(object):
         file_names = self.get_patch_file_names(save_patch_dir)
         # Be careful here to not trigger a load by accident.  If we aren't loaded yet, we don't
         # know whether any of the patches are empty.
-        if self._single_patch is not None:
+        if self._patches is not None:
+            patch_set = [p._single_patch or 0 for p in self._patches]
+        elif self._single_patch is not None:
             patch_set = [self._single_patch]
         elif self._patch is not None:
             patch_set = sorted(set(self._patch))
-- 
2.43.0


From d3ea0f7da3221e011cb91a15f5d78fcadf614c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 45/53] fix: allow flip options for catalogs without these
 columns

With e.g. flip_g1 = true, corr2 and corr3 failed with a TypeError when
random catalogs were given, since their shears are not read.
---
 treecorr/catalog.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9bc3efb..4a1f3d9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1307,46 +1307,46 @@ class Catalog(object):
         # Apply flips if requested
         flip_z1 = get_from_list(self.config,'flip_z1',self._num,bool,False)
         flip_z2 = get_from_list(self.config,'flip_z2',self._num,bool,False)
-        if flip_z1:
+        if flip_z1 and self._z1 is not None:
             self.logger.info("   Flipping sign of z1.")
             self._z1 = -self._z1
-        if flip_z2:
+        if flip_z2 and self._z2 is not None:
             self.logger.info("   Flipping sign of z2.")
             self._z2 = -self._z2
 
         flip_v1 = get_from_list(self.config,'flip_v1',self._num,bool,False)
         flip_v2 = get_from_list(self.config,'flip_v2',self._num,bool,False)
-        if flip_v1:
+        if flip_v1 and self._v1 is not None:
             self.logger.info("   Flipping sign of v1.")
             self._v1 = -self._v1
-        if flip_v2:
+        if flip_v2 and self._v2 is not None:
             self.logger.info("   Flipping sign of v2.")
             self._v2 = -self._v2
 
         flip_g1 = get_from_list(self.config,'flip_g1',self._num,bool,False)
         flip_g2 = get_from_list(self.config,'flip_g2',self._num,bool,False)
-        if flip_g1:
+        if flip_g1 and self._g1 is not None:
             self.logger.info("   Flipping sign of g1.")
             self._g1 = -self._g1
-        if flip_g2:
+        if flip_g2 and self._g2 is not None:
             self.logger.info("   Flipping sign of g2.")
             self._g2 = -self._g2
 
         flip_t1 = get_from_list(self.config,'flip_t1',self._num,bool,False)
         flip_t2 = get_from_list(self.config,'flip_t2',self._num,bool,False)
-        if flip_t1:
+        if flip_t1 and self._t1 is not None:
             self.logger.info("   Flipping sign of t1.")
             self._t1 = -self._t1
-        if flip_t2:
+        if flip_t2 and self._t2 is not None:
             self.logger.info("   Flipping sign of t2.")
             self._t2 = -self._t2
 
         flip_q1 = get_from_list(self.config,'flip_q1',self._num,bool,False)
         flip_q2 = get_from_list(self.config,'flip_q2',self._num,bool,False)
-        if flip_q1:
+        if flip_q1 and self._q1 is not None:
             self.logger.info("   Flipping sign of q1.")
             self._q1 = -self._q1
-        if flip_q2:
+        if flip_q2 and self._q2 is not None:
             self.logger.info("   Flipping sign of q2.")
             self._q2 = -self._q2
 
-- 
2.43.0


From 80d7c27380122caecc9b309d9db5b85431193536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 46/53] fix: keep a field usable after its tree could not be
 built

If there was not enough memory to set up the top-level cells, the pointers to
the data that had already been taken over were lost, and the next use of the
(cached) field crashed.
---
 src/Field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index afc5c71..fb362cd 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -44,7 +44,7 @@ double SetupTopLevelCells(
     if (end-start == 1) {
         xdbg<<"Only 1 CellData entry: size = 0\n";
         ave = static_cast<CellData<D,C>*>(celldata[start].first);
-        celldata[start].first = 0; // Make sure the calling function doesn't delete this!
+        // Note: the calling function must make sure not to delete this!
         sizesq = 0.;
     } else {
         ave = new CellData<D,C>(celldata, start, end);
@@ -259,6 +259,11 @@ void Field<D,C>::DoBuildCells() const
     // Now build the lower cells in parallel
     dbg<<"Field has "<<n<<" top-level nodes.  Building lower nodes...\n";
     this->_cells.resize(n);
+    // The top-level cells with only one object take over its CellData, so don't delete these.
+    // Wait to do this until nothing can fail anymore in case this is run again after a bad_alloc.
+    for (ptrdiff_t i=0;i<n;++i) {
+        if (top_end[i] - top_start[i] == 1) this->_celldata[top_start[i]].first = 0;
+    }
     // Note: For Random, the random numbers need to be drawn in a definite order, so don't use
     // multiple threads in that case.
 #ifdef _OPENMP
-- 
2.43.0


From e9cbe804d58de4c9b17cc1b8f719403f5038c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 47/53] fix: clear the variance used for the results of patches

When a correlation object was processed again, the results of the pairs of
patches got variances from the previous time.
---
 treecorr/corr2base.py | 1 +
 treecorr/corr3base.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d912dd4..69300f9 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -709,6 +709,7 @@ class Corr2(object):
         """Clear all data vectors, the results dict, and any related values.
         """
         self._clear()
+        self._var_num = 0
         self.results = {}
         self.npatch1 = self.npatch2 = 1
         self._processed_cats1 = []
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index e502966..e4fb887 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1102,6 +1102,7 @@ class Corr3(object):
         """Clear all data vectors, the results dict, and any related values.
         """
         self._clear()
+        self._var_num = 0
         self.results = {}
         self.npatch1 = self.npatch2 = self.npatch3 = 1
         self._processed_cats1 = []
-- 
2.43.0


From 4a7d56a9c9971100ae9acfcc0f05dc1d5937fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 48/53] fix: keep the field cache usable when clearing it is
 interrupted

---
 treecorr/util.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..610d123 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -193,17 +193,21 @@ class LRU_Cache(object):
                               # recently used items first.
     """
     def __init__(self, user_function, maxsize=1024):
-        # Link layout:     [PREV, NEXT, KEY, RESULT]
-        self.root = [None, None, None, None]
         self.user_function = user_function
-        self.cache = {}
+        self.root, self.cache = self._make_links(maxsize)
+        self.count = 0
 
-        last = self.root
+    @staticmethod
+    def _make_links(maxsize):
+        # Link layout:     [PREV, NEXT, KEY, RESULT]
+        root = [None, None, None, None]
+        cache = {}
+        last = root[1] = root
         for i in range(maxsize):
             key = object()
-            self.cache[key] = last[1] = last = [last, self.root, key, None]
-        self.root[0] = last
-        self.count = 0
+            cache[key] = last[1] = last = [last, root, key, None]
+        root[0] = last
+        return root, cache
 
     def __call__(self, *key, **kwargs):
         link = self.cache.get(key)
@@ -256,13 +260,13 @@ class LRU_Cache(object):
             if maxsize < 0:
                 raise ValueError("Invalid maxsize")
             elif maxsize < oldsize:
+                self.count = min(self.count, maxsize)
                 for i in range(oldsize - maxsize):
                     # Delete root.next
                     current_next_link = self.root[1]
                     new_next_link = self.root[1] = self.root[1][1]
                     new_next_link[0] = self.root
                     del self.cache[current_next_link[2]]
-                self.count = min(self.count, maxsize)
             else: # maxsize > oldsize:
                 for i in range(maxsize - oldsize):
                     # Insert between root and root.next
@@ -274,15 +278,12 @@ class LRU_Cache(object):
     def clear(self):
         """ Clear all items from the cache.
         """
-        maxsize = len(self.cache)
-        self.cache.clear()
-        last = self.root
-        for i in range(maxsize):
-            last[3] = None  # Sever pointer to any existing result.
-            key = object()
-            self.cache[key] = last[1] = last = [last, self.root, key, None]
-        self.root[0] = last
-        self.count = 0
+        # Make the new links first, so the cache is usable even if this is interrupted.
+        old_cache = self.cache
+        root, cache = self._make_links(len(old_cache))
+        self.root, self.cache, self.count = root, cache, 0
+        for link in old_cache.values():
+            link[3] = None  # Sever pointer to any existing result.
 
     @property
     def size(self):
-- 
2.43.0


From c3a09815cccec421b594d80bdb982e4280ddc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:20 +0000
Subject: [PATCH 49/53] fix: keep the infinite cell size of brute force with
 OldRperp

---
 include/Metric.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index c24a004..59fab6e 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -297,11 +297,13 @@ struct MetricHelper<OldRperp, P>
         // We also take the conservative approach of only increasing s for the closer point, not
         // decreasing it for the farther one.
 
+        // Note: The size is infinite for brute force calculations.  Don't change it then.  (But don't
+        // test for infinity directly, since that test may be optimized away by -ffast-math.)
         if (r1sq < r2sq) {
-            if (s1 != 0. && s1 < std::numeric_limits<double>::infinity())
+            if (s1 != 0. && s1 < std::numeric_limits<double>::max())
                 s1 *= (1. + 0.25 * (r2sq-r1sq)/r1sq);
         } else {
-            if (s2 != 0. && s2 < std::numeric_limits<double>::infinity())
+            if (s2 != 0. && s2 < std::numeric_limits<double>::max())
                 s2 *= (1. + 0.25 * (r1sq-r2sq)/r2sq);
         }
 
-- 
2.43.0


From fe3d277f1754d629a05c7d4c9e55819875c60313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 50/53] fix: write the same columns to patch files however the
 patches were made

---
 treecorr/catalog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4a1f3d9..9f05623 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2859,11 +2859,16 @@ class Catalog(object):
             # Don't multiply and divide by the units on round trip.
             unit_names = ('ra_units', 'dec_units') if p.ra is not None else ('x_units', 'y_units')
             units = [getattr(p, name) for name in unit_names]
+            # Which columns are written shouldn't depend on how the patches were made, so that
+            # another process may safely replace a file.  So don't write w if they are all 1.
+            nontrivial_w = p.nontrivial_w
             try:
                 for name in unit_names:
                     setattr(p, name, 1)
+                p._nontrivial_w = nontrivial_w and bool(np.any(p.w != 1))
                 p.write(file_names[i])
             finally:
+                p._nontrivial_w = nontrivial_w
                 for name, unit in zip(unit_names, units):
                     setattr(p, name, unit)
 
-- 
2.43.0


From 4deba35aa42e6eab7405898feaec9ff12c61ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 51/53] fix: count the objects of a catalog whose loading was
 interrupted

If loading stopped after the weights had been looked at, nobj came out as 1 from then on.
---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9f05623..dd5e42b 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1255,7 +1255,7 @@ class Catalog(object):
     def nobj(self):
         if self._nobj is None:
             if self.nontrivial_w:
-                use = self._w != 0
+                use = self.w != 0
                 self._nobj = np.sum(use)
             else:
                 self._nobj = self.ntot
-- 
2.43.0


From 7f72faa0759d51e9e36f55700d3dd9db1577477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 52/53] fix: use the given rng for the patches of a catalog too

A catalog made with rng passed it on to its own fields, but not to those of
its patches (however they are made), nor to combinations of them.  So with
split_method='random' and patches, the results were not reproducible.
---
 treecorr/catalog.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index dd5e42b..eb4b28d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1476,7 +1476,7 @@ class Catalog(object):
         loaded = cat.loaded
         cat.load()
         check_wpos = cat._wpos if cat._wpos is not None else cat._w
-        kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+        kwargs = dict(keep_zero_weight=np.any(check_wpos==0), rng=cat._rng)
         if cat.ra is not None:
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
@@ -2910,8 +2910,11 @@ class Catalog(object):
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
                 raise OSError("Patch file %s not found"%file_names[i])
+        # The patches may be used before this is loaded, so they get their own copy of the rng.
+        # Then they don't change which patches are found here using kmeans.
+        rng = copy.deepcopy(self._rng)
         self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
-                                 **self._get_patch_file_kwargs(file_names[i]))
+                                 rng=rng, **self._get_patch_file_kwargs(file_names[i]))
                          for i in patch_set]
         self.logger.info('Patches created from files %s .. %s',
                          self._patches[0].file_name, self._patches[-1].file_name)
@@ -2986,7 +2989,7 @@ class Catalog(object):
             q1=self.q1[indx] if self.q1 is not None else None
             q2=self.q2[indx] if self.q2 is not None else None
             check_wpos = self._wpos if self._wpos is not None else self._w
-            kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+            kwargs = dict(keep_zero_weight=np.any(check_wpos==0), rng=self._rng)
             kwargs.update(self._given_variances)
             if self.ra is not None:
                 kwargs['ra_units'] = 'rad'
@@ -3041,7 +3044,8 @@ class Catalog(object):
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
                                      num=self._num, is_rand=self._is_rand,
-                                     patch=i, npatch=self.npatch, patch_centers=self._centers)
+                                     patch=i, npatch=self.npatch, patch_centers=self._centers,
+                                     rng=self._rng)
                              for i in patch_set]
         else:
             self._patches = self._make_patches()
-- 
2.43.0


From 7293a82d339dd26957f8d4e82707b960bece7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 53/53] fix: resize the caches of a catalog also before any
 field was made

resize_cache only resized the caches that were in use already.  E.g.
resize_cache(0) for a new Catalog did not turn off the caching.
---
 treecorr/catalog.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index eb4b28d..fdf1248 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2334,13 +2334,13 @@ class Catalog(object):
         Parameters:
             maxsize (float):    The new maximum number of fields of each type to cache.
         """
-        if hasattr(self, '_nfields'): self.nfields.resize(maxsize)
-        if hasattr(self, '_kfields'): self.kfields.resize(maxsize)
-        if hasattr(self, '_zfields'): self.zfields.resize(maxsize)
-        if hasattr(self, '_vfields'): self.vfields.resize(maxsize)
-        if hasattr(self, '_gfields'): self.gfields.resize(maxsize)
-        if hasattr(self, '_tfields'): self.tfields.resize(maxsize)
-        if hasattr(self, '_qfields'): self.qfields.resize(maxsize)
+        self.nfields.resize(maxsize)
+        self.kfields.resize(maxsize)
+        self.zfields.resize(maxsize)
+        self.vfields.resize(maxsize)
+        self.gfields.resize(maxsize)
+        self.tfields.resize(maxsize)
+        self.qfields.resize(maxsize)
 
     def clear_cache(self):
         """Clear all field caches.
-- 
2.43.0

