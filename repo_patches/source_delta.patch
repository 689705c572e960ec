From c7dcc273db5ec532c9045f50221e13c58a1ccc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:52 +0000
Subject: [PATCH 01/56] fix: LCMMax.transform with max_length raises KeyError
 when nothing is frequent

---
 skmine/itemsets/lcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..5782c04 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -365,8 +365,8 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
-            patterns = patterns[length_mask]
+            length_mask = [len(x) <= self.max_length_ for x in patterns["itemset"]]
+            patterns = patterns.loc[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
         # return a list of itemset sorted or not
-- 
2.43.0


From 25ecf0b3979339cb1f5bd8f984909e478bcec9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 02/56] fix: SLIM.transform and SlimClassifier.predict keep
 per-call options on the estimator, so concurrent readers mix them up

---
 skmine/itemsets/slim.py            | 25 +++++++++----------------
 skmine/itemsets/slim_classifier.py |  4 ++--
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..37eec2c 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -523,35 +523,28 @@ class SLIM(BaseEstimator, TransformerMixin):
         """
 
         check_is_fitted(self, "is_fitted_")
-        self.drop_null_usage_ = drop_null_usage
-        self.singletons_ = singletons
-        self.lexicographic_order_ = lexicographic_order
-        self.return_tids_ = return_tids
-        self.out_ = out
-        self.return_dl_ = return_dl
-
         itemsets = []
         itids = []
         iusages = []
         for iset, tids in self.codetable_.items():
-            if len(tids) >= self.drop_null_usage_ and len(iset) > (not self.singletons_):
-                itemsets.append(sorted(iset)) if self.lexicographic_order_ else itemsets.append(list(iset))
-                itids.append(tids) if self.return_tids_ else []
+            if len(tids) >= drop_null_usage and len(iset) > (not singletons):
+                itemsets.append(sorted(iset)) if lexicographic_order else itemsets.append(list(iset))
+                itids.append(tids) if return_tids else []
                 iusages.append(len(tids))
 
-        if self.out_ is not None:
-            with open(self.out_, 'w') as f:
+        if out is not None:
+            with open(out, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
                     line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
-                    if self.return_tids_:
+                    if return_tids:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
             return None
         else:
             df = pd.DataFrame(data={'itemset': itemsets,
-                                    ('tids' if self.return_tids_ else 'usage'): (
-                                        itids if self.return_tids_ else iusages)})
-            if self.return_dl_:
+                                    ('tids' if return_tids else 'usage'): (
+                                        itids if return_tids else iusages)})
+            if return_dl:
                 print("data_size :", self.data_size_)
                 print("model_size :", self.model_size_)
                 print("total_size :", self.data_size_ + self.model_size_)
diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..938453c 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,9 +89,9 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
 
-        return self.classes_[self.models_scores.argmax(axis=1)]
+        return self.classes_[models_scores.argmax(axis=1)]
 
     def __copy__(self):
         return SlimClassifier(items=self.items, pruning=self.pruning)
-- 
2.43.0


From 992a1ba7a3314f2a0b74d365796a79b02147da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 03/56] fix: SLIM.transform(out=...) fails on items that are
 not strings

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 37eec2c..49ec173 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -535,7 +535,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if out is not None:
             with open(out, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if return_tids:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From a1bc33a65dd1e23227d5685f901edbd3df3b1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 04/56] fix: SLIMVectorizer cannot be fitted with stop_items
 and its cover/get_code_length/decision_function raise

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 skmine/itemsets/slim.py                      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 49ec173..39c9883 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -230,7 +230,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         """
 
         mat = self.cover(D)
-        code_lengths = self.transform(D, singletons=True, return_tids=False, drop_null_usage=False)
+        code_lengths = SLIM.transform(self, D, singletons=True, return_tids=False, drop_null_usage=False)
         # the codetable is Laplace corrected: the usage of each itemset is increased by 1 in order that all seen
         # items have a code
         code_lengths["usage"] += 1
@@ -464,7 +464,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         else:  # transactional
             D_sct = _to_vertical(D)
 
-        isets = self.transform(D, singletons=True, return_tids=False, drop_null_usage=False)
+        isets = SLIM.transform(self, D, singletons=True, return_tids=False, drop_null_usage=False)
         isets = [tuple(itemset) for itemset in isets[isets["itemset"].map(set(D_sct).issuperset)]["itemset"].to_list()]
         covers = cover(D_sct, isets)
 
-- 
2.43.0


From 25b334fcd97cedc01983842cf3cccd694d8578c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 05/56] fix: SLIM.evaluate of an itemset that is already in the
 codetable loses its coverage

---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 39c9883..0a68879 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From 32ec132a8b24c7f18382c94be15e7b37b2d47a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 06/56] fix: SLIM's standard cover order depends on set
 iteration order, hence on the process's hash seed

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 0a68879..4c1ef97 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -603,7 +603,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         so that many itemsets can be sorted in Standard Cover Order :
         |X|↓ supp_D(X) ↓ lexicographically ↑
         """
-        return -len(itemset), -len(self.get_support(*itemset)), tuple(itemset)
+        return -len(itemset), -len(self.get_support(*itemset)), tuple(sorted(itemset))
 
     def prefit(self, D, y=None):  # -> self
         """
-- 
2.43.0


From f07588dc1ae5b18aab770b91a5dd1fda5ab00d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 07/56] fix: SLIM.get_support answers from an earlier fit's
 data after a refit

---
 skmine/itemsets/slim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4c1ef97..e48ca9c 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -648,6 +648,8 @@ class SLIM(BaseEstimator, TransformerMixin):
             series_to_add = pd.Series([Bitmap() for item in not_in_sct], index=not_in_sct, dtype=object)
             self.standard_codetable_ = pd.concat([self.standard_codetable_, series_to_add])
 
+        self.get_support.cache_clear()  # supports cached from an earlier fit are stale
+
         # Convert Standard Codetable pandas.Series in list of (frozenset({.}), Bitmap({...}),...)
         ct_it = ((frozenset([e]), tids) for e, tids in self.standard_codetable_.items())
 
-- 
2.43.0


From b4341ef64fcc7f2d655f1b0016797a8f96865b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 08/56] fix: a fitted SLIM cannot be pickled and restored, nor
 deep-copied

---
 skmine/itemsets/slim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index e48ca9c..ab86151 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -775,5 +775,17 @@ class SLIM(BaseEstimator, TransformerMixin):
 
         return CTc, data_size, model_size
 
+    def __getstate__(self):
+        # the sort key of the codetable is bound to self, which is not restored yet when the codetable would be rebuilt
+        state = dict(super().__getstate__())
+        if "codetable_" in state:
+            state["codetable_"] = dict(state["codetable_"])
+        return state
+
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        if "codetable_" in state:
+            self.codetable_ = SortedDict(self._standard_cover_order, state["codetable_"])
+
     def __copy__(self):
         return SLIM(items=self.items, pruning=self.pruning)
-- 
2.43.0


From 556120be2d1e106337056fbf2b8e909a0df40d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:38 +0000
Subject: [PATCH 09/56] fix: LCM.transform(out=...) deletes ./TEMP_dir, shares
 it between concurrent calls and leaves it behind on failure

---
 skmine/itemsets/lcm.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 5782c04..655541d 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -12,7 +12,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 # License: BSD 3 clause
 
 import os
-import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -164,7 +164,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary directory, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -199,14 +199,13 @@ class LCM(TransformerMixin, BaseEstimator):
         self.lexicographic_order_ = lexicographic_order
         self.return_tids_ = return_tids
         self.max_length_ = max_length  # maximum length of an itemset,  -1 by default
-        self.out_ = out
 
         check_is_fitted(self, 'n_features_in_')
         n_features_in_ = D.shape[-1] if not isinstance(D, list) else len(D[-1])  # nb items
         if n_features_in_ != self.n_features_in_:  # TODO : significant for one-hot D ,not for list of itemset
             raise ValueError('Shape of input is different from what was seen in `fit`')
 
-        if self.out_ is None:  # store results in memory
+        if out is None:  # store results in memory
             dfs = Parallel(n_jobs=self.n_jobs, prefer="processes")(
                 delayed(self._explore_root)(item, tids, root_file=None)
                 for item, tids in list(self.item_to_tids_.items()))
@@ -218,24 +217,18 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
-
-            Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-                for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
-
-            with open(self.out_,
-                      'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
-                for fname in [f"{temp_dir}/root{k}.dat" for k in
-                              range(len(list(self.item_to_tids_.items())))]:  # all items root files
-                    with open(fname) as infile:
-                        for line in infile:
-                            if line.strip():  # to skip empty lines
-                                outfile.write(line)
-            shutil.rmtree(temp_dir)  # remove the temporary dir where root files are written
+            with tempfile.TemporaryDirectory() as temp_dir:  # where root items branch files are written
+                Parallel(n_jobs=self.n_jobs, prefer="processes")(
+                    delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
+                    for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
+
+                with open(out, 'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
+                    for fname in [f"{temp_dir}/root{k}.dat" for k in
+                                  range(len(list(self.item_to_tids_.items())))]:  # all items root files
+                        with open(fname) as infile:
+                            for line in infile:
+                                if line.strip():  # to skip empty lines
+                                    outfile.write(line)
 
             return None
 
-- 
2.43.0


From b4f037fd2da1d57c2cf71cf2eb1a3b884ff46474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:38 +0000
Subject: [PATCH 10/56] fix: SLIM.reconstruct drops empty transactions at the
 end of the data

---
 skmine/itemsets/slim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index ab86151..30f3299 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -572,9 +572,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         pd.Series
             original database containing a list of transactions
         """
-        n_transactions = (max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values()))) + 1)
-
-        D = pd.Series([set()] * n_transactions)
+        D = pd.Series([set()] * self._n_transactions)
         for itemset, tids in self.codetable_.items():
             D.iloc[list(tids)] = D.iloc[list(tids)].map(itemset.union)
         return D.map(sorted)
@@ -626,9 +624,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             if y is not None:
                 D = supervised_to_unsupervised(D, y)  # SKLEARN_COMPAT
             item_to_tids = {k: Bitmap(np.where(D[k])[0]) for k in D.columns}
+            self._n_transactions = len(D)
         else:
             # compute tids for each item in Bitmap
-            item_to_tids = _to_vertical(D)
+            item_to_tids, self._n_transactions = _to_vertical(D, return_len=True)
 
         sct = pd.Series(item_to_tids)  # sct for "standard code table"
         # The usage of an itemset X ∈ CT (Code Table) is the number of transactions t ∈ D which have X in their cover.
-- 
2.43.0


From 29b34df6c9f2174aa87473961f8806dcdbb1589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 11/56] fix: tabular input checks switch pandas' global
 use_inf_as_na option on and leave it on when they raise

---
 skmine/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..fe84b7a 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,8 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
+    if D.isnull().values.any() or D.isin([np.inf, -np.inf]).values.any():
         raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
 
 
 def _check_D(D):
-- 
2.43.0


From 2c7c9dbc39433d0eedd1ff709487cad64f1795ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:11 +0000
Subject: [PATCH 12/56] fix: MDLPDiscretizer.transform applies cut points by
 position when a data frame's columns come in another order

---
 skmine/preprocessing/mdlp_discretizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..689ce1a 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -240,11 +240,14 @@ class MDLPDiscretizer(BaseMiner):
 
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
-        _X = X.values if isinstance(X, pd.DataFrame) else X
+        if isinstance(X, pd.DataFrame):
+            _X, all_cut_points = X.values, [self.cut_points_[column] for column in X.columns]
+        else:
+            _X, all_cut_points = X, list(self.cut_points_.values())
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
             delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            for idx, cut_points in enumerate(all_cut_points)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From 664bc00888de85b59127830f1f9e30c6ae65d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:11 +0000
Subject: [PATCH 13/56] fix: MBDLLBorder.fit raises IndexError when the first
 collection has no frequent itemset

---
 skmine/emerging/mbdldorber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..dcdc017 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,6 +39,8 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
+    if not S:  # nothing to differentiate from
+        return [set()], U
     L2 = [{x} for x in U - S[0]]
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
-- 
2.43.0


From 013bb799ac5866d77b19559de263583f83a29cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:11 +0000
Subject: [PATCH 14/56] fix: make_classification shuffles with numpy's global
 generator whatever random_state is

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..b564df4 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -175,6 +175,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 3044637ea7a60c5a8ecdbb6ec2f8999f9c0506a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:11 +0000
Subject: [PATCH 15/56] fix: a callback that raises TypeError is run twice, and
 one-element results are unpacked

---
 skmine/callbacks.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..6f37649 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -2,7 +2,8 @@
 Callback API for scikit-mine
 """
 import re
-from inspect import signature, getsource
+from collections.abc import Iterable, Iterator
+from inspect import Parameter, signature, getsource
 
 
 def has_self_assigment(f):
@@ -30,6 +31,24 @@ def _get_params(fn):
     return params
 
 
+def _takes_separately(callback, res):
+    """check if the values in res should be passed to the callback one by one, rather than as a single argument"""
+    if not isinstance(res, Iterable) or isinstance(res, Iterator):
+        return False
+    try:
+        sig = signature(callback)
+    except ValueError:  # no signature available
+        return isinstance(res, tuple)
+    kinds = [p.kind for p in sig.parameters.values()]
+    if len(kinds) == 1 and kinds[0] != Parameter.VAR_POSITIONAL:
+        return False
+    try:
+        sig.bind(*res)
+    except TypeError:
+        return False
+    return True
+
+
 def post(self, func_name, callback):
     """decorator, call callback on returned values, after main function"""
     func = getattr(self, func_name)
@@ -40,13 +59,11 @@ def post(self, func_name, callback):
         res = func(*args, **kwargs)
         if "self" in callback_params:
             _w = (res,) if len(callback_params) == 2 else res
-            args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
+            callback(self, *(_w if len(callback_params) > 1 else tuple()))
+        elif _takes_separately(callback, res):
+            callback(*res)
         else:
-            args_ = res
-        try:
-            callback(*args_)
-        except TypeError:
-            callback(args_)  # list.extend
+            callback(res)  # list.extend
         return res
 
     return _
-- 
2.43.0


From 184648cda52408f24949449d0b3338117a15cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:29 +0000
Subject: [PATCH 16/56] fix: callbacks with keyword-only options get
 one-element results unpacked

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 6f37649..e2bbb5d 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -39,7 +39,7 @@ def _takes_separately(callback, res):
         sig = signature(callback)
     except ValueError:  # no signature available
         return isinstance(res, tuple)
-    kinds = [p.kind for p in sig.parameters.values()]
+    kinds = [p.kind for p in sig.parameters.values() if p.kind not in (Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD)]
     if len(kinds) == 1 and kinds[0] != Parameter.VAR_POSITIONAL:
         return False
     try:
-- 
2.43.0


From 7a0a50f27a692fc58682be2c183883f09fcc05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:49 +0000
Subject: [PATCH 17/56] fix: PeriodicPatternMiner.fit raises TypeError when
 different events share a timestamp

---
 skmine/periodic/cycles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..6b9dec7 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -123,11 +123,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            serie = serie.groupby(by=serie.index, group_keys=True).apply(lambda x: x.drop_duplicates())
+            # the result has a MultiIndex, names =[timestamp, timestamp]
+            serie = serie.reset_index(level=0, drop=True)
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From 3bf8396d0d04e1bf3347f8d9717b20f997f76407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 18/56] fix: PeriodicPatternMiner.fit fails or mines nonsense
 when the log is not in chronological order

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6b9dec7..37a1f46 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -119,7 +119,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-        serie = S.copy(deep=True)
+        serie = S.sort_index(kind="stable")  # mining needs the occurrences in chronological order
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-- 
2.43.0


From 1de2692e6113661f5935fa74b42e2d98c28752b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 19/56] fix: PeriodicPatternMiner takes the times of datetime
 indexes in other units for nano-seconds

---
 skmine/periodic/cycles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 37a1f46..0a1dfc0 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -130,7 +130,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
-        S_times_nano = serie.index.astype("int64")
+        if self.is_datetime_:  # datetime indexes may have other units than nano-second
+            S_times_nano = pd.Index(serie.index.values.astype("datetime64[ns]").astype("int64"))
+        else:
+            S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From 3e7369f3924024ca53c6331e3bcd6ab23bb81e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 20/56] fix: PeriodicPatternMiner.reconstruct and get_residuals
 raise KeyError when there is no pattern or no residual

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 0a1dfc0..78a991d 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -349,7 +349,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -405,7 +405,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From ed70326342a5c8302f4ef2210592b6d84477c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 21/56] fix: PeriodicPatternMiner.transform and get_residuals
 raise with auto_time_scale=False

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 78a991d..cedbbc4 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -145,6 +145,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
@@ -407,7 +408,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From a1c40ca6c49ddfebab4b6583fb93105b86362421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 22/56] fix: PeriodicPatternMiner.get_residuals(ids) loses and
 repeats occurrences of the other patterns

---
 skmine/periodic/cycles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index cedbbc4..6a9a31b 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -415,7 +415,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        selected = set(zip(reconstruct_["time"], reconstruct_["event"]))
+        in_selected = [occ in selected for occ in zip(reconstruct_all["time"], reconstruct_all["event"])]
+        complementary_reconstruct = reconstruct_all[~np.array(in_selected, dtype=bool)]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From 411c4aed469b580e7bc62c234d3935f0aff58461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:58 +0000
Subject: [PATCH 23/56] fix: PeriodicPatternMiner.transform gives the
 corrections of integer logs in the internal time scale

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6a9a31b..a9d0f08 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -215,11 +215,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            self.cycles["E"] = self.cycles["E"].apply(lambda E: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in E])
 
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
-- 
2.43.0


From 26b52064eeafeb16806a44c098a55bd77186d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:35 +0000
Subject: [PATCH 24/56] fix: PeriodicPatternMiner keeps the pattern table of an
 earlier fit for draw_pattern and export_patterns

---
 skmine/periodic/cycles.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index a9d0f08..9d27288 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -161,6 +161,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.data_details_ = data_details
         self.miners_ = pc
+        self.cycles = None  # computed by transform
         # self.cl, self.clRonly, self.clR, self.nb_simple, self.nbR, self.nbC = self.miners_.strDetailed(
         #     self.data_details_)
         return self
@@ -209,31 +210,33 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = None
             return pd.DataFrame()  # FIXME
 
-        self.cycles = pd.DataFrame(patterns_list_of_dict)
+        cycles = pd.DataFrame(patterns_list_of_dict)
 
         if self.auto_time_scale:  # restore time in nano-second
-            self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
-            self.cycles["E"] = self.cycles["E"].apply(lambda E: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in E])
+            cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            cycles["E"] = cycles["E"].apply(lambda E: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in E])
 
             if self.is_datetime_:
-                self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
-                self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
+                cycles.loc[:, "t0"] = cycles.t0.astype("datetime64[ns]")
+                cycles.loc[:, "period_major"] = cycles.period_major.astype("timedelta64[ns]")
 
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
-                self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
+                cycles["E"] = cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
         if dE_sum:
-            self.cycles.rename(columns={"E": "sum_E"}, inplace=True)
-            self.cycles["sum_E"] = self.cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)))
+            cycles.rename(columns={"E": "sum_E"}, inplace=True)
+            cycles["sum_E"] = cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)))
 
         if chronological_order:
-            self.cycles.sort_values(by='t0', inplace=True)
+            cycles.sort_values(by='t0', inplace=True)
 
+        self.cycles = cycles
         dropped_col_for_output = ["pattern_json_tree"]
 
-        return self.cycles.drop(columns=dropped_col_for_output, axis=1)
+        return cycles.drop(columns=dropped_col_for_output, axis=1)
 
     def export_patterns(self, file="patterns.json"):
         """Export pattern into a json file
-- 
2.43.0


From 35bbb23a5035748602380d47555e85625a16e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:35 +0000
Subject: [PATCH 25/56] fix: export_patterns loses pattern ids and event types,
 and fails without patterns or after an import

---
 skmine/periodic/cycles.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 9d27288..8fc6df3 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -250,11 +250,13 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         dummy_var = 17
         self.transform(dummy_var)
 
-        big_dict_list = [i for i in self.cycles["pattern_json_tree"].values]
+        # in the order of the pattern ids, the importing miner then gives them the same ids
+        big_dict_list = [] if self.cycles is None else list(self.cycles["pattern_json_tree"].sort_index())
 
-        data_dict = self.alpha_groups_.copy()
-        for k, v in data_dict.items():
-            data_dict[k] = v.to_list()
+        data_dict = {ev: [int(t) for t in self.data_details_.getSequence(num)]
+                     for num, ev in self.data_details_.getNumToEv().items()}
+        if not all(isinstance(ev, str) for ev in data_dict):  # the keys of a JSON object can only be strings
+            data_dict = [[ev.item() if isinstance(ev, np.generic) else ev, times] for ev, times in data_dict.items()]
 
         big_dict = {
             "is_datetime_": self.is_datetime_,
-- 
2.43.0


From 6dc7f192da66f04e210c5970461107c83547f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:35 +0000
Subject: [PATCH 26/56] fix: a failing import_patterns leaves a mixture of two
 models, a successful one keeps leftovers of the old one

---
 skmine/periodic/cycles.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 8fc6df3..e7b84b9 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -282,14 +282,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         with open(file, "r") as f:
             big_dict = json.load(f)
 
-        self.n_zeros_ = big_dict["n_zeros_"]
-        self.div_nb_sec_ = big_dict["div_nb_sec_"]
-        self.is_datetime_ = big_dict["is_datetime_"]
-        self.data_details_ = DataSequence(dict(big_dict["data_details"]))
-        big_dict_list = big_dict["patterns"]
+        n_zeros, div_nb_sec, is_datetime = big_dict["n_zeros_"], big_dict["div_nb_sec_"], big_dict["is_datetime_"]
+        data_dict = dict(big_dict["data_details"])
+        data_details = DataSequence(data_dict)
 
         patterns_list = []
-        for pseudo_pat in big_dict_list:
+        for pseudo_pat in big_dict["patterns"]:
             pattern = Pattern()
             pattern.next_id = pseudo_pat.pop("next_id")
             t0 = pseudo_pat.pop("t0")
@@ -297,8 +295,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             pattern.nodes = _iterdict_str_to_int_keys(pseudo_pat)
             patterns_list.append((pattern, t0, E))
 
-        patterns_collection = PatternCollection(patterns=patterns_list)
-        self.miners_ = patterns_collection
+        # the whole file could be read: replace the current model at once
+        self.n_zeros_, self.div_nb_sec_, self.is_datetime_ = n_zeros, div_nb_sec, is_datetime
+        self.alpha_groups_ = {ev: pd.Index(times) for ev, times in data_dict.items()}
+        self.data_details_ = data_details
+        self.miners_ = PatternCollection(patterns=patterns_list)
+        self.cycles = None
 
     def reconstruct(self, *patterns_id, sort="time", drop_duplicates=None):
         """Reconstruct all the occurrences from patterns (no argument), or the
-- 
2.43.0


From 262185ebe382ea0fc8c4ed2499e7354ba7b87244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:47 +0000
Subject: [PATCH 27/56] fix: GraphMDL.fit raises TypeError or never ends when
 candidates have already been tested

The search stopped only when the very last candidate was tested for the first
time and made the description strictly longer; when it had been tested before
(or gave an equal length) the same candidates were generated for ever, and
meeting any tested candidate called the logger object.
---
 skmine/graph/graphmdl/graph_mdl.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..0315ce3 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -113,6 +113,7 @@ class GraphMDL(BaseMiner):
                 current = time.time() - begin
                 if self._stop_by_time(current, self._timeout):
                     break
+            improved = False
             if len(candidates) != 0:
                 b = time.time()
                 for candidate in candidates:
@@ -121,6 +122,7 @@ class GraphMDL(BaseMiner):
                         if self._timeout is not None:
                             current = time.time() - begin
                             if self._stop_by_time(current, self._timeout):
+                                stop = True
                                 break
                         self._compute_old_usage()
                         row = CodeTableRow(candidate.final_pattern())
@@ -131,6 +133,7 @@ class GraphMDL(BaseMiner):
                         # if the new ct is better than the old, break and generate new candidates
                         # with the new ct
                         if temp_code_length < self._description_length:
+                            improved = True
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
                             utils.MyLogger.info("New DL ", self._description_length)
@@ -139,24 +142,15 @@ class GraphMDL(BaseMiner):
                             self._compute_pruning_candidates()
                             self._pruning()
                             break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
-                            break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
-            else:
+                        utils.MyLogger.debug("Already test")
+            if not improved and not stop:
+                # every candidate has been tested and none of them is worth adding
+                utils.MyLogger.info("None best code table found")
                 stop = self._graph_mdl_end()
-                if self._timeout is not None:
-                    current = self._timeout
         return self
 
     def _stop_by_time(self, passed_time, timeout):
-- 
2.43.0


From 2641299c65c692b60a3890841ee45372c56fb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:48 +0000
Subject: [PATCH 28/56] fix: GraphMDL logs every accepted pattern as a logging
 error when INFO is enabled

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 0315ce3..9f97c6a 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -136,7 +136,7 @@ class GraphMDL(BaseMiner):
                             improved = True
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
-                            utils.MyLogger.info("New DL ", self._description_length)
+                            utils.MyLogger.info(f"New DL {self._description_length}")
                             utils.MyLogger.info(f"new pattern added: {utils.display_graph(row.pattern())}")
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
-- 
2.43.0


From 7e8f3ba6d35cecebcbb9806b26803eb3c9ac8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:16 +0000
Subject: [PATCH 29/56] fix: GraphMDL pruning raises ValueError on rows already
 pruned and continues on a stale cover

Rows could be listed twice, or be left over from an earlier fit, and the list
was modified while being iterated and pruned again recursively; after putting a
row back the usages used for the next decision were those without it.
---
 skmine/graph/graphmdl/graph_mdl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 9f97c6a..452baeb 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -52,6 +52,7 @@ class GraphMDL(BaseMiner):
             the initial code table (CT0), and run a cover computation to create the first rewritten graph.
         """
         self._already_test = []
+        self._pruning_rows = []
         self._label_codes = LabelCodes(self._data)  # label codes creation
         # CT0 creation
         self._code_table = CodeTable(self._label_codes, self._data)
@@ -218,7 +219,7 @@ class GraphMDL(BaseMiner):
             it's the step before the code table pruning
         """
         for r in self._code_table.rows():
-            if r.pattern() in self._old_usage.keys():
+            if r.pattern() in self._old_usage.keys() and r not in self._pruning_rows:
                 if r.pattern_usage() < self._old_usage[r.pattern()]:
                     self._pruning_rows.append(r)
 
@@ -230,19 +231,19 @@ class GraphMDL(BaseMiner):
             because without them the code table is better.
         """
         utils.MyLogger.info(f"Pruning start ....")
-        self._compute_old_usage()  # compute old pattern usage
-        self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        while self._pruning_rows:
+            self._compute_old_usage()  # compute old pattern usage
+            self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
+            r = self._pruning_rows.pop(0)
             self._code_table.remove_row(r)
             self._code_table.cover()
             if self._code_table.compute_total_description_length() < self._description_length:
                 self._rewritten_graph = self._code_table.rewritten_graph()
                 self._description_length = self._code_table.compute_total_description_length()
-                self._pruning_rows.remove(r)
                 self._compute_pruning_candidates()  # recompute the pruning candidates
-                self._pruning()
             else:
                 self._code_table.add_row(r)
+                self._code_table.cover()
 
         utils.MyLogger.info("Pruning end ....")
 
-- 
2.43.0


From b001953150656eb0064dd2e00db9f9c81e59d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:43 +0000
Subject: [PATCH 30/56] fix: GraphMDL.fit raises TypeError when a candidate
 gathers three labels on a vertex

Merged labels came out as a list, which everything else takes for one
(unhashable) label: several labels on a vertex are a tuple.
---
 skmine/graph/graphmdl/candidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..4dc083e 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -142,7 +142,7 @@ class Candidate:
         second_label
         Returns
         -------
-        list
+        str or tuple
         """
         if type(second_label) is str:
             if type(first_label) is str:
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From fb224b60ebf1cf172716101961e95e6d29507a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:47 +0000
Subject: [PATCH 31/56] fix: GraphMDL.fit without timeout stops at the timeout
 of an earlier fit

---
 skmine/graph/graphmdl/graph_mdl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 452baeb..2278f74 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -79,8 +79,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout != 0 else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 65602489f271fa1f133a4cb016cba7ee7ce4d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:52 +0000
Subject: [PATCH 32/56] fix: GraphMDL.fit leaves cover marks and ports in the
 caller's graph

Besides changing the caller's data, the marks are shared by all models fitted
on one graph, so that concurrent fits take each other's cover for their own.
---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 2278f74..f4fd3cd 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -83,7 +83,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = D.copy()  # covering marks the graph
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From e5a19c94c2ef6648183f4b8873803be2a5d987d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:58 +0000
Subject: [PATCH 33/56] fix: GraphMDL's used embeddings pile up over all covers
 and miss single-labelled vertices

---
 skmine/graph/graphmdl/code_table.py     | 2 ++
 skmine/graph/graphmdl/code_table_row.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..92d4df3 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -762,6 +762,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.reset_used_embeddings()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
@@ -840,6 +841,7 @@ class CodeTable:
                         vertex_singleton_usage[node[1]['label']] += 1
                         self.mark_node(node[0], graph, cover_marker, node[1]['label'])
                         graph.nodes[node[0]]['port'] = True  # mark as port
+                        singleton_used_embeddings[node[1]['label']].append(({node[0]: 1}, [node[0], 1]))
                         # create the singleton embedding in the rewritten graph
                         self.create_vertex_singleton_node(rewritten_graph, node[1]['label'], node[0])
 
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..70f6b55 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -96,6 +96,9 @@ class CodeTableRow:
     def add_used_embeddings(self, embedding):
         self._used_embeddings.append(embedding)
 
+    def reset_used_embeddings(self):
+        self._used_embeddings = []
+
     def used_embeddings(self):
         return self._used_embeddings
 
-- 
2.43.0


From b902ccb97682f2cfd289dac9a76f72c4d939b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:03 +0000
Subject: [PATCH 34/56] fix: GraphMDL.patterns leaves out a pattern that alone
 covers the whole graph

Its code length is zero because it is the only one in use, not because it is unused.
---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f4fd3cd..85bbf14 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -257,7 +257,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From 39acc27b58e9eb75767ba0c9138329e048ab395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:58 +0000
Subject: [PATCH 35/56] fix: get_data_home raises FileExistsError when two
 processes create the folder at once

---
 skmine/datasets/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/datasets/_base.py b/skmine/datasets/_base.py
index d756731..c085b4e 100644
--- a/skmine/datasets/_base.py
+++ b/skmine/datasets/_base.py
@@ -28,6 +28,5 @@ def get_data_home(data_home=None):
     if data_home is None:
         data_home = os.environ.get("SCIKIT_MINE_DATA", os.path.join(sk_root, "scikit_mine_data"))
     data_home = os.path.expanduser(data_home)
-    if not os.path.exists(data_home):
-        os.makedirs(data_home)
+    os.makedirs(data_home, exist_ok=True)
     return data_home
-- 
2.43.0


From bbd3d7162ecff9c1449ec27cc2cd4e711c5a103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:04 +0000
Subject: [PATCH 36/56] fix: an interrupted fetch_health_app or
 fetch_canadian_tv leaves a truncated dataset in the cache

The next call found the file and returned what had been written of it.
---
 skmine/datasets/_base.py    | 13 +++++++++++++
 skmine/datasets/periodic.py |  6 +++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/_base.py b/skmine/datasets/_base.py
index c085b4e..03d31cb 100644
--- a/skmine/datasets/_base.py
+++ b/skmine/datasets/_base.py
@@ -3,6 +3,7 @@ Base IO code for all datasets
 """
 
 import os
+import tempfile
 
 
 def get_data_home(data_home=None):
@@ -30,3 +31,15 @@ def get_data_home(data_home=None):
     data_home = os.path.expanduser(data_home)
     os.makedirs(data_home, exist_ok=True)
     return data_home
+
+
+def save_csv(s, path, **kwargs):
+    """Store a Series as a csv file that other calls may take for a complete dataset as soon as it exists.
+
+    The file is written in a temporary folder first, so that a failure or a crash never leaves a part of it at ``path``.
+    """
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(path)) as folder:
+        tmp = os.path.join(folder, os.path.basename(path))
+        s.to_csv(tmp, **kwargs)
+        if os.path.exists(tmp):
+            os.replace(tmp, path)
diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..6d053bd 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -7,7 +7,7 @@ from datetime import datetime, timedelta
 
 import pandas as pd
 
-from skmine.datasets._base import get_data_home
+from skmine.datasets._base import get_data_home, save_csv
 
 UBIQ_url = "https://archive.ics.uci.edu/ml/machine-learning-databases/00369/UbiqLog4UCI.zip"
 health_app_url = "https://raw.githubusercontent.com/logpai/loghub/master/HealthApp/HealthApp_2k.log"
@@ -90,7 +90,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
         s = pd.read_csv(health_app_url, sep="|", on_bad_lines='skip', usecols=[0, 1], **kwargs).squeeze(axis="columns")
-        s.to_csv(p, header=False)
+        save_csv(s, p, header=False)
     s.index.name = "timestamp"
     s.index = pd.to_datetime(s.index, format="%Y%m%d-%H:%M:%S:%f")
 
@@ -145,7 +145,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
-        s.to_csv(p, index=True, header=False)
+        save_csv(s, p, index=True, header=False)
     else:
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
 
-- 
2.43.0


From 46f95f0d71493e3f58372cc639b67395d3a614cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:03 +0000
Subject: [PATCH 37/56] fix: fetch_ubiq changes the working directory, ignores
 failed commands and never recovers from them

A failed download or a crash left the UbiqLog folder behind, whose existence was
taken for a complete dataset by every later call.
---
 skmine/datasets/periodic.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 6d053bd..55f9388 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -3,6 +3,8 @@ Base IO for all periodic datasets
 """
 import os
 import re
+import shlex
+import tempfile
 from datetime import datetime, timedelta
 
 import pandas as pd
@@ -190,17 +192,24 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     data_home = data_home or get_data_home()
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
-    if not os.path.exists(ubiq_dir):
+    if not os.path.exists(user_ubiq_dir):
         os.makedirs(ubiq_dir, exist_ok=True)
-        os.chdir(ubiq_dir)
-
-        infile = "all_log_applications_nonbin.txt"
-        os.system("wget " + UBIQ_url)
-        os.system("unzip UbiqLog4UCI.zip")
-        os.system("rm __MACOSX -rf")
-        os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
-        os.makedirs(user_ubiq_dir)
-        parse_all_user(infile, user_ubiq_dir, min_occ=10)
+        # the user files are moved to their place when all of them are complete
+        with tempfile.TemporaryDirectory(dir=ubiq_dir) as work_dir:
+            infile = "all_log_applications_nonbin.txt"
+            for command in ("wget " + UBIQ_url,
+                            "unzip UbiqLog4UCI.zip || [ $? -eq 1 ]",  # 1: complete, with warnings
+                            'grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile):
+                if os.system("cd {} && {}".format(shlex.quote(work_dir), command)) != 0:
+                    raise OSError("could not fetch the UbiqLog dataset, this command failed: " + command)
+            new_user_dir = os.path.join(work_dir, 'users_ubiq')
+            os.makedirs(new_user_dir)
+            parse_all_user(os.path.join(work_dir, infile), new_user_dir, min_occ=10)
+            try:
+                os.rename(new_user_dir, user_ubiq_dir)
+            except OSError:
+                if not os.path.exists(user_ubiq_dir):  # else another call has just completed it
+                    raise
 
     filename = os.path.join(user_ubiq_dir, user_filename)
     if not os.path.exists(filename):
-- 
2.43.0


From 71ff03850ffe56b8f2be099892041c8ae16501d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:29 +0000
Subject: [PATCH 38/56] fix: a fetch that fails while moving its download
 leaves a truncated file that later fetches take for the dataset

---
 skmine/datasets/fimi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 2e4b5b5..7603414 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -4,6 +4,7 @@ All datasets are available here : `http://fimi.uantwerpen.be/data/`
 """
 import gzip
 import os
+import tempfile
 
 import pandas as pd
 import wget
@@ -109,8 +110,12 @@ def fetch_any(filename, base_url=BASE_URL_FIMI, data_home=None):
         it = _read_dat(filepath, zip=True) if base_url == BASE_URL_CGI else _read_dat(filepath)
     else:  # not fetched yet
         url = base_url + filename
-        wget.download(url, filepath)
-        it = _read_dat(filepath, zip=True) if base_url == BASE_URL_CGI else _read_dat(filepath)
+        # the file is moved to its place when it is complete, so that no other call ever reads a part of it
+        with tempfile.TemporaryDirectory(dir=data_home) as folder:
+            tmp = os.path.join(folder, filename)
+            wget.download(url, tmp)
+            it = _read_dat(tmp, zip=True) if base_url == BASE_URL_CGI else _read_dat(tmp)
+            os.replace(tmp, filepath)
 
     s = pd.Series(it, name=name)
     return s
-- 
2.43.0


From 9cba766e56ec0efe2fafbf803f94dd502d9685ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:16 +0000
Subject: [PATCH 39/56] fix: GraphMDL.discover raises AttributeError when
 patterns were found

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index 70f6b55..68487c8 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -179,7 +179,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From 0d35e676dbdb8da663f225f59f9ca9441c301604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:49 +0000
Subject: [PATCH 40/56] fix: a fitted GraphMDL cannot be pickled

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 92d4df3..6847da5 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -808,7 +808,7 @@ class CodeTable:
         """
         edge_singleton_usage = defaultdict(int)
         vertex_singleton_usage = defaultdict(int)
-        singleton_used_embeddings = defaultdict(lambda: [])
+        singleton_used_embeddings = defaultdict(list)
         # for edge label
         for edge in graph.edges(data=True):
             if not self.is_edge_marked(edge[0], edge[1], graph, cover_marker, edge[2]['label']):
-- 
2.43.0


From 527c543d7085f5379dc0897c566f0fc20e80cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:38 +0000
Subject: [PATCH 41/56] fix: concurrent PeriodicPatternMiner.fit calls leave
 pandas' chained_assignment option switched off

---
 skmine/periodic/cycles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index e7b84b9..abdd757 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -123,9 +123,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-            serie = serie.groupby(by=serie.index, group_keys=True).apply(lambda x: x.drop_duplicates())
-            # the result has a MultiIndex, names =[timestamp, timestamp]
-            serie = serie.reset_index(level=0, drop=True)
+            # groupby().apply() is avoided: it toggles a global option of pandas, which is left changed when two threads do
+            repeated = pd.DataFrame({"time": serie.index, "event": serie.values}).duplicated()
+            serie = serie[~repeated.values]
             diff = len_S - len(serie)
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
-- 
2.43.0


From bea6c45d1179e63ce67cd45038afd35aaf1ea195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:20 +0000
Subject: [PATCH 42/56] fix: fetch_any takes an empty response for a compressed
 dataset and caches it

---
 skmine/datasets/fimi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 7603414..100ddf4 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -36,6 +36,8 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
     """
     try:
         if zip:
+            if os.path.getsize(filepath) == 0:  # gzip would read it as an empty dataset
+                raise EOFError(f"{filepath} ended before the compressed data")
             with gzip.open(filepath, 'rt') as f:
                 lines = f.read().splitlines()
         else:
-- 
2.43.0


From 2700e935e5cf02a149bad96caa13a46715fe6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:29 +0000
Subject: [PATCH 43/56] fix: LCMMax.transform ignores options given by position

---
 skmine/itemsets/lcm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 655541d..b90277f 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -348,10 +348,9 @@ class LCMMax(LCM, TransformerMixin):
                 else:
                     yield itemset, len(tids), tids
 
-    def transform(self, X=None, *args, **kwargs):
-        outfile = kwargs.get('out')
-        kwargs['out'] = None
-        patterns = super().transform(X, **kwargs)
+    def transform(self, X=None, return_tids=False, lexicographic_order=True, max_length=-1, out=None):
+        patterns = super().transform(X, return_tids=return_tids, lexicographic_order=lexicographic_order,
+                                     max_length=max_length)
         # keep only maximal itemsets
         maximals = filter_maximal(patterns["itemset"])
         patterns = patterns[patterns.itemset.isin(maximals)].copy()
@@ -366,8 +365,8 @@ class LCMMax(LCM, TransformerMixin):
         patterns.loc[:, "itemset"] = patterns["itemset"].map(
             lambda i: sorted(list(i)) if self.lexicographic_order_ else list(i))
 
-        if outfile:
-            self.write_df_tofile(outfile, patterns)
+        if out:
+            self.write_df_tofile(out, patterns)
             return None
         else:
             return patterns
-- 
2.43.0


From 02dbddbca7343df171da84321095fafac79c552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:35 +0000
Subject: [PATCH 44/56] fix: LCM.transform keeps per-call options on the
 estimator, so concurrent callers mix them up

---
 skmine/itemsets/lcm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index b90277f..dfb8339 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -11,6 +11,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 #
 # License: BSD 3 clause
 
+import copy
 import os
 import tempfile
 from collections import defaultdict
@@ -199,6 +200,8 @@ class LCM(TransformerMixin, BaseEstimator):
         self.lexicographic_order_ = lexicographic_order
         self.return_tids_ = return_tids
         self.max_length_ = max_length  # maximum length of an itemset,  -1 by default
+        miner = copy.copy(self)  # this call's own options: other threads may call transform with other ones
+        miner.lexicographic_order_, miner.return_tids_, miner.max_length_ = lexicographic_order, return_tids, max_length
 
         check_is_fitted(self, 'n_features_in_')
         n_features_in_ = D.shape[-1] if not isinstance(D, list) else len(D[-1])  # nb items
@@ -207,10 +210,10 @@ class LCM(TransformerMixin, BaseEstimator):
 
         if out is None:  # store results in memory
             dfs = Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                delayed(self._explore_root)(item, tids, root_file=None)
+                delayed(miner._explore_root)(item, tids, root_file=None)
                 for item, tids in list(self.item_to_tids_.items()))
             # dfs is a list of dataframe    # make sure we have something to concat
-            columns = ["itemset", "support"] if not self.return_tids_ else ["itemset", "support", "tids"]
+            columns = ["itemset", "support"] if not return_tids else ["itemset", "support", "tids"]
             df = pd.concat([pd.DataFrame(columns=columns)] + dfs, axis=0, ignore_index=True)
             df["support"] = pd.to_numeric(df["support"])
 
@@ -219,7 +222,7 @@ class LCM(TransformerMixin, BaseEstimator):
         else:  # store results in files
             with tempfile.TemporaryDirectory() as temp_dir:  # where root items branch files are written
                 Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                    delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
+                    delayed(miner._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
                     for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
 
                 with open(out, 'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
@@ -288,7 +291,7 @@ class LCM(TransformerMixin, BaseEstimator):
         with open(filename, 'w') as fw:  # write the items root files
             for index, row in df.iterrows():
                 fw.write(f"({row['support']}) {' '.join(map(str, row['itemset']))}\n")
-                if self.return_tids_:
+                if "tids" in df.columns:
                     fw.write(f"{' '.join(map(str, row['tids']))}\n")
 
 
@@ -356,14 +359,14 @@ class LCMMax(LCM, TransformerMixin):
         patterns = patterns[patterns.itemset.isin(maximals)].copy()
 
         # keeps only itemsets smaller than max_length
-        if self.max_length_ != -1:
-            length_mask = [len(x) <= self.max_length_ for x in patterns["itemset"]]
+        if max_length != -1:
+            length_mask = [len(x) <= max_length for x in patterns["itemset"]]
             patterns = patterns.loc[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
         # return a list of itemset sorted or not
         patterns.loc[:, "itemset"] = patterns["itemset"].map(
-            lambda i: sorted(list(i)) if self.lexicographic_order_ else list(i))
+            lambda i: sorted(list(i)) if lexicographic_order else list(i))
 
         if out:
             self.write_df_tofile(out, patterns)
-- 
2.43.0


From a4e652cac4df35343cf3ce21f2cb45285fa45566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:28 +0000
Subject: [PATCH 45/56] fix: concurrent GraphMDL.patterns calls see each
 other's unfinished set

---
 skmine/graph/graphmdl/graph_mdl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 85bbf14..ac95596 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -254,16 +254,17 @@ class GraphMDL(BaseMiner):
             -------
             set
         """
-        self._patterns = set()
         if self._code_table is not None:
+            patterns = set()
             for r in self._code_table.rows():
                 if r.pattern_usage() != 0:
-                    self._patterns.add(r.pattern())
+                    patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-                self._patterns.add(utils.create_singleton_pattern(s, self._code_table))
+                patterns.add(utils.create_singleton_pattern(s, self._code_table))
 
-            return self._patterns
+            self._patterns = patterns
+            return patterns
 
         else:
             return ValueError("The fit method must be called first")
-- 
2.43.0


From 7b31c4a2d74c69ccdf10ec72d4499f0abd6067ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:06 +0000
Subject: [PATCH 46/56] fix: SlimClassifier.predict picks the first class for
 rows with long codes

---
 skmine/itemsets/slim_classifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 938453c..63fb98d 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,9 +89,10 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # shortest code wins. decision_function decreases with the code length, but reaches 0 for long codes
+        code_lengths = np.vstack([model.get_code_length(X).values for model in self.models_]).T
 
-        return self.classes_[models_scores.argmax(axis=1)]
+        return self.classes_[code_lengths.argmin(axis=1)]
 
     def __copy__(self):
         return SlimClassifier(items=self.items, pruning=self.pruning)
-- 
2.43.0


From 828f44c4b9456a6993cece1aa34ccbb444aaf02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 47/56] fix: MDLPDiscretizer's cut points overflow on narrow
 integer columns

---
 skmine/preprocessing/mdlp_discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 689ce1a..fa36d1f 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -122,8 +122,8 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
             is_better = self.evaluate(y, start, end, k)
             if k == -1 or not is_better:
-                front = -np.inf if start == 0 else (X[start - 1] + X[start]) / 2
-                back = np.inf if end == len(X) else (X[end - 1] + X[end]) / 2
+                front = -np.inf if start == 0 else X[start - 1] / 2 + X[start] / 2
+                back = np.inf if end == len(X) else X[end - 1] / 2 + X[end] / 2
 
                 if front != -np.inf:
                     cut_points.add(front)
-- 
2.43.0


From 94c09674103206d6b74c38ef61f3b1be3babe27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:58 +0000
Subject: [PATCH 48/56] fix: concurrent queries on a PeriodicPatternMiner can
 miss the occurrences of some patterns

---
 skmine/periodic/pattern_collection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skmine/periodic/pattern_collection.py b/skmine/periodic/pattern_collection.py
index e3f2bcb..336e397 100644
--- a/skmine/periodic/pattern_collection.py
+++ b/skmine/periodic/pattern_collection.py
@@ -136,12 +136,12 @@ class PatternCollection(object):
         List[List[Tuple[int, int]]]
             A list of lists, where each sublist contains the occurrences of a given pattern.
         """
-        if self.occ_lists is None:
-            self.occ_lists = []
-        if len(self.occ_lists) < len(self.patterns):
-            for (p, t0, E) in self.patterns[len(self.occ_lists):]:
-                self.occ_lists.append(p.getCovSeq(t0, E))
-        return self.occ_lists
+        occ_lists = list(self.occ_lists or [])  # a list of its own: other threads may be computing them too
+        if len(occ_lists) < len(self.patterns):
+            for (p, t0, E) in self.patterns[len(occ_lists):]:
+                occ_lists.append(p.getCovSeq(t0, E))
+            self.occ_lists = occ_lists
+        return occ_lists
 
     def codeLength(self, data_seq):
         cl = 0
-- 
2.43.0


From d2072dc9966d4687824545c826880974af6d56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:11 +0000
Subject: [PATCH 49/56] fix: GraphMDL.fit raises KeyError on multigraphs whose
 edge keys are not 0, 1, 2...

---
 skmine/graph/graphmdl/code_table.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 6847da5..8c4a1f4 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -408,16 +408,16 @@ class CodeTable:
             raise ValueError("label shouldn't be empty or none")
 
     def _get_edge_index_from_label(self, values, label):
-        """ Provide the good edge index, it's used in the multigraph treatment
+        """ Provide the key of the good edge, it's used in the multigraph treatment
         Parameters
         ---------
-        values
+        values : the parallel edges, a mapping from their keys to their attributes
         label
         Returns
         -------
-        int
+        object
         """
-        res = [i for i, j in enumerate(values, start=0) if
+        res = [i for i, j in values.items() if
                'label' in j and j['label'] == label]
         if len(res) != 0:
             return res[0]
@@ -443,7 +443,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if edge_index is not None:
                         edge = graph[start][end][edge_index]
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
@@ -477,7 +477,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if 'cover_mark' in graph[start][end][edge_index]:
                         graph[start][end][edge_index]['cover_mark'][label] = cover_marker
                     else:
-- 
2.43.0


From 3d134fea005bbaba67643a5ba253ed9bf5e9c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:17 +0000
Subject: [PATCH 50/56] fix: GraphMDL takes an embedding whose label looks like
 a vertex for that vertex's port

---
 skmine/graph/graphmdl/code_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 8c4a1f4..bb2994d 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,10 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        # only the ports: the label of an embedding may be the same as a data node
+        ports = {n: d['label'] for n, d in rewritten_graph.nodes(data=True) if 'is_Pattern' not in d}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From 01af4cf17e26007143a4d215d8f3306a2477a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:23 +0000
Subject: [PATCH 51/56] fix: GraphMDL.patterns leaves out the vertex singleton
 when an edge singleton has the same label

---
 skmine/graph/graphmdl/graph_mdl.py | 5 ++++-
 skmine/graph/graphmdl/utils.py     | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index ac95596..7382a05 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -261,7 +261,10 @@ class GraphMDL(BaseMiner):
                     patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-                patterns.add(utils.create_singleton_pattern(s, self._code_table))
+                if self._code_table.is_ct_vertex_singleton(s):
+                    patterns.add(utils.create_singleton_pattern(s, self._code_table, arity=1))
+                if self._code_table.is_ct_edge_singleton(s):
+                    patterns.add(utils.create_singleton_pattern(s, self._code_table, arity=2))
 
             self._patterns = patterns
             return patterns
diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..2d5f08d 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -979,12 +979,13 @@ def generate_candidates(rewritten_graph, code_table):
     return candidates
 
 
-def create_singleton_pattern(label, code_table):
+def create_singleton_pattern(label, code_table, arity=None):
     """ Create a graph who represent a singleton
     Parameters
     ----------
     label
     code_table
+    arity : 1 for a vertex singleton, 2 for an edge singleton, needed when the label is that of both
     Returns
     -------
     Graph
@@ -994,7 +995,7 @@ def create_singleton_pattern(label, code_table):
     else:
         pattern = nx.DiGraph()
 
-    if code_table.is_ct_edge_singleton(label):
+    if arity != 1 and code_table.is_ct_edge_singleton(label):
         pattern.add_nodes_from(range(1, 3))
         pattern.add_edge(1, 2, label=label)
     elif code_table.is_ct_vertex_singleton(label):
-- 
2.43.0


From 478e56ed611eb60297f1bdda6b5363303ae87a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:59 +0000
Subject: [PATCH 52/56] fix: events named NA, None or null are lost when an
 event log is read

---
 skmine/datasets/periodic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 55f9388..bad2ea4 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -40,7 +40,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
@@ -87,7 +88,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
     """
     data_home = data_home or get_data_home()
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, index_col=0, dtype="string")
+    kwargs = dict(header=None, index_col=0, dtype="string", keep_default_na=False)
     if filename in os.listdir(data_home):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
@@ -143,7 +144,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     """
     data_home = data_home or get_data_home()
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, dtype="string", index_col=0)
+    kwargs = dict(header=None, dtype="string", index_col=0, keep_default_na=False)
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
-- 
2.43.0


From a8038758bb39cb9a38a6980f0e96e4374632c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 53/56] fix: copy of a SLIM loses its time budget, and copy of
 a SLIMVectorizer gives a SLIM

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 30f3299..9e71800 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -787,4 +787,4 @@ class SLIM(BaseEstimator, TransformerMixin):
             self.codetable_ = SortedDict(self._standard_cover_order, state["codetable_"])
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return type(self)(**self.get_params(deep=False))
-- 
2.43.0


From 1ab16f0f561dbef82a62a8d167025fcea5c296b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 54/56] fix: MDLPDiscretizer finds no cut points with 40
 classes or more

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index fa36d1f..567076e 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -87,7 +87,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
         N = end - start
 
         part1 = 1 / N * ((cut_point - start) * entropy1 + (end - cut_point) * entropy2)
-        delta = np.log2(pow(3, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
+        delta = np.log2(pow(3.0, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
 
         gain = whole_entropy - part1
 
-- 
2.43.0


From d0485f18ea31b6237052cde80aa4330555cc2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:27 +0000
Subject: [PATCH 55/56] fix: SLIMVectorizer's max_time and items are not
 parameters: clone and copy lose them

---
 skmine/feature_extraction/slim_vectorizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..c21e065 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -45,6 +45,12 @@ class SLIMVectorizer(SLIM):
     stop_items: iterable, default=None
         Set of items to filter out while ingesting the input data.
 
+    max_time: int, default=-1
+        See :class:`skmine.itemsets.SLIM`.
+
+    items: set, default=None
+        See :class:`skmine.itemsets.SLIM`.
+
 
     Examples
     --------
@@ -70,10 +76,9 @@ class SLIMVectorizer(SLIM):
     patterns should output matrices with very few zeros.
     """
 
-    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, **kwargs):
-        super().__init__(**kwargs)
+    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, max_time=-1, items=None):
+        super().__init__(pruning=pruning, max_time=max_time, items=items)
         self.k = k
-        self.pruning = pruning
         self.stop_items = stop_items
         if strategy not in STRATEGIES:
             raise ValueError(f"strategy must be one of {STRATEGIES}")
-- 
2.43.0


From a00892397acc2367d8f3dc13d5c36bbb17145440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:32 +0000
Subject: [PATCH 56/56] fix: SlimClassifier ignores its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 63fb98d..072e9db 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0

