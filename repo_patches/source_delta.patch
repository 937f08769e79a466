From 205b4f89ccf755678891d270ce6687949c9a5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 1/8] fix: sign of the quantum harmonic W term in the heat
 capacity

d ln Z/d beta of a product of csch(beta h nu/2) is minus the sum of
(h nu/2) coth(beta h nu/2), as for the other contributions; the positive
sign spoiled the cross terms with the electronic and rotational W.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..e3a5b3b 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From 8bb98838925cacd159e1c26c656a021169553bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 2/8] fix: take the square root of the product of moments of
 inertia

The documented rotational partition function is proportional to
sqrt(I_1 I_2 I_3), not to the product itself.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index e3a5b3b..cf7405d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From e3b770e80cb51e629afca002095d1499304aee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 3/8] fix: do not report mismatched contributions as missing
 ones

A ValueError raised because the contributions disagree on the number of
isomers was swallowed and turned into None.
---
 occuprob/superpositions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..30a1543 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -77,15 +77,15 @@ class SuperpositionApproximation():
             A 2D array of shape (N, M) containing the combined contributions for
             each of the N minima.
         """
-        try:
-            contributions = [getattr(partition_function, method)(temperature) for
-                             partition_function in self.partition_functions]
-            combined_contributions = combiner(np.stack(contributions), axis=0)
+        if not self.partition_functions:
+            print("You must include at least one partition function.")
+            return None
 
-            return combined_contributions
+        contributions = [getattr(partition_function, method)(temperature) for
+                         partition_function in self.partition_functions]
+        combined_contributions = combiner(np.stack(contributions), axis=0)
 
-        except ValueError:
-            print("You must include at least one partition function.")
+        return combined_contributions
 
     def calc_partition_functions(self, temperature):
         """ Calculates the individual contributions of each local minima to the
-- 
2.43.0


From 2812a2bb2e305e13131be596a36f561a83693ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 4/8] fix: heat capacity without partition functions returns
 None

It raised a TypeError while the probability and the ensemble average
return None in the same situation.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 30a1543..ca624af 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From aaab85936ebdd134dbc4fa3272efb896d6512d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 5/8] fix: only change the file extension when naming the
 output files

Replacing every '.xyz' and 'dat' in the whole path sent the output to other
(often missing) directories, e.g. for data/test.xyz.
---
 occuprob/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..d1e55c2 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import os
 
 import numpy as np
 
@@ -160,14 +161,16 @@ def main():
     # text file and plot the results if requested
     for key in results:
         if args.out_file:
-            outfile = args.out_file + '_' + key + '.dat'
+            prefix = args.out_file
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            prefix = os.path.splitext(args.in_file)[0]
+
+        outfile = prefix + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = prefix + '_' + key + '.' + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 6e736d4155238e52b43c951827baf5ee91cade63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 6/8] fix: never exceed --max_temp in the temperature grid

A range that is not a whole number of kelvin went past the upper limit.
---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index d1e55c2..d046538 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,7 +148,8 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        num_steps = int(np.floor(args.max_temp - args.min_temp))
+        temperature = args.min_temp + np.arange(num_steps + 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 288b8be312249f26e3d1fd9763e25ba8e5263647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 7/8] fix: report failing git commands instead of raising in
 the version lookup

---
 occuprob/_version.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index c5b47e5..6d9cca7 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -350,10 +350,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, runner=run_command):
         # HEX: no tags
         pieces["closest-tag"] = None
         count_out, rc = runner(GITS, ["rev-list", "HEAD", "--count"], cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list --count' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From f1f62a40a1810ae7a171c6327923fb9b064f1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 8/8] fix: tags that are not valid UTF-8 do not make the
 version lookup raise

---
 occuprob/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index 6d9cca7..752bcf8 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -103,7 +103,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0

