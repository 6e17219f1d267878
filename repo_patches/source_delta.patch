From ae92482c94a1c53d1c5e1d0d533c11a6af0ccb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:26 +0000
Subject: [PATCH 01/73] fix: read Eigen vectors from json explicitly, so the
 C++ dynamical systems and Dmp compile with Eigen 3.4

---
 src/dmp/Dmp.cpp                             | 9 ++++++---
 src/dynamicalsystems/ExponentialSystem.cpp  | 6 ++++--
 src/dynamicalsystems/SigmoidSystem.cpp      | 3 ++-
 src/dynamicalsystems/SpringDamperSystem.cpp | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..a2e8c3b 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -548,8 +548,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   double alpha_spring_damper = j.at("_spring_system").at("damping_coefficient");
 
-  VectorXd y_init = j.at("_y_init");
-  VectorXd y_attr = j.at("_y_attr");
+  VectorXd y_init;
+  Eigen::from_json(j.at("_y_init"), y_init);
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
   // from_json(j.at("_y_init"), y_init);
   // from_json(j.at("_y_attr"), y_attr);
 
@@ -560,7 +562,8 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
   string forcing_term_scaling = j.at("_forcing_term_scaling");
-  VectorXd scaling_amplitudes = j.at("_scaling_amplitudes");
+  VectorXd scaling_amplitudes;
+  Eigen::from_json(j.at("_scaling_amplitudes"), scaling_amplitudes);
 
   int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 39158a1..18cdccc 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -92,8 +92,10 @@ void from_json(const nlohmann::json& j, ExponentialSystem*& obj)
 {
   double tau = j.at("_tau");
   double alpha = j.at("alpha");
-  VectorXd x_init = j.at("_x_init");
-  VectorXd x_attr = j.at("_x_attr");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
+  VectorXd x_attr;
+  Eigen::from_json(j.at("_x_attr"), x_attr);
 
   obj = new ExponentialSystem(tau, x_init, x_attr, alpha);
 }
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..6355884 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -167,7 +167,8 @@ void from_json(const nlohmann::json& j, SigmoidSystem*& obj)
   double tau = j.at("_tau");
   double max_rate = j.at("_max_rate");
   double inflection_point_time = j.at("_inflection_ratio");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
 
   obj = new SigmoidSystem(tau, x_init, max_rate, inflection_point_time);
 }
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..a6f7654 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -168,8 +168,10 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
   double spring_constant = j.at("spring_constant");
   double mass = j.at("mass");
 
-  VectorXd y_attr = j.at("_y_attr");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
   VectorXd y_init = x_init.segment(0, y_attr.size());
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
-- 
2.43.0


From 5ee81ff28b3ca69fdb2b380cc6710f7f4c15f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 02/73] fix: LearningSession.ask returns a copy also for what
 it reads from file

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..0d00281 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,7 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From faee85ba8acd4d21dcdb363dac4e7d0429f066c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 03/73] fix: LearningSession accepts numpy integers as update
 and sample numbers

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 0d00281..8f53c6d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -324,14 +324,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, (int, np.integer)):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, (int, np.integer)):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
-- 
2.43.0


From dfe34e763000b2735e7f2c7d17cdea38988d9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 04/73] fix: LearningSession restores the shape of arrays with
 dimensions of size 1

---
 dmpbbo/bbo/LearningSession.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 8f53c6d..722461b 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -383,7 +383,7 @@ class LearningSession:
                 obj = pd.read_csv(f"{abs_basename}.csv")
 
             elif os.path.isfile(f"{abs_basename}.txt"):
-                obj = np.loadtxt(f"{abs_basename}.txt")
+                obj = LearningSession._load_array(f"{abs_basename}.txt")
 
             else:
                 raise IOError(f"Could not find file with basename: {abs_basename}")
@@ -421,7 +421,10 @@ class LearningSession:
 
         if isinstance(obj, (np.ndarray, list, int)):
             filename = f"{abs_basename}.txt"
-            np.savetxt(filename, np.atleast_1d(obj))  # noqa
+            shape = np.shape(obj)
+            # np.loadtxt drops dimensions of size 1, so remember the shape if there are any.
+            header = "shape: " + " ".join(str(n) for n in shape) if 1 in shape else ""
+            np.savetxt(filename, np.atleast_1d(obj), header=header)  # noqa
         elif isinstance(obj, pd.DataFrame):
             filename = f"{abs_basename}.csv"
             obj.to_csv(filename, index=False)
@@ -431,6 +434,20 @@ class LearningSession:
 
         return filename
 
+    @staticmethod
+    def _load_array(filename):
+        """ Load an array from a file written with save.
+
+        @param filename: Name of the file to load from.
+        @return: The array, with the shape it was saved with.
+        """
+        obj = np.loadtxt(filename)
+        with open(filename, "r") as f:
+            first_line = f.readline()
+        if first_line.startswith("# shape: "):
+            obj = obj.reshape([int(n) for n in first_line.split()[2:]])
+        return obj
+
     def save_all(self, directory):
         """ Save all objects in the database to a directory.
 
-- 
2.43.0


From c64fcc763a2cc87981263e1b43ee2e051eb27b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 05/73] fix: LearningSession no longer reads outdated files
 with another extension

---
 dmpbbo/bbo/LearningSession.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 722461b..c238783 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -432,6 +432,12 @@ class LearningSession:
             filename = f"{abs_basename}.json"
             jc.savejson(filename, obj)
 
+        # If another kind of object was saved under this name before, it is outdated now
+        for extension in ["json", "txt", "csv"]:
+            other_filename = f"{abs_basename}.{extension}"
+            if other_filename != filename and os.path.isfile(other_filename):
+                os.remove(other_filename)
+
         return filename
 
     @staticmethod
-- 
2.43.0


From bb5cbbfc8be69a79f00fe1a1193d649f2d7bc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 06/73] fix: LearningSessionTask can store a DMP as the first
 entry of an update

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index e92d1ad..27ecf2a 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -50,15 +50,15 @@ class LearningSessionTask(LearningSession):
         @param i_update:  The update number
         @param i_sample:  The sample number
         """
+        filename = super().tell(obj, name, i_update, i_sample)
+
         # If it's a Dmp, save it in a C++-readable format also
         if "dmp" in name:
             if self._root_dir is not None:
                 basename = self.get_base_name(name, i_update, i_sample)
                 abs_basename = Path(self._root_dir, basename)
-                jc.savejson(f"{abs_basename}.json", obj)
                 jc.savejson_for_cpp(f"{abs_basename}_for_cpp.json", obj)
 
-        filename = super().tell(obj, name, i_update, i_sample)
         return filename
 
     def add_rollout(self, i_update, i_sample, sample, cost_vars, cost):
-- 
2.43.0


From 3fb641aab6b9fd9be6aa5cf060f0ee2079d839a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:59 +0000
Subject: [PATCH 07/73] fix: CMA-ES weights with fewer samples than the
 eliteness

---
 dmpbbo/bbo/updaters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..6a3c74e 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -241,7 +241,8 @@ def costs_to_weights(costs, weighting_method, eliteness):
 
     elif weighting_method == "CEM" or weighting_method == "CMA-ES":
         # CEM/CMA-ES style weights: rank-based, uses defaults
-        mu = eliteness  # In CMA-ES, eliteness parameter is known as "mu"
+        # In CMA-ES, eliteness parameter is known as "mu"
+        mu = min(eliteness, costs.size)
         indices = np.argsort(costs)
         weights = np.full(costs.size, 0.0)
         if weighting_method == "CEM":
-- 
2.43.0


From 4e9325a660a03ce8441c32da5309d716cb9af863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:25 +0000
Subject: [PATCH 08/73] fix: DistributionGaussianBounded without bounds can be
 sampled

---
 dmpbbo/bbo/DistributionGaussianBounded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo/DistributionGaussianBounded.py b/dmpbbo/bbo/DistributionGaussianBounded.py
index 59b451f..e09d01f 100644
--- a/dmpbbo/bbo/DistributionGaussianBounded.py
+++ b/dmpbbo/bbo/DistributionGaussianBounded.py
@@ -43,5 +43,7 @@ class DistributionGaussianBounded(DistributionGaussian):
 
     def generate_samples(self, n_samples=1):
         samples = super().generate_samples(n_samples)
+        if self.lower_bound is None and self.upper_bound is None:
+            return samples  # Nothing to clip (and numpy's clip requires at least one bound)
         clipped_samples = samples.clip(self.lower_bound, self.upper_bound)
         return clipped_samples
-- 
2.43.0


From b6cf578b89f7b96c761d8033886ad70417bbf5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:05 +0000
Subject: [PATCH 09/73] fix: LearningSession counts the updates that have been
 performed

---
 dmpbbo/bbo/LearningSession.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index c238783..4ee7e9f 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -22,7 +22,6 @@ import copy
 import inspect
 import os
 import warnings
-from glob import glob
 from pathlib import Path
 
 import jsonpickle
@@ -240,7 +239,6 @@ class LearningSession:
         self._n_samples_per_update = n_samples_per_update
         self._root_dir = root_directory
         self._cache = {}
-        self._last_update_added = None
 
         self.tell(n_samples_per_update, "n_samples_per_update")
 
@@ -294,20 +292,17 @@ class LearningSession:
         self.tell(weights, "weights", i_update)
         if distribution_new is not None:
             self.tell(distribution_new, "distribution_new", i_update)
-        self._last_update_added = i_update
 
     def get_n_updates(self):
         """ Get the number of updates that have already been performed.
 
         @return: The number of updates that have already been performed.
         """
-        if not self._root_dir:
-            return self._last_update_added
-        else:
-            update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
-            last_dir = update_dirs[-1]
-            update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+        n_updates = 0
+        # The weights are only known once an update has been performed.
+        while self.exists("weights", n_updates):
+            n_updates += 1
+        return n_updates
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
-- 
2.43.0


From b7118766e70c1b9c6bc44caf201f4f0ce6175904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:05 +0000
Subject: [PATCH 10/73] fix: LearningSession uses the evaluations of a
 step-by-step optimization in the learning curve

---
 dmpbbo/bbo/LearningSession.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 4ee7e9f..18c874f 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -473,9 +473,11 @@ class LearningSession:
         @param i_update:  The update numbers
         @return: The costs for that update.
         """
-        has_eval = self.exists("cost", 0, "eval")
+        # The step-by-step optimization stores the evaluation as "eval_costs"
+        name = "cost" if self.exists("cost", 0, "eval") else "costs"
+        has_eval = self.exists(name, 0, "eval")
         if has_eval:
-            cost_eval = self.ask("cost", i_update, "eval")
+            cost_eval = self.ask(name, i_update, "eval")
             # Evaluation at the beginning of an update
             i_sample = i_update * self._n_samples_per_update
         else:
-- 
2.43.0


From fa78d3c5617667cd5d03ce049d094f947895e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:37 +0000
Subject: [PATCH 11/73] fix: opening a learning session from a directory does
 not rewrite a file in it

---
 dmpbbo/bbo/LearningSession.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 18c874f..7d21b5d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -264,7 +264,10 @@ class LearningSession:
         filename = str(Path(directory, "n_samples_per_update.txt"))
         n_samples_per_update = np.atleast_1d(np.loadtxt(filename))
         n_samples_per_update = int(n_samples_per_update[0])
-        return cls(n_samples_per_update, directory)
+        # Reading a directory should not write to it, so only set the directory afterwards.
+        session = cls(n_samples_per_update)
+        session._root_dir = directory
+        return session
 
     def add_eval(self, i_update, eval_sample, eval_cost):
         """ Add an evaluation.
-- 
2.43.0


From a0eb10e44f73f09e94312e0ce23193a73d246c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:03 +0000
Subject: [PATCH 12/73] fix: dynamical systems do not share their initial state
 and attractor with the caller

---
 dmpbbo/dynamicalsystems/DynamicalSystem.py    | 4 ++--
 dmpbbo/dynamicalsystems/ExponentialSystem.py  | 6 +++---
 dmpbbo/dynamicalsystems/SigmoidSystem.py      | 2 +-
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 569bef1..b14be39 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -97,7 +97,7 @@ class DynamicalSystem(ABC):
         """
         if new_x_init.size != self._dim_x:
             raise ValueError(f"x_init must have size {self._dim_x}")
-        self._x_init = np.atleast_1d(new_x_init)
+        self._x_init = np.array(new_x_init, ndmin=1)  # Copy, so that it is not shared
 
     @property
     def y_init(self):
@@ -151,7 +151,7 @@ class DynamicalSystem(ABC):
         """
         if y_init is not None:
             self.y_init = y_init
-        x = self._x_init
+        x = self._x_init.copy()
         return x, self.differential_equation(x)
 
     def integrate_step(self, dt, x):
diff --git a/dmpbbo/dynamicalsystems/ExponentialSystem.py b/dmpbbo/dynamicalsystems/ExponentialSystem.py
index c900a72..bd578ca 100644
--- a/dmpbbo/dynamicalsystems/ExponentialSystem.py
+++ b/dmpbbo/dynamicalsystems/ExponentialSystem.py
@@ -35,7 +35,7 @@ class ExponentialSystem(DynamicalSystem):
         @param alpha: Decay constant
         """
         super().__init__(1, tau, x_init)
-        self._x_attr = np.atleast_1d(x_attr)
+        self._x_attr = np.array(x_attr, ndmin=1)
         self.alpha = np.asarray(alpha) if isinstance(alpha, list) else alpha
 
     @property
@@ -54,7 +54,7 @@ class ExponentialSystem(DynamicalSystem):
         """
         if y.size != self._dim_y:
             raise ValueError(f"y_attr must have size {self._dim_y}")
-        self._x_attr = np.atleast_1d(y)
+        self._x_attr = np.array(y, ndmin=1)
 
     @property
     def x_attr(self):
@@ -72,7 +72,7 @@ class ExponentialSystem(DynamicalSystem):
         """
         if x.size != self._dim_x:
             raise ValueError(f"y_attr must have size {self._dim_x}")
-        self._x_attr = np.atleast_1d(x)
+        self._x_attr = np.array(x, ndmin=1)
 
     def differential_equation(self, x):
         """ The differential equation which defines the system.
diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 0c93554..6819295 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -100,7 +100,7 @@ class SigmoidSystem(DynamicalSystem):
         """
         if new_x_init.size != self._dim_x:
             raise ValueError(f"x_init must have size {self._dim_x}")
-        self._x_init = new_x_init
+        self._x_init = np.array(new_x_init, ndmin=1)  # Copy, so that it is not shared
         self._Ks_cached = None  # Forces recomputing Ks
 
     @DynamicalSystem.y_init.setter
diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..07edb88 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -45,7 +45,7 @@ class SpringDamperSystem(DynamicalSystem):
         @param mass: Mass
         """
         super().__init__(2, tau, y_init)
-        self._y_attr = y_attr
+        self._y_attr = np.array(y_attr, ndmin=1)
         self.damping_coefficient = damping_coefficient
         self.mass = mass
         if spring_constant == "CRITICALLY_DAMPED":
@@ -65,7 +65,7 @@ class SpringDamperSystem(DynamicalSystem):
         """
         if new_y_attr.size != self._dim_y:
             raise ValueError(f"y_attr must have size {self._dim_y}")
-        self._y_attr = np.atleast_1d(new_y_attr)
+        self._y_attr = np.array(new_y_attr, ndmin=1)
 
     def differential_equation(self, x):
         """ The differential equation which defines the system.
-- 
2.43.0


From fd2d0bc735f421b2decfca5bbcc0c33a2d196b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:03 +0000
Subject: [PATCH 13/73] fix: TimeSystem returns rates of the shape of its state

---
 dmpbbo/dynamicalsystems/TimeSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/TimeSystem.py b/dmpbbo/dynamicalsystems/TimeSystem.py
index 80cdecd..c6e0dc7 100644
--- a/dmpbbo/dynamicalsystems/TimeSystem.py
+++ b/dmpbbo/dynamicalsystems/TimeSystem.py
@@ -59,7 +59,7 @@ class TimeSystem(DynamicalSystem):
         @param x: current state
         @return: xd - rate of change in state
         """
-        xd = np.zeros([1, 1])
+        xd = np.zeros(1)
         if self._count_down:
             if x > 0:
                 xd[0] = -1.0 / self._tau
-- 
2.43.0


From 1774d08f2eef8d5ce760ff922c3ea7d93e21f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:03 +0000
Subject: [PATCH 14/73] fix: SpringDamperSystem accepts an array of spring
 constants

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 07edb88..786f514 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -48,7 +48,7 @@ class SpringDamperSystem(DynamicalSystem):
         self._y_attr = np.array(y_attr, ndmin=1)
         self.damping_coefficient = damping_coefficient
         self.mass = mass
-        if spring_constant == "CRITICALLY_DAMPED":
+        if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
             self.spring_constant = damping_coefficient * damping_coefficient / 4
         else:
             self.spring_constant = spring_constant
-- 
2.43.0


From e3c13c063be16a82e1269a8dde95ef2cb933a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:23 +0000
Subject: [PATCH 15/73] fix: critical damping of spring-damper systems with a
 mass, and solutions with an initial velocity

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 4 ++--
 src/dynamicalsystems/SpringDamperSystem.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 786f514..c28c126 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -49,7 +49,7 @@ class SpringDamperSystem(DynamicalSystem):
         self.damping_coefficient = damping_coefficient
         self.mass = mass
         if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
-            self.spring_constant = damping_coefficient * damping_coefficient / 4
+            self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
 
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # because yd = z/tau
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index a6f7654..48a2822 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -46,7 +46,7 @@ SpringDamperSystem::SpringDamperSystem(double tau, Eigen::VectorXd y_init,
 {
   if (spring_constant_ == CRITICALLY_DAMPED)
     spring_constant_ =
-        damping_coefficient_ * damping_coefficient_ / 4;  // Critically damped
+        damping_coefficient_ * damping_coefficient_ / (4 * mass_);  // Critically damped
 
   // Order 2 system: these variables are half the size of state dimensionality
   y_ = VectorXd(dim() / 2);
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // because yd = z/tau
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From 65c903e9dad8921e3b8b9c6e15542169c4487533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:48 +0000
Subject: [PATCH 16/73] fix: RichardsSystem with the initial state at the
 attractor, and with attractors shared with the caller

---
 dmpbbo/dynamicalsystems/RichardsSystem.py | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..2e8144f 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -31,10 +31,26 @@ class RichardsSystem(DynamicalSystem):
         self._tau = tau  # To avoid flake8 warnings (is already set by super.init above)
         self.alpha = alpha
         self.v = v
-        self.right_asymp = x_attr
+        self.right_asymp = x_attr if np.isscalar(x_attr) else np.array(x_attr)
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Return the y part of the attractor state, i.e. the right asymptote
+        """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, y):
+        """ Set the y part of the attractor state, i.e. the right asymptote
+
+         @param y: Attractor state
+        """
+        if y.size != self._dim_y:
+            raise ValueError(f"y_attr must have size {self._dim_y}")
+        self.right_asymp = np.array(y, ndmin=1)
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
@@ -47,7 +63,7 @@ class RichardsSystem(DynamicalSystem):
         self.v = np.clip(self.v, 0.5, None)
         exp_term = np.exp(-self.alpha * self.v * t_infl / self.tau)
         z = np.power((self.v / exp_term) + 1, 1 / self.v)
-        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)
+        left_asymp = self.x_init - (self.right_asymp - self.x_init) / (z - 1)
         return left_asymp
 
     def differential_equation(self, x):
@@ -59,7 +75,9 @@ class RichardsSystem(DynamicalSystem):
         @return: xd - rate of change in state
         """
         left_asymp = self._get_left_asymptote()
-        r = (x - left_asymp) / (self.right_asymp - left_asymp)
+        val_range = self.right_asymp - left_asymp
+        # No range in a dimension means that the initial state is the attractor: no change there.
+        r = np.divide(x - left_asymp, val_range, out=np.ones(np.shape(x)), where=val_range != 0)
         return self.alpha * (1.0 - np.power(r, self.v)) * (x - left_asymp) / self.tau
 
     def analytical_solution(self, ts):
@@ -82,6 +100,9 @@ class RichardsSystem(DynamicalSystem):
             # https://en.wikipedia.org/wiki/Generalised_logistic_function
             a = left_asymp if np.isscalar(left_asymp) else left_asymp[dd]
             k = self.right_asymp if np.isscalar(self.right_asymp) else self.right_asymp[dd]
+            if k == a:
+                xs[:, dd] = k  # No range: the system is and stays at the attractor.
+                continue
             q = -1 + np.power((k - a) / (self.x_init[dd] - a), v)
 
             exp_term = np.exp(-alpha * v * ts / self.tau)
-- 
2.43.0


From 434dba5c16d6345f5639d602e1c6e855fcbe544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:48 +0000
Subject: [PATCH 17/73] fix: Dmp follows a new goal with a RichardsSystem as
 goal system

---
 dmpbbo/dmps/Dmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..1bd3843 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -254,7 +254,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
-- 
2.43.0


From 5387878248bcb19e50f4f9e44b01a9804aa6ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 18/73] fix: scalar model parameters of function approximators
 can be set from a parameter vector

The number of values of a scalar (the offset of WLS) was np.prod(()) = 1.0, a float, which is no
valid slice index.
---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..472800e 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -141,7 +141,7 @@ class FunctionApproximator(Parameterizable):
         offset = 0
         for label in self._selected_param_names:
             expected_shape = self._model_params[label].shape
-            cur_n_values = np.prod(expected_shape)
+            cur_n_values = int(np.prod(expected_shape))  # np.prod(()) is a float
             cur_values = values[offset : offset + cur_n_values]
             self._model_params[label] = np.reshape(cur_values, expected_shape)
             offset += cur_n_values
@@ -153,7 +153,7 @@ class FunctionApproximator(Parameterizable):
         size = 0
         for label in self._selected_param_names:
             if label in self._model_params:
-                size += np.prod(self._model_params[label].shape)
+                size += int(np.prod(self._model_params[label].shape))
         return size
 
     def _get_axis(self, fig=None):
-- 
2.43.0


From 115adfd0c3b510ebb999ba486c639d492c282e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 19/73] fix: function approximators do not share their
 parameters with the vector they were set from

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 472800e..22bec20 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -143,7 +143,8 @@ class FunctionApproximator(Parameterizable):
             expected_shape = self._model_params[label].shape
             cur_n_values = int(np.prod(expected_shape))  # np.prod(()) is a float
             cur_values = values[offset : offset + cur_n_values]
-            self._model_params[label] = np.reshape(cur_values, expected_shape)
+            # Copy, so that the parameters are not shared with the caller
+            self._model_params[label] = np.array(cur_values).reshape(expected_shape)
             offset += cur_n_values
 
     def get_param_vector_size(self):
-- 
2.43.0


From 54482ad162aac348eef18b23ddbb6a5c971a460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 20/73] fix: parameter vectors are empty when no parameters
 have been selected

np.array(0) is not empty, it contains one 0; its size did not agree with the reported size of 0.
---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 22bec20..bd2a100 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -116,7 +116,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.empty(0)
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -139,7 +139,7 @@ class FunctionApproximator(Parameterizable):
             )
 
         offset = 0
-        for label in self._selected_param_names:
+        for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
             cur_n_values = int(np.prod(expected_shape))  # np.prod(()) is a float
             cur_values = values[offset : offset + cur_n_values]
-- 
2.43.0


From ae85ed56d30b297d055e5045d91b9b4f53709956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 21/73] fix: regularization of LWR is used

A dictionary was passed as the first argument (use_offset) of FunctionApproximatorWLS, so that
the regularization was always 0.
---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..368a868 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,8 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        use_offset = True
+        fa_lws = FunctionApproximatorWLS(use_offset, reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From 846f5822bee410a7dc9067257486f45020ca6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 22/73] fix: RBFN and LWR accept one number of basis functions
 for several input dimensions

Gaussian.get_centers_and_widths supports this, but the number of basis functions was computed
without taking the number of dimensions into account.
---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py  | 2 +-
 dmpbbo/functionapproximators/FunctionApproximatorRBFN.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 368a868..f17a662 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -50,7 +50,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
         model_params = {"centers": centers, "widths": widths}
 
         # Prepare weighted least squares regressions
-        n_bfs = np.prod(n_bfs_per_dim)
+        n_bfs = centers.shape[0]
         n_dims = centers.shape[1]
         slopes = np.ones([n_bfs, n_dims])
         offsets = np.ones([n_bfs, 1])
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
index eef020d..5d171b7 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
@@ -52,10 +52,9 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         # Determine the centers and widths of the basis functions, given the input data range
 
         n_bfs_per_dim = meta_params["n_basis_functions_per_dim"]
-        n_bfs = np.prod(n_bfs_per_dim)
-
         height = meta_params["intersection_height"]
         centers, widths = Gaussian.get_centers_and_widths(inputs, n_bfs_per_dim, height)
+        n_bfs = centers.shape[0]
 
         model_params = {
             "centers": meta_params.get("centers", centers),
-- 
2.43.0


From 7af3d289ed652439076ee65ce9802a7d4eefc1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:10 +0000
Subject: [PATCH 23/73] fix: GPR does not share the training inputs with the
 caller

---
 dmpbbo/functionapproximators/FunctionApproximatorGPR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
index b2aeb9d..f63d298 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
@@ -49,7 +49,7 @@ class FunctionApproximatorGPR(FunctionApproximator):
     def _train(inputs, targets, meta_params, **kwargs):
 
         model_params = {
-            "inputs": inputs,
+            "inputs": inputs.copy(),  # Copy, because they are part of the model
             "lengths": np.full(inputs.shape, meta_params["lengths"]),
             "max_covariance": meta_params["max_covariance"],
         }
-- 
2.43.0


From ad548ea1eb6c73314d8feee73923715507d709d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 24/73] fix: setting tau of a Dmp also sets it in the damping
 system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 1bd3843..bab5673 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -584,6 +584,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From b5e27746a052b69f735142fce864d1dd4e47552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 25/73] fix: Dmp reports its initial state, also before
 training, and shares no arrays with the caller

---
 dmpbbo/dmps/Dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index bab5673..0a79df9 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -69,7 +69,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
 
-        self._y_attr = y_attr
+        self._y_init = np.array(y_init)  # Copies, so that they are not shared with the caller
+        self._y_attr = np.array(y_attr)
         self._function_approximators = function_approximators
 
         transformation_system = kwargs.get("transformation_system", None)
@@ -472,7 +473,7 @@ class Dmp(DynamicalSystem, Parameterizable):
             self._trajectory_train = trajectory
 
         # Always stored for backwards compatibility.
-        self._ts_train = trajectory.ts
+        self._ts_train = trajectory.ts.copy()
 
     def _compute_targets(self, trajectory):
         """Given a trajectory, compute the inputs and targets for the function approximators.
@@ -595,7 +596,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = np.array(y_init_new)  # Copy, so that it is not shared with the caller
+        self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
@@ -614,7 +616,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if y_attr_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
 
-        self._y_attr = y_attr_new
+        self._y_attr = np.array(y_attr_new)  # Copy, so that it is not shared with the caller
 
         # Set value in all relevant subsystems also
         if self._goal_system is not None:
-- 
2.43.0


From ddd632a116b36036d3fd77e3a641eb49ce6c12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 26/73] fix: Dmp.integrate_start accepts an initial state with
 several dimensions

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 0a79df9..bb28753 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -197,7 +197,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
-- 
2.43.0


From ee26c7960ff42656e17c90e6d8a4f84487dbc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 27/73] fix: selecting parameters of a Dmp without the goal
 deselects the goal

---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index bb28753..cb2b1be 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -650,6 +650,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = []
         if "goal" in names:
             self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
-- 
2.43.0


From 0864b342d7c1c2d68d6e4a103afade56d2e86655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 28/73] fix: training a Dmp with scaling on a trajectory with a
 dimension at rest

---
 dmpbbo/dmps/Dmp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index cb2b1be..d26d37e 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -529,11 +529,20 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._forcing_term_scaling == "G_MINUS_Y0_SCALING":
             g_minus_y0 = self._y_attr - self._y_init
             g_minus_y0_rep = np.tile(g_minus_y0, (n_time_steps, 1))
-            f_target /= g_minus_y0_rep
+            # A dimension with zero scaling has no forcing term
+            f_target = np.divide(
+                f_target, g_minus_y0_rep, out=np.zeros_like(f_target), where=g_minus_y0_rep != 0
+            )
 
         elif self._forcing_term_scaling == "AMPLITUDE_SCALING":
             _scaling_amplitudes_rep = np.tile(self._scaling_amplitudes, (n_time_steps, 1))
-            f_target /= _scaling_amplitudes_rep
+            # A dimension with zero scaling has no forcing term
+            f_target = np.divide(
+                f_target,
+                _scaling_amplitudes_rep,
+                out=np.zeros_like(f_target),
+                where=_scaling_amplitudes_rep != 0,
+            )
 
         return fa_inputs_phase, f_target
 
-- 
2.43.0


From b9c2f4e2d1e69ff5aeb2f926c829dd74527815b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:34 +0000
Subject: [PATCH 29/73] fix: setting tau of a Dmp scales a sigmoid gating in
 time

---
 dmpbbo/dmps/Dmp.py                       |  3 +++
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 15 +++++++++++++++
 src/dmp/Dmp.cpp                          |  4 ++++
 src/dynamicalsystems/SigmoidSystem.cpp   |  7 +++++++
 src/dynamicalsystems/SigmoidSystem.hpp   |  8 ++++++++
 5 files changed, 37 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index d26d37e..27bcb17 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -588,6 +588,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         # Set value in all relevant subsystems also
         self._phase_system.tau *= tau_scale
         self._gating_system.tau *= tau_scale
+        if isinstance(self._gating_system, SigmoidSystem):
+            # The rate of a sigmoid is not relative to tau
+            self._gating_system.max_rate = self._gating_system.max_rate / tau_scale
 
         self._spring_system.tau *= tau_scale
 
diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 6819295..93a3d05 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -92,6 +92,21 @@ class SigmoidSystem(DynamicalSystem):
         self._tau = new_tau
         self._Ks_cached = None  # Forces recomputing Ks
 
+    @property
+    def max_rate(self):
+        """ Get the maximum rate of change.
+        """
+        return self._max_rate
+
+    @max_rate.setter
+    def max_rate(self, new_max_rate):
+        """ Set the maximum rate of change.
+
+        @param new_max_rate: Maximum rate of change
+        """
+        self._max_rate = new_max_rate
+        self._Ks_cached = None  # Forces recomputing Ks
+
     @DynamicalSystem.x_init.setter
     def x_init(self, new_x_init):
         """ Set the initial state of the dynamical system.
diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index a2e8c3b..858871a 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -512,6 +512,7 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
 void Dmp::set_tau(double tau)
 {
+  double tau_scale = tau / DynamicalSystem::tau();
   DynamicalSystem::set_tau(tau);
 
   // Set value in all relevant subsystems also
@@ -519,6 +520,9 @@ void Dmp::set_tau(double tau)
   if (goal_system_ != NULL) goal_system_->set_tau(tau);
   phase_system_->set_tau(tau);
   gating_system_->set_tau(tau);
+  // The rate of a sigmoid is not relative to tau
+  SigmoidSystem* sigmoid = dynamic_cast<SigmoidSystem*>(gating_system_);
+  if (sigmoid != NULL) sigmoid->set_max_rate(sigmoid->max_rate() / tau_scale);
 }
 
 void Dmp::set_y_init(const Eigen::VectorXd& y_init)
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 6355884..82fe58f 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,13 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_max_rate(double max_rate)
+{
+  max_rate_ = max_rate;
+  double inflection_point_time = inflection_ratio_ * tau();
+  Ks_ = SigmoidSystem::computeKs(x_init(), max_rate_, inflection_point_time);
+}
+
 VectorXd SigmoidSystem::computeKs(const VectorXd& N_0s, double r,
                                   double inflection_point_time_time)
 {
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..666e132 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -64,6 +64,14 @@ class SigmoidSystem : public DynamicalSystem {
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
 
+  /** Get the maximum rate of change. */
+  inline double max_rate(void) const { return max_rate_; }
+
+  /** Set the maximum rate of change.
+   *  \param max_rate Maximum rate of change
+   */
+  void set_max_rate(double max_rate);
+
   /** Read an object from json.
    *  \param[in]  j   json input
    *  \param[out] obj The object read from json
-- 
2.43.0


From b6d298811615892720651c43a769bf58a2b0fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:00 +0000
Subject: [PATCH 30/73] fix: Dmp.states_as_pos_vel_acc accepts several states,
 as documented

---
 dmpbbo/dmps/Dmp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 27bcb17..23293ec 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -553,7 +553,11 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param xd_in:  Derivative of state (n_samples X dim_x)
         @return: positions, velocities and accelerations over time (each n_samples X dim_y)
         """
-        return x_in[self.SPRING_Y], xd_in[self.SPRING_Y], xd_in[self.SPRING_Z] / self._tau
+        return (
+            x_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Z] / self._tau,
+        )
 
     def states_as_trajectory(self, ts, x_in, xd_in):
         """Get the output of a DMP dynamical system as a trajectory.
-- 
2.43.0


From cfeede02f8a3f9e21ad460b7fefe7cef44ecdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:00 +0000
Subject: [PATCH 31/73] fix: DmpWithSchedules can be trained with schedules
 that are not in the trajectory

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..e0bdd5d 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = trajectory.misc if schedules is None else schedules
 
         if targets is None:
             raise ValueError(
-- 
2.43.0


From 9a827177b98b375e0bf8e1b7b989c111bfb22f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:00 +0000
Subject: [PATCH 32/73] fix: DmpWithSchedules keeps all schedules within their
 bounds, also several and those of zero

---
 dmpbbo/dmps/DmpWithSchedules.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index e0bdd5d..0f15bfe 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -139,13 +139,8 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
-        for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
-        return schedules
+        # One bound per schedule, i.e. per entry of a vector or per column of a matrix
+        return np.clip(schedules, self.min_schedules, self.max_schedules)
 
     def integrate_start_sched(self, y_init=None):
         """ Start integrating the DMP with schedules with a new initial state.
-- 
2.43.0


From 990ef3010f346805d7dd2c04731b50c46280e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 33/73] fix: minimum-jerk trajectories whose first time is not
 zero

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..01536b5 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -408,8 +408,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
-- 
2.43.0


From c44bbf4895bce6a6fc8cd588072882e211a661db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 34/73] fix: polynomial trajectories have the velocities and
 accelerations asked for

---
 dmpbbo/dmps/Trajectory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 01536b5..307170b 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -316,6 +316,13 @@ class Trajectory:
         @param ydd_to: Final accelerations
         @return:
         """
+        # The polynomial is a function of the time relative to the duration
+        duration = ts[-1] - ts[0]
+        yd_from = yd_from * duration
+        ydd_from = ydd_from * pow(duration, 2)
+        yd_to = yd_to * duration
+        ydd_to = ydd_to * pow(duration, 2)
+
         a0 = y_from
         a1 = yd_from
         a2 = ydd_from / 2
-- 
2.43.0


From d8566f4a25cdbd0f6eb58c544dfdd5d49718e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 35/73] fix: viapoint trajectories pass the viapoint once, at
 the times asked for

---
 dmpbbo/dmps/Trajectory.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 307170b..84c738e 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -370,6 +370,8 @@ class Trajectory:
         viapoint_time_step = 0
         while viapoint_time_step < n_time_steps and ts[viapoint_time_step] < viapoint_time:
             viapoint_time_step += 1
+        if not 0 < viapoint_time_step < n_time_steps - 1:
+            raise ValueError("viapoint_time must lie between the first and the last time step")
 
         yd_from = np.zeros(n_dims)
         ydd_from = np.zeros(n_dims)
@@ -382,7 +384,7 @@ class Trajectory:
         ydd_to = np.zeros(n_dims)
 
         traj1 = Trajectory.from_polynomial(
-            ts[:viapoint_time_step],
+            ts[: viapoint_time_step + 1],
             y_from,
             yd_from,
             ydd_from,
@@ -395,9 +397,13 @@ class Trajectory:
             ts[viapoint_time_step:], y_viapoint, yd_viapoint, ydd_viapoint, y_to, yd_to, ydd_to
         )
 
-        traj1.append(traj2)
-
-        return traj1
+        # The sample at the viapoint is the last one of traj1 and the first one of traj2
+        return cls(
+            ts,
+            np.concatenate((traj1.ys[:-1], traj2.ys)),
+            np.concatenate((traj1.yds[:-1], traj2.yds)),
+            np.concatenate((traj1.ydds[:-1], traj2.ydds)),
+        )
 
     @classmethod
     def from_min_jerk(cls, ts, y_from, y_to):
-- 
2.43.0


From 253e683f2c86c6a1e656bc7816d0adac3242de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 36/73] fix: derivatives of trajectories with less than three
 time steps

---
 dmpbbo/dmps/Trajectory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 84c738e..3c93196 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -602,6 +602,13 @@ def diffnc(xs, dt):
     """
 
     (n_samples, n_dims) = xs.shape
+    if n_samples < 3:
+        # Too few samples for central differences
+        xds = np.zeros([n_samples, n_dims])
+        if n_samples == 2:
+            xds[:, :] = (xs[1, :] - xs[0, :]) / dt
+        return xds
+
     fil = np.array([1.0, 0.0, -1.0]) / 2 / dt
     xs2 = np.empty([n_samples + 2, n_dims])
     for i_dim in range(n_dims):
-- 
2.43.0


From b6ad3f21150786374c03d393e0bb91cb67d99986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 37/73] fix: trajectories with misc variables given as a vector
 can be cropped and appended

---
 dmpbbo/dmps/Trajectory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 3c93196..8e6d526 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -56,6 +56,8 @@ class Trajectory:
         if misc is not None:
             if n_time_steps != misc.shape[0]:
                 raise ValueError("misc.shape[0] must have size {n_time_steps}")
+            if misc.ndim == 1:
+                misc = misc.reshape((n_time_steps, 1))
 
         self._dim = 1
         if ys.ndim == 2:
@@ -150,6 +152,8 @@ class Trajectory:
     def misc(self, new_misc):
         if new_misc.shape[0] != self.length:
             raise ValueError("new_misc.shape[0] must have size {self.length}")
+        if new_misc.ndim == 1:
+            new_misc = new_misc.reshape((self.length, 1))
         self._misc = new_misc
 
     def has_misc(self):
-- 
2.43.0


From f6907d04b5103360ef36e48984836f61ef2f229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 38/73] fix: cropping a trajectory beyond its end does not
 remove the last time step

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 8e6d526..56b06a3 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -271,9 +271,9 @@ class Trajectory:
                 # Get first index when time is larger than 'start'
                 start = np.argmax(self._ts >= start)
 
-            if end >= self._ts[-1]:
+            if end > self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From 34c72bcba492b16321253b2a77cb097cfc0c441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:45 +0000
Subject: [PATCH 39/73] fix: appending and prepending trajectories that start
 at any time, with and without misc

---
 dmpbbo/dmps/Trajectory.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 56b06a3..68e1dc4 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -451,14 +451,8 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + self._dt_mean)
-        self._ts = np.concatenate((self._ts, ts_appended))
-        self._ys = np.concatenate((self._ys, trajectory.ys))
-        self._yds = np.concatenate((self._yds, trajectory.yds))
-        self._ydds = np.concatenate((self._ydds, trajectory.ydds))
-        if self._misc is None or trajectory.misc is None:
-            self._misc = None
-        else:
-            self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._concatenate(self, trajectory, np.concatenate((self._ts, ts_appended)))
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -466,16 +460,18 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
-        self._ts = np.concatenate((trajectory.ts, self._ts))
-        self._ys = np.concatenate((trajectory.ys, self._ys))
-        self._yds = np.concatenate((trajectory.yds, self._yds))
-        self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-        if self._misc is None or trajectory.misc is None:
-            self._misc = None
-        else:
-            self._misc = np.concatenate((trajectory.misc, self._misc))
+        ts_shifted = (self._ts - self._ts[0]) + (trajectory.ts[-1] + trajectory.dt_mean)
+        self._concatenate(trajectory, self, np.concatenate((trajectory.ts, ts_shifted)))
+
+    def _concatenate(self, first, second, ts):
+        # Concatenate everything before changing anything, in case the dimensions do not match
+        ys = np.concatenate((first.ys, second.ys))
+        yds = np.concatenate((first.yds, second.yds))
+        ydds = np.concatenate((first.ydds, second.ydds))
+        misc = None
+        if first.has_misc() and second.has_misc():
+            misc = np.concatenate((first.misc, second.misc))
+        self._ts, self._ys, self._yds, self._ydds, self._misc = ts, ys, yds, ydds, misc
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From ba8367020e12d346dc82fc056f650fbb348dc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:04 +0000
Subject: [PATCH 40/73] fix: dt_mean of a trajectory, also used for its
 derivatives, follows its time steps

---
 dmpbbo/dmps/Trajectory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 68e1dc4..0c2a373 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -284,6 +284,12 @@ class Trajectory:
         self._ydds = self._ydds[start:end, :]
         if self._misc is not None:
             self._misc = self._misc[start:end, :]
+        self._update_dt_mean()
+
+    def _update_dt_mean(self):
+        # With less than two time steps, there is no dt: keep the previous one.
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
 
     def pad_front(self, n_padding=100):
         ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
@@ -472,6 +478,7 @@ class Trajectory:
         if first.has_misc() and second.has_misc():
             misc = np.concatenate((first.misc, second.misc))
         self._ts, self._ys, self._yds, self._ydds, self._misc = ts, ys, yds, ydds, misc
+        self._update_dt_mean()
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From f33c89c931d423eed134f96b40d058673f28d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:04 +0000
Subject: [PATCH 41/73] fix: padding a trajectory adds the number of time steps
 asked for, and keeps misc variables

---
 dmpbbo/dmps/Trajectory.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 0c2a373..cabc4a3 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -292,26 +292,22 @@ class Trajectory:
             self._dt_mean = np.mean(np.diff(self._ts))
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
-        ys_padding = np.tile(self.y_init, (n_padding, 1))
-        prepend_traj = Trajectory(
-            ts_padding,
-            ys_padding,
-            np.zeros((n_padding, self.yds.shape[1])),
-            np.zeros((n_padding, self.ydds.shape[1])),
-        )
-        self.prepend(prepend_traj)
+        self.prepend(self._padding(n_padding, 0))
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
-        ys_padding = np.tile(self.y_final, (n_padding, 1))
-        append_traj = Trajectory(
-            ts_padding,
-            ys_padding,
+        self.append(self._padding(n_padding, -1))
+
+    def _padding(self, n_padding, i_row):
+        # A trajectory that rests at row i_row
+        padding = Trajectory(
+            self._dt_mean * np.arange(n_padding),
+            np.tile(self._ys[i_row], (n_padding, 1)),
             np.zeros((n_padding, self.yds.shape[1])),
             np.zeros((n_padding, self.ydds.shape[1])),
+            np.tile(self._misc[i_row], (n_padding, 1)) if self.has_misc() else None,
         )
-        self.append(append_traj)
+        padding._dt_mean = self._dt_mean
+        return padding
 
     @classmethod
     def from_polynomial(cls, ts, y_from, yd_from, ydd_from, y_to, yd_to, ydd_to):
-- 
2.43.0


From cf83ceb02a10d56d19285bbcec1924de348aeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:04 +0000
Subject: [PATCH 42/73] fix: trajectories with one time step can be loaded

---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index cabc4a3..d1f5583 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -520,7 +520,7 @@ class Trajectory:
         @param n_dims_misc: The number of miscellaneous variables in the trajectory. This needs
         to be specified, because it cannot be stored in the matrix.
         """
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
 
         (n_time_steps, n_cols) = data.shape
         n_dims = (n_cols - 1 - n_dims_misc) // 3
-- 
2.43.0


From 72de0e59173899e301bbd82782bd801496a3c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:50 +0000
Subject: [PATCH 43/73] fix: coefficients of polynomial trajectories with an
 initial acceleration

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index d1f5583..674e630 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -333,8 +333,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
-- 
2.43.0


From 36791c5cc68c5cb73eb06b00a887bd90bee1be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:10 +0000
Subject: [PATCH 44/73] fix: minimum-jerk trajectories in C++ whose first time
 is not zero

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..821b6a6 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From 560710fe6c3931002380b8187db06ff2a0491c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:10 +0000
Subject: [PATCH 45/73] fix: polynomial trajectories in C++ have the velocities
 and accelerations asked for

---
 src/dmp/Trajectory.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 821b6a6..ab3cf55 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -172,18 +172,25 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
 }
 
 Trajectory Trajectory::generatePolynomialTrajectory(
-    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_from,
-    const VectorXd& ydd_from, const VectorXd& y_to, const VectorXd& yd_to,
-    const VectorXd& ydd_to)
+    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_from_abs,
+    const VectorXd& ydd_from_abs, const VectorXd& y_to,
+    const VectorXd& yd_to_abs, const VectorXd& ydd_to_abs)
 {
+  // The polynomial is a function of the time relative to the duration
+  double duration = ts[ts.size() - 1] - ts[0];
+  VectorXd yd_from = yd_from_abs * duration;
+  VectorXd ydd_from = ydd_from_abs * pow(duration, 2);
+  VectorXd yd_to = yd_to_abs * duration;
+  VectorXd ydd_to = ydd_to_abs * pow(duration, 2);
+
   VectorXd a0 = y_from;
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
                 4 * yd_to + 0.5 * ydd_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
+      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
   VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
                 3 * yd_to + 0.5 * ydd_to;
 
-- 
2.43.0


From 1aa93e7572298ab30d66f088910c1299a536d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:37 +0000
Subject: [PATCH 46/73] fix: DmpContextualTwoStep.dim_dmp returns a number

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..e8d4b56 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From adfd60872181b143aaee7c1ae54c45ccf26b23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:37 +0000
Subject: [PATCH 47/73] fix: DmpContextualTwoStep accepts task parameters that
 are numbers or vectors

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index e8d4b56..8946c00 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -169,9 +169,11 @@ class DmpContextualTwoStep(DynamicalSystem):
         return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
+        # One sample, as for training
+        inputs = np.atleast_1d(task_params).reshape((1, -1))
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
         for i_param, fa in enumerate(self.ppf):
-            dmp_params[i_param] = fa.predict(task_params)
+            dmp_params[i_param] = np.ravel(fa.predict(inputs))[0]
         self.dmp.set_param_vector(dmp_params)
 
     def analytical_solution(self, task_params, ts=None, suppress_forcing_term=False):
@@ -187,13 +189,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         """
 
         # Predict dmp parameters from task parameters using the ppf
-        n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
-        for i_param in range(n_params):
-            param_vector[i_param] = self.ppf[i_param].predict(task_params)
-
-        # Set the dmp parameters
-        self.dmp.set_param_vector(param_vector)
+        self.set_task_params(task_params)
 
         return self.dmp.integrate_start(y_init)
 
-- 
2.43.0


From f2c3c028751af3a325ec0b7cab936ac8cdcc3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:37 +0000
Subject: [PATCH 48/73] fix: tau and initial state of a DmpContextualTwoStep
 are those of its DMP

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 8946c00..f5d4999 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -165,6 +165,33 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         return dmp_contextual
 
+    @property
+    def tau(self):
+        """ Get the time constant of the DMP. """
+        return self.dmp.tau
+
+    @tau.setter
+    def tau(self, new_tau):
+        self.dmp.tau = new_tau
+
+    @property
+    def x_init(self):
+        """ Get the initial state of the DMP. """
+        return self.dmp.x_init
+
+    @x_init.setter
+    def x_init(self, new_x_init):
+        self.dmp.x_init = new_x_init
+
+    @property
+    def y_init(self):
+        """ Get the y part of the initial state of the DMP. """
+        return self.dmp.y_init
+
+    @y_init.setter
+    def y_init(self, new_y_init):
+        self.dmp.y_init = new_y_init
+
     def dim_dmp(self):
         return self.dmp.dim_dmp()
 
-- 
2.43.0


From 15c01674854d8cd5a81999497d0ca4677e22bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:37 +0000
Subject: [PATCH 49/73] fix: DmpContextualTwoStep.from_dmp does not change the
 selected parameters of the DMP passed

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f5d4999..5b6ce7b 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -159,7 +159,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         fas = dmp._function_approximators  # noqa
         dmp_contextual = cls(dmp.tau, dmp.y_init, dmp.y_attr, fas)
         # Replace the dmp that was constructed in the above by the one that was passed.
-        dmp_contextual.dmp = dmp
+        dmp_contextual.dmp = copy.deepcopy(dmp)
 
         dmp_contextual.train(task_params_and_trajs, param_names, ppf_function_app, **kwargs)
 
-- 
2.43.0


From 067b5f95542057c64b24c42d7a3794a2a6fd1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 50/73] fix: SigmoidSystem (C++) adapts its carrying capacity
 when y_init changes

---
 src/dynamicalsystems/SigmoidSystem.cpp | 5 +++++
 src/dynamicalsystems/SigmoidSystem.hpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 82fe58f..2f680ac 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,11 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_y_init(const Ref<const VectorXd>& y_init)
+{
+  set_x_init(y_init);
+}
+
 void SigmoidSystem::set_max_rate(double max_rate)
 {
   max_rate_ = max_rate;
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index 666e132..1dd99b5 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,7 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Get the maximum rate of change. */
   inline double max_rate(void) const { return max_rate_; }
-- 
2.43.0


From c91b099b5d47f16db5bf1694a95a598c596483b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 51/73] fix: SpringDamperSystem (C++) reads the initial
 velocities from json

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index 48a2822..f658bd0 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -176,6 +176,7 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
                                spring_constant, mass);
+  obj->set_x_init(x_init);  // Also the initial velocities
 }
 
 void SpringDamperSystem::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 4da528d470e461282df31188437bd0dc6f1e5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 52/73] fix: DMPs without a goal system can be read from json
 (C++)

---
 src/dmp/Dmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 858871a..b6b2405 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -559,9 +559,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   // from_json(j.at("_y_init"), y_init);
   // from_json(j.at("_y_attr"), y_attr);
 
-  ExponentialSystem* goal_system;
+  ExponentialSystem* goal_system = NULL;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
-- 
2.43.0


From 272feafd019309cb91b614173e0ddc38793a1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 53/73] fix: DMPs without function approximators can be
 integrated (C++)

---
 src/dmp/Dmp.cpp | 11 ++++++++---
 src/dmp/Dmp.hpp |  8 ++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index b6b2405..3703574 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -307,9 +307,13 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
 
   // Compute output of the funciton approximators
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
-    function_approximators_[i_dim]->predictRealTime(x.PHASE,
-                                                    fa_output_one_prealloc_);
-    fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
+    if (has_function_approximator(i_dim)) {
+      function_approximators_[i_dim]->predictRealTime(x.PHASE,
+                                                      fa_output_one_prealloc_);
+      fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
+    } else {
+      fa_output_prealloc_(0, i_dim) = 0.0;
+    }
   }
 
   // Gate the output of the function approximators
@@ -420,6 +424,7 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (!has_function_approximator(i_dim)) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..555fee1 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -415,6 +415,14 @@ class Dmp : public DynamicalSystem {
    */
   std::vector<FunctionApproximator*> function_approximators_;
 
+  /** Is there a function approximator for this dimension?
+   * \param[in] i_dim Dimension
+   */
+  inline bool has_function_approximator(int i_dim) const
+  {
+    return !function_approximators_.empty() && function_approximators_[i_dim];
+  }
+
   /** How is the forcing term scaled? */
   std::string forcing_term_scaling_;
 
-- 
2.43.0


From e274e3036ad9cd7792d8482cc3b34699a63da845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 54/73] fix: DMPs use the spring constant and mass of their
 spring system (C++)

---
 src/dmp/Dmp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 3703574..4f40d18 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -472,8 +472,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   // THE REST CANNOT BE DONE ANALYTICALLY
 
   // Reset the dynamical system, and get the first state
-  double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(
+      tau(), y_init(), y_attr_, spring_system_->damping_coefficient(),
+      spring_system_->spring_constant(), spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
@@ -588,6 +589,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+
+  const auto& jspring = j.at("_spring_system");
+  obj->spring_system_->set_spring_constant(jspring.at("spring_constant"));
+  obj->spring_system_->set_mass(jspring.at("mass"));
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 912da7f5d76cd3e10b169c8aeb0e9d42b8a1c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 55/73] fix: the initial state of a DMP can be set through its
 base class (C++)

---
 src/dmp/Dmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 555fee1..9f93500 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -355,7 +355,7 @@ class Dmp : public DynamicalSystem {
    */
   inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
   {
-    set_x_init(y_init);
+    set_y_init(Eigen::VectorXd(y_init));
   }
 
   /** Read an object from json.
-- 
2.43.0


From 6e9b1c44546afa3071752636aabedbd6c78833fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 56/73] fix: get_y_init of a DMP does not allocate, as it is
 called by differentialEquation (C++)

---
 src/dmp/Dmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 9f93500..4b6e1a5 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -347,7 +347,7 @@ class Dmp : public DynamicalSystem {
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
     // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    DynamicalSystem::get_y_init(y_init);  // No copy of the entire state
   }
 
   /** Set the initial state of the dynamical system.
-- 
2.43.0


From 4840d363ae979d1630774fd2c97c8032157eb7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 57/73] fix: every constructor of Dmp makes room for the states
 of the subsystems (C++)

---
 src/dmp/Dmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 4f40d18..7fccd7c 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
-- 
2.43.0


From 420ca54176cfa9556da84d63be016b85a3a45cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:57 +0000
Subject: [PATCH 58/73] fix: DMPs constructed in C++ have the gating system
 that those in Python have

---
 src/dmp/Dmp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 7fccd7c..17c35e1 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -175,7 +175,12 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    // Decays from 1.0 to 0.1 at time tau (see SigmoidSystem.for_gating in Python)
+    double d = 1.0e-6;
+    double max_rate = -log(((1.0 + d) / 0.1 - 1.0) / d) / tau();
+    double inflection_ratio = log(d) / (max_rate * tau());
+    gating_system =
+        new SigmoidSystem(tau(), one_1, max_rate, inflection_ratio);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From 74fdb669f1558f62284b62a677ffdc3d4069ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:17 +0000
Subject: [PATCH 59/73] fix: saving a matrix in a directory (C++) returns
 whether it was saved

---
 src/eigenutils/eigen_file_io.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..382527a 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -93,9 +93,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
-- 
2.43.0


From a7e85b0ab7e43a84f0a99202ddfbb34ab5287146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 60/73] fix: saved training data is a copy, and that of the
 last training

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index bd2a100..b69146d 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -51,8 +51,13 @@ class FunctionApproximator(Parameterizable):
         self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)
         self._dim_input = inputs.shape[1]
         if kwargs.get("save_training_data", False):
-            self._inputs_training = inputs
-            self._targets_training = targets
+            # Copies, because the arrays that were passed may change afterwards
+            self._inputs_training = np.array(inputs)
+            self._targets_training = np.array(targets)
+        else:
+            # Data saved for a previous training is not the data of this training
+            self._inputs_training = None
+            self._targets_training = None
         return self._model_params
 
     def predict(self, inputs):
-- 
2.43.0


From 47a542e1aec26d14b60d15490bb768ee7766b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 61/73] fix: plotting predictions without targets, or for other
 inputs than those for training

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index b69146d..7d2aacf 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -283,7 +283,8 @@ class FunctionApproximator(Parameterizable):
         @param inputs: The input samples (n_samples X n_input_dims )
         @return: line handles and axis
         """
-        targets = kwargs.get("targets", [])
+        targets = kwargs.get("targets", None)
+        targets = [] if targets is None else targets
         ax = kwargs.get("ax") or self._get_axis()
         plot_residuals = kwargs.get("plot_residuals", True)
 
@@ -334,6 +335,7 @@ class FunctionApproximator(Parameterizable):
         @param inputs: The input samples (n_samples X n_input_dims )
         @return: line handles and axis
         """
+        targets = kwargs.get("targets", None)
         if inputs is None:
             if self._inputs_training is None:
                 print(
@@ -344,9 +346,10 @@ class FunctionApproximator(Parameterizable):
             else:
                 # Plot for the inputs that were used for training
                 inputs = self._inputs_training
+                if targets is None:
+                    targets = self._targets_training
 
         ax = kwargs.get("ax") or self._get_axis()
-        targets = kwargs.get("targets", self._targets_training)
         plot_residuals = kwargs.get("plot_residuals", True)
         plot_model_parameters = kwargs.get("plot_model_parameters", False)
 
-- 
2.43.0


From e36fa4b1ca7383cac57dae4861e1c1676b9a50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 62/73] fix: plotting a learning curve leaves the list of
 labels as it is, and the legend is in its axis

---
 dmpbbo/bbo/LearningSession.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 7d21b5d..46aa17d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -111,8 +111,7 @@ def plot_learning_curve(learning_curve, **kwargs):
     ax.set_title("Learning curve")
 
     if cost_labels is not None:
-        cost_labels.insert(0, "total cost")
-        plt.legend(lines, cost_labels)
+        ax.legend(lines, ["total cost"] + list(cost_labels))
 
     plot_update_lines(samples_eval, ax)
 
-- 
2.43.0


From c946ae546994a9bb4661bed88174b107bd7cd856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 63/73] fix: sessions without a task can be plotted

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index 27ecf2a..21fee0a 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -135,7 +135,7 @@ class LearningSessionTask(LearningSession):
         plot_eval = kwargs.get("plot_eval", True)
         plot_samples = kwargs.get("plot_samples", False)
 
-        task = self.ask("task")
+        task = self.ask("task") if self.exists("task") else None
         lines_eval = []
         if plot_eval and self.exists("cost_vars", i_update, "eval"):
             cost_vars = self.ask("cost_vars", i_update, "eval")
-- 
2.43.0


From ed3d215fce006146ee6d4f3a239b8d8e991ea224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 64/73] fix: plotting a contextual DMP leaves the DMP as it is

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 5b6ce7b..4884498 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -270,15 +270,16 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         hs = []
         cmap = cm.copper  # noqa
-        prev_tau = self.dmp.tau
+        # A copy, so that plotting does not change the DMP
+        contextual = copy.deepcopy(self)
         for task_param, traj_demo in task_params_and_trajs:
 
-            self.dmp.tau = traj_demo.duration
-            self.dmp.y_init = traj_demo.y_init
-            self.dmp.y_attr = traj_demo.y_final
-            self.set_task_params(np.array([task_param]))
+            contextual.dmp.tau = traj_demo.duration
+            contextual.dmp.y_init = traj_demo.y_init
+            contextual.dmp.y_attr = traj_demo.y_final
+            contextual.set_task_params(np.array([task_param]))
 
-            h, _ = self.dmp.plot(ts, axs=axs, plot_no_forcing_term_also=True)
+            h, _ = contextual.dmp.plot(ts, axs=axs, plot_no_forcing_term_also=True)
 
             tp = np.atleast_1d(task_param)
             scaled = (tp[0] - tp_min[0]) / (tp_max[0] - tp_min[0])
@@ -288,8 +289,6 @@ class DmpContextualTwoStep(DynamicalSystem):
             hs.extend(h)
 
             for ax in axs:
-                ax.axvline(self.dmp.tau, color=color, linewidth=1)
-
-        self.dmp.tau = prev_tau
+                ax.axvline(contextual.dmp.tau, color=color, linewidth=1)
 
         return hs, axs
-- 
2.43.0


From c08966117646618921b03617afa703918a8364d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:04 +0000
Subject: [PATCH 65/73] fix: plotting policy parameter functions, for any
 number of parameters and inputs

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 4884498..29f89c9 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -236,12 +236,14 @@ class DmpContextualTwoStep(DynamicalSystem):
         axs = kwargs.get("axs", None)
         if axs is None:
             n_rows = int(np.ceil(np.sqrt(len(self.ppf))))
-            _, axs = plt.subplots(n_rows, n_rows)
+            kw_3d = {"projection": "3d"} if self.ppf[0].dim_input() == 2 else None
+            _, axs = plt.subplots(n_rows, n_rows, squeeze=False, subplot_kw=kw_3d)
             axs = axs.flatten()
         hs = []
         for i_param, fa in enumerate(self.ppf):
             h, _ = fa.plot(ax=axs[i_param], **kwargs)
-            hs.extend(h)
+            if h is not None:  # None if there was nothing to plot
+                hs.extend(h if isinstance(h, list) else [h])
         return hs, axs
 
     def plot(self, task_params_and_trajs, **kwargs):
-- 
2.43.0


From 3711e3ddaa162e896cab7faf1d92cff2e2d4a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:56 +0000
Subject: [PATCH 66/73] fix: rates of a RichardsSystem that starts at the
 attractor up to rounding are 0, not NaN

---
 dmpbbo/dynamicalsystems/RichardsSystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index 2e8144f..a0d1422 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -100,8 +100,9 @@ class RichardsSystem(DynamicalSystem):
             # https://en.wikipedia.org/wiki/Generalised_logistic_function
             a = left_asymp if np.isscalar(left_asymp) else left_asymp[dd]
             k = self.right_asymp if np.isscalar(self.right_asymp) else self.right_asymp[dd]
-            if k == a:
-                xs[:, dd] = k  # No range: the system is and stays at the attractor.
+            if k == a or self.x_init[dd] == a:
+                # No range (or one smaller than the rounding of the initial state): no movement.
+                xs[:, dd] = self.x_init[dd]
                 continue
             q = -1 + np.power((k - a) / (self.x_init[dd] - a), v)
 
-- 
2.43.0


From acf9f7b3c4a662437e6a37b9c02c6509ebccf854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:22 +0000
Subject: [PATCH 67/73] fix: Load matrices from text files with trailing white
 space, blank lines, comments; refuse what is not a matrix

---
 src/eigenutils/eigen_file_io.tpp | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 382527a..1a2ca54 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -48,17 +48,40 @@ inline bool loadMatrix(
 
   std::vector<Scalar> v;
   int n_rows = 0;
+  int n_cols = 0;
   while (getline(input, line)) {
-    ++n_rows;
-    std::stringstream input_line(line);
-    while (!input_line.eof()) {
-      input_line >> d;
+    // As in numpy, text after '#' is a comment
+    std::stringstream input_line(line.substr(0, line.find('#')));
+    int n_numbers = 0;
+    while (input_line >> d) {
       v.push_back(d);
+      n_numbers++;
     }
+    if (!input_line.eof()) {
+      std::cerr << "ERROR. Not a number in file '" << filename << "': '" << line
+                << "'" << std::endl;
+      return false;
+    }
+    if (n_numbers == 0) continue;  // Nothing on this line
+    if (n_rows > 0 && n_numbers != n_cols) {
+      std::cerr << "ERROR. Rows of different lengths in file '" << filename
+                << "'." << std::endl;
+      return false;
+    }
+    n_cols = n_numbers;
+    n_rows++;
   }
   input.close();
 
-  int n_cols = v.size() / n_rows;
+  if (ColsAtCompileTime != Eigen::Dynamic) {
+    if (n_rows > 0 && n_cols != ColsAtCompileTime) {
+      std::cerr << "ERROR. Expected " << ColsAtCompileTime
+                << " column(s) in file '" << filename << "', but found "
+                << n_cols << "." << std::endl;
+      return false;
+    }
+    n_cols = ColsAtCompileTime;
+  }
   m = Eigen::Matrix<Scalar, RowsAtCompileTime, ColsAtCompileTime>(n_rows,
                                                                   n_cols);
 
-- 
2.43.0


From 2eefe67e03065e1d2a505d1a32ec85a2b4149d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:14 +0000
Subject: [PATCH 68/73] fix: Normalize activations of Gaussians with
 covariances row by row

---
 src/functionapproximators/BasisFunction.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/functionapproximators/BasisFunction.cpp b/src/functionapproximators/BasisFunction.cpp
index bc2297b..573e6ac 100644
--- a/src/functionapproximators/BasisFunction.cpp
+++ b/src/functionapproximators/BasisFunction.cpp
@@ -93,10 +93,13 @@ void Gaussian::activations(const std::vector<Eigen::VectorXd>& mus,
     MatrixXd sum_kernel_activations =
         kernel_activations.rowwise().sum();  // n_samples x 1
 
-    // Add small number to avoid division by zero. Not full-proof...
-    if ((sum_kernel_activations.array() == 0).any())
-      sum_kernel_activations.array() +=
-          sum_kernel_activations.maxCoeff() / 100000.0;
+    for (int tt = 0; tt < n_samples; tt++) {
+      if (sum_kernel_activations(tt) == 0.0) {
+        // Apparently, no basis function was active. Set all to same value
+        kernel_activations.row(tt).fill(1.0);
+        sum_kernel_activations(tt) = n_basis_functions;
+      }
+    }
 
     // Normalize for each row (each value in input_vector)
     kernel_activations =
-- 
2.43.0


From c09f3bbca82da3505bc35be7fdc74af45453a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:57 +0000
Subject: [PATCH 69/73] fix: tables read from a session's directory have the
 numbers that were saved

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 46aa17d..a9077ec 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -377,7 +377,7 @@ class LearningSession:
                     obj = jsonpickle.decode(f.read())
 
             elif os.path.isfile(f"{abs_basename}.csv"):
-                obj = pd.read_csv(f"{abs_basename}.csv")
+                obj = pd.read_csv(f"{abs_basename}.csv", float_precision="round_trip")
 
             elif os.path.isfile(f"{abs_basename}.txt"):
                 obj = LearningSession._load_array(f"{abs_basename}.txt")
-- 
2.43.0


From 2b69dc93b345138c8fbe0993b3fd50d6439e5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:18 +0000
Subject: [PATCH 70/73] fix: TimeSystem::analyticalSolution for times that are
 not in ascending order (C++)

---
 src/dynamicalsystems/TimeSystem.cpp | 35 ++++++++++-------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/dynamicalsystems/TimeSystem.cpp b/src/dynamicalsystems/TimeSystem.cpp
index 12cb30a..174ec85 100644
--- a/src/dynamicalsystems/TimeSystem.cpp
+++ b/src/dynamicalsystems/TimeSystem.cpp
@@ -84,29 +84,18 @@ void TimeSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   xs.resize(n_time_steps, dim());
   xds.resize(n_time_steps, dim());
 
-  // Find first index at which the time is larger than tau. Then velocities
-  // should be set to zero.
-  int velocity_stop_index = -1;
-  int i = 0;
-  while (velocity_stop_index < 0 && i < ts.size())
-    if (ts[i++] > tau()) velocity_stop_index = i - 1;
-
-  if (velocity_stop_index < 0) velocity_stop_index = ts.size();
-
-  if (count_down_) {
-    xs.topRows(velocity_stop_index) =
-        (-ts.segment(0, velocity_stop_index).array() / tau()).array() + 1.0;
-    xs.bottomRows(xs.size() - velocity_stop_index).fill(0.0);
-
-    xds.topRows(velocity_stop_index).fill(-1.0 / tau());
-    xds.bottomRows(xds.size() - velocity_stop_index).fill(0.0);
-  } else {
-    xs.topRows(velocity_stop_index) =
-        ts.segment(0, velocity_stop_index).array() / tau();
-    xs.bottomRows(xs.size() - velocity_stop_index).fill(1.0);
-
-    xds.topRows(velocity_stop_index).fill(1.0 / tau());
-    xds.bottomRows(xds.size() - velocity_stop_index).fill(0.0);
+  // When the time is larger than tau, the state no longer changes. This is
+  // determined for each time separately, as times need not be in ascending
+  // order.
+  for (int i = 0; i < n_time_steps; i++) {
+    bool stopped = ts[i] > tau();
+    if (count_down_) {
+      xs(i, 0) = stopped ? 0.0 : 1.0 - ts[i] / tau();
+      xds(i, 0) = stopped ? 0.0 : -1.0 / tau();
+    } else {
+      xs(i, 0) = stopped ? 1.0 : ts[i] / tau();
+      xds(i, 0) = stopped ? 0.0 : 1.0 / tau();
+    }
   }
 
   if (caller_expects_transposed) {
-- 
2.43.0


From 33ff35578505dd46dfa5e69472cc1ed4f46d3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:10 +0000
Subject: [PATCH 71/73] fix: rollouts have the time step asked for, also if the
 duration is a multiple of it up to rounding

---
 dmpbbo/bbo_of_dmps/TaskSolverDmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/TaskSolverDmp.py b/dmpbbo/bbo_of_dmps/TaskSolverDmp.py
index a53e38a..f2aa9bf 100644
--- a/dmpbbo/bbo_of_dmps/TaskSolverDmp.py
+++ b/dmpbbo/bbo_of_dmps/TaskSolverDmp.py
@@ -31,7 +31,8 @@ class TaskSolverDmp(TaskSolver):
     def __init__(self, dmp, dt, integrate_dmp_beyond_tau_factor, return_dataframe=False):
         self._dmp = copy.deepcopy(dmp)
         self._integrate_time = dmp.tau * integrate_dmp_beyond_tau_factor
-        self._n_time_steps = int(np.floor(self._integrate_time / dt)) + 1
+        # Rounding errors should not drop the last time step, e.g. 0.6/0.1 = 5.999...
+        self._n_time_steps = int(np.floor(self._integrate_time / dt + 1e-9)) + 1
         self._return_dataframe = return_dataframe
 
     def perform_rollout_dmp(self, dmp):
-- 
2.43.0


From 6e20ab7b7a446edf998150e93316ff9d9659d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 72/73] fix: the simulated ball does not change the
 accelerations of the hand (demos/robot)

---
 demos/robot/TaskThrowBall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/robot/TaskThrowBall.py b/demos/robot/TaskThrowBall.py
index c4416fe..cf172bd 100644
--- a/demos/robot/TaskThrowBall.py
+++ b/demos/robot/TaskThrowBall.py
@@ -138,7 +138,7 @@ def run_python_simulation(dmp, y_floor=-0.3):
             # If the ball is in your hand, it moves along with your hand
             ys_ball[ii, :] = ys[ii, :]
             yd_ball = yds[ii, :]
-            ydd_ball = ydds[ii, :]  # noqa
+            ydd_ball = ydds[ii, :].copy()  # noqa
 
             if ts[ii] > 0.6:
                 # Release the ball to throw it!
-- 
2.43.0


From e44fa30f53f43e1c337cf0fb03c1093fbdefdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 73/73] fix: rates of sigmoid systems are not NaN long after
 the end

---
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 3 ++-
 src/dynamicalsystems/SigmoidSystem.cpp   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 93a3d05..c9a9e39 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -162,7 +162,8 @@ class SigmoidSystem(DynamicalSystem):
             K = Ks[dd]  # noqa
             b = (K / self._x_init[dd]) - 1
             xs[:, dd] = K / (1 + b * exp_rt)
-            xds[:, dd] = np.multiply((K * r * b) / np.square(1.0 + b * exp_rt), exp_rt)
+            # The rate r*x*(1-x/K), written such that exp_rt may be too large for a double.
+            xds[:, dd] = r * xs[:, dd] * (b / (b + np.exp(r * ts)))
 
         return xs, xds
 
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 2f680ac..29060fc 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -163,9 +163,11 @@ void SigmoidSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
     double b = (K / y_init[dd]) - 1;
 
     xs.block(0, dd, n_time_steps, 1) = K / (1 + b * exp_rt.array());
+    // The rate r*x*(1-x/K), written such that exp_rt may be too large for a
+    // double.
     xds.block(0, dd, n_time_steps, 1) =
-        K * r * b * ((1 + b * exp_rt.array()).square().inverse().array()) *
-        exp_rt.array();
+        r * xs.block(0, dd, n_time_steps, 1).array() *
+        (b / (b + (r * ts).array().exp()));
   }
 
   if (caller_expects_transposed) {
-- 
2.43.0

