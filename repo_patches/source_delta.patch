From 2d1d63a0b5577de0580c8879028299135afe8501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:09 +0000
Subject: [PATCH 01/92] fix: before_next_day callbacks also fire at the end of
 a month

The day of the month was compared with '>', so a step from the last day of
a month to the 1st never called on_before_next_day (and the CREST climate,
which refreshes its daily profiles there, stopped with StopIteration).
---
 demod/simulators/base_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..b242b4d 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.day != self.current_time.day:
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -986,7 +986,7 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        if (self.current_time + self.step_size).day != self.current_time.day:
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
-- 
2.43.0


From bcf6329da8850a9e8aa912b0b9863dcd27b7a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 02/92] fix: a copied SimLogger is empty, so its length is 0

---
 demod/simulators/base_simulators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index b242b4d..aa38513 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -209,9 +209,7 @@ class SimLogger():
         Returns:
             An empty logger with the same attributes.
         """
-        new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
-        return new_logger
+        return SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
         """Visit a simulator object
-- 
2.43.0


From 21da72c847abca15351085a01e814ab400dd1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 03/92] fix: Markov chain states exist before the
 initialization steps and the logger need them

---
 demod/simulators/activity_simulators.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..b0b7b99 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,22 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
+        self._initialize_current_states(starting_state_pdf, checkcdf)
+        # The state is ready: runs the initialization steps and the logger
         super().initialize_starting_state(start_time_step=start_time_step)
+
+    def _initialize_current_states(
+            self, starting_state_pdf: np.ndarray,
+            checkcdf: bool = True) -> None:
+        """Draw the starting states and set the TPMs.
+
+        Parameters:
+            starting_state_pdf:
+                An array containing the pdf for each of the state at the
+                    time 0.
+            checkcdf:
+                Whether to check that the pdf and the tpms are valid.
+        """
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -389,17 +404,17 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             AssertionError
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(
-            starting_state_pdf,
-            start_time_step=start_time_step,
-            checkcdf=checkcdf,
-        )
+        self._initialize_current_states(starting_state_pdf, checkcdf)
         # Adds the time based
         self.times_left = monte_carlo_from_pdf(
             # Get the pdf of times left corresponding to each current states
             starting_durations_pdfs[self.current_states, :]
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
+        # The state is ready: runs the initialization steps and the logger
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step
+        )
 
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
-- 
2.43.0


From 76af8d8469b66370ab6c687bf518234aaa693f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 04/92] fix: SemiMarkovSimulator logs and caches the states of
 the current step

---
 demod/simulators/activity_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index b0b7b99..405c181 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -458,9 +458,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -488,6 +485,9 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             )
         # update the time
         self.times_left -= 1
+        # Bypass the first order change of states. Called once the states
+        # are updated, as it clears the getters cache and calls the logger
+        Simulator.step(self)
 
 
 class SubgroupsIndividualsActivitySimulator(
-- 
2.43.0


From 338a22bfed256b64bf9207f2161ef87d0a7ab56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 05/92] fix: day type changes keep the transition matrices at
 their time of the day

---
 demod/simulators/activity_simulators.py | 10 +++++++---
 demod/simulators/crest_simulators.py    | 11 ++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 405c181..dcebfdc 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -871,14 +871,18 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
-        """Update the tpms."""
+    def on_before_refresh_time(self) -> None:
+        """Update the tpms.
+
+        Done before the step that starts at the refresh time, as the first
+        matrix is the transition that arrives at the refresh time.
+        """
         # Check if we want to update the tpms
         if self.time_aware:
             self._update_subgroups_with_time()
diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..6b958f2 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,14 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
         Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+            The change of TPM is performed before the step that starts at
+            midnight, so that the TPMs of the new day are at the same
+            position as the ones used from the start of the simulation
+            (see :py:meth:`MarkovChain1rstOrder._set_tpm`).
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +336,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From fdbf3c1dc81001be1d1845c67f3b2a44965e1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 06/92] fix: SparseStatesSimulator logs and caches the states
 of the current step

---
 demod/simulators/sparse_simulators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..8cc9ab2 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -295,16 +295,17 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
 
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
 
+        # update the time step, once the states are updated, as it clears
+        # the getters cache and calls the logger
+        super().step()
+
 
 class SparseActivitySimulator(SparseStatesSimulator):
     """Should be able to simulate any kind of activitys.
-- 
2.43.0


From 94fce0903b6ad7fe2677e0f653526c7e2f00a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 07/92] fix: the initialization steps of sparse simulators end
 at the start datetime

---
 demod/simulators/sparse_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 8cc9ab2..bbf63d2 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,8 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the initialization steps will bring the time to the start
+            self.time -= start_datetimestep * datetime.timedelta(minutes=10)
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From a03629de5697bde592a423e6e7d18d6d7b02dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 08/92] fix: lost states of a day change become the first
 state, not the first label

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index bbf63d2..4eaf2be 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -578,7 +578,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From 98ef38be8fd76ff1a86e88c50568e9d0d5c8910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 09/92] fix: sparse simulators request the quarters 1 to 4

---
 demod/simulators/sparse_simulators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 4eaf2be..e211906 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -544,7 +544,9 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (
+                (self.time.month - 1) // 3 + 1
+            )
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From 92144d95244acbc81fb1637448e26f186bfc1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 10/92] fix: SparseTPM refuses inputs of different lengths

---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..dd9a0cf 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -72,8 +72,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From 8db3ce22e7f42dc0ac6ccb7504fe087da22332c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 11/92] fix: sampling a SparseTPM stays in the row of the
 current state

---
 demod/utils/sparse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index dd9a0cf..2db61cc 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -183,18 +183,22 @@ class SparseTPM():
         # print('pdf_ind, inv', pdf_indices, inv)
         # print('states from available ', self.inds_from[self.times == time])
         mask = (self.times == time) & (np.isin(self.inds_from, pdf_indices))
+        # positions of the transitions required, grouped by initial state
+        inds = np.flatnonzero(mask)
+        inds = inds[np.argsort(self.inds_from[inds], kind='stable')]
         # assume states has no dead states
         if np.any(~np.isin(states, self.inds_from[mask])):
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
                 # change the dead states and resample a montecarlo draw
+                states = np.array(states)
                 states[
                     ~np.isin(states, self.inds_from[mask])
                 ] = self.dead_state_value
                 return self.sparse_monte_carlo(time, states)
 
         # compute a flattened cdf containing all the states cdf
-        flattened_cdf = np.cumsum(self.values[mask])
+        flattened_cdf = np.cumsum(self.values[inds])
         # print('cdf',flattened_cdf)
 
         # monte carlo part
@@ -202,7 +206,14 @@ class SparseTPM():
         rand = np.random.uniform(size=states.shape) + inv
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
+        positions = np.searchsorted(flattened_cdf, rand, side='right')
+        # roundings must not lead to the transitions of another state
+        positions = np.clip(
+            positions,
+            np.searchsorted(self.inds_from[inds], states, side='left'),
+            np.searchsorted(self.inds_from[inds], states, side='right') - 1,
+        )
+        new_states = self.inds_to[inds][positions]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From c2a4e0d57c4751a4a5d1b0d9cbf9a12d332b2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 12/92] fix: each iteration over a SparseTPM is independent

---
 demod/utils/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 2db61cc..1fc74ba 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -152,7 +152,7 @@ class SparseTPM():
     def __iter__(self):
         """Iterate over the transition matrices."""
         self._iter_count = 0
-        return self
+        return (self[time] for time in range(self.n_times))
 
     def __next__(self):
         """Get the next transition matrix."""
-- 
2.43.0


From dbac3dff4708e5adf7b8e86a899d26af96e7b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 13/92] fix: a saved SparseTPM is loaded with the same size

---
 demod/utils/sparse.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 1fc74ba..cf25715 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -229,6 +229,11 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        # the size cannot be always deduced from the transitions
+        np.save(path+'_tpm_size', np.array([
+            self.n_states, self.n_times,
+            -1 if self.dead_state_value is None else self.dead_state_value
+        ]))
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -246,4 +251,12 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        try:
+            n_states, n_times, dead_state = np.load(path+'_tpm_size.npy').tolist()
+        except FileNotFoundError:  # saved without the size
+            return SparseTPM(times, inds_from, inds_to, values)
+        return SparseTPM(
+            times, inds_from, inds_to, values,
+            n_states=n_states, n_times=n_times,
+            dead_state_value=None if dead_state < 0 else dead_state
+        )
-- 
2.43.0


From 2ef45dc26fec2afa22a9fc5ad9b50fc3a5041114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 14/92] fix: Monte Carlo draws never fall beyond the rounded
 end of a CDF

---
 demod/utils/monte_carlo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/utils/monte_carlo.py b/demod/utils/monte_carlo.py
index afd3e6b..f533f23 100644
--- a/demod/utils/monte_carlo.py
+++ b/demod/utils/monte_carlo.py
@@ -39,7 +39,8 @@ def monte_carlo_from_1d_cdf(cdf: CDF, n_samples: int = 1) -> MC_choices:
     # sample MC distibution
     rand = np.random.uniform(size=n_samples)
     # gets the approptiate cdfs values
-    mask = cdf > rand[:, None]
+    # (the last value might be slightly lower than 1)
+    mask = cdf > rand[:, None] * cdf[-1]
     return np.argmax(mask, axis=1)
 
 
@@ -76,7 +77,8 @@ def monte_carlo_from_cdf(cdf_s: CDFs) -> MC_choices:
     # sample MC distibution
     rand = np.random.uniform(size=cdf_s.shape[0])
     # gets the approptiate CDFs values
-    mask = cdf_s > rand[:, None]
+    # (the last value might be slightly lower than 1)
+    mask = cdf_s > rand[:, None] * cdf_s[:, -1:]
     return np.argmax(mask, axis=1)
 
 
-- 
2.43.0


From 6ff63f4cc61141b531f14570e12ec5bb4494fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 15/92] fix: an empty SparseTPM keeps the size it is given

---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index cf25715..8e5eab6 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -81,8 +81,8 @@ class SparseTPM():
         self.values = np.array(values)
 
         if length == 0:  # an empty matrix
-            n_states = 0
-            n_times = 0
+            n_states = 0 if n_states is None else n_states
+            n_times = 0 if n_times is None else n_times
 
         if n_states is None:
             # assign n_states to the maximum of the two states
-- 
2.43.0


From e680ead29c452ae2e6d0ed6740c77e8f88aca6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 16/92] fix: proportional population sampling never picks empty
 subgroups

Sampling at 0 and 1 included picked a first subgroup of probability zero, an
index after the last subgroup when the cdf ends slightly below 1, and could
miss the share of a subgroup by more than one household.
---
 demod/simulators/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..508cd1f 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -108,8 +108,10 @@ def sample_population(
     cdf = np.cumsum(pdf)
     check_valid_cdf(cdf)
     if population_sampling_algo == 'real_population':
-        lin_space = np.linspace(0, 1, n_samples)
-        inds = np.searchsorted(cdf, lin_space)
+        # evenly spaced in [0, 1[, each household represents 1/n_samples
+        # (the last value of the cdf might be slightly lower than 1)
+        lin_space = np.linspace(0, cdf[-1], n_samples, endpoint=False)
+        inds = np.searchsorted(cdf, lin_space, side='right')
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From ca8115539c632eadadbdc5677124e662a55565e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:40 +0000
Subject: [PATCH 17/92] fix: the number of states follows the labels of a new
 day type

---
 demod/simulators/activity_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index dcebfdc..3b15cad 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -278,6 +278,7 @@ class MarkovChain1rstOrder(Simulator):
             inverse
         ].reshape(-1)
         self.state_labels = new_labels
+        self.n_states = len(new_labels)
 
     def step(self) -> None:
         """Perfom a step Markov chain step.
-- 
2.43.0


From 94c6b7e8a6a17cc50d745b0bdadd8c1ed255ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:48 +0000
Subject: [PATCH 18/92] fix: individuals of subgroups without households are
 not simulated

---
 demod/simulators/activity_simulators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 3b15cad..d7615f7 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -675,6 +675,11 @@ class SubgroupsIndividualsActivitySimulator(
         Return the person subgroups, and the number of each subgroup
         that has to be simulated.
         """
+        # Subgroups without households have no persons to simulate
+        subgroups_list, n_households_list = (
+            [sub for sub, n in zip(subgroups_list, n_households_list) if n > 0],
+            [n for n in n_households_list if n > 0],
+        )
         subgroup_persons = subgroup_households_to_persons(
             subgroups_list,
         )
-- 
2.43.0


From 98d7a05be6c057bbd183ebab525162692b1d9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 19/92] fix: getters called before the starting state is ready
 are not remembered

---
 demod/simulators/base_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index aa38513..f8f2bc7 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -508,6 +508,9 @@ class Simulator():
         for _ in range(start_time_step):
             self.step(*args, **kwargs)
 
+        # getters called during the initialization must not be remembered
+        self._cache.clear()
+
         # clears the logger after initialization
         if self.logger:
             self.logger.clear()
-- 
2.43.0


From 108dd7df06192c95176f57a95ed60635d4f104c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 20/92] fix: appliances are used for the whole duration of
 their cycle, from its first step

---
 demod/simulators/appliance_simulators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..99c1f1d 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -657,6 +657,8 @@ class AppliancesSimulator(TimeAwareSimulator):
         # update the variables iteration
         self.n_steps_left[self.n_steps_left > 0] -= 1
         self.n_steps_till_refresh[self.n_steps_till_refresh > 0] -= 1
+        # getters called before must not be remembered
+        self._cache.clear()
 
     @cached_getter
     def get_current_usage(self) -> np.ndarray:
@@ -1232,6 +1234,10 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             len(active_occupancy_) == self.n_households
         ), "active occupnacy length must match the number of households"
 
+        # The appliances that arrive at the end of their cycle stop, before
+        # others are started, such that these are used for all their cycle
+        self.update_iteration_variables()
+
         # keeps track of the iterations to update the activities pdf
         if (self.current_time.minute % 10) == 0:
             # update the activites pdf every 10 min
@@ -1249,7 +1255,8 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
 
         self.switch_off_inactive(active_occupancy)
 
-        super().step()  # Updates the variables
+        # Bypass the parent, as the variables are already updated
+        TimeAwareSimulator.step(self)
 
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
@@ -1422,6 +1429,10 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         TODO: check how we want to implement secondary appliances.
         """
+        # The load patterns go on before others are started, such that
+        # these start at the begining of their pattern
+        self.update_iteration_variables()
+
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
@@ -1456,7 +1467,8 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         self.previous_act_dict = activities_dict.copy()
 
-        super().step()
+        # Bypass the parent, as the variables are already updated
+        TimeAwareSimulator.step(self)
 
     def update_iteration_variables(self):
         """Check the load patterns that arrive to an end to restart them."""
-- 
2.43.0


From 452417e8d025e5fb8d2c10e5b810f96b4844bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 21/92] fix: the starting state of activity appliances is ready
 for the logger

---
 demod/simulators/appliance_simulators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 99c1f1d..6704a58 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -152,7 +152,6 @@ class AppliancesSimulator(TimeAwareSimulator):
         self.n_steps_left = np.zeros_like(
             self.available_appliances, dtype=float
         )
-        self._initialize_real_loads()
         # stores the number of time till the appliances can be used
         # again after refresh period
         # This is specially useful for the fridges and freezers cycles,
@@ -164,6 +163,7 @@ class AppliancesSimulator(TimeAwareSimulator):
             for delay in self.appliances["after_cycle_delay"]
         ]
         self.n_steps_till_refresh = np.asarray(delays, dtype=int).T
+        self._initialize_real_loads()
         initialization_time = kwargs.pop("initialization_time", None)
         return super().initialize_starting_state(
             *args, initialization_time=initialization_time, **kwargs
@@ -1390,11 +1390,16 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        super().initialize_starting_state(self, **kwargs)
         self.previous_act_dict = initial_activities_dict.copy()
 
+        super().initialize_starting_state(self, **kwargs)
+
+    def _initialize_real_loads(self):
+        """Init the appliances that are used in the starting state."""
+        super()._initialize_real_loads()
+
         # Records the position in the pattern of this appliance
-        for act, n_performing in initial_activities_dict.items():
+        for act, n_performing in self.previous_act_dict.items():
             # Gets indices of the appliances of act and the performing act
             app_ind = np.where(self.appliances['related_activity'] == act)[0]
             hh_ind = np.where(n_performing > 0)[0]
@@ -1404,9 +1409,6 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                 np.repeat(hh_ind, len(app_ind)),
                 np.tile(app_ind, len(hh_ind)),
             )
-        # This is required for avoiding initialization
-        # where current_time = len(real load profile)
-        self.update_iteration_variables()
         # Turn on level appliances as they are always used
         self._is_used[:, np.isin(
             self.appliances['related_activity'], ALWAYS_ON_ACTIVITES
-- 
2.43.0


From fae2527e56d6cbfd3dd02e6a64ae2c3b216490de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 22/92] fix: probabilistic appliances start only if owned, off
 and not in their delay

---
 demod/simulators/appliance_simulators.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 6704a58..c522b64 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1867,6 +1867,19 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # this simulator
         pass
 
+    def _can_be_started(self, indexes_household, indexes_appliance):
+        """Return whether appliances are owned, OFF and not in their delay.
+
+        Not cached, as appliances are started and stopped during the step.
+        """
+        return (
+            self.available_appliances[indexes_household, indexes_appliance]
+            & (self.n_steps_left[indexes_household, indexes_appliance] <= 0)
+            & (self.n_steps_till_refresh[
+                indexes_household, indexes_appliance
+            ] <= 0)
+        )
+
     def _compute_switch_on_probs(self, indexes_household, indexes_appliance):
         """Compute switch on probs for appliances that can be started.
 
@@ -1879,7 +1892,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         """
         return (
             (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                self._can_be_started(indexes_household, indexes_appliance)
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
@@ -1894,7 +1907,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         or when activity stops.
         """
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            self._can_be_started(indexes_household, indexes_appliance)
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From bee7112ce50bfd4a9873055eae429a21c19f8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 23/92] fix: several appliances can start after other
 appliances

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index c522b64..b76a511 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1952,7 +1952,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From 96194ecce0773a3a137086de451469fe587e8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 24/92] fix: appliances compare the activities with the ones of
 the last step, even if updated in place

---
 demod/simulators/appliance_simulators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index b76a511..b389c22 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1390,7 +1390,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
 
         super().initialize_starting_state(self, **kwargs)
 
@@ -1467,7 +1469,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                     & mask_apps_this_act[np.newaxis, :]
                 ))
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         # Bypass the parent, as the variables are already updated
         TimeAwareSimulator.step(self)
@@ -1771,7 +1775,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         TODO: implement a good initialization.
         """
         # Remember the previous activities
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
 
         super().initialize_starting_state(self, **kwargs)
 
@@ -1857,7 +1863,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     can_start_app[mask_start]
                 )
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         super().step()
 
-- 
2.43.0


From f3125da0ed17bfb1fce45a39614cfa56edb8c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 25/92] fix: the delay after a cycle that does not last whole
 steps is not shortened

---
 demod/simulators/appliance_simulators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index b389c22..94dd503 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -631,7 +631,7 @@ class AppliancesSimulator(TimeAwareSimulator):
         ] = cycle_duration
         # adds the time till refresh is possible
         self.n_steps_till_refresh[indexes_household, indexes_appliance] = (
-            cycle_duration
+            np.ceil(cycle_duration)
             + self.appliances["after_cycle_delay"][indexes_appliance]
         )
 
@@ -1099,7 +1099,7 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
         ] = cycle_duration
         # adds the time till refresh
         self.n_steps_till_refresh[indexes_household, indexes_appliance] = (
-            cycle_duration
+            np.ceil(cycle_duration)
             + self.appliances["after_cycle_delay"][indexes_appliance]
         )
 
@@ -1129,7 +1129,8 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
         self.n_steps_left[indexes_household, indexes_appliance] = durations
         # adds the time till refresh is possible
         self.n_steps_till_refresh[indexes_household, indexes_appliance] = (
-            durations + self.appliances["after_cycle_delay"][indexes_appliance]
+            np.ceil(durations)
+            + self.appliances["after_cycle_delay"][indexes_appliance]
         )
 
     def switch_off_inactive(self, active_occupancy):
-- 
2.43.0


From 06af421644b10f29c68d2b69d8a2fa457966a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:59 +0000
Subject: [PATCH 26/92] fix: appliances start after an activity that has no
 appliance of its own

---
 demod/simulators/appliance_simulators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 94dd503..72349e0 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1817,7 +1817,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            mask_apps_concerned = mask_apps_this_act
+            if 'previous_activity' in self.appliances:
+                mask_apps_concerned = mask_apps_this_act | (
+                    self.appliances['previous_activity'] == act
+                )
+            if not np.any(mask_apps_concerned):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From 45096f1019db4bfe55113c0db0442ac13e2be685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 27/92] fix: the heat demand uses the step size of the heating
 simulator

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..28db556 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1682,6 +1682,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From 9f7cdb9a9daf0daa811a533294053ba0640266d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 28/92] fix: fuel and energy consumption of heating systems
 without one of the outputs

---
 demod/simulators/heating_simulators.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 28db556..c884b31 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1433,8 +1433,15 @@ class HeatingSystem(Simulator):
             (self.max_Phi_h_space > 0) | (self.max_Phi_h_dhw > 0)
         )
         heat_outputs = self.get_heat_outputs()
-        phi_space = heat_outputs["space_heating"]
-        phi_dhw = heat_outputs["dhw"]
+        # Share of the capacity that is used, 0 where there is no capacity
+        load_space = np.divide(
+            heat_outputs["space_heating"], self.max_Phi_h_space,
+            out=np.zeros(self.n_households), where=self.max_Phi_h_space > 0
+        )
+        load_dhw = np.divide(
+            heat_outputs["dhw"], self.max_Phi_h_dhw,
+            out=np.zeros(self.n_households), where=self.max_Phi_h_dhw > 0
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1443,10 +1450,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * (load_space + load_dhw),
                     0,
                 )
             elif h_type == "Electricity":
@@ -1455,10 +1459,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * (load_space + load_dhw),
                     0,
                 )
             else:
@@ -1480,7 +1481,10 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = np.divide(
+            gas, self.dblFuelFlowRate,
+            out=np.zeros(self.n_households), where=self.dblFuelFlowRate > 0
+        ) * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 6433ba4b7568cb3d0a6cd423b46790a11e6ba27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 29/92] fix: gas consumption is converted from hours to
 seconds, and to Watts

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index c884b31..522a620 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1449,7 +1449,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * (load_space + load_dhw),
                     0,
                 )
@@ -1480,9 +1480,9 @@ class HeatingSystem(Simulator):
         fuel_cons = self.get_fuel_consumptions()
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
-        # convert gas flow to Watts
+        # convert gas flow (m^3/ sec) to Watts
         gas = np.divide(
-            gas, self.dblFuelFlowRate,
+            gas * 3600., self.dblFuelFlowRate,
             out=np.zeros(self.n_households), where=self.dblFuelFlowRate > 0
         ) * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
-- 
2.43.0


From bf4e0a84de410f68b78d1f5658f99ec3a242866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 30/92] fix: external hot water and space heating outputs are
 used only where given

---
 demod/simulators/heating_simulators.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 522a620..9d3cd9c 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1819,7 +1819,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            out_dict = dict(external_heat_outputs)
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
@@ -1834,14 +1834,20 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         if external_dhw_outputs is not None:
             # Creates the array to store the dhw
             out_dict["dhw"] = assign_external_array(
-                np.full(external_dhw_outputs.shape, np.nan),
+                out_dict.get(
+                    "dhw", np.full(external_dhw_outputs.shape, np.nan)
+                ),
                 external_dhw_outputs,
             )
 
         if external_sh_outputs is not None:
             # Creates the array to store the dhw
             out_dict["space_heating"] = assign_external_array(
-                np.full(external_sh_outputs.shape, np.nan), external_sh_outputs
+                out_dict.get(
+                    "space_heating",
+                    np.full(external_sh_outputs.shape, np.nan)
+                ),
+                external_sh_outputs,
             )
 
         return out_dict
-- 
2.43.0


From 202817d9695f0e301d1e3f2adb18bcf763e18763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 31/92] fix: households without an external heat output keep
 their own heating system

---
 demod/simulators/heating_simulators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 9d3cd9c..4ae36ee 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1774,6 +1774,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
+        # no value where no external output was given
+        heat_outputs_dict["space_heating"] = np.where(
+            np.isnan(heat_output), np.nan, heat_outputs_dict["space_heating"]
+        )
+
         return heat_outputs_dict
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
-- 
2.43.0


From 52c67dee4546e1e10424f9d95f85b370b2515f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 32/92] fix: external target temperatures are assigned only
 where given

---
 demod/simulators/heating_simulators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 4ae36ee..353c427 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -799,11 +799,15 @@ class Thermostats(Simulator):
         """
         if isinstance(target_temperatures, dict):
             for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
+                self.target_temperatures[key] = np.where(
+                    np.isnan(item),
+                    self.target_temperatures.get(key, item),
+                    item
+                )
         elif isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
-                target_temperatures
+            self.target_temperatures["space_heating"] = assign_external_array(
+                self.target_temperatures["space_heating"], target_temperatures
             )
         else:
             raise TypeError("target_temperature must be dict or ndarray")
-- 
2.43.0


From bd9d32f35c836b6bd85d0d50db38b8d8451c0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 33/92] fix: an external cylinder counts in the steps where it
 is given

---
 demod/simulators/heating_simulators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 353c427..7f736a9 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1931,7 +1931,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         # also assigns external cylinder in sim
         self.building_sim.temperatures["cylinder"] = temperatures["cylinder"]
-
+        self.use_external_cylinder = (
+            np.full(self.n_households, False)
+            if external_cylinder_temperature is None
+            else ~np.isnan(external_cylinder_temperature)
+        )
 
         # update the simulators
         self.thermostats_sim.step(
@@ -1973,9 +1977,6 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # dhw demand is changed depending on the external cylinder
         if external_cylinder_temperature is not None:
-            self.use_external_cylinder = ~np.isnan(
-                external_cylinder_temperature
-            )
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
                 temperatures, dhw_heating_demand, target_temperature["dhw"]
             )
-- 
2.43.0


From b614e5f2ab855e7b8fe74a895912ab405948dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 34/92] fix: the total heat output includes the external
 outputs

---
 demod/simulators/heating_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7f736a9..9dfd2d7 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1964,6 +1964,9 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         heat_outputs = assign_external_dict(
             self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
         )
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
 
         self.building_sim.step(
             outside_temperature=outside_temperature,
-- 
2.43.0


From d45b51c5cfddf8da4981d6bbfc8d9316ba8ba7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 35/92] fix: the default initial active occupancy of the
 lighting has one value per household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..150ca40 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households, dtype=int)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From 5bc8109aa1ed11e0ad119525e50d4fecae80f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 36/92] fix: historical climate starts at the closest record
 before the start

---
 demod/datasets/base_loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..ed0bc44 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -903,12 +903,13 @@ class ClimateLoader(DatasetLoader):
                 )
             )
 
-        mask = np.where(
-            climate_dict["datetime"] > start_datetime_utc - self.step_size
-        )[0]
+        # Index of the last datapoint that is not after the start
+        first_index = max(
+            np.sum(climate_dict["datetime"] <= start_datetime_utc) - 1, 0
+        )
 
         # Return only the values starting from datetime
-        return {key: value[mask] for key, value in climate_dict.items()}
+        return {key: value[first_index:] for key, value in climate_dict.items()}
 
     def _parse_historical_climate_data(self) -> Dict[str, np.ndarray]:
         raise NotImplementedError(
-- 
2.43.0


From d70e7b673dd5c61bf29dd2edc503ce9c6807922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 37/92] fix: climate records are in utc, whatever the time zone
 of the start

---
 demod/simulators/weather_simulators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..6764765 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -634,9 +634,11 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        # The data is in utc, naive datetimes are assumed to be utc
+        if start_datetime.tzinfo is not None:
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -760,9 +762,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        # The data is in utc, naive datetimes are assumed to be utc
+        if start_datetime.tzinfo is not None:
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 496fa010d1b30a1df31525d8644bb6a4551a64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 38/92] fix: climate is interpolated at the current time, not
 at its minute

---
 demod/simulators/weather_simulators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 6764765..188e245 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -733,7 +733,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -742,7 +742,9 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            self.datetime_values_utc - self.initial_time
+        ) / np.timedelta64(1, 'm')
 
         self.interpolators = {
             key: interp1d(
@@ -802,13 +804,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From f47d9fb376c770df1de1895b67e2387139844b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 39/92] fix: the clearness is a single value, so that a climate
 can start at midnight

---
 demod/simulators/weather_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 188e245..866f34a 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -151,9 +151,9 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
+        self._clearness_state = int(monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0])
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From f3347293dadc757acb170a2c3345e34ac88fb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 40/92] fix: the irradiance of a simulated climate is the one
 of the time of the day

---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 866f34a..dfe9fd1 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -327,9 +327,12 @@ class CrestClimateSimulator(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
         # remove some kwargs for irradiance
         kwargs.pop("logger", None)
+        # The daily profiles are simulated from midnight
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From 19b8269ec8639344743fd7c53d634854e6d5ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 41/92] fix: the initialization of the irradiance is not
 discarded at the start

---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index dfe9fd1..ecb341c 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From 09a7d350c6c9ac245afdd2293b59773f68036033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 42/92] fix: variable thermostats accept a logger and a pattern
 attribution method

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 9dfd2d7..c476b69 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -184,7 +184,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_occupancy,
         initial_act_occ,
         start_datetime,
-        *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -197,8 +197,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
             pattern_attribution_method (str): kwarg that determine the method for the attribution of the
                 temperature patterns
         """
-        super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        super().__init__(n_households, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From ede656a45f93b95d62bbc1ec4f42158be148acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 43/92] fix: the step of the lighting is logged at the end, as
 the other simulators do

---
 demod/simulators/lighting_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 150ca40..67c2e88 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From 91079295657c132364d65a06655bff8c87aa19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 44/92] fix: values handed out by the heating simulators are
 not changed by later steps

---
 demod/simulators/heating_simulators.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index c476b69..a6c810a 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -635,10 +635,10 @@ class BuildingThermalDynamics(Simulator):
         )
 
         # Update building thermal node temperatures for this time step
-        self.temperatures["building"] += d_T_b
-        self.temperatures["interior"] += d_T_i
-        self.temperatures["emitter"] += d_T_em
-        self.temperatures["cylinder"] += d_T_cyl
+        self.temperatures["building"] = self.temperatures["building"] + d_T_b
+        self.temperatures["interior"] = self.temperatures["interior"] + d_T_i
+        self.temperatures["emitter"] = self.temperatures["emitter"] + d_T_em
+        self.temperatures["cylinder"] = self.temperatures["cylinder"] + d_T_cyl
 
         return super().step()
 
@@ -659,7 +659,7 @@ class BuildingThermalDynamics(Simulator):
         Returns:
             dict: temperatures of different house components
         """
-        return self.temperatures
+        return dict(self.temperatures)
 
 
 class Thermostats(Simulator):
@@ -910,10 +910,10 @@ class Thermostats(Simulator):
         return super().step()
 
     def get_thermostat_states(self) -> ThermostatsStates:
-        return self.thermostat_states
+        return dict(self.thermostat_states)
 
     def get_target_temperatures(self) -> Temperatures:
-        return self.target_temperatures
+        return dict(self.target_temperatures)
 
 
 class HeatDemand(Simulator):
@@ -1129,7 +1129,7 @@ class HeatDemand(Simulator):
 
     @cached_getter
     def get_heat_demand(self) -> HeatingDemand:
-        return self.target_heat_demand
+        return dict(self.target_heat_demand)
 
 
 class SystemControls(Simulator):
@@ -1254,7 +1254,7 @@ class SystemControls(Simulator):
         return super().step()
 
     def get_controls(self) -> HeatingControls:
-        return self.heating_controls
+        return dict(self.heating_controls)
 
 
 class CrestControls(SystemControls):
@@ -1522,6 +1522,9 @@ class HeatingSystem(Simulator):
             heating_controls: Dictronnary containing the control arrays.
             target_heat_demand: Dictionnary containing the heat demand arrays.
         """
+        # outputs of the previous steps are left as they are
+        self.heat_outputs = dict(self.heat_outputs)
+
         #  Get the control signals from the heating controller
 
         # First case, if heat water is on
@@ -1981,7 +1984,8 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         # dhw demand is changed depending on the external cylinder
         if external_cylinder_temperature is not None:
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
-                temperatures, dhw_heating_demand, target_temperature["dhw"]
+                self.building_sim.get_temperatures(),
+                dhw_heating_demand, target_temperature["dhw"]
             )
 
         super().step()
-- 
2.43.0


From 143a4557bd796dc74772faa1b6c040bef5fa3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 45/92] fix: the heating system keeps its own copy of the
 controls

---
 demod/simulators/heating_simulators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index a6c810a..ef1f104 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1578,7 +1578,9 @@ class HeatingSystem(Simulator):
         )
 
         # stores the controls for the getters
-        self.controls = heating_controls
+        self.controls = {
+            key: np.array(value) for key, value in heating_controls.items()
+        }
 
         return super().step()
 
-- 
2.43.0


From 0c6fb1a7898ce9c8f4687f4ee3fa231bdaaa573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 46/92] fix: the fisher lighting keeps its own copy of the
 active occupancy

---
 demod/simulators/lighting_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 67c2e88..839ef8f 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -141,7 +141,8 @@ class FisherLightingSimulator(Simulator):
             irradiance:
                 The value of the current irradiance in W/m^2
         """
-        self.active_occupancy = active_occupancy
+        # the simulator keeps its own array
+        self.active_occupancy = np.array(active_occupancy)
         self.irradiance = irradiance
         super().step()
 
-- 
2.43.0


From 011174706557df17a38ce6dd6df873f3801f8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 47/92] fix: transition matrices from states are counted by old
 and new state

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..aeadac0 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -650,7 +650,7 @@ def states_to_tpms(
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-        transition_matrice[states_indices] = states_counts
+        transition_matrice[tuple(states_indices)] = states_counts
         tpms.append(transition_matrice)
 
         # save the state for old state
-- 
2.43.0


From aa241e4321f517e614faa5251ebbbd5d7574fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 48/92] fix: transitions with secondary states are those of the
 persons given

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index aeadac0..32459a1 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From 14d41319c7bf5c16757a0cda18f6c9d8f6ea949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 49/92] fix: counts_to_pdf does not change the counts it is
 given

---
 demod/utils/parse_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 32459a1..c04bb2f 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -591,6 +591,8 @@ def counts_to_pdf(counts: np.ndarray, ensure_valid_pdf=True):
     the pdf will be [1., 0. , ..., 0.]
     """
     if ensure_valid_pdf:
+        # The counts given are not changed
+        counts = np.array(counts)
         # Sums all the counts for the pdf
         s = counts.sum(axis=-1)
         indexes_zeros = list(np.where(s == 0))
-- 
2.43.0


From 59e987bec2dff3864cbbdbda52d17bf5892f87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 50/92] fix: durations of patterns that never change

---
 demod/metrics/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..638ff05 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -44,7 +44,10 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # find in the indices the start and end of each household
     indices_first_household = np.where(
         household_indices != np.roll(household_indices, 1)
-    )[0] if len(np.unique(household_indices)) > 1 else np.array([0], dtype=int)
+    )[0] if len(np.unique(household_indices)) > 1 else np.array(
+        # no household at all, if none has a transition
+        [0][:len(household_indices)], dtype=int
+    )
     indices_last_household = np.roll(indices_first_household - 1, -1)
 
     # calculate the durations
-- 
2.43.0


From dfcd87e6f9ecf03eed9d47f8861b7b760c2dfad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 51/92] fix: durations of states visited only in the simulation
 or only in the measure can be compared

---
 demod/metrics/states.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 638ff05..47d51ba 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -359,13 +359,16 @@ def state_duration_distribution_metric(
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
         # Finds the cdf of the duration for that state
+        # (a state that is not visited has no duration)
+        dur_sim = dur_dict_sim.get(state, np.array([], dtype=int))
+        dur_mes = dur_dict_mes.get(state, np.array([], dtype=int))
         cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
+            np.bincount(dur_sim, minlength=n_times + 1)
+            / max(len(dur_sim), 1)
         )
         cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+            np.bincount(dur_mes, minlength=n_times + 1)
+            / max(len(dur_mes), 1)
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From 236e338ebc616adfcce6d867a571b4df8ec1ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 52/92] fix: the graph metrics count each state at a time once,
 and every possible connection

---
 demod/metrics/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 47d51ba..551507e 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -188,7 +188,8 @@ def graph_metrics(
     times, source_nodes, end_nodes = np.where(directed_edges)
 
     source_nodes_id = np.char.add(np.char.add(
-        np.array(times, dtype=str),
+        # the source is the state at the previous time
+        np.array((times - 1) % len(directed_edges), dtype=str),
         ['_' for i in range(len(times))]),
         np.array(source_nodes, dtype=str)
     )
@@ -202,7 +203,7 @@ def graph_metrics(
     network_size = len(np.unique(np.c_[source_nodes_id, end_nodes_id]))
     network_density = len(source_nodes_id) / (
         # used nodes / the max number of nodes possible
-        (len(directed_edges)-1) * len(np.unique(source_nodes))**2
+        len(directed_edges) * len(np.unique(source_nodes))**2
     )
     centrality = np.mean(edge_weights)
     homophily = (
-- 
2.43.0


From dc92c6204015debc47970a3999136baebbfb61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 53/92] fix: load duration of a single profile

---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From 4fd3c7007e102418609b9f834ebab50e9cb9692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 54/92] fix: normalized changes in demand are counted between 0
 and 1

---
 demod/metrics/loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..bbc55e5 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -175,8 +175,9 @@ def cumulative_changes_in_demand(
 
     max_change = np.max(changes)
 
-    if normalize:
-        changes /= max_change
+    if normalize and max_change > 0:
+        changes = changes / max_change
+        max_change = 1.
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
-- 
2.43.0


From 01b60ff41099fa47c6adadd39411a6258e8b2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 55/92] fix: every change in demand is counted in the bins
 given

---
 demod/metrics/loads.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index bbc55e5..b4a830e 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -185,7 +185,11 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if (
+            max_change > bin_edges[-1]
+            # the largest normalized change is 1
+            or (max_change == bin_edges[-1] and not normalize)
+        ):
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
                 "largest value change {}. (must be striclty greater)."
@@ -196,9 +200,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, _ = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From 55c26a0cd36ac41e6c635d627f04f24ec96bf978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 56/92] fix: parsed and downloaded data are stored whole or not
 at all

A process that stopped, or a disk that was full, while an item was stored
left a truncated file, which every later load tried to read.
---
 demod/datasets/CREST/loader.py           |  3 +-
 demod/datasets/DESTATIS/loader.py        |  3 +-
 demod/datasets/GermanTOU/loader.py       |  9 ++--
 demod/datasets/Germany/loader.py         |  3 +-
 demod/datasets/RenewablesNinja/loader.py |  3 +-
 demod/datasets/base_loader.py            | 63 ++++++++++++++----------
 demod/datasets/tou_loader.py             | 25 ++++++----
 demod/datasets/tracebase/loader.py       |  9 ++--
 demod/utils/files.py                     | 60 ++++++++++++++++++++++
 demod/utils/sparse.py                    | 25 ++++++----
 10 files changed, 146 insertions(+), 57 deletions(-)
 create mode 100644 demod/utils/files.py

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 56e7582..ceee0c0 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -22,6 +22,7 @@ from ..base_loader import (
     LightingLoader,
     PopulationLoader,
 )
+from ...utils.files import open_whole
 from ...utils.sim_types import (
     AppliancesDict,
     StateLabels,
@@ -100,7 +101,7 @@ class Crest(
             # Reads the url and  download the
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
             with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
-                with open(self.raw_file_path, 'wb') as f:
+                with open_whole(self.raw_file_path, 'wb') as f:
                     shutil.copyfileobj(response, f)
 
     def load_population_subgroups(
diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index 0faf75c..aa5571e 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -4,6 +4,7 @@ from typing import Dict, List, Tuple, Union
 import numpy as np
 import pandas as pd
 from urllib import request
+from ...utils.files import open_whole
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.appliances import assign_ownership_from_prob1_and_number
 from ...utils.subgroup_handling import remove_time_attributues
@@ -144,7 +145,7 @@ class Destatis(ApplianceLoader, PopulationLoader):
             # Reads the url and  download the zip archive
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(data_path, 'wb') as f:
+            with open_whole(data_path, 'wb') as f:
                 f.write(datatowrite)
 
 
diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 50a3f34..328a057 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -12,6 +12,7 @@ import zipfile
 from ..tou_loader import LoaderTOU
 from ..base_loader import GITHUB_REPO_URL, PopulationLoader
 from ..DESTATIS.loader import Destatis
+from ...utils.files import extract_whole, open_whole
 from ...utils.parse_helpers import convert_states, states_to_transitions
 from ...utils.sim_types import *
 from ...utils.monte_carlo import PDFs
@@ -144,11 +145,11 @@ class GTOU(LoaderTOU, PopulationLoader):
             else:
                 raise e
         datatowrite = response.read()
-        with open(parsed_zip_filepath, 'wb') as f:
+        # The archive is stored only when it was completely extracted
+        with open_whole(parsed_zip_filepath, 'wb') as f:
             f.write(datatowrite)
-        # Now the file is downloaded
-        with zipfile.ZipFile(parsed_zip_filepath, 'r') as zip_obj:
-            zip_obj.extractall(self.parsed_path_activity)
+            with zipfile.ZipFile(f, 'r') as zip_obj:
+                extract_whole(zip_obj, self.parsed_path_activity)
 
 
     def _parse_tpm(self, subgroup: Subgroup):
diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index fcc7ff7..8ab8128 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -6,6 +6,7 @@ from urllib import request
 import numpy as np
 import pandas as pd
 
+from ...utils.files import open_whole
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.parse_helpers import remove_spaces
 from typing import Any, Dict, List, Tuple
@@ -89,7 +90,7 @@ class GermanDataHerus(
             ))
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(self.raw_file_path, 'wb') as f:
+            with open_whole(self.raw_file_path, 'wb') as f:
                 f.write(datatowrite)
 
         self.refresh_time = self.activity_data.refresh_time
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index a195e7b..4293b93 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -14,6 +14,7 @@ import zipfile
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
+from ...utils.files import open_whole
 from ...utils.countries import country_name_to_code, is_country_code
 
 
@@ -114,7 +115,7 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         # Reads the url and  download the
         with urllib.request.urlopen(request) as response:
-            with open(self.raw_file_path, 'wb') as f:
+            with open_whole(self.raw_file_path, 'wb') as f:
                 shutil.copyfileobj(response, f)
         print('download finished')
         # Now the file is downloaded, we can remove old parsed data
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index ed0bc44..dcc8d09 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
+from ..utils.files import open_whole
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -230,7 +231,7 @@ class DatasetLoader:
         file_path = os.path.join(self.parsed_path, file_name + ".json")
         # Only days, seconds and microseconds are stored internally,
         # in timedelta objects
-        with open(file_path, "w+") as f:
+        with open_whole(file_path) as f:
             json.dump(
                 {
                     "days": step_size.days,
@@ -327,12 +328,14 @@ class DatasetLoader:
         else:
             raise TypeError("Arg 'array' must be ndarray or list or tuple.")
 
-        if compress:
-            np.savez_compressed(file_path, *array_list)
-        elif npz:
-            np.savez(file_path, *array_list)
-        else:
-            np.save(file_path, array)
+        file_path += '.npz' if compress or npz else '.npy'
+        with open_whole(file_path, 'wb') as f:
+            if compress:
+                np.savez_compressed(f, *array_list)
+            elif npz:
+                np.savez(f, *array_list)
+            else:
+                np.save(f, array)
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
@@ -383,7 +386,7 @@ class PopulationLoader(DatasetLoader):
                 population_dict['total_number']
              ) = self._parse_population_subgroups(population_type)
 
-            with open(app_file, "w+") as f:
+            with open_whole(app_file) as f:
                 json.dump(make_jsonable(population_dict), f, indent=2)
 
         return (
@@ -438,7 +441,7 @@ class ApplianceLoader(DatasetLoader):
                     ).format(type(self).__name__)
                 )
 
-            with open(app_file, "w+") as f:
+            with open_whole(app_file) as f:
                 json.dump(make_jsonable(appliance_dict), f, indent=2)
 
         return lists_to_numpy_array(appliance_dict)
@@ -486,7 +489,8 @@ class ApplianceLoader(DatasetLoader):
                 for name, load in names_dict.items():
                     parsed_dict[app_type + self._SPLIT_CHAR + name] = load
             # Compress as the load profiles might be quite heavy
-            np.savez_compressed(app_file, **parsed_dict)
+            with open_whole(app_file + '.npz', 'wb') as f:
+                np.savez_compressed(f, **parsed_dict)
 
         return load_profiles_dict
 
@@ -546,7 +550,8 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             ownership_dict = self._parse_appliance_ownership_dict(subgroup)
-            np.savez(file_path, **ownership_dict)
+            with open_whole(file_path + '.npz', 'wb') as f:
+                np.savez(f, **ownership_dict)
 
         return ownership_dict
 
@@ -601,7 +606,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_switchons(subgroup)
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -658,7 +663,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_consumption(subgroup)
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -718,7 +723,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_duration(subgroup)
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -782,8 +787,10 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as f_err:
             self._warn_could_not_load_parsed(f_err, file_path)
             clearness_tpms, labels, step_size = self._parse_clearness_tpms()
-            np.save(file_path, clearness_tpms)
-            np.save(labels_path, labels)
+            with open_whole(file_path + '.npy', 'wb') as f:
+                np.save(f, clearness_tpms)
+            with open_whole(labels_path + '.npy', 'wb') as f:
+                np.save(f, labels)
             self._save_step_size(step_size_file_name, step_size)
 
         return clearness_tpms, labels, step_size
@@ -807,7 +814,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "temperatures_arma.json")
             geo_dic = self._parse_temperatures_arma()
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -838,7 +845,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "geographic_data.json")
             geo_dic = self._parse_geographic_data()
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -880,7 +887,8 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_path)
             climate_dict = self._parse_historical_climate_data()
-            np.savez_compressed(file_path, **climate_dict)
+            with open_whole(file_path + '.npz', 'wb') as f:
+                np.savez_compressed(f, **climate_dict)
 
         # Check for aware datetime
         if start_datetime.tzinfo is not None:
@@ -942,7 +950,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "fisher_lighting.json")
             fisher_dic = self._parse_fisher_lighting()
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(fisher_dic, f)
 
         return fisher_dic
@@ -967,7 +975,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "crest_lighting.json")
             crest_dic = self._parse_crest_lighting()
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(make_jsonable(crest_dic), f)
 
         return lists_to_numpy_array(crest_dic)
@@ -1003,7 +1011,7 @@ class LightingLoader(DatasetLoader):
                 'bulbs_consumption': bulbs_consumption,
                 'bulbs_penetration': bulbs_penetration,
             }
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(make_jsonable(bulbs_dic), f)
 
         return (
@@ -1040,7 +1048,8 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, file_path)
             bulbs = self._parse_bulbs_config(subgroup)
-            np.save(file_path, bulbs)
+            with open_whole(file_path + '.npy', 'wb') as f:
+                np.save(f, bulbs)
 
         return bulbs
 
@@ -1076,7 +1085,7 @@ class LightingLoader(DatasetLoader):
                     'mean': mean,
                     'std': std,
                 }
-            with open(file_path, "w+") as f:
+            with open_whole(file_path) as f:
                 json.dump(dic, f)
 
         return dic['mean'], dic['std']
@@ -1118,7 +1127,7 @@ class HeatingLoader(DatasetLoader):
 
             buildings_dict = self._parse_buildings_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with open_whole(app_file) as f:
                 json.dump(make_jsonable(buildings_dict), f, indent=2)
 
         return lists_to_numpy_array(buildings_dict)
@@ -1150,7 +1159,7 @@ class HeatingLoader(DatasetLoader):
 
             heating_system_dict = self._parse_heating_system_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with open_whole(app_file) as f:
                 json.dump(make_jsonable(heating_system_dict), f, indent=2)
 
         return lists_to_numpy_array(heating_system_dict)
@@ -1182,7 +1191,7 @@ class HeatingLoader(DatasetLoader):
 
             thermostat_dict = self._parse_thermostat_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with open_whole(app_file) as f:
                 json.dump(make_jsonable(thermostat_dict), f, indent=2)
 
         return lists_to_numpy_array(thermostat_dict)
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..127b888 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,4 +1,5 @@
 from datetime import datetime, time
+from demod.utils.files import open_whole
 from demod.utils.monte_carlo import PDFs
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
@@ -78,14 +79,15 @@ class LoaderTOU(DatasetLoader):
             tpm_dict['labels'] = labels
             tpm_dict['initial_pdf'] = initial_pdf
 
-            np.savez(file_path, **tpm_dict)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with open_whole(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, labels, initial_pdf
@@ -146,14 +148,15 @@ class LoaderTOU(DatasetLoader):
                 labels, initial_pdf, initial_duration_pdfs
             )
 
-            np.savez(file_path, **tpm_dict)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with open_whole(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, duration_pdfs, labels, initial_pdf, initial_duration_pdfs
@@ -222,7 +225,7 @@ class LoaderTOU(DatasetLoader):
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with open_whole(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return sparse_tpm, labels, activity_labels, initial_pdf
@@ -288,7 +291,8 @@ class LoaderTOU(DatasetLoader):
             activity_profiles = self._parse_activity_profiles(
                 subgroup
             )
-            np.savez(file_path, **activity_profiles)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **activity_profiles)
 
         return activity_profiles
 
@@ -347,7 +351,8 @@ class LoaderTOU(DatasetLoader):
             act_occurences = self._parse_daily_activity_starts(
                 subgroup
             )
-            np.savez(file_path, **act_occurences)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **act_occurences)
 
         return act_occurences
 
@@ -395,7 +400,8 @@ class LoaderTOU(DatasetLoader):
             act_durations = self._parse_activity_duration(
                 subgroup
             )
-            np.savez(file_path, **act_durations)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **act_durations)
 
         return act_durations
 
@@ -432,7 +438,8 @@ class LoaderTOU(DatasetLoader):
             act_proabs = self._parse_activity_probabilities(
                 subgroup
             )
-            np.savez(file_path, **act_proabs)
+            with open_whole(file_path + '.npz', 'wb') as fp:
+                np.savez(fp, **act_proabs)
         return act_proabs
 
     def _parse_activity_probabilities(
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6363ed5..d93826f 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -24,6 +24,7 @@ import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
+from ...utils.files import extract_whole, open_whole
 
 
 traceback_type_to_demod = {
@@ -124,11 +125,11 @@ class Tracebase(ApplianceLoader):
             print('This can take some time.')
             # Reads the url and  download the zip archive
             with  urllib.request.urlopen(download_url) as response:
-                with open(raw_zip_filepath, 'wb') as f:
+                # The archive is stored only when it was completely extracted
+                with open_whole(raw_zip_filepath, 'wb') as f:
                     shutil.copyfileobj(response, f)
-            # Now the file is downloaded
-            with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
-                zip_obj.extractall(self.raw_path)
+                    with zipfile.ZipFile(f, 'r') as zip_obj:
+                        extract_whole(zip_obj, self.raw_path)
 
     def _parse_real_profiles_dict(self, profiles_type: str):
         if profiles_type == 'switchedON':
diff --git a/demod/utils/files.py b/demod/utils/files.py
new file mode 100644
index 0000000..ab7845f
--- /dev/null
+++ b/demod/utils/files.py
@@ -0,0 +1,60 @@
+"""Helpers for writing files."""
+import contextlib
+import io
+import os
+import tempfile
+import uuid
+import zipfile
+
+
+@contextlib.contextmanager
+def open_whole(path: str, mode: str = 'w'):
+    """Open a file for writing, that appears only when it is complete.
+
+    What is written is kept in memory, and the file takes its name at the
+    end of the with statement, once all its content is on the disk.
+    If anything fails, or if the process stops, no file (or the previous
+    one) is found at path. Other processes never see an unfinished file.
+
+    Args:
+        path: The path of the file.
+        mode: 'w' for text or 'wb' for bytes.
+    """
+    content = io.BytesIO() if 'b' in mode else io.StringIO()
+    yield content
+
+    folder = os.path.dirname(path)
+    if folder:
+        os.makedirs(folder, exist_ok=True)
+    unfinished_path = '{}.{}.unfinished'.format(path, uuid.uuid4().hex)
+    try:
+        with open(unfinished_path, mode) as f:
+            f.write(content.getvalue())
+        os.replace(unfinished_path, path)
+    except BaseException:
+        if os.path.exists(unfinished_path):
+            os.remove(unfinished_path)
+        raise
+
+
+def extract_whole(zip_obj: zipfile.ZipFile, folder: str):
+    """Extract an archive in a folder, where only complete files appear.
+
+    Args:
+        zip_obj: The archive.
+        folder: The folder where the files of the archive go.
+    """
+    os.makedirs(folder, exist_ok=True)
+    with tempfile.TemporaryDirectory(
+        dir=folder, suffix='.unfinished'
+    ) as unfinished_folder:
+        zip_obj.extractall(unfinished_folder)
+        for path, _, file_names in os.walk(unfinished_folder):
+            target = os.path.normpath(os.path.join(
+                folder, os.path.relpath(path, unfinished_folder)
+            ))
+            os.makedirs(target, exist_ok=True)
+            for name in file_names:
+                os.replace(
+                    os.path.join(path, name), os.path.join(target, name)
+                )
diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 8e5eab6..1b7ad62 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -9,6 +9,8 @@ from typing import Tuple
 import warnings
 import numpy as np
 
+from .files import open_whole
+
 
 class SparseTPM():
     """A sparse implementation of the Transition probability Matrices.
@@ -225,15 +227,20 @@ class SparseTPM():
         Args:
             path: The path to which the TPM should be saved.
         """
-        np.save(path+'_tpm_times', self.times)
-        np.save(path+'_tpm_inds_from', self.inds_from)
-        np.save(path+'_tpm_inds_to', self.inds_to)
-        np.save(path+'_tpm_values', self.values)
-        # the size cannot be always deduced from the transitions
-        np.save(path+'_tpm_size', np.array([
-            self.n_states, self.n_times,
-            -1 if self.dead_state_value is None else self.dead_state_value
-        ]))
+        arrays = {
+            'times': self.times,
+            'inds_from': self.inds_from,
+            'inds_to': self.inds_to,
+            # the size cannot be always deduced from the transitions
+            'size': np.array([
+                self.n_states, self.n_times,
+                -1 if self.dead_state_value is None else self.dead_state_value
+            ]),
+            'values': self.values,
+        }
+        for name, array in arrays.items():
+            with open_whole('{}_tpm_{}.npy'.format(path, name), 'wb') as f:
+                np.save(f, array)
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
-- 
2.43.0


From 19e389c8508711d9966a3c1751c6a79d40d12af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 57/92] fix: several processes may create the folders of a
 dataset at once

The folders were created after a check that they do not exist, which made
one of two processes starting together fail with FileExistsError.
---
 demod/datasets/CREST/loader.py            |  5 ++-
 demod/datasets/OpenPowerSystems/loader.py |  4 +--
 demod/datasets/RenewablesNinja/loader.py  |  8 ++---
 demod/datasets/base_loader.py             | 38 ++++++++---------------
 demod/datasets/tou_loader.py              |  8 ++---
 demod/datasets/tracebase/loader.py        |  5 ++-
 demod/utils/files.py                      | 13 ++++++++
 7 files changed, 38 insertions(+), 43 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index ceee0c0..dbba8f9 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -22,7 +22,7 @@ from ..base_loader import (
     LightingLoader,
     PopulationLoader,
 )
-from ...utils.files import open_whole
+from ...utils.files import make_folder, open_whole
 from ...utils.sim_types import (
     AppliancesDict,
     StateLabels,
@@ -210,8 +210,7 @@ class Crest(
         self._check_crest_subgroup(subgroup)
 
         tpm_path = self.parsed_path + os.sep + "4_States"
-        if not os.path.exists(tpm_path):
-            os.mkdir(tpm_path)
+        make_folder(tpm_path)
         tpm_file_name = "".join(
             ("4_States", os.sep, "tpm__", subgroup_string(subgroup))
         )
diff --git a/demod/datasets/OpenPowerSystems/loader.py b/demod/datasets/OpenPowerSystems/loader.py
index dd07b87..6dd2477 100644
--- a/demod/datasets/OpenPowerSystems/loader.py
+++ b/demod/datasets/OpenPowerSystems/loader.py
@@ -7,6 +7,7 @@ from typing import Any, Dict
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
+from ...utils.files import make_folder
 from ...utils.countries import country_name_to_code
 
 
@@ -36,8 +37,7 @@ class OpenPowerSystemClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_folder(self.parsed_path_climate)
 
         self.country = country_name
 
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 4293b93..24a8ac5 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -14,7 +14,7 @@ import zipfile
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
-from ...utils.files import open_whole
+from ...utils.files import make_folder, open_whole
 from ...utils.countries import country_name_to_code, is_country_code
 
 
@@ -70,11 +70,9 @@ class NinjaRenewablesClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_folder(self.parsed_path_climate)
         # Creates the raw path
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_folder(self.raw_path)
 
         self.country = country_name
 
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index dcc8d09..5814b41 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
-from ..utils.files import open_whole
+from ..utils.files import make_folder, open_whole
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -87,15 +87,12 @@ class DatasetLoader:
         self.parsed_path = os.path.join(self.DATASET_PATH, "parsed_data")
 
         # Creates the directories if they do not exist
-        if not os.path.exists(self.parsed_path):
-            os.mkdir(self.parsed_path)
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_folder(self.parsed_path)
+        make_folder(self.raw_path)
 
         if version is not None:
             self.parsed_path = os.path.join(self.parsed_path, version)
-            if not os.path.isdir(self.parsed_path):
-                os.mkdir(self.parsed_path)
+            make_folder(self.parsed_path)
 
         self.version = version
 
@@ -339,8 +336,7 @@ class DatasetLoader:
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
-        if not os.path.isdir(self.parsed_path):
-            os.mkdir(self.parsed_path)
+        make_folder(self.parsed_path)
 
 
 class PopulationLoader(DatasetLoader):
@@ -351,8 +347,7 @@ class PopulationLoader(DatasetLoader):
         self.parsed_population_folder = os.path.join(
             self.parsed_path, 'population'
         )
-        if not os.path.isdir(self.parsed_population_folder):
-            os.mkdir(self.parsed_population_folder)
+        make_folder(self.parsed_population_folder)
 
     def load_population_subgroups(
         self, population_type: str,
@@ -539,8 +534,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_ownership"
         parsed_path_ownership = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_ownership):
-            os.mkdir(parsed_path_ownership)
+        make_folder(parsed_path_ownership)
 
         file_name = folder_name + os.sep + "ownership__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -594,8 +588,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_folder(parsed_path_targets)
 
         file_name = folder_name + os.sep + "switchons__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -651,8 +644,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_folder(parsed_path_targets)
 
         file_name = folder_name + os.sep + "consumption__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -711,8 +703,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_folder(parsed_path_targets)
 
         file_name = folder_name + os.sep + "duration__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -759,8 +750,7 @@ class ClimateLoader(DatasetLoader):
         """
         super().__init__(**kwargs)
         self.parsed_path_climate = os.path.join(self.parsed_path, "climate")
-        if not os.path.isdir(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_folder(self.parsed_path_climate)
 
     def load_clearness_tpms(self) -> Tuple[TPM, StateLabels, timedelta]:
         """Return TPM for the clearness of the sky, with the labels.
@@ -933,8 +923,7 @@ class LightingLoader(DatasetLoader):
         self.parsed_bulbs_folder = os.path.join(
             self.parsed_path, 'bulbs'
         )
-        if not os.path.isdir(self.parsed_bulbs_folder):
-            os.mkdir(self.parsed_bulbs_folder)
+        make_folder(self.parsed_bulbs_folder)
 
     def load_fisher_lighting(self) -> Dict[str, Any]:
         """Load data for
@@ -1104,8 +1093,7 @@ class HeatingLoader(DatasetLoader):
         self.parsed_heating_folder = os.path.join(
             self.parsed_path, 'heating'
         )
-        if not os.path.isdir(self.parsed_heating_folder):
-            os.mkdir(self.parsed_heating_folder)
+        make_folder(self.parsed_heating_folder)
     def load_buildings_dict(
         self, subgroup: Subgroup = {}
     ) -> Dict[str, np.ndarray]:
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 127b888..29d0277 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,5 +1,5 @@
 from datetime import datetime, time
-from demod.utils.files import open_whole
+from demod.utils.files import make_folder, open_whole
 from demod.utils.monte_carlo import PDFs
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
@@ -41,8 +41,7 @@ class LoaderTOU(DatasetLoader):
         # make the dir of the parsed path
         self._check_make_parsed_dir()
         # make the dir of the parsed path activity type
-        if not os.path.exists(self.parsed_path_activity):
-            os.mkdir(self.parsed_path_activity)
+        make_folder(self.parsed_path_activity)
 
     def load_tpm(
         self, subgroup: Subgroup
@@ -306,8 +305,7 @@ class LoaderTOU(DatasetLoader):
             self.parsed_path_activity,
             'ActivityStats'
         )
-        if not os.path.isdir(self.parsed_path_activity_stats):
-            os.mkdir(self.parsed_path_activity_stats)
+        make_folder(self.parsed_path_activity_stats)
 
     def load_daily_activity_starts(
         self, subgroup: Subgroup
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index d93826f..22529f8 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -24,7 +24,7 @@ import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
-from ...utils.files import extract_whole, open_whole
+from ...utils.files import extract_whole, make_folder, open_whole
 
 
 traceback_type_to_demod = {
@@ -113,8 +113,7 @@ class Tracebase(ApplianceLoader):
             clear_parsed_data=clear_parsed_data or update_raw_data
         )
         self.step_size = step_size
-        if not os.path.isdir(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_folder(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
         if update_raw_data:
diff --git a/demod/utils/files.py b/demod/utils/files.py
index ab7845f..5b246f6 100644
--- a/demod/utils/files.py
+++ b/demod/utils/files.py
@@ -7,6 +7,19 @@ import uuid
 import zipfile
 
 
+def make_folder(path: str):
+    """Create a folder if it does not exist.
+
+    Other processes may create the same folder at the same time.
+
+    Args:
+        path: The path of the folder. Its parent folder must exist.
+    """
+    if not os.path.isdir(path):
+        with contextlib.suppress(FileExistsError):
+            os.mkdir(path)
+
+
 @contextlib.contextmanager
 def open_whole(path: str, mode: str = 'w'):
     """Open a file for writing, that appears only when it is complete.
-- 
2.43.0


From f7921d221a2f7aa464459ea8eb24940bf95e7236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 58/92] fix: a parsed dictionary may hold numpy scalars

make_jsonable stored them, but lists_to_numpy_array refused them, so that
the first load of the item failed and the next ones did not.
---
 demod/utils/parse_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index c04bb2f..de10e10 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -388,9 +388,10 @@ def lists_to_numpy_array(object: Any):
         }
     elif isinstance(object, (np.ndarray, list, pandas.Series)):
         return np.asarray(object)
-    elif isinstance(object, (str, int, float)):
+    elif isinstance(object, (str, int, float, np.generic)):
         return object
-
+    elif object is None:
+        return None
     else:
         raise NotImplementedError(
             " 'lists_to_numpy_array' is not defined for object of type: "
-- 
2.43.0


From 2c6d6cf48894e7faf317fd93c62503cb442201b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 59/92] fix: historical climate data may be stored in
 nanoseconds

The start of the simulation could not be compared with the datetimes.
---
 demod/datasets/base_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index 5814b41..bc2d59c 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -889,6 +889,8 @@ class ClimateLoader(DatasetLoader):
         else:
             # Assume the input is already utc
             start_datetime_utc = start_datetime
+        # Datetime objects cannot be compared with all numpy datetime units
+        start_datetime_utc = np.datetime64(start_datetime_utc)
 
         # Checks that the requested start is not too late.
         if start_datetime_utc > climate_dict["datetime"][-1]:
-- 
2.43.0


From ad81a01afa8eb30d4a213b412c73fb531fb4e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 60/92] fix: the climates of the two weightings are stored
 apart

A climate weighted by land area was answered with the parsed climate
weighted by population, and the other way round.
---
 demod/datasets/RenewablesNinja/loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 24a8ac5..b522efe 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -66,9 +66,12 @@ class NinjaRenewablesClimate(ClimateLoader):
         again, only for the selected country.
         """
         super().__init__(**kwargs)
-        # Creates the path for the requested country
+        # Creates the path for the requested country and weighting
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate,
+            country_name if weighted_type == 'population'
+            else country_name + '_' + weighted_type
+        )
         # creates the parsed path
         make_folder(self.parsed_path_climate)
         # Creates the raw path
-- 
2.43.0


From 4137b38ca99c0e60848b9f7664196e147069f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 61/92] fix: loaders can store items after their folders were
 cleared

A loader failed with FileNotFoundError when another one was created with
clear_parsed_data.
---
 demod/datasets/CREST/loader.py | 4 ++--
 demod/datasets/base_loader.py  | 8 ++++----
 demod/datasets/tou_loader.py   | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index dbba8f9..d267041 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -22,7 +22,7 @@ from ..base_loader import (
     LightingLoader,
     PopulationLoader,
 )
-from ...utils.files import make_folder, open_whole
+from ...utils.files import open_whole
 from ...utils.sim_types import (
     AppliancesDict,
     StateLabels,
@@ -210,7 +210,7 @@ class Crest(
         self._check_crest_subgroup(subgroup)
 
         tpm_path = self.parsed_path + os.sep + "4_States"
-        make_folder(tpm_path)
+        os.makedirs(tpm_path, exist_ok=True)
         tpm_file_name = "".join(
             ("4_States", os.sep, "tpm__", subgroup_string(subgroup))
         )
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index bc2d59c..997606e 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -534,7 +534,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_ownership"
         parsed_path_ownership = self.parsed_path + os.sep + folder_name
-        make_folder(parsed_path_ownership)
+        os.makedirs(parsed_path_ownership, exist_ok=True)
 
         file_name = folder_name + os.sep + "ownership__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -588,7 +588,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        make_folder(parsed_path_targets)
+        os.makedirs(parsed_path_targets, exist_ok=True)
 
         file_name = folder_name + os.sep + "switchons__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -644,7 +644,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        make_folder(parsed_path_targets)
+        os.makedirs(parsed_path_targets, exist_ok=True)
 
         file_name = folder_name + os.sep + "consumption__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -703,7 +703,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        make_folder(parsed_path_targets)
+        os.makedirs(parsed_path_targets, exist_ok=True)
 
         file_name = folder_name + os.sep + "duration__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 29d0277..a83c1c0 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -305,7 +305,7 @@ class LoaderTOU(DatasetLoader):
             self.parsed_path_activity,
             'ActivityStats'
         )
-        make_folder(self.parsed_path_activity_stats)
+        os.makedirs(self.parsed_path_activity_stats, exist_ok=True)
 
     def load_daily_activity_starts(
         self, subgroup: Subgroup
-- 
2.43.0


From e04cb595aa3f5c1575de6a2dcb4f775ec363fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 62/92] fix: old parsed climates are removed before the new raw
 data appear

A stop between the two left the old parsed data for the new raw data, and
processes that downloaded together removed each other's files.
---
 demod/datasets/RenewablesNinja/loader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index b522efe..642fb0f 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -4,6 +4,7 @@ Thanks to Open-Power-System-Data for their code, which is used here.
 https://github.com/Open-Power-System-Data/weather_data/blob/master/download.ipynb
 """
 
+import contextlib
 from datetime import timedelta
 import os
 from typing import Any, Dict
@@ -118,10 +119,13 @@ class NinjaRenewablesClimate(ClimateLoader):
         with urllib.request.urlopen(request) as response:
             with open_whole(self.raw_file_path, 'wb') as f:
                 shutil.copyfileobj(response, f)
-        print('download finished')
-        # Now the file is downloaded, we can remove old parsed data
-        for f in os.listdir(self.parsed_path_climate):
-            os.remove(os.path.join(self.parsed_path_climate, f))
+                print('download finished')
+                # Now the file is downloaded, we can remove old parsed data
+                for name in os.listdir(self.parsed_path_climate):
+                    if name.endswith('.unfinished'):
+                        continue  # another process is storing it
+                    with contextlib.suppress(FileNotFoundError):
+                        os.remove(os.path.join(self.parsed_path_climate, name))
 
 
 
-- 
2.43.0


From fb7a38dc21f2164063c6cb2e5d7cd63fe7bc2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 63/92] fix: GTOU data that was never stored can be cleared

GTOU(clear_parsed_data=True) failed on a fresh installation.
---
 demod/datasets/GermanTOU/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 328a057..4e60d75 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -87,8 +87,10 @@ class GTOU(LoaderTOU, PopulationLoader):
 
     def _clear_parsed_data(self):
         # clear the parsed directory
-        shutil.rmtree(self.parsed_path + os.sep + self.activity_type)
-        os.mkdir(self.parsed_path + os.sep + self.activity_type)
+        activity_path = self.parsed_path + os.sep + self.activity_type
+        if os.path.isdir(activity_path):
+            shutil.rmtree(activity_path)
+        os.mkdir(activity_path)
         # Also cleans the zip file
         parsed_zip_filepath = (
             self.raw_path + os.sep + self.activity_type + '.zip'
-- 
2.43.0


From 0898ccfe1cfefc8f004e536a17ecef6c1ca57e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 64/92] fix: whole-degree thermostat patterns can move by half
 degrees

---
 demod/simulators/heating_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index ef1f104..b6b0e72 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -174,7 +174,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         else:
             raise ValueError("unkown argument pattern_attribution_method")
 
-        self.patterns_mean_T = np.array(mean_T)
+        self.patterns_mean_T = np.array(mean_T, dtype=float)
         self.max_deviation_T = np.array(std_T)
         self.prob_changing_comfort = prob_changing_comfort
 
-- 
2.43.0


From 812127502a5a1b6574a4e02d4749cc9b59be629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 65/92] fix: thermostats keep their own copy of the occupancies
 given

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index b6b0e72..67a0bdc 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -199,8 +199,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
         """
         super().__init__(n_households, **kwargs)
         self.attribute_patterns(pattern_attribution_method)
-        self.last_occupancy = initial_occupancy
-        self.last_act_occ = initial_act_occ
+        self.last_occupancy = np.array(initial_occupancy)
+        self.last_act_occ = np.array(initial_act_occ)
         self.time = start_datetime
         self.initialize_starting_state(0)
 
-- 
2.43.0


From 7ec87030d5db5100c9a84fe41d1e0659e093007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 66/92] fix: appliance simulators add their values to their own
 dict

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 72349e0..2e60df8 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -124,7 +124,8 @@ class AppliancesSimulator(TimeAwareSimulator):
             :py:meth:`sample_real_load_profiles`
         """
         super().__init__(n_households, **kwargs)
-        self.appliances = appliances_dict
+        # Own dict, as values are added to it later
+        self.appliances = dict(appliances_dict)
 
         # give appliances to the households
         self.available_appliances = self.sample_available_appliances(
-- 
2.43.0


From 496dececa76a1bd6d6a94ef91f1fb9144cd2a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 67/92] fix: a probabilistic simulator does not flip the
 appliances of its data

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 2e60df8..1de0ce5 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1611,6 +1611,8 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         appliance_dict: AppliancesDict,
         initial_activities_dict: ActivitiesDict
     ) -> AppliancesDict:
+        # Own dict, so that the one of the data is not modified
+        appliance_dict = dict(appliance_dict)
         # Check if probabilistic is given, else assume all appliances are it.
         if 'probabilistic' not in appliance_dict:
             warnings.warn((
-- 
2.43.0


From 49039e4c71614b8cd6fd5c4254e51750547168d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:12 +0000
Subject: [PATCH 68/92] fix: appliances used after an activity keep that
 probability for every order of activities

---
 demod/simulators/appliance_simulators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 1de0ce5..e192292 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1726,9 +1726,10 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     (sum(mask_hh_subgroup), sum(mask_this_act))
                 ).reshape(-1)
 
-                # special probs for one time probs #
-                ####################################
-                # After activity stops
+            # special probs for one time probs #
+            ####################################
+            # After activity stops, replaces the probability of the activity
+            for activity in activity_prob.keys():
                 mask_start_after_act = (
                     self.appliances['previous_activity'] == activity
                 )
-- 
2.43.0


From 58a1aa67e476fee6ba5619b42d632b94bbaadb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:53 +0000
Subject: [PATCH 69/92] fix: activity appliance simulators pass the activities
 to their initialisation steps

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index e192292..9bc9bbb 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1396,7 +1396,7 @@ class ActivityApplianceSimulator(AppliancesSimulator):
             act: np.array(n) for act, n in initial_activities_dict.items()
         }
 
-        super().initialize_starting_state(self, **kwargs)
+        super().initialize_starting_state(initial_activities_dict, **kwargs)
 
     def _initialize_real_loads(self):
         """Init the appliances that are used in the starting state."""
@@ -1784,7 +1784,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
             act: np.array(n) for act, n in initial_activities_dict.items()
         }
 
-        super().initialize_starting_state(self, **kwargs)
+        super().initialize_starting_state(initial_activities_dict, **kwargs)
 
     def step(self, activities_dict: Dict[str, np.ndarray]) -> None:
         """Step function for the appliances.
-- 
2.43.0


From 7395c99cc0519843c51b7406f73f3efbab396cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:13 +0000
Subject: [PATCH 70/92] fix: the combi boilers are known when the controls are
 initialised

---
 demod/simulators/heating_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 67a0bdc..d9f7dd9 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1178,7 +1178,6 @@ class SystemControls(Simulator):
             is_combi_boiler: Whether the boiler are combi. Defaults to None.
         """
         super().__init__(n_households, **kwargs)
-        self.initialize_starting_state(**kwargs)
 
         # assigns the combi boilers
         self.is_combi_boiler = (
@@ -1187,6 +1186,8 @@ class SystemControls(Simulator):
             else np.zeros(n_households, dtype=bool)
         )
 
+        self.initialize_starting_state(**kwargs)
+
     def initialize_starting_state(self, **kwargs) -> None:
         """Initialize the controls to OFF."""
         # TODO: check if we want a better initalization
-- 
2.43.0


From 78045242093c5754a6075bd54131ea07bd393775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:13 +0000
Subject: [PATCH 71/92] fix: transitions including the same state accept text
 states

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index de10e10..65fe3e0 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -70,7 +70,7 @@ def states_to_transitions(
         # check that the state has really disappeared, and not that it changed
         mask_transition = (
             old_states != s if not include_same_state
-            else ~np.isnan(s)
+            else s == s  # all states but nan
         )
         transition_times.append(np.full(np.sum(mask_transition), i))
         transition_person.append(np.where(mask_transition)[0])
-- 
2.43.0


From 33125c2f636841b3d05f105341f8fa15a52d85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 72/92] fix: german survey: occupants stayed away between two
 journeys, travelling was never remembered

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index c57ed18..e0f6674 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1590,7 +1590,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
 
         #
-        mask_travelling = np.array(mask_was_travelling)
+        mask_was_travelling = np.array(mask_travelling)
         occupancies.append(np.array(current_occupancy))
 
     return np.asarray(occupancies).T
-- 
2.43.0


From a7f27e70d463f73fb6f0e3257cb0a36cf999bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 73/92] fix: german survey: a day without a final location
 ended at home even for activities done away

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index e0f6674..485592c 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1587,7 +1587,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == 1)] = True
         current_occupancy[mask_after_last_travel & (final_occupancy == 2)] = False
         # keine angabe gets the last value probability
-        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
+        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)] >= 0
 
         #
         mask_was_travelling = np.array(mask_travelling)
-- 
2.43.0


From 7e6ddca2f02edb41afe99a7658ff99b0251efb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 74/92] fix: german survey: a day ending where the next one
 starts took the start of the previous day

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 485592c..93f0973 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -50,7 +50,7 @@ travelling          = np.array(df_akt['tc5'])
 initial_location    = np.array(df_akt['tc7'])
 final_location      = np.array(df_akt['tc8'])
 # 'trifft nicht zu' = -2 and means that the start location of the next day should be used
-final_location[final_location==-2] = np.roll(initial_location, 1)[final_location==-2]
+final_location[final_location==-2] = np.roll(initial_location, -1)[final_location==-2]
 
 # get a link between df_akt and df_pers
 df_akt_index_person = np.array([np.where(df_pers['id_persx'] == i)[0][0] for i in df_akt['id_persx']])
-- 
2.43.0


From 7d6b3d65a64ee7bc08ac562bcb89d5e25b4651e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 75/92] fix: german survey: lists of requirements and
 '1_retired' ignored the quality flags that were turned off

---
 demod/datasets/GermanTOU/parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 93f0973..eb43e76 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -115,6 +115,12 @@ def get_mask_subgroup(
     """
 
     _mask = np.ones(len(df_akt), dtype=bool)
+    # The flags are applied once, not again for parts of a requirement
+    no_flags = {
+        'only_fully_recorded_household': False,
+        'remove_missing_days': False,
+        'only_household_identical_days': False,
+    }
 
     if only_fully_recorded_household:
         # check if the diary is in the list of household that have the number of records=number of people living their
@@ -136,14 +142,14 @@ def get_mask_subgroup(
 
     if weekday:
         if isinstance(weekday, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i) for i in weekday])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(**no_flags, weekday=i) for i in weekday])
         else:
             assert weekday <= 7 and weekday > 0, 'weekday value must be 1,2,3,4,5,6 or 7'
             _mask &= np.array(df_akt['wtagfei']) == weekday
 
     if n_residents:
         if isinstance(n_residents, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i) for i in n_residents])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(**no_flags, n_residents=i) for i in n_residents])
         else:
             assert n_residents <= 6 and n_residents > 0, 'n_residents value must be 1,2,3,4,5 or 6'
             _mask &= np.array(df_hh['ha1x'][df_akt['id_hhx']-1]) == n_residents
@@ -162,7 +168,7 @@ def get_mask_subgroup(
         elif hh_work_type == 'other':
             _mask &= np.array(df_hh['anz_erw'][df_akt['id_hhx']-1]) == 7
         elif hh_work_type == '1_retired':
-            _mask &= get_mask_subgroup(n_residents=1, life_situation=8)
+            _mask &= get_mask_subgroup(**no_flags, n_residents=1, life_situation=8)
         elif hh_work_type == '2_retired':
             # get the households where there are 2 retired
             hh_2res = df_hh['id_hhx'][df_hh['ha1x'] == 2]
@@ -188,7 +194,7 @@ def get_mask_subgroup(
 
     if life_situation:
         if isinstance(life_situation, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i) for i in life_situation])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(**no_flags, life_situation=i) for i in life_situation])
         elif isinstance(life_situation, dict):
             # individual life situation for all households memebers
             # get households with the corresponding life situations
-- 
2.43.0


From a142bd19ccd56993e794b889c6369d1f3defe35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 76/92] fix: german survey: two-resident households with a
 single recorded person broke '2_retired'

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index eb43e76..a59da50 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -180,7 +180,7 @@ def get_mask_subgroup(
             # Im Ruhestand oder Vorruhestand
             hh_2ret = [
                 hh_id for hh_id, job in zip(hh_2res, jobs)
-                if job[0] == 8 and job[1] == 8]
+                if len(job) == 2 and job[0] == 8 and job[1] == 8]
 
             _mask &= np.isin(df_akt['id_hhx'], hh_2ret)
 
-- 
2.43.0


From dde78424f392dfdd9e04c04540f7df585ef0a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 77/92] fix: german survey: secondary activities never replaced
 'other', the main ones were looked up twice

---
 demod/datasets/GermanTOU/loader.py | 20 +++++++++++++-------
 demod/datasets/GermanTOU/parser.py | 13 +++++++++----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 4e60d75..c741f2d 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -266,7 +266,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         return_hh will also return the household id
         """
-        from .parser import primary_states, occ, get_mask_subgroup
+        from .parser import (
+            primary_states, secondary_states, occ, get_mask_subgroup
+        )
 
         # Sets some information on activity for the loading
         self._load_rawdata_info()
@@ -279,12 +281,13 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         mask_subgroup = get_mask_subgroup(**subgroup)
         raw_states = primary_states[mask_subgroup]
-
+        # 0 means no secondary activity, it is never 'away'
+        sec_activity_dict = self.corresponding_dict
+        activity_dict = self.corresponding_dict.copy()
 
         if self.add_away_state:
             # Away is the opposite of occupancy
             raw_states[~occ[mask_subgroup]] = 0
-            activity_dict = self.corresponding_dict.copy()
             activity_dict[0] = 'away'
 
 
@@ -294,9 +297,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         if self.use_secondary_states:
             # Gets the secondary states
-            raw_sec_states = primary_states[mask_subgroup]
+            raw_sec_states = secondary_states[mask_subgroup]
             sec_states, sec_states_label = convert_states(
-                raw_sec_states, activity_dict
+                raw_sec_states, sec_activity_dict
             )
             sec_states_label[sec_states_label=='-'] = 'other'
             # Find where to replace
@@ -305,8 +308,11 @@ class GTOU(LoaderTOU, PopulationLoader):
                 & (sec_states_label[sec_states] != 'other')
             )
             # Recontruct a states array with the secondary states
-            raw_act_array = states_label[states]
-            raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+            raw_act_array = np.where(
+                mask_can_replace,
+                sec_states_label[sec_states],
+                states_label[states]
+            )
             # Finds back in states format
             states, states_label = convert_states(raw_act_array)
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index a59da50..bbe6b72 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1758,6 +1758,8 @@ def get_tpms_activity(
     mask_subgroup = get_mask_subgroup( **subgroup)
 
     raw_states = primary_states[mask_subgroup]
+    # 0 means no secondary activity, it is never 'away'
+    sec_activity_dict = activity_dict
 
     if add_away_state:
         raw_states[~occ[mask_subgroup]] = 0
@@ -1771,9 +1773,9 @@ def get_tpms_activity(
 
     if use_sec_states:
         # Gets the secondary states
-        raw_sec_states = primary_states[mask_subgroup]
+        raw_sec_states = secondary_states[mask_subgroup]
         sec_states, sec_states_label = convert_states(
-            raw_sec_states, activity_dict
+            raw_sec_states, sec_activity_dict
         )
         sec_states_label[sec_states_label=='-'] = 'other'
         # Find where to replace
@@ -1782,8 +1784,11 @@ def get_tpms_activity(
             & (sec_states_label[sec_states] != 'other')
         )
         # Recontruct a states array with the secondary states
-        raw_act_array = states_label[states]
-        raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+        raw_act_array = np.where(
+            mask_can_replace,
+            sec_states_label[sec_states],
+            states_label[states]
+        )
         # Finds back in states format
         states, states_label = convert_states(raw_act_array)
 
-- 
2.43.0


From 1fc319045efd61aba5f9ceb07f7c35e31ded1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:02 +0000
Subject: [PATCH 78/92] fix: german survey: activities that nobody does were
 listed several times in the labels

---
 demod/datasets/GermanTOU/loader.py | 2 +-
 demod/datasets/GermanTOU/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index c741f2d..c0db873 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -318,7 +318,7 @@ class GTOU(LoaderTOU, PopulationLoader):
 
 
         # Adds missing activities from dict to states labels
-        all_activities = np.array(list(activity_dict.values()))
+        all_activities = np.unique(list(activity_dict.values()))
         missing_act = all_activities[~np.isin(all_activities, states_label)]
         states_label = np.concatenate((states_label, missing_act))
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index bbe6b72..d93252c 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1794,7 +1794,7 @@ def get_tpms_activity(
 
 
     # Adds missing activities from dict to states labels
-    all_activities = np.array(list(activity_dict.values()))
+    all_activities = np.unique(list(activity_dict.values()))
     missing_act = all_activities[~np.isin(all_activities, states_label)]
     states_label = np.concatenate((states_label, missing_act))
 
-- 
2.43.0


From ff9d110fbc79c10027a8d41752d0d78687564c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:03 +0000
Subject: [PATCH 79/92] fix: german survey: daily activity starts were not
 probabilities, days that do not exist were counted

---
 demod/datasets/GermanTOU/loader.py | 45 ++++++++++++------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index c0db873..fd0f027 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -357,39 +357,30 @@ class GTOU(LoaderTOU, PopulationLoader):
     ) -> Dict[str, np.ndarray]:
         """Parse the number of times an activity starts in the diaries."""
 
-        states, hh_id, day_id = self.get_states(
-            subgroup, return_hh=True, return_day=True
-        )
+        states = self.get_states(subgroup)
         # Converts the states to transitions
         transitions_dict = states_to_transitions(states)
-        # Find in which household and which recorded day the diary was
-        transitions_dict['hh_day'] = (
-            # Samll trick to get unique hh and day transitions (day_id = 1, 2 or 3)
-            hh_id[transitions_dict['persons']] * 4
-            + day_id[transitions_dict['persons']]
-        )
+
+        def starts_pdf(mask_starts):
+            # Counts how many times each person starts
+            n_starts = np.bincount(
+                transitions_dict['persons'][mask_starts],
+                minlength=len(states)
+            )
+            # Counts the number of persons starting i times and converts to probs
+            return np.bincount(n_starts).astype(float) / len(states)
 
         daily_starts = {
-            act: np.bincount(  # Counts the number of persons starting i times
-                    np.bincount(  # Counts how many time each household start act
-                        transitions_dict['hh_day'][
-                            transitions_dict['new_states'] == act
-                        ]
-                    )
-                ).astype(float) / len(states)  # Convert to probs
-            for act in np.unique(transitions_dict['new_states'])
+            act: starts_pdf(transitions_dict['new_states'] == act)
+            for act in np.unique(states)
         }
         # Special case: active occupancy
-        daily_starts['active_occupancy'] = np.bincount(
-            # Counts the number of persons starting i times
-            np.bincount(  # Counts how many time each household start act
-                transitions_dict['hh_day'][
-                    # Active occupancy start when someone wakes up or comes back
-                    # BUT Does not take into account sleeping away from home ...
-                    (transitions_dict['new_states'] == 'sleeping')
-                    | (transitions_dict['new_states'] == 'away')
-                ]
-        )).astype(float) / len(states)  # Convert to probs
+        daily_starts['active_occupancy'] = starts_pdf(
+            # Active occupancy start when someone wakes up or comes back
+            # BUT Does not take into account sleeping away from home ...
+            (transitions_dict['new_states'] == 'sleeping')
+            | (transitions_dict['new_states'] == 'away')
+        )
 
         return daily_starts
 
-- 
2.43.0


From 5014b3dc797a3afa37f5f1b1cf5d64c9beb34ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:03 +0000
Subject: [PATCH 80/92] fix: german survey: activity probabilities could not be
 parsed when nobody is away or asleep

---
 demod/datasets/GermanTOU/loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index fd0f027..8927e44 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -395,9 +395,9 @@ class GTOU(LoaderTOU, PopulationLoader):
         }
         # adds the active occupancy
         activity_probabilities['active_occupancy'] = np.clip(
-            1.
-            -  activity_probabilities['away']
-            -  activity_probabilities['sleeping'],
+            np.ones(states.shape[1])
+            -  activity_probabilities.get('away', 0.)
+            -  activity_probabilities.get('sleeping', 0.),
             0., 1.
         )
 
-- 
2.43.0


From 95017d04bb6e411094ea99c738e573f2a604c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:53 +0000
Subject: [PATCH 81/92] fix: german survey: positions in the list of ratings
 were taken for the ratings of being at home

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index d93252c..e6c771e 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1552,9 +1552,9 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         There is no guarantee on the validity of this, but results seems ok
     """
     # convert the states to their home indice rating
-    main_rating, _         = convert_states(primary_states, dic_home)
-    secondary_rating, _    = convert_states(secondary_states, dic_home)
-    home_ratings = main_rating + secondary_rating
+    main_states, main_ratings = convert_states(primary_states, dic_home)
+    sec_states, sec_ratings = convert_states(secondary_states, dic_home)
+    home_ratings = main_ratings[main_states] + sec_ratings[sec_states]
 
     #initialize the occupancy
     current_occupancy= np.zeros_like(initial_occupancy, dtype=bool)
-- 
2.43.0


From 3c90044c9c152d45e323d9d6514869d7ec5077f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:53 +0000
Subject: [PATCH 82/92] fix: subgroups with an age range could not be parsed,
 their legend has a tuple

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 65fe3e0..cfe1e5d 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -322,7 +322,7 @@ def make_jsonable(object: Any):
             make_jsonable(key): make_jsonable(item)
             for key, item in object.items()
         }
-    elif isinstance(object, (np.ndarray, list, pandas.Series)):
+    elif isinstance(object, (np.ndarray, list, tuple, pandas.Series)):
         return [make_jsonable(elem) for elem in object]
     elif isinstance(object, (str, int, float)):
         return object
-- 
2.43.0


From ad79e282b1afdf3d7679addcf6c38a8bed3e2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:30 +0000
Subject: [PATCH 83/92] fix: tracebase: recordings of whole steps were given an
 additional step without load

---
 demod/datasets/tracebase/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 22529f8..5e1d08d 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -197,7 +197,7 @@ class Tracebase(ApplianceLoader):
                 # Need to average over the load
                 sec_avg = int(self.step_size.total_seconds())
                 # Pad the array for resahping
-                n_pad = sec_avg - (len(load_second) % sec_avg)
+                n_pad = -len(load_second) % sec_avg
                 padded_load = np.append(load_second, np.zeros(n_pad))
                 # Compute the mean over the step size intervals
                 return padded_load.reshape((-1, sec_avg)).mean(axis=-1)
-- 
2.43.0


From c3449399659d15e92fe9894e22d55119f75a994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:30 +0000
Subject: [PATCH 84/92] fix: tracebase: recordings that are never on made
 loading the switched on profiles fail

---
 demod/datasets/tracebase/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 5e1d08d..8664459 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -243,6 +243,8 @@ class Tracebase(ApplianceLoader):
                 if load_name in load_profiles_satisfying:
                     # Assume the load is where there are enough watts in profils
                     mask = np.where(load > 6)[0]
+                    if len(mask) == 0:  # The appliance is never on
+                        continue
                     # Take the boundaries of where the on load is
                     a, b = mask[[0, -1]]
                     if app_type not in dict_ON_profiles:
-- 
2.43.0


From 9163d3aa4d18908a1b4cc5afffd928dac9480e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 85/92] fix: DESTATIS: appliances left over from a previous row
 of the same type were kept in the ownership

---
 demod/datasets/DESTATIS/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index aa5571e..30d41db 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -186,6 +186,10 @@ class Destatis(ApplianceLoader, PopulationLoader):
             # removes spaces present in data
             app_type = str(app_type).replace(" ", "")
             probs = assign_ownership_from_prob1_and_number(prob, number)
+            # removes what a previous row with the same type has added
+            i = 2
+            while ownership_dic.pop(app_type + "_" + str(i), None) is not None:
+                i += 1
             # adds to the dictionary
             for i, prob in enumerate(probs):
                 ownership_dic[app_type + "_" + str(i + 1)] = (
-- 
2.43.0


From eba5cee29afde95800b3edd653c44751e6fc39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:52 +0000
Subject: [PATCH 86/92] fix: input file: lighting numbers that are equal were
 changed or unreadable, pandas renames duplicated column names

---
 demod/datasets/ExcellInputFile/loader.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/demod/datasets/ExcellInputFile/loader.py b/demod/datasets/ExcellInputFile/loader.py
index 52867ba..3b8cedc 100644
--- a/demod/datasets/ExcellInputFile/loader.py
+++ b/demod/datasets/ExcellInputFile/loader.py
@@ -89,11 +89,13 @@ class InputFileLoader(ApplianceLoader, LoaderTOU, LightingLoader, HeatingLoader)
 
         df = pd.read_excel(
             self.raw_file_path,
-            header=23, sheet_name="Lighting",
+            header=None, sheet_name="Lighting",
             engine="openpyxl",
         )
-
-        crest_dict['calibration_scalar'] = float(df.columns[5])
+        # not read as columns names, as pandas renames the duplicated ones
+        crest_dict['calibration_scalar'] = float(df.iloc[23, 5])
+        crest_dict['irradiance_threshold_mean'] = float(df.iloc[3, 5])
+        crest_dict['irradiance_threshold_std'] = float(df.iloc[3, 6])
 
         df = pd.read_excel(
             self.raw_file_path,
@@ -121,15 +123,6 @@ class InputFileLoader(ApplianceLoader, LoaderTOU, LightingLoader, HeatingLoader)
             np.array(df["(minutes).1"][:9], dtype=float)
         )
 
-        df = pd.read_excel(
-            self.raw_file_path,
-            sheet_name="Lighting",
-            header=3,
-            engine="openpyxl",
-        )
-        crest_dict['irradiance_threshold_mean'] = float(df.columns[5])
-        crest_dict['irradiance_threshold_std'] = float(df.columns[6])
-
         return crest_dict
 
     def load_bulbs(self) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 586191a93203b06082bcfce2658f2b4ba302b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:39 +0000
Subject: [PATCH 87/92] fix: german data set: the error on a missing fisher
 lighting could not be raised, its text misses the version

---
 demod/datasets/Germany/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index 8ab8128..570a740 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -186,7 +186,7 @@ class GermanDataHerus(
                 (
                     "'_parse_fisher_lighting' is not implemented for {}"
                     ", version '{}'."
-                ).format(type(self).__name__)
+                ).format(type(self).__name__, self.version)
             )
 
     def _parse_crest_lighting(self) -> Dict[str, Any]:
-- 
2.43.0


From 285aa6bf6d16f656549a344a4801ac22c9cc0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 88/92] fix: logger: profiles could not be plotted in a column
 without the time, nor alone

---
 demod/simulators/base_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index f8f2bc7..9b507db 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -278,12 +278,15 @@ class SimLogger():
             n_plots -= 1
             x_ticks = self.get('current_time')
         else:
-            x_ticks = np.arange(0, self.length)
+            # The initialization record is not part of the profiles
+            x_ticks = np.arange(0, max(self.length - 1, 0))
 
         fig, axes = plt.subplots(
             nrows=n_plots,
-            sharex=True
+            sharex=True,
+            squeeze=False
         )
+        axes = axes[:, 0]
         plt.subplots_adjust(hspace=0)
 
 
-- 
2.43.0


From da518787a225efca51ad0ea11e9ccf6fda3cccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 89/92] fix: logger: not aggregated profiles of several parts
 could not be plotted

---
 demod/simulators/base_simulators.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 9b507db..47a57f3 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -379,14 +379,20 @@ class SimLogger():
             if attr == 'current_time': continue
             serie = self.get(attr)
 
-            if not aggr and (len(serie.shape) > 1):
-                if aggregate:
-                    # sum over the households
-                    self._plot_single(np.sum(serie, axis=1), attr)
+            # Splits the arrays of the dictionary
+            series = (
+                {attr + '_' + str(lab): ser for lab, ser in serie.items()}
+                if isinstance(serie, dict) else {attr: serie}
+            )
+            for label, ser in series.items():
+                if not aggr and (len(ser.shape) > 1):
+                    if aggregate:
+                        # sum over the households
+                        self._plot_single(np.sum(ser, axis=1), label)
+                    else:
+                        self._plot_all_households(ser, label)
                 else:
-                    self._plot_all_households(serie, attr)
-            else:
-                self._plot_single(serie, attr)
+                    self._plot_single(ser, label)
 
             plt.legend()
             plt.show()
-- 
2.43.0


From 1a730e9bc3f881ea611a8693cdd3443b41d89495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 90/92] fix: plots of activities: the legend missed the numbers
 of residents of the main activities

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index 9176771..c6d37e1 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -112,7 +112,7 @@ def plot_household_activities(
     for j, key in enumerate(labels_main):
         scatter(dict_states[key], i+j)
         labels.append(key)
-        max_number = max(max_number, max(array))
+        max_number = max(max_number, max(dict_states[key]))
 
     ax.set_yticks(np.arange(0, len(labels)))
     ax.set_yticklabels(labels)
-- 
2.43.0


From 5cf320dacdc5333efca5582cddc7397c4dd20fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 91/92] fix: plots of stacked activities: the given step was
 ignored

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index c6d37e1..cefbe40 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -240,7 +240,7 @@ def plot_stacked_activities(
         time_axis,
         dict_states.values(),
         labels=dict_states.keys(),
-        step='post',
+        step=step,
         **kwargs
     )
     # Reverse the legend, in the same way as they are stacked
-- 
2.43.0


From dd7a001e1edf60da0541d7bc26405a07fb13db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:20 +0000
Subject: [PATCH 92/92] fix: CREST: the dish washer was switched off when the
 household became inactive

---
 demod/datasets/CREST/loader.py                             | 4 ++--
 demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index d267041..312c921 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -330,11 +330,11 @@ class Crest(
         )
 
         appliances["inactive_switch_off"] = np.where(
-            np.logical_or(
+            np.logical_or.reduce((
                 associated_activity_use_profile == "ACT_WASHDRESS",
                 associated_activity_use_profile == "LEVEL",
                 appliances["name"] == "DISH_WASHER",
-            ),
+            )),
             False,
             True,
         )
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
index 913b44d..2fb90a3 100644
--- a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
+++ b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
@@ -172,7 +172,7 @@
     true,
     true,
     true,
-    true,
+    false,
     true,
     true,
     true,
-- 
2.43.0

