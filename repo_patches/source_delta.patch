From e2eda5abcfe0c140c59c71987ab2cc5b7c87e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 01/20] fix: reset the BOBS approximated particles counter on
 every simulate call

The counter was only ever incremented, so the second and later calls on the
same object produced samples with more particles than the input state.
---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..ccaec95 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From f6265a2036074ee6e1780e807d25cc51bd460e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 02/20] fix: make BOBS return exactly the requested number of
 samples

The number of samples was rounded up to a multiple of the number of threads
(with a whole extra round if it already was one).
---
 .../nonuniform_losses_approximation_strategy.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ccaec95..5b6df89 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -242,13 +242,12 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
-        samples_for_threads = [samples_per_thread] * self._threads_number
+        samples_for_threads = [
+            samples_number // self._threads_number
+        ] * self._threads_number
+
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From 7ea2e4277f5e04a625e092be0a30028084bda28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 03/20] fix: do not return None from the BOBS weighted choice

The weights may sum up to slightly less than 1, so a draw close to 1 could fall
through the loop.
---
 .../nonuniform_losses_approximation_strategy.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 5b6df89..667ffd4 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -61,6 +61,9 @@ def choice(values: Sequence[int], weights: Sequence[float] = None) -> int:
         if weights_sum > random_number:
             return values[i]
 
+    # The weights may sum up to slightly less than 1 due to the rounding errors.
+    return values[-1]
+
 
 class NonuniformLossesApproximationStrategy:
     """
-- 
2.43.0


From 2d7f5ae1b892a25d20513912e38162a883d3a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 04/20] fix: never leave more particles than the input has in
 lossy GCCB

A draw above the (rounded) sum of the binomial weights gave n + 1 particles and
crashed the simulation.
---
 ...neralized_cliffords_b_uniform_losses_simulation_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index f2ffcee..84273dd 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -82,7 +82,8 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
 
             number_of_particles_left += 1
 
-        return number_of_particles_left
+        # The weights may sum up to slightly less than 1 due to the rounding errors.
+        return len(self._binomial_weights) - 1
 
     def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
         """
-- 
2.43.0


From b011b58a5de153944c4c5cbd9a9c12271050b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 05/20] fix: do not put particles into modes of zero
 probability for a zero draw

random() returns values from [0, 1), so the comparison has to be non-strict.
---
 theboss/simulation_strategies/fixed_loss_simulation_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
index 37fbd95..319131a 100644
--- a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
+++ b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
@@ -134,7 +134,7 @@ class FixedLossSimulationStrategy(SimulationStrategyInterface):
             x = random()
             i = 0
             prob = probabilities[i]
-            while x > prob:
+            while x >= prob:
                 i += 1
                 if len(probabilities) == i:
                     break
-- 
2.43.0


From 2f435f0701c0485cd208d28cb946534285813964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 06/20] fix: let uniform losses BOBS work at the lowest and the
 highest hierarchy level

If either part of the input is empty, then hstack returns an array of floats,
which cannot be used as an input state.
---
 .../lossy_state_approximated_simulation_strategy.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..5f13fec 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -329,7 +329,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        # One of the parts can be empty (and thus, for numpy, of the type float).
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 603c80673a0a9776112fe2aec6ee47ece9c061e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 07/20] fix: account for multiplicities of lossy inputs in
 uniform losses BOBS

The weights of the lossy states did not sum up to 1 when the not approximated
part of the input was bunched, so the simulation failed with ValueError.
---
 .../lossy_state_approximated_simulation_strategy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 5f13fec..f88b5b2 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -173,12 +173,17 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         )
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        whole_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        n = sum(whole_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
-            self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
-            )
+            weight = possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+
+            # The same lossy state can be obtained by losing different particles.
+            for particles_number, particles_left in zip(whole_part, state_part):
+                weight *= binom(particles_number, particles_left)
+
+            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)
 
     def _get_possible_lossy_inputs_weights(
         self, input_state: Sequence[int]
-- 
2.43.0


From 536b92306610b2927265c6bd8c30f5664786bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 08/20] fix: smear the approximated particles over the
 approximated modes in uniform losses BOBS

The approximated part of the input is bunched in the first of the LAST m - k
modes, but the QFT and the random phases were applied to the FIRST m - k modes,
so the particles were not distributed over the approximated modes at all.
---
 ..._state_approximated_simulation_strategy.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index f88b5b2..f4ce4fa 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -18,6 +18,7 @@ from numpy import (
     zeros_like,
     array,
     arange,
+    roll,
 )
 from numpy.random import choice, shuffle
 from typing import List, Tuple, Sequence
@@ -59,9 +60,14 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._permanent_calculator: BSPermanentCalculatorInterface = (
             bs_permanent_calculator  # Should contain a UNITARY (no losses here!)
         )
-        self._qft_matrix = generate_qft_matrix_for_first_m_modes(
-            len(bs_permanent_calculator.input_state) - hierarchy_level,
-            len(bs_permanent_calculator.input_state),
+        # The approximated part of the input occupies the last modes.
+        self._qft_matrix = roll(
+            generate_qft_matrix_for_first_m_modes(
+                len(bs_permanent_calculator.input_state) - hierarchy_level,
+                len(bs_permanent_calculator.input_state),
+            ),
+            hierarchy_level,
+            axis=(0, 1),
         )
 
     @staticmethod
@@ -358,8 +364,12 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         :return:
             A matrix for the approximate sampling.
         """
-        random_phases_matrix = generate_random_phases_matrix_for_first_m_modes(
-            len(self._qft_matrix) - self._hierarchy_level, len(self._qft_matrix)
+        random_phases_matrix = roll(
+            generate_random_phases_matrix_for_first_m_modes(
+                len(self._qft_matrix) - self._hierarchy_level, len(self._qft_matrix)
+            ),
+            self._hierarchy_level,
+            axis=(0, 1),
         )
         return (
             self._permuted_interferometer_matrix()
-- 
2.43.0


From 8c7a1029c2f32ea59d3e846f7bbdc4646c964a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 09/20] fix: do not exchange unequally occupied input modes in
 uniform losses BOBS

Shuffling all the columns of the interferometer matrix is only a symmetry of the
experiment if all the input modes have the same occupation. Otherwise samples
were drawn from the distribution averaged over different inputs, even at the
highest hierarchy level, for which the simulation should be exact.
---
 .../lossy_state_approximated_simulation_strategy.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index f4ce4fa..337075c 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -54,6 +54,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._not_approximated_lossy_mixed_state_parts_weights = None
 
         # Required for general simulation
+        self._input_state = None
         self._hierarchy_level: int = hierarchy_level
         self._uniform_transmissivity: float = uniform_transmissivity
         self._threads_number: int = self._get_proper_threads_number(threads_number)
@@ -110,6 +111,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         if samples_number < 1:
             return []
 
+        self._input_state = array(input_state)
+
         self._prepare_not_approximated_lossy_mixed_state(
             input_state[: self._hierarchy_level]  # Not approximated state part
         )
@@ -346,7 +349,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
         Permute the columns of the matrix for better symmetrization and possibly
-        more accurate sampling.
+        more accurate sampling. Only the columns corresponding to the equally occupied
+        input modes can be exchanged without changing the simulated experiment.
 
         :return:
             The interferometer matrix with permuted columns.
@@ -354,7 +358,10 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         permutation = arange(
             len(self._permanent_calculator.matrix)
         )  # We work with unitary matrices.
-        shuffle(permutation)
+        for occupation in set(self._input_state.tolist()):
+            modes = permutation[self._input_state == occupation]
+            shuffle(modes)
+            permutation[self._input_state == occupation] = modes
         return array(self._permanent_calculator.matrix)[:, permutation]
 
     def _get_matrix_for_approximate_sampling(self) -> ndarray:
-- 
2.43.0


From 2550b33a2cff8e9adf488789ce097a61b7feb2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 10/20] fix: do not share the factory's permanent calculator
 with uniform losses BOBS

All the other strategies get their own copy of the calculator.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..90c180a 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self._bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From 2c8da87d4609b0de234f87dbacb3aeb063b26dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 11/20] fix: respect samples_number in the sample based
 distribution calculator

The configured number of samples was ignored and 5000 samples were always taken.
---
 .../bs_sample_based_distribution_calculator.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..e0586e5 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -63,13 +63,13 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         self._samples_number = new_samples_number
 
     def calculate_distribution(self) -> List[float]:
-        return self.calculate_approximate_distribution()
+        return self.calculate_approximate_distribution(self._samples_number)
 
     def calculate_probabilities_of_outcomes(
         self, outcomes: Iterable[Iterable[int]]
     ) -> List[float]:
         self._outcomes = outcomes
-        return self.calculate_approximate_distribution()
+        return self.calculate_approximate_distribution(self._samples_number)
 
     def calculate_approximate_distribution(
         self, samples_number: int = 5000
-- 
2.43.0


From df899e155cc26cb1d7645f56b2d7910973db90a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 12/20] fix: return the outcomes order of the sample based
 distribution calculator

If no outcomes were specified, the calculator computed the distribution over all
the possible states, but returned None as their order.
---
 .../bs_sample_based_distribution_calculator.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index e0586e5..1959c6b 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -81,13 +81,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
             :return: Approximate distribution as a list.
         """
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -110,4 +104,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From aa4a988918f9e953479053d381dc3fd614d1886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:49 +0000
Subject: [PATCH 13/20] fix: sample the occupied modes of the input in the R
 Cliffords strategy

---
 .../cliffords_r_simulation_strategy.py        | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..21635db 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -7,7 +7,7 @@ __author__ = "Tomasz Rybotycki"
     https://cran.r-project.org/web/packages/BosonSampling/index.html
 """
 
-from numpy import arange, array, array_split, int64, ndarray, isclose
+from numpy import array, array_split, int64, ndarray, isclose
 from scipy.special import binom
 from collections import defaultdict
 from typing import List, Dict, Tuple, DefaultDict, Sequence
@@ -20,6 +20,7 @@ from theboss.simulation_strategies.simulation_strategy_interface import (
 
 from ..boson_sampling_utilities.boson_sampling_utilities import (
     mode_assignment_to_mode_occupation,
+    mode_occupation_to_mode_assignment,
 )
 
 
@@ -61,6 +62,20 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         )
         return robjects.r.matrix(r_values, nrow=rows_number, ncol=columns_number)
 
+    def _get_columns_of_occupied_modes(self, initial_state: Sequence[int]) -> ndarray:
+        """
+        Selects the columns of the interferometer matrix that correspond to the modes
+        occupied in the input state.
+
+        :param initial_state:
+            Input state in the modes occupation description.
+
+        :return:
+            The matrix with one column for every particle of the input.
+        """
+        occupied_modes = list(mode_occupation_to_mode_assignment(initial_state))
+        return array(self.interferometer_matrix)[:, occupied_modes]
+
     def simulate(
         self, initial_state: Sequence[int], samples_number: int = 1
     ) -> List[Tuple[int, ...]]:
@@ -78,10 +93,8 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
-
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         result, permanent, probability_mass_function = self.cliffords_r_sampler(
@@ -122,14 +135,12 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        number_of_bosons = int(sum(initial_state))
-
         outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
 
         outcomes_probabilities: dict = {}
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         number_of_samplings = 0
@@ -185,7 +196,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         m = len(initial_state)
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(n)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         if int(binom(n + m - 1, m - 1)) < number_of_random_states:
-- 
2.43.0


From 864f6309be998bad619b4f082773b388ba1afb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:00 +0000
Subject: [PATCH 14/20] fix: uniform-loss distributions no longer hang when a
 pool worker dies

multiprocessing.Pool replaces a dead worker but never reschedules or
fails its task, so the computation waited forever. ProcessPoolExecutor
raises BrokenProcessPool instead.
---
 ...bs_exact_distribution_with_uniform_losses.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py b/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
index 916c619..61a5081 100644
--- a/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
+++ b/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
@@ -16,7 +16,8 @@ from ..distribution_calculators.bs_distribution_calculator_with_fixed_losses imp
     BSDistributionCalculatorWithFixedLosses,
     BSPermanentCalculatorInterface,
 )
-from multiprocessing import cpu_count, Pool
+from concurrent.futures import ProcessPoolExecutor
+from multiprocessing import cpu_count
 
 
 class BSDistributionCalculatorWithUniformLosses(
@@ -63,9 +64,17 @@ class BSDistributionCalculatorWithUniformLosses(
         self, outcomes: Iterable[Iterable[int]]
     ) -> List[float]:
 
-        with Pool(processes=cpu_count()) as pool:
-            outcomes_probabilities = pool.map(
-                self._calculate_probability_of_outcome, outcomes
+        outcomes = list(outcomes)
+
+        # The executor, unlike multiprocessing.Pool, notices the death of a worker. Pool
+        # would wait for the lost results forever.
+        with ProcessPoolExecutor() as pool:
+            outcomes_probabilities = list(
+                pool.map(
+                    self._calculate_probability_of_outcome,
+                    outcomes,
+                    chunksize=1 + len(outcomes) // (4 * cpu_count()),
+                )
             )
 
         return outcomes_probabilities
-- 
2.43.0


From 57f08dba9a960ba6220069d51dfad99ffa446c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 15/20] fix: the strategy factory passes its threads number to
 BOBS samplers

available_threads_number was only given to the uniform losses version,
other BOBS samplers used every CPU.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 90c180a..cfa6773 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -213,6 +213,7 @@ class SimulationStrategyFactory:
         return NonuniformLossesApproximationStrategy(
             bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             approximated_modes_number=approximated_modes_number,
+            threads_number=self._available_threads_number,
         )
 
     def _generate_uniform_losses_bobs_strategy(
-- 
2.43.0


From 0aff7ca1391e035410c54df86bd89dff02d79ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:55 +0000
Subject: [PATCH 16/20] fix: BOBS on a network that absorbs everything

Rescaling the transmissivities divided by zero, and every simulation of such a
network failed in the decomposition of the resultant matrix.
---
 .../nonuniform_losses_approximation_strategy.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 667ffd4..e444f73 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -139,10 +139,12 @@ class NonuniformLossesApproximationStrategy:
         losses: List[float] = [1 - eta for eta in transmissivities]
         self._uniform_losses = min(losses)
 
-        # Form the interferometer_matrx with losses extracted.
-        transmissivities = [
-            eta / (1 - self._uniform_losses) for eta in transmissivities
-        ]
+        # Form the interferometer_matrx with losses extracted. A network that absorbs
+        # everything has no transmissivities to rescale.
+        if self._uniform_losses < 1:
+            transmissivities = [
+                eta / (1 - self._uniform_losses) for eta in transmissivities
+            ]
         s = [sqrt(eta) for eta in transmissivities]
         self._initial_matrix = u @ diag(s) @ v
 
-- 
2.43.0


From ac8c80604caf19416377e04f2cd1aab9e7e69b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 17/20] fix: finish the R probabilities search when an outcome
 is specified twice

The number of the probabilities found never reached the length of the list.
---
 .../simulation_strategies/cliffords_r_simulation_strategy.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index 21635db..f9b3a1c 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -135,7 +135,8 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
+        # An outcome may be specified more than once.
+        outcomes_of_interest = {tuple(o) for o in outcomes_of_interest}
 
         outcomes_probabilities: dict = {}
 
-- 
2.43.0


From ff29ca38128d1511f87b73d17038b23d6d34de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 18/20] fix: uniform losses BOBS does not require the permanent
 calculator to have states

The number of modes is that of the matrix. With a calculator without an input state
(or with one of another size) every simulation failed.
---
 .../lossy_state_approximated_simulation_strategy.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 337075c..c3d449f 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -64,8 +64,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         # The approximated part of the input occupies the last modes.
         self._qft_matrix = roll(
             generate_qft_matrix_for_first_m_modes(
-                len(bs_permanent_calculator.input_state) - hierarchy_level,
-                len(bs_permanent_calculator.input_state),
+                len(bs_permanent_calculator.matrix) - hierarchy_level,
+                len(bs_permanent_calculator.matrix),
             ),
             hierarchy_level,
             axis=(0, 1),
-- 
2.43.0


From 07bad453935a8cbb0eee82322d3306dbeae2fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 19/20] fix: sample based probabilities of outcomes that are
 specified twice

Only the first occurrence of an outcome was counted, the probabilities of the other
ones were 0.
---
 .../bs_sample_based_distribution_calculator.py                   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 1959c6b..ac6100b 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -97,7 +97,6 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
                     asarray(sample) == possible_outcomes[j]
                 ):  # Expect all elements of resultant list to be True.
                     outcomes_probabilities[j] += 1
-                    break
 
         outcomes_probabilities = outcomes_probabilities / samples_number
 
-- 
2.43.0


From 6df5a798b96d283891aa78cef24913fe81975ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:21 +0000
Subject: [PATCH 20/20] fix: R search for probabilities of n random states
 returns n states

The search continued until all the possible states were found, whatever number was
asked for, and never ended if there were fewer of them.
---
 .../cliffords_r_simulation_strategy.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index f9b3a1c..57f3ba6 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -179,8 +179,8 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         An additional "sanity-check" method that uses C&C strategy to compute the
         probabilities of the outcomes of interest.
 
-        Note: This method may run infinitely if the number of specified states is
-        impossible to achieve in given experiment config.
+        Note: Fewer states are returned if the given experiment config doesn't have
+        the specified number of possible states.
 
         :param initial_state:
             Input state of the BS experiment.
@@ -209,7 +209,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
 
         while len(
             probabilities_of_random_states
-        ) < number_of_random_states or not isclose(probabilities_sum, 1):
+        ) < number_of_random_states and not isclose(probabilities_sum, 1):
 
             result, permanent, pmf = self.cliffords_r_sampler(
                 boson_sampler_input_matrix, sampleSize=1, perm=True
-- 
2.43.0

