From 16c01bd27ee03da039708ecb3be1fc49829e3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 01/11] fix: reset the approximated particles counter on every
 simulate call

A second simulate() on the same NonuniformLossesApproximationStrategy added the
particles of the approximated modes on top of those of the previous call.
---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..ccaec95 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From 919e237077637af53b623db1138115a075512df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 02/11] fix: return exactly the requested number of samples
 from the BOBS strategy

The per-thread number of samples was always rounded up, also when the number of
samples was divisible by the number of threads.
---
 .../nonuniform_losses_approximation_strategy.py          | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ccaec95..2e30e58 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -242,13 +242,10 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
+        samples_per_thread = samples_number // self._threads_number
         samples_for_threads = [samples_per_thread] * self._threads_number
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From 89b52840d370198240ea0199ad429032eafeeffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 03/11] fix: always select one of the offered values in
 cumulative sampling

When rounding left the accumulated weights below the drawn number, choice()
returned None, the lossy GCC-B strategy got one particle too many and the GCC
strategy indexed past the end of the pmf.
---
 ...neralized_cliffords_b_uniform_losses_simulation_strategy.py | 3 ++-
 .../generalized_cliffords_simulation_strategy.py               | 3 +++
 .../nonuniform_losses_approximation_strategy.py                | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index f2ffcee..6d4a293 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -82,7 +82,8 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
 
             number_of_particles_left += 1
 
-        return number_of_particles_left
+        # Rounding may leave the sum of the weights slightly below the threshold.
+        return len(self._binomial_weights) - 1
 
     def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
         """
diff --git a/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
index 20e8004..eaff409 100644
--- a/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
@@ -261,6 +261,9 @@ class GeneralizedCliffordsSimulationStrategy(SimulationStrategyInterface):
                 break
             sample_index += 1
 
+        # Rounding may leave the accumulated probability below the random value.
+        sample_index = min(sample_index, len(self.pmfs[self.current_key]) - 1)
+
         self.current_sample_probability = self.pmfs[self.current_key][sample_index]
         self.r_sample = self.possible_outputs[self.current_key][sample_index]
         self.current_key = tuple(self.r_sample)
diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 2e30e58..d96096d 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -61,6 +61,9 @@ def choice(values: Sequence[int], weights: Sequence[float] = None) -> int:
         if weights_sum > random_number:
             return values[i]
 
+    # Rounding may leave the sum of the weights slightly below the drawn number.
+    return values[-1]
+
 
 class NonuniformLossesApproximationStrategy:
     """
-- 
2.43.0


From 075ab420031ea3883a476e9ac3f703840788f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 04/11] fix: return samples as tuples of integers from every
 strategy

The lossy GCC strategies returned arrays and the fixed-loss strategy tuples of
floats, although the interface promises tuples of integers.
---
 .../fixed_loss_simulation_strategy.py                  |  2 +-
 ...d_cliffords_b_uniform_losses_simulation_strategy.py | 10 ++++++----
 ...zed_cliffords_uniform_losses_simulation_strategy.py | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
index 37fbd95..3707426 100644
--- a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
+++ b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
@@ -129,7 +129,7 @@ class FixedLossSimulationStrategy(SimulationStrategyInterface):
             A lossy boson state after traversing through interferometer. The state is
             described in first quantization (mode assignment representation).
         """
-        output = zeros(self.number_of_observed_modes)
+        output = zeros(self.number_of_observed_modes, dtype=int)
         for photon in range(self.number_of_photons_left):
             x = random()
             i = 0
diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index 6d4a293..e4cef4b 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -15,8 +15,8 @@ from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy i
     BSPermanentCalculatorInterface,
     mode_occupation_to_mode_assignment,
 )
-from numpy import ndarray, array, int64, zeros_like
-from typing import List
+from numpy import ndarray, zeros_like
+from typing import List, Tuple
 from scipy.special import binom
 from numpy.random import random
 
@@ -85,7 +85,9 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
         # Rounding may leave the sum of the weights slightly below the threshold.
         return len(self._binomial_weights) - 1
 
-    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
+    def simulate(
+        self, input_state: ndarray, samples_number: int = 1
+    ) -> List[Tuple[int, ...]]:
         """
         Returns sample from linear optics experiments given output state.
 
@@ -106,7 +108,7 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
             self._current_input = zeros_like(input_state)
             self._working_input_state = particle_input_state.copy()
             self._fill_r_sample()
-            samples.append(array(self.r_sample, dtype=int64))
+            samples.append(tuple(self.r_sample))
         return samples
 
     def _fill_r_sample(self) -> None:
diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index 1bc05be..adf53b4 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -2,9 +2,9 @@ __author__ = "Tomasz Rybotycki"
 
 from math import factorial
 from random import random
-from typing import List
+from typing import List, Tuple
 
-from numpy import array, int64, ndarray, array_equal, isclose
+from numpy import ndarray, array_equal, isclose
 from scipy import special
 
 from .generalized_cliffords_simulation_strategy import (
@@ -32,7 +32,9 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
         self.missing_values_in_distribution = False
         super().__init__(bs_permanent_calculator)
 
-    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
+    def simulate(
+        self, input_state: ndarray, samples_number: int = 1
+    ) -> List[Tuple[int, ...]]:
         """
             Returns sample from linear optics experiments given output state.
 
@@ -46,7 +48,7 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         while len(samples) < samples_number:
             self._fill_r_sample()
-            samples.append(array(self.r_sample, dtype=int64))
+            samples.append(tuple(self.r_sample))
         return samples
 
     def _initialize_simulation(self, input_state: ndarray) -> None:
-- 
2.43.0


From c3095f6b9b5d08cf0fe22e645814650813ac8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 05/11] fix: make the sample-based calculator honour its
 settings on every call

calculate_probabilities_of_outcomes() permanently replaced the configured
outcomes, get_outcomes_in_proper_order() returned None when no outcomes were
given, and the configured number of samples was ignored.
---
 ...bs_sample_based_distribution_calculator.py | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..64baa6c 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -1,6 +1,6 @@
 __author__ = "Tomasz Rybotycki"
 
-from typing import List, Iterable
+from typing import List, Iterable, Optional
 
 from numpy import float64, ndarray, zeros, asarray
 
@@ -63,16 +63,15 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         self._samples_number = new_samples_number
 
     def calculate_distribution(self) -> List[float]:
-        return self.calculate_approximate_distribution()
+        return self.calculate_approximate_distribution(self._samples_number)
 
     def calculate_probabilities_of_outcomes(
         self, outcomes: Iterable[Iterable[int]]
     ) -> List[float]:
-        self._outcomes = outcomes
-        return self.calculate_approximate_distribution()
+        return self._estimate_probabilities(outcomes, self._samples_number)
 
     def calculate_approximate_distribution(
-        self, samples_number: int = 5000
+        self, samples_number: Optional[int] = None
     ) -> List[float]:
         """
             Prepares the approximate distribution using boson sampling simulation method
@@ -80,15 +79,19 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
             generate better approximation.
             :return: Approximate distribution as a list.
         """
+        if samples_number is None:
+            samples_number = self._samples_number
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        return self._estimate_probabilities(
+            self.get_outcomes_in_proper_order(), samples_number
+        )
 
+    def _estimate_probabilities(
+        self, possible_outcomes: Iterable[Iterable[int]], samples_number: int
+    ) -> List[float]:
+        """
+            Estimates the probabilities of given outcomes by their relative frequencies.
+        """
         simulator = BosonSamplingSimulator(self._strategy)
 
         outcomes_probabilities = zeros(len(possible_outcomes), dtype=float64)
@@ -110,4 +113,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From 941a1ec440118492c0a0ab2f4bdd057a88b20b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 06/11] fix: weight lossy state parts by their multiplicity

For a bunched not approximated part of the input the weights did not sum up to
one, and the sampling failed with a ValueError.
---
 .../lossy_state_approximated_simulation_strategy.py  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..3a31201 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -176,8 +176,18 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
+            # Several ways of losing the particles lead to the same state part.
+            multiplicity = 1
+            for mode in range(len(state_part)):
+                multiplicity *= binom(
+                    self._not_approximated_lossy_mixed_state_parts[-1][mode],
+                    state_part[mode],
+                )
+
             self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+                multiplicity
+                * possible_weights[int(sum(state_part))]
+                / binom(n, sum(state_part))
             )
 
     def _get_possible_lossy_inputs_weights(
-- 
2.43.0


From 8c458ca9134f3962c8ea0cc8c0ae6a1754b9ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 07/11] fix: put the approximated part of the state where the
 QFT acts

Random phases and the QFT act on the first modes, but the bunched approximated
part was put in the last ones. Also keep the state integer when one of its parts
is empty (hierarchy level 0 or equal to the number of modes).
---
 .../lossy_state_approximated_simulation_strategy.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 3a31201..03e57b2 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -339,7 +339,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        return hstack([approximated_part, not_approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 3421eefa71688b39e732f713b20652b8e8895ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 08/11] fix: name the input of the R Cliffords strategy as in
 the interface

simulate(input_state=...) raised a TypeError for this strategy only.
---
 .../cliffords_r_simulation_strategy.py                    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..a4631e1 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -62,7 +62,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         return robjects.r.matrix(r_values, nrow=rows_number, ncol=columns_number)
 
     def simulate(
-        self, initial_state: Sequence[int], samples_number: int = 1
+        self, input_state: Sequence[int], samples_number: int = 1
     ) -> List[Tuple[int, ...]]:
         """
         Simulate BS experiment for given input.
@@ -70,7 +70,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         Note:   The results of Clifford & Clifford method are given in the first
                 quantization description (mode assignment)!
 
-        :param initial_state:
+        :param input_state:
             Input state in the modes occupation description.
         :param samples_number:
             Number of samples to sample.
@@ -78,7 +78,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
+        number_of_bosons = int(sum(input_state))
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
             array(self.interferometer_matrix)[:, arange(number_of_bosons)]
@@ -100,7 +100,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
 
         for sample in samples_in_particle_states:
             samples_in_occupation_description.append(
-                mode_assignment_to_mode_occupation(sample, len(initial_state))
+                mode_assignment_to_mode_occupation(sample, len(input_state))
             )
 
         return samples_in_occupation_description
-- 
2.43.0


From fb46c6b1556b0b562d2fafa423c68000a20260c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 09/11] fix: give the uniform-losses BOBS strategy its own
 permanent calculator

The strategy shared the calculator with the factory and every other such
strategy.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..85db37c 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From b29057ac6fb5d75ce1c8264fe64ae101924f96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 10/11] fix: pass the number of available threads to the BOBS
 strategy

---
 theboss/simulation_strategies/simulation_strategy_factory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 85db37c..1c88ab5 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -213,6 +213,7 @@ class SimulationStrategyFactory:
         return NonuniformLossesApproximationStrategy(
             bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             approximated_modes_number=approximated_modes_number,
+            threads_number=self._available_threads_number,
         )
 
     def _generate_uniform_losses_bobs_strategy(
-- 
2.43.0


From f1d673293ed75e94733c59fcd374f8027791b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 11/11] fix: do not replace the matrix of the caller's
 permanent calculator

Building a second lossy-network strategy with the same calculator expanded the
already expanded matrix again.
---
 ...ossy_networks_generalized_cliffords_simulation_strategy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
index fcfa489..3cdee94 100644
--- a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
@@ -4,6 +4,8 @@ __author__ = "Tomasz Rybotycki"
 A class for exact BS simulation using generalized C&C algorithm (version B).
 """
 
+from copy import deepcopy
+
 from numpy import delete, vstack, zeros_like, complex128
 from typing import Sequence, Tuple
 
@@ -39,6 +41,8 @@ class LossyNetworksGeneralizedCliffordsSimulationStrategy(SimulationStrategyInte
     """
 
     def __init__(self, bs_permanent_calculator: BSPermanentCalculatorInterface) -> None:
+        # The calculator given by the caller should keep its matrix.
+        bs_permanent_calculator = deepcopy(bs_permanent_calculator)
         bs_permanent_calculator.matrix = prepare_interferometer_matrix_in_expanded_space(
             bs_permanent_calculator.matrix
         )
-- 
2.43.0

