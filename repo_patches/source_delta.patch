From 5802e191e333d2049ea9ec3d282ce441582ca32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 01/20] fix: return exactly the requested number of samples in
 the BOBS strategy

---
 .../nonuniform_losses_approximation_strategy.py          | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..05f1458 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -241,13 +241,10 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
+        samples_per_thread = samples_number // self._threads_number
         samples_for_threads = [samples_per_thread] * self._threads_number
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From fc23d77bb7628bddeff91e5b598d50ecd78c650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 02/20] fix: reset approximated particles count on every BOBS
 simulation

---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 05f1458..2e30e58 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From be55f3db9f9060b7e5c71c5f48e75ed19b99f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 03/20] fix: make the interferometer in the expanded space
 unitary

---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 338cf85..5b0d584 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -335,7 +335,7 @@ def prepare_interferometer_matrix_in_expanded_space(
     # This is the most specific thing here.
     expanded_singular_values_matrix = block(
         [
-            [diag(singular_values), loss_transfer_extension_matrix],
+            [diag(singular_values), -loss_transfer_extension_matrix],
             [loss_transfer_extension_matrix, diag(singular_values)],
         ]
     )
-- 
2.43.0


From 38b65ddff373f30f1ca3c95b8061ff1df1f84a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 04/20] fix: respect samples number given to the sample-based
 distribution calculator

---
 .../bs_sample_based_distribution_calculator.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..f180abf 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -1,6 +1,6 @@
 __author__ = "Tomasz Rybotycki"
 
-from typing import List, Iterable
+from typing import List, Iterable, Optional
 
 from numpy import float64, ndarray, zeros, asarray
 
@@ -72,14 +72,18 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return self.calculate_approximate_distribution()
 
     def calculate_approximate_distribution(
-        self, samples_number: int = 5000
+        self, samples_number: Optional[int] = None
     ) -> List[float]:
         """
             Prepares the approximate distribution using boson sampling simulation method
             described by Oszmaniec and Brod. Obviously higher number of samples will
             generate better approximation.
+            :param samples_number: Number of samples used. If it's not given, the
+                number of samples specified in the calculator is used.
             :return: Approximate distribution as a list.
         """
+        if samples_number is None:
+            samples_number = self._samples_number
 
         if self._outcomes is not None:
             possible_outcomes = self._outcomes
-- 
2.43.0


From 507d64d121698bace9bc3719873e1849ff678d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 05/20] fix: return outcomes of sample-based distribution
 calculator when not specified

---
 .../bs_sample_based_distribution_calculator.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index f180abf..c0b9e8f 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -85,13 +85,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         if samples_number is None:
             samples_number = self._samples_number
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -114,4 +108,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From e965873c664c5d984ce3e17de92dd7ee51edc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 06/20] fix: compute bosonic space dimension exactly

---
 .../boson_sampling_utilities/boson_sampling_utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 5b0d584..f0a9e0b 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -25,7 +25,7 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import binom, factorial
+from scipy.special import comb, factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -226,13 +226,16 @@ def bosonic_space_dimension(
             :math:`n` particles.
     """
 
-    dimension: int = round(binom(particles_number + modes_number - 1, particles_number))
+    # Exact integer arithmetic, as the floats lose precision for large dimensions.
+    dimension: int = comb(
+        particles_number + modes_number - 1, particles_number, exact=True
+    )
 
     if not losses:
         return dimension
 
     for n in range(particles_number):
-        dimension += round(binom(n + modes_number - 1, n))
+        dimension += comb(n + modes_number - 1, n, exact=True)
 
     return dimension
 
-- 
2.43.0


From 15c913799c5eb5b0dca93cde3a412c71fe2c2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 07/20] fix: count states of given type exactly

---
 .../boson_sampling_utilities/boson_sampling_utilities.py  | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index f0a9e0b..890908a 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -6,6 +6,7 @@ __author__ = "Tomasz Rybotycki"
 """
 
 import itertools
+from math import factorial
 from typing import List, Optional, Sequence, Tuple
 
 from numpy import (
@@ -25,7 +26,7 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import comb, factorial
+from scipy.special import comb
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -465,11 +466,6 @@ def compute_number_of_states_of_given_type(state_type: Sequence[int]) -> int:
     for val in vals:
         counts.append(state_type.count(val))
 
-    type_count = factorial(modes_number)
-
-    for count in counts:
-        type_count /= factorial(count)
-
     number_of_states_of_given_type = factorial(modes_number)
 
     for count in counts:
-- 
2.43.0


From b21c6e0b2d1b9dad78605c1dcf4d137388c79a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 08/20] fix: return only integer primes as prime factors

---
 theboss/quantum_computations_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index 83e2d70..3f1d8f5 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -132,14 +132,15 @@ def get_prime_factors(number: int) -> List[int]:
 
     while number % 2 == 0:
         prime_factors.append(2)
-        number = number / 2
+        number = number // 2
 
     for i in range(3, int(sqrt(number)) + 1, 2):
         while number % i == 0:
             prime_factors.append(i)
-            number = number / i
+            number = number // i
 
-    prime_factors.append(number)
+    if number > 1:
+        prime_factors.append(number)
 
     return prime_factors
 
-- 
2.43.0


From e5c172ba8a1c2179cc5fba467d519840287493df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 09/20] fix: return zero probability for outcomes with
 impossible particles number

---
 .../bs_distribution_calculator_with_fixed_losses.py           | 4 ++++
 .../bs_exact_distribution_with_uniform_losses.py              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/theboss/distribution_calculators/bs_distribution_calculator_with_fixed_losses.py b/theboss/distribution_calculators/bs_distribution_calculator_with_fixed_losses.py
index 045cee3..7435309 100644
--- a/theboss/distribution_calculators/bs_distribution_calculator_with_fixed_losses.py
+++ b/theboss/distribution_calculators/bs_distribution_calculator_with_fixed_losses.py
@@ -92,6 +92,10 @@ class BSDistributionCalculatorWithFixedLosses(BSDistributionCalculatorInterface)
         :return:        Probability of obtaining given state in current experiment
                         configuration.
         """
+        # Only the outcomes with the proper number of particles can be observed.
+        if sum(outcome) != self.configuration.number_of_particles_left:
+            return 0.0
+
         outcome_probability = self.__compute_probability_of_outcome_state_for_indistinguishable_photons(
             outcome
         )
diff --git a/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py b/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
index 916c619..7955697 100644
--- a/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
+++ b/theboss/distribution_calculators/bs_exact_distribution_with_uniform_losses.py
@@ -80,6 +80,10 @@ class BSDistributionCalculatorWithUniformLosses(
 
         n = self.configuration.initial_number_of_particles
 
+        # It's not possible to observe more particles than there were initially.
+        if l > n:
+            return 0.0
+
         subconfiguration = deepcopy(self.configuration)
 
         subconfiguration.number_of_particles_left = number_of_particles_left
-- 
2.43.0


From 58706e4b6eeb35b72cf626b44e7b2e19398b64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 10/20] fix: handle fully opaque networks in the BOBS strategy

---
 .../nonuniform_losses_approximation_strategy.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 2e30e58..d45a8a0 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -136,7 +136,12 @@ class NonuniformLossesApproximationStrategy:
         losses: List[float] = [1 - eta for eta in transmissivities]
         self._uniform_losses = min(losses)
 
-        # Form the interferometer_matrx with losses extracted.
+        # Form the interferometer_matrx with losses extracted. There's nothing to extract
+        # them from if the network doesn't transmit any particles.
+        if self._uniform_losses >= 1:
+            self._initial_matrix = u @ v
+            return
+
         transmissivities = [
             eta / (1 - self._uniform_losses) for eta in transmissivities
         ]
-- 
2.43.0


From 696088fe85920427fe1d5e0e392194ac30b89828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 11/20] fix: get the modes number from the matrix in the
 uniformly lossy BOBS strategy

---
 .../lossy_state_approximated_simulation_strategy.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..f9f8f64 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -60,8 +60,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             bs_permanent_calculator  # Should contain a UNITARY (no losses here!)
         )
         self._qft_matrix = generate_qft_matrix_for_first_m_modes(
-            len(bs_permanent_calculator.input_state) - hierarchy_level,
-            len(bs_permanent_calculator.input_state),
+            len(bs_permanent_calculator.matrix) - hierarchy_level,
+            len(bs_permanent_calculator.matrix),
         )
 
     @staticmethod
-- 
2.43.0


From 34c85b840fe8aa98bbc2dc84ef7131716d341c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 12/20] fix: allow boundary hierarchy levels in the uniformly
 lossy BOBS strategy

---
 .../lossy_state_approximated_simulation_strategy.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index f9f8f64..8d4dc68 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -53,6 +53,9 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._not_approximated_lossy_mixed_state_parts_weights = None
 
         # Required for general simulation
+        # Assume exact simulation if the hierarchy level is not specified properly.
+        if not 0 <= hierarchy_level < len(bs_permanent_calculator.matrix):
+            hierarchy_level = len(bs_permanent_calculator.matrix)
         self._hierarchy_level: int = hierarchy_level
         self._uniform_transmissivity: float = uniform_transmissivity
         self._threads_number: int = self._get_proper_threads_number(threads_number)
@@ -329,7 +332,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 851e9e65666ae4d1e3641a47814fc9618b6ce80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 13/20] fix: approximate the proper modes in the uniformly
 lossy BOBS strategy

---
 ..._state_approximated_simulation_strategy.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 8d4dc68..3d06f8d 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -18,6 +18,7 @@ from numpy import (
     zeros_like,
     array,
     arange,
+    roll,
 )
 from numpy.random import choice, shuffle
 from typing import List, Tuple, Sequence
@@ -62,9 +63,14 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._permanent_calculator: BSPermanentCalculatorInterface = (
             bs_permanent_calculator  # Should contain a UNITARY (no losses here!)
         )
-        self._qft_matrix = generate_qft_matrix_for_first_m_modes(
-            len(bs_permanent_calculator.matrix) - hierarchy_level,
-            len(bs_permanent_calculator.matrix),
+        # Only the last modes are approximated, hence the shift by the hierarchy level.
+        self._qft_matrix = roll(
+            generate_qft_matrix_for_first_m_modes(
+                len(bs_permanent_calculator.matrix) - hierarchy_level,
+                len(bs_permanent_calculator.matrix),
+            ),
+            hierarchy_level,
+            axis=(0, 1),
         )
 
     @staticmethod
@@ -355,8 +361,12 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         :return:
             A matrix for the approximate sampling.
         """
-        random_phases_matrix = generate_random_phases_matrix_for_first_m_modes(
-            len(self._qft_matrix) - self._hierarchy_level, len(self._qft_matrix)
+        random_phases_matrix = roll(
+            generate_random_phases_matrix_for_first_m_modes(
+                len(self._qft_matrix) - self._hierarchy_level, len(self._qft_matrix)
+            ),
+            self._hierarchy_level,
+            axis=(0, 1),
         )
         return (
             self._permuted_interferometer_matrix()
-- 
2.43.0


From 4ab9e823d4d693ba96501eb736db2f5b4abd591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 14/20] fix: use proper lossy inputs weights for bunched inputs
 in the uniformly lossy BOBS strategy

---
 ...ssy_state_approximated_simulation_strategy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 3d06f8d..85b0902 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -19,6 +19,7 @@ from numpy import (
     array,
     arange,
     roll,
+    prod,
 )
 from numpy.random import choice, shuffle
 from typing import List, Tuple, Sequence
@@ -176,17 +177,20 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         """
         # Do note that this method HAS TO be called after lossy mixed state parts are
         # computed.
-        possible_weights = self._get_possible_lossy_inputs_weights(
-            # Last part is always whole (not approximated) input state part
-            self._not_approximated_lossy_mixed_state_parts[-1]
-        )
+        # Last part is always whole (not approximated) input state part
+        whole_state_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        possible_weights = self._get_possible_lossy_inputs_weights(whole_state_part)
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        n = sum(whole_state_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
+            # The number of ways in which the losses can lead to the state part.
+            multiplicity = prod(binom(whole_state_part, state_part))
             self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+                possible_weights[int(sum(state_part))]
+                * multiplicity
+                / binom(n, sum(state_part))
             )
 
     def _get_possible_lossy_inputs_weights(
-- 
2.43.0


From cdf0e1247a0b776d2bd1d110841b0f8905d6067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 15/20] fix: don't mix differently occupied modes in the
 uniformly lossy BOBS strategy

---
 .../lossy_state_approximated_simulation_strategy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 85b0902..0fb28b9 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -20,6 +20,7 @@ from numpy import (
     arange,
     roll,
     prod,
+    flatnonzero,
 )
 from numpy.random import choice, shuffle
 from typing import List, Tuple, Sequence
@@ -49,6 +50,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         threads_number: int = -1,
     ):
         # Required for lossy approximated state preparation
+        self._input_state: Sequence[int] = []
         self._approximated_input_state_part_possibilities = None
         self._approximated_input_state_part_possibilities_weights = None
         self._not_approximated_lossy_mixed_state_parts = None
@@ -114,6 +116,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         if samples_number < 1:
             return []
 
+        self._input_state = input_state
+
         self._prepare_not_approximated_lossy_mixed_state(
             input_state[: self._hierarchy_level]  # Not approximated state part
         )
@@ -347,7 +351,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
         Permute the columns of the matrix for better symmetrization and possibly
-        more accurate sampling.
+        more accurate sampling. Only the columns corresponding to the equally occupied
+        input modes can be exchanged without changing the simulated experiment.
 
         :return:
             The interferometer matrix with permuted columns.
@@ -355,7 +360,11 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         permutation = arange(
             len(self._permanent_calculator.matrix)
         )  # We work with unitary matrices.
-        shuffle(permutation)
+        occupations = array(self._input_state)
+        for occupation in set(self._input_state):
+            modes = flatnonzero(occupations == occupation)
+            shuffle(modes)
+            permutation[occupations == occupation] = modes
         return array(self._permanent_calculator.matrix)[:, permutation]
 
     def _get_matrix_for_approximate_sampling(self) -> ndarray:
-- 
2.43.0


From cdd9395e5e89913abfe1e909cb8b00f3c1538844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:32 +0000
Subject: [PATCH 16/20] fix: use the occupied modes as the input of the R
 Cliffords strategy

---
 .../cliffords_r_simulation_strategy.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..852957f 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -7,7 +7,7 @@ __author__ = "Tomasz Rybotycki"
     https://cran.r-project.org/web/packages/BosonSampling/index.html
 """
 
-from numpy import arange, array, array_split, int64, ndarray, isclose
+from numpy import array, array_split, int64, ndarray, isclose
 from scipy.special import binom
 from collections import defaultdict
 from typing import List, Dict, Tuple, DefaultDict, Sequence
@@ -20,6 +20,7 @@ from theboss.simulation_strategies.simulation_strategy_interface import (
 
 from ..boson_sampling_utilities.boson_sampling_utilities import (
     mode_assignment_to_mode_occupation,
+    mode_occupation_to_mode_assignment,
 )
 
 
@@ -78,10 +79,10 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
-
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            array(self.interferometer_matrix)[
+                :, mode_occupation_to_mode_assignment(initial_state)
+            ]
         )
 
         result, permanent, probability_mass_function = self.cliffords_r_sampler(
@@ -122,14 +123,14 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        number_of_bosons = int(sum(initial_state))
-
         outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
 
         outcomes_probabilities: dict = {}
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            array(self.interferometer_matrix)[
+                :, mode_occupation_to_mode_assignment(initial_state)
+            ]
         )
 
         number_of_samplings = 0
@@ -185,7 +186,9 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         m = len(initial_state)
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(n)]
+            array(self.interferometer_matrix)[
+                :, mode_occupation_to_mode_assignment(initial_state)
+            ]
         )
 
         if int(binom(n + m - 1, m - 1)) < number_of_random_states:
-- 
2.43.0


From d78422ce8b5e1db322f5e4aa56c0f5fc8ff1221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:32 +0000
Subject: [PATCH 17/20] fix: don't hang on repeated outcomes of interest in the
 R Cliffords strategy

---
 .../simulation_strategies/cliffords_r_simulation_strategy.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index 852957f..1cfb26a 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -123,7 +123,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
+        outcomes_of_interest = {tuple(o) for o in outcomes_of_interest}
 
         outcomes_probabilities: dict = {}
 
-- 
2.43.0


From de3e4991e3a9658a40cb4b1b209f44af73599f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:19 +0000
Subject: [PATCH 18/20] fix: count samples of outcomes of interest that are
 listed repeatedly

The sample-based distribution calculator credited a sample to the first
matching outcome only, so a repeated outcome of interest was reported to
have zero frequency.
---
 .../bs_sample_based_distribution_calculator.py                   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index c0b9e8f..8ffe6ce 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -101,7 +101,6 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
                     asarray(sample) == possible_outcomes[j]
                 ):  # Expect all elements of resultant list to be True.
                     outcomes_probabilities[j] += 1
-                    break
 
         outcomes_probabilities = outcomes_probabilities / samples_number
 
-- 
2.43.0


From f20a56dc8d828acfc4d9b8fc9b06fd70fa7d51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:17 +0000
Subject: [PATCH 19/20] fix: don't share the factory's permanent calculator
 with the uniformly lossy BOBS strategies

---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..85db37c 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From 14cbd5199d81dd6ead6f4ca5852f4f55382675bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 20/20] fix: don't overflow when computing permanents of
 integer matrices

The column sums took over the type of the matrix entries, so that the powers of the
sums silently wrapped around for matrices of (numpy) integers and lost precision for
the single-precision ones.
---
 .../bs_cc_ch_submatrices_permanent_calculator.py                | 2 +-
 .../bs_cc_ryser_submatrices_permanent_calculator.py             | 2 +-
 .../permanent_calculators/chin_huh_permanent_calculator.py      | 2 +-
 .../permanent_calculators/ryser_permanent_calculator.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
index 3a3d9b0..a1d9b6f 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
@@ -57,7 +57,7 @@ class BSCCCHSubmatricesPermanentCalculator(
         self._multiplier = 1 / pow(2, sum(self.input_state) - 1)
 
         for i in self._considered_columns_indices:
-            self._sums[i] = 0
+            self._sums[i] = complex128(0)
             for j in range(len(self._input_state)):
                 self._sums[i] += self._input_state[j] * self._matrix[i][j]
 
diff --git a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
index f37c607..fbd6f17 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
@@ -75,7 +75,7 @@ class BSCCRyserSubmatricesPermanentCalculator(
         super()._initialize_permanents_computation()
 
         for j in self._considered_columns_indices:
-            self._sums[j] = 0
+            self._sums[j] = complex128(0)
 
     def _update_sums(self) -> None:
         """
diff --git a/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
index 37744b8..37d1969 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
@@ -41,7 +41,7 @@ class ChinHuhPermanentCalculator(BSGuanCodeBasedPermanentCalculatorBase):
         self._multiplier = 1 / pow(2, sum(self._input_state))
 
         for i in self._considered_columns_indices:
-            self._sums[i] = 0
+            self._sums[i] = complex128(0)
             for j in range(len(self._input_state)):
                 self._sums[i] += self._input_state[j] * self._matrix[i][j]
 
diff --git a/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
index b44976c..8be1001 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
@@ -48,7 +48,7 @@ class RyserPermanentCalculator(BSGuanCodeBasedPermanentCalculatorBase):
         self._multiplier = pow(-1, sum(self._input_state))
 
         for j in self._considered_columns_indices:
-            self._sums[j] = 0
+            self._sums[j] = complex128(0)
 
         self._update_permanent()
 
-- 
2.43.0

