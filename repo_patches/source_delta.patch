From ccf760e15ba2dac682531c4eb0de55a4db67c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 01/31] fix: or-proof verification must use every sub-challenge
 it sums over

---
 zksk/composition.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..50a2e47 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -418,8 +418,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        self.or_challenges = responses[0]
-        responses = responses[1]
+        self.or_challenges, responses = responses
+
+        # There should be exactly one challenge and one set of responses for each subproof.
+        # Additional challenges would let the prover choose the challenges of all the subproofs.
+        if not (len(self.or_challenges) == len(responses) == len(self.subproofs)):
+            raise InconsistentChallengeError("Wrong number of challenges or responses.")
 
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
-- 
2.43.0


From b4194e0f5d7d0c7b4e175b43e73d075171681f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 02/31] fix: residual or-challenge must be distributed like the
 simulated ones

---
 zksk/composition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 50a2e47..c964559 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -26,7 +26,7 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     Determine the complement to a global challenge in a list
 
     For example, to find :math:`c_1` such that :math:`c = c_1 + c_2 + c_3 \mod k`, we compute
-    :math:`c_2 + c_3 - c` and take the opposite.
+    :math:`c - c_2 - c_3`. The result is in the same interval as randomly drawn challenges.
 
     Args:
         subchallenges: The array of subchallenges :math:`c_2`, c_3, ...`
@@ -34,9 +34,9 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
         modulus: the modulus :math:`k`
     """
     modulus = Bn(2).pow(modulus)
-    temp_arr = subchallenges.copy()
-    temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    temp_arr = [-subchallenge for subchallenge in subchallenges]
+    temp_arr.append(challenge)
+    return sum_bn_array(temp_arr, modulus)
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From ed378a3a513ebcdb64f850f2c88b1598b227e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 03/31] fix: or-proof verification must reject out-of-range
 sub-challenges

---
 zksk/composition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index c964559..1af75e3 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -425,6 +425,11 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         if not (len(self.or_challenges) == len(responses) == len(self.subproofs)):
             raise InconsistentChallengeError("Wrong number of challenges or responses.")
 
+        # The challenges are only checked modulo 2^CHALLENGE_LENGTH below, so they have to be reduced.
+        max_challenge = Bn(2).pow(CHALLENGE_LENGTH)
+        if any(c < 0 or c >= max_challenge for c in self.or_challenges):
+            raise InconsistentChallengeError("Challenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From aad6d7cb3ae5e0d7774f9af1c858cc1b7e03eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 04/31] fix: range proof must reject unproven additional bit
 commitments

---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..3cf9e1f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -154,6 +154,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        # Every bit commitment must be covered by a bit proof
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Wrong number of bit commitments")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From 1bd0f80ea526c04ad5e24a8f3d762e28a831f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 05/31] fix: getting a DLRep prover must not mark the statement
 as simulated

---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 72063707283f272225e2e4629fe63dd9d6dd5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 06/31] fix: or-proof must skip and-proofs for which secrets
 are missing

---
 zksk/composition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 1af75e3..20d6601 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -195,6 +195,8 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         if secret_dict is None:
             secret_dict = {}
         prover = self.get_prover(secret_dict)
+        if prover is None:
+            raise ValueError("Failed to construct prover")
         return prover.get_nizk_proof(message)
 
     def verify(self, nizk, message=""):
@@ -758,7 +760,7 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         if None in subs:
             # TODO: It'd be great to know which one is failing.
-            raise ValueError("Failed to construct prover for a conjunct")
+            return None
 
         return AndProver(self, subs)
 
-- 
2.43.0


From 65e6873eacd69a53f057dbdc2e7b59f1716c1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 07/31] fix: or-proof must skip simulated or unprovable
 extended proofs

---
 zksk/extended.py               | 11 +++++++++++
 zksk/primitives/bbsplus.py     |  5 +++++
 zksk/primitives/dl_notequal.py |  3 +++
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 22 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..a18dfbb 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -73,6 +73,14 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
 
+    def has_witness(self):
+        """
+        Tell if the values needed to precommit and prove are known. Override if needed.
+
+        Override this method to enable or-proofs to skip this proof when the values are missing.
+        """
+        return True
+
     def validate(self, precommitment, *args, **kwargs):
         """
         Validate proof's construction. Override if needed.
@@ -112,6 +120,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         self.secret_values = {}
         self.secret_values.update(secrets_dict)
 
+        if self.simulated or not self.has_witness():
+            return None
+
         return ExtendedProver(self, self.secret_values)
 
     def get_verifier_cls(self):
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..324e1dd 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,11 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def has_witness(self):
+        return self.signature is not None and all(
+            s.value is not None for s in self.secret_vars
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..7434575 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def has_witness(self):
+        return self.x.value is not None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 3cf9e1f..f98048f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -79,6 +79,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def has_witness(self):
+        return self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From a75d4e8ff589818d58610a7af500ac5b1dea2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 08/31] fix: extended verifier must support any kind of
 constructed statement

---
 zksk/extended.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index a18dfbb..2a9de1d 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -26,8 +26,10 @@ The protocol of an extended proof is as follows:
 import abc
 
 from zksk.base import Prover, Verifier
+from zksk.consts import CHALLENGE_LENGTH
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import StatementSpecError
+from zksk.utils import get_random_num
 from zksk.utils.misc import get_default_attr
 
 
@@ -237,14 +239,12 @@ class ExtendedVerifier(Verifier):
 
     def send_challenge(self, com):
         """
-        Transfer the commitment to the inner proof, and compute the challenge.
+        Store the received commitment, and compute the challenge.
         """
 
         statement, self.commitment = com
         self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
+        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
     def check_responses_consistency(self, responses, responses_dict):
-- 
2.43.0


From 18531d82dd10d4101e3643a927789988d2bc3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 09/31] fix: or-prover must not drop empty precommitments

---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 20d6601..ef2b368 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -609,7 +609,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
+        if all(p is None for p in precommitment):
             return None
         return precommitment
 
-- 
2.43.0


From 0d26a76b70e2b5ba6f2c5cf5349f73f5cc53639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 10/31] fix: simulated precommitments must have the same shape
 as proven ones

---
 zksk/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index ef2b368..e486d2a 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -559,6 +559,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         resp.append(final_transcript.responses)
         precom.append(final_transcript.precommitment)
 
+        # Same convention as when proving: None if there are no precommitments at all
+        if all(p is None for p in precom):
+            precom = None
+
         # Pack everything into a SimulationTranscript, pack the or-challenges in the response field.
         return SimulationTranscript(
             commitment=com,
@@ -823,6 +827,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             resp.append(simulation.responses)
             precom.append(simulation.precommitment)
 
+        # Same convention as when proving: None if there are no precommitments at all
+        if all(p is None for p in precom):
+            precom = None
+
         return SimulationTranscript(
             commitment=com, challenge=challenge, responses=resp, precommitment=precom
         )
-- 
2.43.0


From cc99a32b0950cd0e2ddfdeee931b843ff15c53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 11/31] fix: verifiers must process the precommitment they
 received even if it is None

---
 zksk/base.py        | 4 +---
 zksk/composition.py | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..8b56a44 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -245,9 +245,7 @@ class Verifier(metaclass=abc.ABCMeta):
             bool: True of verification succeeded, False otherwise.
         """
         # Build the complete stmt if necessary.
-        # TODO: If empty precommit() function, this is always true.
-        if nizk.precommitment is not None:
-            self.process_precommitment(nizk.precommitment)
+        self.process_precommitment(nizk.precommitment)
 
         # Check the proofs statements match, gather the local statement.
         prehash = self.stmt.check_statement(nizk.stmt_hash)
diff --git a/zksk/composition.py b/zksk/composition.py
index e486d2a..21f2350 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -694,7 +694,7 @@ class OrVerifier(Verifier):
             precommitment: A list of all required precommitments, ordered.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
 
@@ -961,6 +961,6 @@ class AndVerifier(Verifier):
         Distribute the list of precommitments to the subverifiers.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
-- 
2.43.0


From 31e0752bc8801dea34354b0ab157b9cf76fffa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 12/31] fix: verifiers must check the composition rules too

---
 zksk/composition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 21f2350..638f7df 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -393,6 +393,7 @@ class _CommonComposedStmtMixin:
         return (self.__class__.__name__, proof_ids)
 
     def full_validate(self, *args, **kwargs):
+        self.validate_composition()
         for sub in self.subproofs:
             sub.full_validate(*args, **kwargs)
 
-- 
2.43.0


From b48b8769603619838b92be3d4f543e666e6cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 13/31] fix: and-proof verification must reject surplus
 responses

---
 zksk/composition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 638f7df..489f7e5 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -952,6 +952,8 @@ class AndVerifier(Verifier):
         if responses_dict is None:
             responses_dict = {}
 
+        if len(responses) != len(self.subs):
+            return False
         for index, sub in enumerate(self.subs):
             if not sub.check_responses_consistency(responses[index], responses_dict):
                 return False
-- 
2.43.0


From 29c3cc3c671bf23064c266856d85c7cd7e6f28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 14/31] fix: range proofs must support ranges of one or two
 values

---
 zksk/primitives/rangeproof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index f98048f..f2e0615 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -133,6 +133,8 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -220,7 +222,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -291,7 +293,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From cd67cc1d34eaa0470ba0ceee461f7356490788b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 15/31] fix: power-of-two range statement must work with its
 default arguments

---
 zksk/primitives/rangeproof.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index f2e0615..aefa3d9 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -55,7 +55,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
     """
 
     def __init__(self, com, g, h, num_bits, x=None, randomizer=None):
-        if not x.value is None and not randomizer.value is None:
+        if not (
+            x is None or x.value is None or randomizer is None or randomizer.value is None
+        ):
             self.x = x
             self.randomizer = randomizer
             self.is_prover = True
-- 
2.43.0


From 189ec174c754f300bedaf1746cae06641a10e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 16/31] fix: compare G2 and GT groups by value so that
 deserialized points can be used

---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..fa43b05 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -58,6 +58,9 @@ class GTGroup:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     def generator(self):
         if self.gen is None:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
@@ -273,6 +276,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From 5d6e62b81cf8090fd2363853807e33377abc6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 17/31] fix: representation of pairing points must not depend
 on the process hash seed

---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index fa43b05..8803832 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -120,7 +120,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -161,7 +161,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -199,7 +199,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From 9e98943a7a345d8d957011e87cb3c964da6b39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 18/31] fix: adding expressions must not modify the operands

---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From a19a8468cd90b9d578e63e5cf52a608865b17437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 19/31] fix: weighted sums in pairing groups must not drop
 surplus weights

---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 8803832..f8d9dd1 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -73,6 +73,8 @@ class GTGroup:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -243,6 +245,8 @@ class G1Group:
 
     # TODO throw these on a base class
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -287,6 +291,8 @@ class G2Group:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
-- 
2.43.0


From 04cc8ff1f2b6597dc9bf5a04e939e1dd69f6028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 20/31] fix: bilinear group pair must use the group it is given

---
 zksk/pairings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index f8d9dd1..d6c5e15 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -20,7 +20,8 @@ class BilinearGroupPair:
 
     def __init__(self, bp_group=None):
         if bp_group is None:
-            self.bpgp = BpGroup()
+            bp_group = BpGroup()
+        self.bpgp = bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 5a540b6ab1d24d0a8b5d5ce7bbe6c9d11b28465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 21/31] fix: multiplying a GT point by zero must not raise

---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index d6c5e15..6e576b4 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -108,7 +108,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From f6b5df9c5daa6991d5bd201a15ce1817721b25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 22/31] fix: apply the composition rules inside extended
 statements

---
 zksk/extended.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 2a9de1d..6c20c9a 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -91,6 +91,11 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
 
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
+        self.constructed_stmt.full_validate()
+
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        # The constructed statement might be or contain an or-proof
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
 
     @property
     def constructed_stmt(self):
-- 
2.43.0


From 4765a7a7e2d3610b4dd6edaecba564dd53e11ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 23/31] fix: a signature creator must forget the blinding of
 earlier commitments

---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 324e1dd..9351185 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 5ede477ee7ef2d1195bb34a2a3a21abb2711beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 24/31] fix: points of GT must support subtraction like those
 of G1 and G2

---
 zksk/pairings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 6e576b4..bfb2b34 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -120,6 +120,9 @@ class AdditivePoint:
         """
         return AdditivePoint(self.pt * (other.pt), self.bp)
 
+    def __sub__(self, other):
+        return self + (-1 * other)
+
     __rmul__ = __mul__
 
     def __repr__(self):
-- 
2.43.0


From 744ef44eb6effc62087242d5ad49469df9ba29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 25/31] fix: primitives that only override construct_stmt can
 be simulated, as documented

---
 zksk/extended.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 6c20c9a..d8e0962 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -71,10 +71,17 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        if not self._overrides_precommit():
+            # The default precommitment does not rely on any secrets
+            return self.precommit()
+
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
 
+    def _overrides_precommit(self):
+        return type(self).precommit is not ExtendedProofStmt.precommit
+
     def has_witness(self):
         """
         Tell if the values needed to precommit and prove are known. Override if needed.
-- 
2.43.0


From 7e4c64fa66f3c70cfac70845cfcd3b5033b6ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 26/31] fix: primitives that only override construct_stmt have
 no prover when secret values are missing

---
 zksk/extended.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index d8e0962..e761f5f 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -88,6 +88,11 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
 
         Override this method to enable or-proofs to skip this proof when the values are missing.
         """
+        if not self._overrides_precommit():
+            # The constructed statement depends on nothing else, so it can tell
+            stmt = self.construct_stmt(self.precommit())
+            return stmt.get_prover(self.secret_values) is not None
+
         return True
 
     def validate(self, precommitment, *args, **kwargs):
-- 
2.43.0


From a7208ffccc255dfefc799f06c384e18f0652d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 27/31] fix: composed statements used in several places must
 not share their subproofs

---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 489f7e5..3d88fc4 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -335,6 +335,13 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # Otherwise copies would share their subproofs, whose state depends on the current proof.
+        duplicate = self.__class__.__new__(self.__class__)
+        duplicate.__dict__.update(self.__dict__)
+        duplicate.subproofs = [copy.copy(p) for p in self.subproofs]
+        return duplicate
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 85bb4f64ad35769137ae0cf4c2122525cbcff3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 28/31] fix: range statements must be simulatable when the
 known value is outside of the range

---
 zksk/primitives/rangeproof.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index aefa3d9..0a8e17d 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -84,6 +84,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
     def has_witness(self):
         return self.is_prover
 
+    def _is_in_range(self):
+        value = ensure_bn(self.x.value)
+        return value >= 0 and value.num_bits() <= self.num_bits
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
@@ -116,7 +120,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
+        # A value outside of the range cannot be proven, but the proof can still be simulated
+        can_prove = self.is_prover and self._is_in_range()
+        if can_prove:
             # Indicators that tell us which or-clause is true
             actual_value = ensure_bn(self.x.value)
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
@@ -129,7 +135,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if can_prove:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
-- 
2.43.0


From 9058c0ef2b9b65ad65b09ef33869ff3b038acf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 29/31] fix: flattening a composition must not drop its
 simulation mark

---
 zksk/composition.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 3d88fc4..1854838 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -121,12 +121,12 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         if isinstance(other, AndProofStmt):
             if isinstance(self, AndProofStmt):
-                return AndProofStmt(*self.subproofs, *other.subproofs)
+                return AndProofStmt(*self._get_parts(), *other._get_parts())
             else:
-                return AndProofStmt(self, *other.subproofs)
+                return AndProofStmt(self, *other._get_parts())
 
         elif isinstance(self, AndProofStmt):
-            return AndProofStmt(*self.subproofs, other)
+            return AndProofStmt(*self._get_parts(), other)
 
         return AndProofStmt(self, other)
 
@@ -139,12 +139,12 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         if isinstance(other, OrProofStmt):
             if isinstance(self, OrProofStmt):
-                return OrProofStmt(*self.subproofs, *other.subproofs)
+                return OrProofStmt(*self._get_parts(), *other._get_parts())
             else:
-                return OrProofStmt(self, *other.subproofs)
+                return OrProofStmt(self, *other._get_parts())
 
         elif isinstance(self, OrProofStmt):
-            return OrProofStmt(*self.subproofs, other)
+            return OrProofStmt(*self._get_parts(), other)
 
         return OrProofStmt(self, other)
 
@@ -342,6 +342,14 @@ class _CommonComposedStmtMixin:
         duplicate.subproofs = [copy.copy(p) for p in self.subproofs]
         return duplicate
 
+    def _get_parts(self):
+        # Subproofs for a flattened composition. They are to be simulated if the whole is.
+        parts = [copy.copy(p) for p in self.subproofs]
+        if self.simulated:
+            for p in parts:
+                p.set_simulated()
+        return parts
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 695b1a87a217a06b4a2ea0a8052781be137deeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 30/31] fix: hash every element of a proof in encoded form

---
 zksk/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index 8b56a44..e0f84c2 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -81,11 +81,8 @@ def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
     """
     # Start building the complete hash for the challenge
     for elem in args:
-        if not isinstance(elem, bytes) and not isinstance(elem, str):
-            encoded = encode(elem)
-        else:
-            encoded = elem
-        stmt_prehash.update(encoded)
+        # Also bytes are encoded, so that different elements are never hashed in the same way.
+        stmt_prehash.update(encode(elem))
 
     stmt_prehash.update(message.encode())
     return Bn.from_hex(stmt_prehash.hexdigest())
-- 
2.43.0


From a683dcccb24d6c52f738f69a36dd3c747bebb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 31/31] fix: a prover must check the composition of simulated
 parts too

---
 zksk/composition.py | 13 +++++++++++++
 zksk/extended.py    |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 1854838..975e540 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -243,6 +243,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         pass
 
+    def validate_composition(self):
+        """
+        Validate that composition is done correctly.
+
+        Does nothing if not overriden.
+        """
+        pass
+
     def update_randomizers(self, randomizers_dict):
         """
         Construct a mapping of all secrets to randomizers.
@@ -517,6 +525,9 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        # The parts that are simulated have no prover to check them
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -759,6 +770,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         com = []
diff --git a/zksk/extended.py b/zksk/extended.py
index e761f5f..3f2e173 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -109,6 +109,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         # The constructed statement might be or contain an or-proof
         self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
 
+    def validate_composition(self):
+        self.constructed_stmt.validate_composition()
+
     @property
     def constructed_stmt(self):
         return get_default_attr(self, "_constructed_stmt")
-- 
2.43.0

