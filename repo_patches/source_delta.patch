From 85539a7177579562fa369abb2c735d99e7d8b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 1/5] fix: invert each entry exactly once in
 UnitarySequence.inverse

A sequence holding the same entry object more than once (as with np.repeat or
appending one entry twice) kept that sharing in its deep copy, so the in-place
inversion was applied to the shared entry once per occurrence and an even
number of occurrences left it uninverted.
---
 stoqcompiler/unitary/unitary_sequence.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..d477a9a 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -255,12 +255,9 @@ class UnitarySequence:
         :return: The inverse sequence.
         :rtype: UnitarySequence.
         '''
-        inverse_sequence = UnitarySequence(
-            self.get_dimension(), self.get_sequence_entries())
-        inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+        inverse_sequence = UnitarySequence(self.get_dimension(), [
+            UnitarySequenceEntry(entry.unitary.inverse(), entry.get_apply_to())
+            for entry in reversed(self.sequence_entries)])
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From 27bd2e7e7724a6460516565c6ebec6a7bc14ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 2/5] fix: store the entries of a UnitarySequence as a list

The constructor accepts an ndarray of entries, but kept it as an ndarray, on
which append, remove and inverse fail with AttributeError.
---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index d477a9a..e0f4e5e 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From bec98c88eb45e3fcdac00ac80587c7a7ffd85cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 3/5] fix: keep the inverse marker on the full-system unitary
 of an entry

get_full_unitary dropped is_inverse, so the display output of an inverted
sequence showed the uninverted gates.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..0aba347 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From a799fcd0827cf31c58c45c32d2ddd97a2f946320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 4/5] fix: match probabilities to the primitives that can be
 applied

create_random_sequence_entry drops primitives with an empty allowed_apply_to
list but kept their probabilities, so np.random.choice failed with a size
mismatch whenever probabilities were given.
---
 stoqcompiler/compiler/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..3945287 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,16 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        is_usable = [
+            (u.get_allowed_apply_to() is None
+             or len(u.get_allowed_apply_to()) > 0)
+            for u in unitary_primitives]
+        if probabilities is not None and not np.all(is_usable):
+            assert len(probabilities) == len(unitary_primitives)
+            probabilities = np.array(probabilities)[is_usable]
+            probabilities = probabilities / np.sum(probabilities)
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for u, usable in zip(unitary_primitives, is_usable) if usable]
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From 7cc09c71f002e6afe28b5205bac5f5f0512e8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 5/5] fix: apply random sequence entries to plain int qubit
 indices

np.random.choice returns numpy integers, so display names came out as
"Rx[np.int64(0)](...)".
---
 stoqcompiler/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 3945287..dc9b853 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -245,7 +245,8 @@ class Compiler:
         else:
             num_unitary_qubits = int(np.log2(new_unitary.get_dimension()))
             apply_to = np.random.choice(list(range(num_system_qubits)),
-                                        num_unitary_qubits, replace=False)
+                                        num_unitary_qubits,
+                                        replace=False).tolist()
 
         return UnitarySequenceEntry(new_unitary, apply_to)
 
-- 
2.43.0

