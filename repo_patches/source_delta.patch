From 59d809b4784fe45d283108286e3bd31dacfbd398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 01/52] fix: multiclans.is_right_regular must cache and return
 right-regular, not regular

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..83bf8b0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -609,8 +609,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From c49d381e81a5c39ace67bc085df7de86e0ebed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 02/52] fix: mark empty sets and multisets as right-regular so
 is_right_regular does not fail on them

---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From 530cd316de38313e336db612208b7c6a3260e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 03/52] fix: order_slice with a plain integer offset must use
 that offset, not the limit

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 83bf8b0..110cf0c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -698,7 +698,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From 1a948b8ea4ad07e0a1122cb9cdb7d749f844c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 04/52] fix: slice the right number of relations when offset
 and limit end in the same relation or limit is 0

---
 algebraixlib/algebras/multiclans.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 110cf0c..2cc304e 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -730,6 +730,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     if start_offset == 0 and end_offset >= float('inf'):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
+    if end_offset <= start_offset:
+        # Nothing selected.
+        return []
 
     # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
     # and the resulting multiplicities in these first and last tuples (which may be different from
@@ -762,7 +765,10 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     # If needed, adjust the multiplicities of the first and last tuple in the selected range.
     if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
         counter_list[start_index] = (counter_list[start_index][0], first_multiple)
-    if end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
+    if end_index == start_index:
+        # The selected range starts and ends within the same tuple.
+        counter_list[end_index] = (counter_list[end_index][0], end_offset - start_offset)
+    elif end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
         counter_list[end_index] = (counter_list[end_index][0], last_multiple)
 
     # Create and return a generator expression to avoid another copy of the data.
-- 
2.43.0


From 9f09f974a421b299e1941a1553f56b07a5b8beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 05/52] fix: don't fill an empty multiset that is already
 flagged as multiclan when indexing a multiclan

---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From e2f1fc3b528f67ee7fe25a0f3d52fe6ad39d5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 06/52] fix: don't cache negative properties of dropped
 relations on results of cross-(right-)functional unions

---
 algebraixlib/algebras/clans.py      | 8 +-------
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..0203435 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -198,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +228,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 2cc304e..a8530b5 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From a6a8257b519a16780722abb8798363f3f218cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 07/52] fix: decide relation, clan and multiclan membership
 from the elements, not from the ground set

---
 algebraixlib/algebras/clans.py      | 6 ++++--
 algebraixlib/algebras/multiclans.py | 7 +++++--
 algebraixlib/algebras/relations.py  | 7 +++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 0203435..16109b5 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -398,7 +398,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        # An element that is an empty multiset has the empty ground set (which is a subset of every
+        # ground set) without being a relation, so the elements need to be looked at.
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -427,7 +429,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_clan = obj.is_set and all(_relations.is_absolute_member(elem) for elem in obj)
         if obj.cached_clan == CacheStatus.UNKNOWN:
             if is_absolute_clan:
                 # If it is an absolute clan, it is also a clan.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index a8530b5..24f8148 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -369,7 +369,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        # An element that is an empty multiset has the empty ground set (which is a subset of every
+        # ground set) without being a relation, so the elements need to be looked at.
+        is_multiclan = obj.is_multiset and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -400,7 +402,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_multiclan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_mclan = obj.is_multiset and all(
+            _relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_multiclan == CacheStatus.UNKNOWN:
             if is_absolute_mclan:
                 # If it is an absolute multiclan, it is also a multiclan.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..4732e95 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -196,7 +196,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         of this operation is cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        # An element that is an empty set has the empty ground set (which is a subset of every ground
+        # set) without being a couplet, so the elements need to be looked at.
+        is_relation = obj.is_set and all(_couplets.is_member(elem) for elem in obj)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -227,7 +229,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_relation == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_relation = obj.is_set and all(
+            _couplets.is_absolute_member(elem) for elem in obj)
         if obj.cached_relation == CacheStatus.UNKNOWN:
             if is_absolute_relation:
                 # If it is an absolute relation, it is also a relation.
-- 
2.43.0


From e6cfe4d73763aa563a543dc8bc99a2f67113ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 08/52] fix: a couplet with an empty right component has a
 ground set

---
 algebraixlib/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..8779897 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,8 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure)
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From 654586de40602fc0aa710fbfdff50c7c4396ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 09/52] fix: the power set of the empty set is regular and
 right-regular

---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From b2a99f5d4a3dfdde472f6991692f61d0675864a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 10/52] fix: don't mark the components of a partitioned
 non-(multi)clan as not being (multi)clans

---
 algebraixlib/partition.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..c13eb6a 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from .cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -86,15 +87,20 @@ def partition(set_or_mset, class_invariant_func):
     """
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
+        # A component of a clan is a clan, but a component of a non-clan may also be one.
+        component_clan = CacheStatus.IS if set_or_mset.cached_is_clan else CacheStatus.UNKNOWN
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(component_clan)
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
+        # A component of a multiclan is a multiclan, but one of a non-multiclan may also be one.
+        component_multiclan = \
+            CacheStatus.IS if set_or_mset.cached_is_multiclan else CacheStatus.UNKNOWN
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(component_multiclan)
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -118,13 +124,18 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     """
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
+        # A component of a clan is a clan, but a component of a non-clan may also be one.
+        component_clan = CacheStatus.IS if set_or_mset.cached_is_clan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(component_clan), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
+        # A component of a multiclan is a multiclan, but one of a non-multiclan may also be one.
+        component_multiclan = \
+            CacheStatus.IS if set_or_mset.cached_is_multiclan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(component_multiclan), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From f5eb397acfd93f3ee3cad43ff6d0b3777da6200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 11/52] fix: the relations in a multiclan superstriction keep
 their multiplicity in the first operand

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 24f8148..76bead3 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -295,7 +295,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From f2d7fdace7522e0f6e3455f36ea0a3e3508b0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 12/52] fix: get_rights_for_left of an empty multiclan is the
 empty multiset

---
 algebraixlib/algebras/multiclans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 76bead3..1aec654 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -499,6 +499,8 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        return _mo.Multiset()
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From 56c171938791ff2d6af19407f6cb240b0efbbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 13/52] fix: unary_extend with _checked=False accepts an
 undefined argument

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From 46d69fb8ef5f9d055324a35e35af25e3e9a27010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 14/52] fix: is_regular and is_right_regular work for sets of
 clans

---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From 9882c33ab9d1857d9b7f966438a76a307b3ef810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 15/52] fix: a relation is reflexive if it has x->x for every x
 among its lefts and rights

---
 algebraixlib/algebras/relations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 4732e95..4fd7a71 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -439,7 +439,9 @@ def is_reflexive(rel, _checked=True) -> bool:
         if rel is _undef.Undef():
             return _undef.make_or_raise_undef(2)
     if rel.cached_reflexive == CacheStatus.UNKNOWN:
-        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
+        reflexive = all(
+            rel.has_element(_mo.Couplet(couplet.left, direct_load=True))
+            and rel.has_element(_mo.Couplet(couplet.right, direct_load=True)) for couplet in rel)
         rel.cache_reflexive(CacheStatus.from_bool(reflexive))
     return rel.cached_reflexive == CacheStatus.IS
 
-- 
2.43.0


From b872310ab41cdb7566f577736d807f865b770890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 16/52] fix: a union removes every member that is a subset of a
 new member

---
 algebraixlib/structure.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8779897..9af6ed9 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -410,18 +410,16 @@ class Union(Structure):
         def _add_element(new_element):
             """Add an element (a Structure) to the union if it is not already in it."""
             assert isinstance(new_element, Structure)
-            for existing_element in writeable_union:
+            for existing_element in list(writeable_union):
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
+                    return
                 elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
+                    # To be added element is (real) superset of existing element: remove it. (There
+                    # may be more than one.)
                     writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+            # To be added element is not a subset of any existing element: add it.
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From ea16005b4112be912f4bacb3779cf6760df10764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 17/52] fix: a structure is a subset of a union if it is a
 subset of one of its members

---
 algebraixlib/structure.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 9af6ed9..c74664d 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -348,10 +354,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -546,6 +549,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From ae683b72aa8412f9a623a8d7727a081d01dc2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 18/52] fix: equality and hash of a union with one member are
 consistent with that member

---
 algebraixlib/structure.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index c74664d..0c5db70 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,8 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +183,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +241,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +292,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -373,6 +381,8 @@ class CartesianProduct(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
         return False
@@ -506,6 +516,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # Is equal to its one element.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -578,6 +591,8 @@ class PowerSet(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
         return False
-- 
2.43.0


From 452f1cd29d0b57fe098af90bbfdf03c3860f1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 19/52] fix: make the sort order of atoms transitive by keeping
 the values of each type together

---
 algebraixlib/mathobjects/atom.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..74e7aae 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -38,6 +38,11 @@ def auto_convert(arg):
     return arg if isinstance(arg, MathObject) else Atom(arg)
 
 
+def _get_type_name(type_) -> str:
+    """Return the full name of ``type_``. (Used to sort atoms by the type of their values.)"""
+    return type_.__name__ + ' ' + type_.__module__
+
+
 def _init_cache() -> int:
     """Initialization function for `Atom._INIT_CACHE`."""
     flags = _Flags()
@@ -174,11 +179,18 @@ class Atom(MathObject):
         if not isinstance(other, MathObject):
             return NotImplemented
         if other.is_atom:
-            try:
-                if self.type == other.type:
+            if self.type != other.type:
+                # Keep the values of each type together. (Comparing the ``repr`` of values of
+                # different types is not transitive: '10' < '2.5', 2.5 < '9', but 9 < 10.)
+                self_type_name = _get_type_name(self.type)
+                other_type_name = _get_type_name(other.type)
+                if self_type_name != other_type_name:
+                    return self_type_name < other_type_name
+            else:
+                try:
                     return self.value < other.value
-            except TypeError:
-                pass
+                except TypeError:
+                    pass
             return repr(self.value) < repr(other.value)
         else:
             return super()._less_than(other)
-- 
2.43.0


From 0a1adc91cc9d70bb674718e8f52ed15cfcee6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 20/52] fix: import_csv decides regularity from the rows of
 this import, and only if their left sets differ is it not regular

---
 algebraixlib/import_export/csv.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..c391e28 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    left_sets = set()  # The distinct left sets of the imported relations (rows).
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -165,14 +165,13 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            left_sets.add(frozenset(filtered_row))
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
@@ -183,18 +182,18 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             return _mo.Multiset(_import_csv(csv_file_or_filepath),
                                 direct_load=True).cache_multiclan(
                 CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                CacheStatus.from_bool(import_csv.regular))
+                CacheStatus.from_bool(len(left_sets) <= 1))
         else:
             return _mo.Set(_import_csv(csv_file_or_filepath), direct_load=True)\
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
         with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                    CacheStatus.from_bool(import_csv.regular))
+                    CacheStatus.from_bool(len(left_sets) <= 1))
             else:
                 return _mo.Set(_import_csv(file), direct_load=True)\
                     .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                    .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                    .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
-- 
2.43.0


From cca6df4111db0e79c6397ad7d2e3d6895ab0abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 21/52] fix: import_csv does not change line breaks in the
 values of a file given by its path

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index c391e28..583abcd 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -188,7 +188,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From 2f53d66ec0d16718916037419b208584b1cb36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 22/52] fix: export_csv works for an empty clan

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 583abcd..16f53f4 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -61,7 +61,7 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
 
     if ordered_lefts is None:
         # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
+        rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
         ordered_lefts = sorted([left.value for left in rel.get_left_set()])
 
-- 
2.43.0


From 42f813641cbccceb03b7d591ca9e08d50f07d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 23/52] fix: mojson keeps tuples inside of tuples

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From 9143294f05b6c93459947aa3a7ea8432694214e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 24/52] fix: import_xml skips comments, processing instructions
 and the document type and imports CDATA

---
 algebraixlib/import_export/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 89d6f37..5ac4e54 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -80,13 +80,16 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
                         left=_util.get_left_cached(node.tagName),
                         right=_mo.Set(children, direct_load=True),
                         direct_load=True)
-            elif node.nodeType == node.TEXT_NODE:
+            elif node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
                 text_node_text = node.data.strip()
                 if len(text_node_text) > 0:
                     yield _mo.Couplet(
                         left=text_left,
                         right=_mo.Atom(_get_atom_value(text_node_text), direct_load=True),
                         direct_load=True)
+            elif node.nodeType in (node.COMMENT_NODE, node.PROCESSING_INSTRUCTION_NODE,
+                                   node.DOCUMENT_TYPE_NODE):
+                pass  # Not part of the data.
             else:
                 assert False  # Node type not supported.
 
-- 
2.43.0


From e49d1a09051c933c90ff323873689e9a6119c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 25/52] fix: create_simple_web_page does not fail on its own
 template

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..e2f7fc0 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,7 +210,7 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-- 
2.43.0


From c2993c93d82c0c4e7ab0a81c16cb6ebb5c75bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 26/52] fix: import_graph converts blank nodes to IRIs

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..835c24b 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,7 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
+    graph = graph.skolemize()
     return _convert_graph_to_mathobjects(graph)
 
 
-- 
2.43.0


From 223e2ae18f1ad1a8f3e8d9beb8102054e7bfeaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 27/52] fix: export_table works for an empty table

---
 algebraixlib/import_export/rdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 835c24b..53f00d1 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -195,9 +195,9 @@ class _ExportTable(_abc.ABC):
     def _write_body(self):
         self._body_start()
         relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        for index, relation in enumerate(relation_itr):
+            if index > 0:
+                self._row_between_relations()
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 15256ca153b965ec67800e8faedaf258a6417260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 28/52] fix: export_table writes no leading separator in JSON
 rows that have no value for the first left

---
 algebraixlib/import_export/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 53f00d1..55256ac 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -205,15 +205,16 @@ class _ExportTable(_abc.ABC):
         self._row_start()
         lefts_itr = iter(self._ordered_lefts)
         left = next(lefts_itr)
-        self._write_item_wrapper(relation, left, False)
+        has_items = self._write_item_wrapper(relation, left, False)
         for left in lefts_itr:
             self._item_between_couplets()
-            self._write_item_wrapper(relation, left, True)
+            has_items = self._write_item_wrapper(relation, left, has_items) or has_items
         self._row_end()
 
     def _write_item_wrapper(self, relation: 'P(A x A)', left: '( A )', prefix_separator: bool):
         right = _relations.get_right(relation, left)
         self._write_item(left, right, prefix_separator)
+        return right is not _ud.Undef()
 
 
 def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format: str='csv'):
-- 
2.43.0


From 3d3430bf439519352e1871a84b66b412494e63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 29/52] fix: on-demand algebra accessors can't return None when
 first used by two threads

---
 algebraixlib/mathobjects/multiset.py | 10 +++----
 algebraixlib/mathobjects/set.py      | 40 ++++++++++++++--------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..3ffd4da 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -32,11 +32,11 @@ from ._flags import Flags as _Flags
 
 def _multiclans():
     """Load :mod:`~.algebras.multiclans` on demand."""
-    _multiclans.algebra = getattr(_multiclans, 'algebra', None)
-    if _multiclans.algebra is None:
-        import algebraixlib.algebras.multiclans as multiclans
-        _multiclans.algebra = multiclans
-    return _multiclans.algebra
+    algebra = getattr(_multiclans, 'algebra', None)
+    if algebra is None:
+        import algebraixlib.algebras.multiclans as algebra
+        _multiclans.algebra = algebra
+    return algebra
 
 
 # --------------------------------------------------------------------------------------------------
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index be3d57f..662563c 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -33,38 +33,38 @@ from ._flags import Flags as _Flags
 
 def _couplets():
     """Load :mod:`~.algebras.couplets` on demand."""
-    _couplets.algebra = getattr(_couplets, 'algebra', None)
-    if _couplets.algebra is None:
-        import algebraixlib.algebras.couplets as couplets
-        _couplets.algebra = couplets
-    return _couplets.algebra
+    algebra = getattr(_couplets, 'algebra', None)
+    if algebra is None:
+        import algebraixlib.algebras.couplets as algebra
+        _couplets.algebra = algebra
+    return algebra
 
 
 def _sets():
     """Load :mod:`~.algebras.sets` on demand."""
-    _sets.algebra = getattr(_sets, 'algebra', None)
-    if _sets.algebra is None:
-        import algebraixlib.algebras.sets as sets
-        _sets.algebra = sets
-    return _sets.algebra
+    algebra = getattr(_sets, 'algebra', None)
+    if algebra is None:
+        import algebraixlib.algebras.sets as algebra
+        _sets.algebra = algebra
+    return algebra
 
 
 def _relations():
     """Load :mod:`~.algebras.relations` on demand."""
-    _relations.algebra = getattr(_relations, 'algebra', None)
-    if _relations.algebra is None:
-        import algebraixlib.algebras.relations as relations
-        _relations.algebra = relations
-    return _relations.algebra
+    algebra = getattr(_relations, 'algebra', None)
+    if algebra is None:
+        import algebraixlib.algebras.relations as algebra
+        _relations.algebra = algebra
+    return algebra
 
 
 def _clans():
     """Load :mod:`~.algebras.clans` on demand."""
-    _clans.algebra = getattr(_clans, 'algebra', None)
-    if _clans.algebra is None:
-        import algebraixlib.algebras.clans as clans
-        _clans.algebra = clans
-    return _clans.algebra
+    algebra = getattr(_clans, 'algebra', None)
+    if algebra is None:
+        import algebraixlib.algebras.clans as algebra
+        _clans.algebra = algebra
+    return algebra
 
 
 # --------------------------------------------------------------------------------------------------
-- 
2.43.0


From fb576bcd4eddb92d9870b62018ac13c22b4b1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 30/52] fix: Undef singleton is created once even when first
 used by two threads

---
 algebraixlib/undef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/undef.py b/algebraixlib/undef.py
index c6af9d4..bb8f468 100644
--- a/algebraixlib/undef.py
+++ b/algebraixlib/undef.py
@@ -274,6 +274,10 @@ class Undef:
         return False
 
 
+# Create the singleton while the module is loaded, so that concurrent first uses share it.
+Undef()
+
+
 class RaiseOnUndef:
     """Manage the level for `make_or_raise_undef`. Implemented as static class."""
 
-- 
2.43.0


From cb8e46af61649090807f8ee98fc275b45614aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 31/52] fix: triple_match accepts an empty string as value

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..99f07c0 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value.startswith(('?', '$')):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From f6e04f7f3102e876b234fa3decb3ec076da31ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 32/52] fix: export_table escapes strings in JSON output

---
 algebraixlib/import_export/rdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 55256ac..840ffe0 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,8 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
+
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -320,7 +322,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value)))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From ecb0899d49322dcd0e0b3e084b6e89c38bd1a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 33/52] fix: exports write files as UTF-8, the encoding the
 imports read

---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..1d6c679 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -149,7 +149,7 @@ def write_to_file_or_path(file_or_path, data_functor):
     """
     if isinstance(file_or_path, str):
         # 'with' syntax handles close no matter what.
-        with open(file_or_path, "w+", newline='') as out_file:
+        with open(file_or_path, "w+", newline='', encoding='utf-8') as out_file:
             data_functor(out_file)
     else:
         # Assume 'file_or_path' is a writer-type object.
-- 
2.43.0


From 86413e248ae9bd123a69f46e34c4f8ab90341e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 34/52] fix: clans.from_set doesn't claim that its result is
 right-regular when it has several relations

---
 algebraixlib/algebras/clans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 16109b5..e1a732b 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -698,7 +698,9 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    # Relations with different rights are not right-regular.
+    clan.cache_right_regular(CacheStatus.from_bool(clan.cardinality <= 1))
     return clan
 
 
-- 
2.43.0


From 2e7529ce38d786dbf79c34f79c8b4b339dd20d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 35/52] fix: is_symmetric and is_transitive work for sets of
 clans over different ground sets

---
 algebraixlib/algebras/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 1a667ba..fb3d8be 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -215,7 +215,7 @@ def is_symmetric(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_symmetric(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    symmetric = _is_powerset_property(mo, _relations.get_ground_set(), is_symmetric)
+    symmetric = _is_powerset_property(mo, _clans.get_ground_set(), is_symmetric)
     if symmetric is not _undef.Undef():
         mo.cache_symmetric(CacheStatus.from_bool(symmetric))
         return symmetric
@@ -257,7 +257,7 @@ def is_transitive(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_transitive(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    transitive = _is_powerset_property(mo, _relations.get_ground_set(), is_transitive)
+    transitive = _is_powerset_property(mo, _clans.get_ground_set(), is_transitive)
     if transitive is not _undef.Undef():
         mo.cache_transitive(CacheStatus.from_bool(transitive))
         return transitive
-- 
2.43.0


From 6dfcf3a43c8ac176d2187e67ec4a63bb71c2189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 36/52] fix: order_slice and multiclan_to_listgen return undef
 for an undef limit

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 1aec654..7ba3e8c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -707,10 +707,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From f4c8e498f8c87725763cddf5e98666a82ad08b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 37/52] fix: import_json reads files as UTF-8, independent of
 the locale

---
 algebraixlib/import_export/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..27fff88 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -49,5 +49,5 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     if hasattr(json_file_or_filepath, "readlines"):  # support StringIO
         return _import_json(json_file_or_filepath)
     else:
-        with open(json_file_or_filepath) as file:
+        with open(json_file_or_filepath, encoding='utf-8') as file:
             return _import_json(file)
-- 
2.43.0


From d8c5c58911dc141445441012464e6258442f6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 38/52] fix: import_graph of a file object without a format
 uses Turtle instead of raising TypeError

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 840ffe0..59f69ca 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -50,7 +50,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From d1d2751e433464b2b1512094c1feed039b5c2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 39/52] fix: short LaTeX form of a set depended on its
 iteration order (parentheses around couplets)

---
 algebraixlib/util/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..219fa85 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -202,7 +202,7 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(sorted(set_.data), Config.short_set_len)]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From 811132e2e94c3d859a8485b954f1e1e326a93bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 40/52] fix: short LaTeX form of a multiset elided nothing yet
 claimed so, and did not say how much is elided

---
 algebraixlib/util/latexprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 219fa85..7a63212 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -265,11 +265,12 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(len(mset.data) - Config.short_set_len)
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From 4365e146be75dbf084e5febabb45d565089a46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 41/52] fix: create_simple_web_page did not escape the value's
 text

---
 algebraixlib/util/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index e2f7fc0..92543bc 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -214,6 +214,7 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=as_html_handle_basic_parameter(mathobj),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From 776aa73298632b82358f964e80dcdce7f6c1cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 42/52] fix: is_absolute_member failed an assertion if another
 thread determined the membership meanwhile

---
 algebraixlib/algebras/clans.py      | 22 +++++++++++-----------
 algebraixlib/algebras/multiclans.py | 22 +++++++++++-----------
 algebraixlib/algebras/relations.py  | 22 +++++++++++-----------
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index e1a732b..f4e05c3 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -430,17 +430,17 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
         is_absolute_clan = obj.is_set and all(_relations.is_absolute_member(elem) for elem in obj)
-        if obj.cached_clan == CacheStatus.UNKNOWN:
-            if is_absolute_clan:
-                # If it is an absolute clan, it is also a clan.
-                obj.cache_clan(CacheStatus.IS)
-            else:
-                # If it is not an absolute clan, it may still be a clan.
-                is_clan = is_member(obj)
-                if not is_clan:
-                    # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
-                    # has already been cached in is_member().)
-                    return False
+        # (The cached state may have changed since it was tested above: other threads may use obj.)
+        if is_absolute_clan:
+            # If it is an absolute clan, it is also a clan.
+            obj.cache_clan(CacheStatus.IS)
+        else:
+            # If it is not an absolute clan, it may still be a clan.
+            is_clan = is_member(obj)
+            if not is_clan:
+                # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
+                # has already been cached in is_member().)
+                return False
         # At this point, cached_clan == IS. Cache whether this is an absolute clan.
         assert obj.cached_is_clan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_clan))
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 7ba3e8c..5afb1be 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -404,17 +404,17 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # multiclan.
         is_absolute_mclan = obj.is_multiset and all(
             _relations.is_absolute_member(elem) for elem in obj.data)
-        if obj.cached_multiclan == CacheStatus.UNKNOWN:
-            if is_absolute_mclan:
-                # If it is an absolute multiclan, it is also a multiclan.
-                obj.cache_multiclan(CacheStatus.IS)
-            else:
-                # If it is not an absolute multiclan, it may still be a multiclan.
-                is_mclan = is_member(obj)
-                if not is_mclan:
-                    # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
-                    # not a multiclan has already been cached in is_member().)
-                    return False
+        # (The cached state may have changed since it was tested above: other threads may use obj.)
+        if is_absolute_mclan:
+            # If it is an absolute multiclan, it is also a multiclan.
+            obj.cache_multiclan(CacheStatus.IS)
+        else:
+            # If it is not an absolute multiclan, it may still be a multiclan.
+            is_mclan = is_member(obj)
+            if not is_mclan:
+                # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
+                # not a multiclan has already been cached in is_member().)
+                return False
         # At this point, cached_multiclan == IS. Cache whether this is an absolute multiclan.
         assert obj.cached_is_multiclan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_mclan))
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 4fd7a71..5bc452e 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -231,17 +231,17 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # relation.
         is_absolute_relation = obj.is_set and all(
             _couplets.is_absolute_member(elem) for elem in obj)
-        if obj.cached_relation == CacheStatus.UNKNOWN:
-            if is_absolute_relation:
-                # If it is an absolute relation, it is also a relation.
-                obj.cache_relation(CacheStatus.IS)
-            else:
-                # If it is not an absolute relation, it may still be a relation.
-                is_relation = is_member(obj)
-                if not is_relation:
-                    # If it is neither an absolute relation nor a relation, exit. (That it is not a
-                    # relation has already been cached in is_member().)
-                    return False
+        # (The cached state may have changed since it was tested above: other threads may use obj.)
+        if is_absolute_relation:
+            # If it is an absolute relation, it is also a relation.
+            obj.cache_relation(CacheStatus.IS)
+        else:
+            # If it is not an absolute relation, it may still be a relation.
+            is_relation = is_member(obj)
+            if not is_relation:
+                # If it is neither an absolute relation nor a relation, exit. (That it is not a
+                # relation has already been cached in is_member().)
+                return False
         # At this point, cached_relation == IS. Cache whether this is an absolute relation.
         assert obj.cached_is_relation
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_relation))
-- 
2.43.0


From d27e0d09bb7d93b14767f7ab1bf12e255e349c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 43/52] fix: An import with the column 1 during one with the
 column True (or 1.0) changed the latter's columns.

---
 algebraixlib/import_export/_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/_util.py b/algebraixlib/import_export/_util.py
index 355d0d3..8933f8a 100755
--- a/algebraixlib/import_export/_util.py
+++ b/algebraixlib/import_export/_util.py
@@ -19,6 +19,8 @@ import algebraixlib.mathobjects as _mo
 
 def get_left_cached(tag):
     cache = getattr(get_left_cached, 'left_cache', {})
-    if tag not in cache:
-        cache[tag] = _mo.Atom(tag, True)
-    return cache[tag]
+    left = cache.get(tag)
+    if left is None or left.type != type(tag):  # 1, True and 1.0 are equal, but different atoms.
+        left = _mo.Atom(tag, True)
+        cache[tag] = left
+    return left
-- 
2.43.0


From 4f552c0f6236bc06c18310cdb0276d780b6121a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 44/52] fix: import_csv failed if skip_rows is larger than the
 number of lines.

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 16f53f4..aacbd35 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -159,7 +159,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
 
     def _import_csv(csv_file):
         for _ in range(0, skip_rows):
-            next(csv_file)
+            next(csv_file, None)
         reader = _csv.DictReader(csv_file, fieldnames=columns)
 
         _index = 0
-- 
2.43.0


From 94de76cfd38f552198158b60809c125e0124c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 45/52] fix: export_csv without column order failed for lefts
 of several types.

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index aacbd35..fbf2e48 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -63,7 +63,7 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
         # Since this clan is regular, get first relation to acquire left set.
         rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
-        ordered_lefts = sorted([left.value for left in rel.get_left_set()])
+        ordered_lefts = [left.value for left in sorted(rel.get_left_set())]
 
     # Generate dictionaries that associates left components with their right components for each
     # relation.
-- 
2.43.0


From 797801d5b874b62b71ca277669c482e39e9beb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 46/52] fix: xml_to_str ignored pre_len and post_len unless
 post_len was negative.

---
 algebraixlib/import_export/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 5ac4e54..6190c34 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -144,8 +144,8 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
 
     xml_str = re.sub(r">.*<", _truncator, xml_str)
 
-    if pre_len > 0 > post_len:
-        return xml_str[:pre_len] + '\n...\n' + xml_str[post_len:]
+    if pre_len > 0 and post_len > 0 and len(xml_str) > pre_len + post_len:
+        return xml_str[:pre_len] + '\n...\n' + xml_str[-post_len:]
 
     return xml_str
 
-- 
2.43.0


From 092f4a45a2785d98afaea4531fe5c5bdab2322d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 47/52] fix: multiset of a dictionary: add up keys that are the
 same element

---
 algebraixlib/mathobjects/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 3ffd4da..cfeba9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -117,7 +117,7 @@ class Multiset(MathObject):
                 else:
                     # only asserting in non direct mode, assumption is direct load has good data.
                     assert isinstance(elements[key], int) and elements[key] > 0
-                    self._data[auto_convert(key)] = elements[key]
+                    self._data[auto_convert(key)] += elements[key]
         elif isinstance(elements, str):
             # Strings are iterable, but we treat them as a single value in this case.
             self._data = _collections.Counter({auto_convert(elements): 1})
-- 
2.43.0


From 80a1f11fff36cfccbaf286c16921bb027faf9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 48/52] fix: from_dict: keys that convert to the same left do
 not make a function

---
 algebraixlib/algebras/clans.py      | 8 +++-----
 algebraixlib/algebras/multiclans.py | 4 ++--
 algebraixlib/algebras/relations.py  | 7 +++++--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index f4e05c3..c8d4e58 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -707,13 +707,11 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
 def from_dict(dict1: dict) -> 'PP(M x M)':
     r"""Return a :term:`clan` with a single :term:`relation` where the :term:`couplet`\s are the
     elements of ``dict1``."""
-    rel = _mo.Set((_mo.Couplet(left, right) for left, right in dict1.items()), direct_load=True)
-    rel.cache_relation(CacheStatus.IS)
-    rel.cache_functional(CacheStatus.IS)
+    rel = _relations.from_dict(dict1)
     clan = _mo.Set(rel, direct_load=True)
     clan.cache_clan(CacheStatus.IS)
-    clan.cache_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS)
+    clan.cache_functional(rel.cached_functional)
+    clan.cache_regular(rel.cached_functional)
     return clan
 
 
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 5afb1be..bfa82d6 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -876,8 +876,8 @@ def from_dict(dict1: dict) -> 'P(P(M x M) x N)':
     rel = _relations.from_dict(dict1)
     mclan = _mo.Multiset(rel, direct_load=True)
     mclan.cache_multiclan(CacheStatus.IS)
-    mclan.cache_functional(CacheStatus.IS)
-    mclan.cache_regular(CacheStatus.IS)
+    mclan.cache_functional(rel.cached_functional)
+    mclan.cache_regular(rel.cached_functional)
     return mclan
 
 
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 5bc452e..7a6bec1 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -593,8 +593,11 @@ def functional_add(func: 'P(M x M)', element: 'M x M') -> 'P(M x M)':
 
 def from_dict(dict1: dict) -> 'P(M x M)':
     r"""Return a :term:`relation` where the :term:`couplet`\s are the elements of ``dict1``."""
-    return _mo.Set((_mo.Couplet(left, right) for left, right in dict1.items()), direct_load=True)\
-        .cache_relation(CacheStatus.IS).cache_functional(CacheStatus.IS)
+    rel = _mo.Set((_mo.Couplet(left, right) for left, right in dict1.items()), direct_load=True)
+    rel.cache_relation(CacheStatus.IS)
+    # Different keys may convert to the same left (for example 'a' and Atom('a')).
+    rel.cache_functional(CacheStatus.from_bool(len({cpl.left for cpl in rel}) == rel.cardinality))
+    return rel
 
 
 def diag(*args, _checked=True) -> 'P(M x M)':
-- 
2.43.0


From ccc9d8c5bf6f0e8ee2be8466545a6e6075eff20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 49/52] fix: XML files are read in the encoding they declare

---
 algebraixlib/import_export/xml.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 6190c34..202518e 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -101,7 +101,8 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
     if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
         return _import_xml(xml_file_or_filepath)
     else:
-        with open(xml_file_or_filepath, encoding='utf-8') as file:
+        # Bytes: the encoding is the one the document declares (UTF-8 by default).
+        with open(xml_file_or_filepath, 'rb') as file:
             return _import_xml(file)
 
 
@@ -121,11 +122,13 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
         that contains an ellipsis.) Ignored if 0 or if ``pre_len`` is 0.
     """
 
-    if not hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
-        xml_file_or_filepath = open(xml_file_or_filepath, encoding='utf-8')
-
     from xml.dom.minidom import parse
-    xml_data = parse(xml_file_or_filepath)
+    if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
+        xml_data = parse(xml_file_or_filepath)
+    else:
+        # Bytes: the encoding is the one the document declares (UTF-8 by default).
+        with open(xml_file_or_filepath, 'rb') as file:
+            xml_data = parse(file)
     xml_str = xml_data.toprettyxml(indent_text)
 
     # Remove duplicate whitespace
-- 
2.43.0


From 49168b2841f24e6874965d3ef4d017f9be64b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 50/52] fix: import_xml: a text with CDATA sections or comments
 inside is one text

---
 algebraixlib/import_export/xml.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 202518e..649474e 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -62,9 +62,20 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
 
     _util.get_left_cached.left_cache = {}
 
+    def _process_text(text: str):
+        text = text.strip()
+        if len(text) > 0:
+            yield _mo.Couplet(
+                left=text_left,
+                right=_mo.Atom(_get_atom_value(text), direct_load=True),
+                direct_load=True)
+
     def _process_nodes(nodes):
+        text = ''  # The text since the last element. (CDATA sections, comments etc. don't end it.)
         for node in nodes:
             if node.nodeType == node.ELEMENT_NODE:
+                yield from _process_text(text)
+                text = ''
                 # attributes and children are sets of Couplets.
                 attributes = set(_process_attributes(node))
                 children = set(_process_nodes(node.childNodes))  # May include text (text_left).
@@ -81,17 +92,13 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
                         right=_mo.Set(children, direct_load=True),
                         direct_load=True)
             elif node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
-                text_node_text = node.data.strip()
-                if len(text_node_text) > 0:
-                    yield _mo.Couplet(
-                        left=text_left,
-                        right=_mo.Atom(_get_atom_value(text_node_text), direct_load=True),
-                        direct_load=True)
+                text += node.data
             elif node.nodeType in (node.COMMENT_NODE, node.PROCESSING_INSTRUCTION_NODE,
                                    node.DOCUMENT_TYPE_NODE):
                 pass  # Not part of the data.
             else:
                 assert False  # Node type not supported.
+        yield from _process_text(text)
 
     def _import_xml(xml_file):
         import xml.dom.minidom
-- 
2.43.0


From 976a1aa2abb656cfc37facff136d63ec209e4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 51/52] fix: import_json: arrays of plain values

---
 algebraixlib/import_export/json.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index 27fff88..dc5ace7 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -23,23 +23,26 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     :param json_file_or_filepath: A file path or a file object of the file to be imported.
     :return: A nested :term:`relation` that represents the JSON document.
     """
+    def _process_value(value):
+        if isinstance(value, (list, dict)):
+            return _mo.Set(_process_nodes(value))
+        elif isinstance(value, (str, int, float)):
+            return _mo.Atom(value)
+        else:
+            assert False  # Node type not supported.
+
     def _process_nodes(nodes):
         if isinstance(nodes, list):
             for list_data in nodes:
-                yield _mo.Set(*list(_process_nodes(list_data)))
+                yield _process_value(list_data)
         else:
             for key, value in nodes.items():
                 if isinstance(value, list):
                     for list_data in value:
-                        child = _process_nodes(list_data)
-                        yield _mo.Couplet(_mo.Atom(key), _mo.Set(child), direct_load=True)
-                elif isinstance(value, dict):
-                    children = _process_nodes(value)
-                    yield _mo.Couplet(_mo.Atom(key), _mo.Set(children), direct_load=True)
-                elif isinstance(value, (str, int, float)):
-                    yield _mo.Couplet(_mo.Atom(key), _mo.Atom(value), direct_load=True)
+                        right = _process_value(list_data)
+                        yield _mo.Couplet(_mo.Atom(key), right, direct_load=True)
                 else:
-                    assert False  # Node type not supported.
+                    yield _mo.Couplet(_mo.Atom(key), _process_value(value), direct_load=True)
 
     def _import_json(json_file):
         import json
-- 
2.43.0


From 889f3d31ec2efe85bd0201e9bd6871451ca4d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 52/52] fix: JSON encoding of complex numbers keeps all digits
 (str of a complex number is shortened on PyPy)

---
 algebraixlib/import_export/mojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index c43b9b5..824a904 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -36,7 +36,7 @@ def encode(obj):
     if isinstance(obj, bytes):
         return {'__cls__': 'builtin.bytes', '__val__': [elem for elem in obj]}
     if isinstance(obj, complex):
-        return {'__cls__': 'builtin.complex', '__val__': str(obj)}
+        return {'__cls__': 'builtin.complex', '__val__': repr(obj)}
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-- 
2.43.0

