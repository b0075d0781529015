From d1bee3aa910e04aa7d8a5a1afb6a6d86f7c44fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 01/24] fix: quote label column names when updating index and
 location records

---
 src/toron/dal1/repositories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..bf36547 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,7 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +226,7 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 70d4afc782fc1eb088b7a50f5ac185734aad347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 02/24] fix: allow dropping a weight group when no default
 group is set

---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..8df1509 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1209,7 +1209,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_id = None  # No default weight group is set.
+
+            if group.id == default_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From df4ec64f9e868f5440087ad16f379adf588a3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 03/24] fix: select unmatched quantities without a header row

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 8df1509..480ba48 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2635,9 +2635,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2714,9 +2715,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 55408aca63821b8024f6002adf0cdb45e6184a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 04/24] fix: bind to a new file given by a relative path

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 480ba48..10b4802 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3074,7 +3074,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From df1e26920d3f572b312f58e0c40ce4a2de4f5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 05/24] fix: accept empty input in wide_to_long()

---
 src/toron/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index db8f83b..0788970 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -775,7 +775,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
          {'A': 'z', 'variable': 'D', 'value': 90}]
     """
     data = iter(data)
-    first_item = next(data)
+    try:
+        first_item = next(data)
+    except StopIteration:
+        return  # <- EXIT! (no records)
 
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
-- 
2.43.0


From d4e78cb11b4d16d5f488f9a6a225be058b0a4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 06/24] fix: find attribute groups when no criteria are given

---
 src/toron/dal1/repositories.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index bf36547..f0f8274 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -624,6 +624,9 @@ class AttributeGroupRepository(BaseAttributeGroupRepository):
             if any(key and not key.isalnum() for key in criteria.keys()):
                 return super().find_by_criteria(**criteria)
 
+            if not criteria:
+                return self.find_all()  # <- EXIT! (no criteria to match)
+
             # Format keys as SQLite JSON "PATH arguments". See SQLite's JSON
             # docs for details <https://sqlite.org/json1.html#path_arguments>.
             formatted_items = [(f'$.{k}', v) for k, v in criteria.items()]
-- 
2.43.0


From 29dc02aa0dbbd1191b05e1ac25bc63b86cd52fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 07/24] fix: do not treat an index record as conflicting with
 itself on update

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 10b4802..b1f8d8e 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -938,7 +938,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From 2bd9687f9e346bf715e89caf1781a0df609146c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 08/24] fix: refresh granularity when insert_index() replaces
 labels

---
 src/toron/space.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index b1f8d8e..9899e68 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,6 +759,15 @@ class DataSpace(object):
                     if link.is_locally_complete:
                         link_repo.update(replace(link, is_locally_complete=False))
 
+            elif counter['label_replaced']:
+                refresh_structure_granularity(
+                    label_manager=self._dal.LabelManager(cursor),
+                    structure_repo=self._dal.StructureRepository(cursor),
+                    index_repo=index_repo,
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From e83315808d7cfe04362423a74aa9d68ce257f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 09/24] fix: run reify_mappings() in a transaction

---
 src/toron/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 9899e68..a920cc0 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2256,7 +2256,8 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
-- 
2.43.0


From 9a1595dae87981e75692472d11f54bafd8563339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 10/24] fix: run delete_unmatched_quantities() in a transaction

---
 src/toron/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index a920cc0..1cc9a11 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2747,7 +2747,8 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur4):
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 20322e33eea644033171cab4dde9a41c950980b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 11/24] fix: keep label display order when label columns are
 renamed

---
 src/toron/data_service.py | 14 ++++++++++++++
 src/toron/space.py        |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..749a71b 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1108,6 +1108,20 @@ def get_labels_in_display_order(
     return display_order
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Apply new label names to the specified display order."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (no order specified)
+
+    renamed: JsonTypes = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', renamed)
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index 1cc9a11..dd6f72c 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,7 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    rename_labels_in_display_order,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -444,6 +445,10 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(
+                mapping={old_label: new_label},
+                property_repo=property_repo,
+            )
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,6 +554,10 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(
+                mapping=mapping,
+                property_repo=property_repo,
+            )
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
-- 
2.43.0


From 3b44dfc45870694dc72e2cfccaf1721328baa6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 12/24] fix: update partitions and display order when label
 columns are dropped

---
 src/toron/space.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index dd6f72c..b2e83f0 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -25,6 +25,7 @@ from toron._typing import (
     Set,
     Tuple,
     Union,
+    cast,
     overload,
 )
 
@@ -560,7 +561,9 @@ class DataSpace(object):
             )
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             label_manager = self._dal.LabelManager(cursor)
 
             all_reserved_identifiers = \
@@ -579,8 +582,44 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Remove structure records (dropping columns could make some
+            # of them identical).
+            structure_repo = self._dal.StructureRepository(cursor)
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             label_manager.drop_columns(column, *columns)
 
+            # Update partition definitions and display order.
+            property_repo = self._dal.PropertyRepository(cursor)
+            label_columns = label_manager.get_columns()
+            whole_space = set(label_columns)
+            definitions = [
+                x.intersection(whole_space)
+                for x in get_all_partition_definitions(property_repo)
+            ]
+            definition_sets = find_minimal_partition_generating_set(
+                definitions, [whole_space]
+            )
+            definition_lists: JsonTypes = [list(x) for x in definition_sets]
+            property_repo.add_or_update('partition_definitions', definition_lists)
+
+            try:
+                display_order = cast(List[str], property_repo.get('label_display_order'))
+                display_order = [x for x in display_order if x in whole_space]
+                property_repo.update('label_display_order', display_order)
+            except KeyError:
+                pass  # No display order specified.
+
+            rebuild_structure_table(
+                label_manager=label_manager,
+                property_repo=property_repo,
+                structure_repo=structure_repo,
+                index_repo=self._dal.IndexRepository(cursor),
+                aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                optimizations=self._dal.optimizations,
+            )
+
     def insert_index(
         self,
         data: Union[Iterable[Sequence], Iterable[Dict]],
-- 
2.43.0


From df3175241aaaa3a80359beb966bd59b6fa5417ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 13/24] fix: treat out-of-range numbers as invalid index codes

---
 src/toron/cli/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..a6c173b 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -12,7 +12,7 @@ from collections import Counter
 from contextlib import contextmanager
 from dataclasses import astuple, dataclass
 from enum import IntEnum
-from struct import Struct
+from struct import Struct, error as StructError
 from .. import bind_file, ToronError
 from .._typing import (
     Any,
@@ -337,8 +337,13 @@ def index_code_to_id(
     except ValueError:
         raise ValueError(f'badly formatted index code: {index_code}')
 
+    try:
+        packed_id = pack_i64_be(index_id)
+    except StructError:  # Too large to be an index_id.
+        raise ValueError(f'badly formatted index code: {index_code}')
+
     # Using crc32 to verify IDs and distinguish datasets; not for security.
-    if checksum != crc32(pack_i64_be(index_id) + unique_id_bytes) & 0xffffffff:
+    if checksum != crc32(packed_id + unique_id_bytes) & 0xffffffff:
         raise ValueError(f'checksum mismatch for index code: {index_code}')
 
     return index_id
-- 
2.43.0


From 9f02eee9d3643ab2e78f8908161faa3064916274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 14/24] fix: accept unquoted identifiers as selector values

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..1d51be7 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -500,6 +500,8 @@ class SelectorTransformer(Transformer):
         if s.startswith("'") and s.endswith("'"):
             return s[1:-1].replace("\\'", "'")
 
+        return s  # Unquoted identifier.
+
     def ignore_case(self, args):
         return True
 
-- 
2.43.0


From cc11b8f6659ebc93ff0c8402627f800367e67c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 15/24] fix: preserve backslashes and newlines when selectors
 are printed and parsed

---
 src/toron/selectors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 1d51be7..8beb075 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -1,5 +1,6 @@
 """Handling for attribute selectors (using CSS-inspired syntax)."""
 
+import re
 from abc import ABC, abstractmethod
 from itertools import groupby
 from json import loads, JSONDecodeError
@@ -221,7 +222,7 @@ class SimpleSelector(SelectorBase):
         if not self._val:
             return f'[{self._attr}]'
 
-        value = self._val.replace(r'"', r'\"')
+        value = self._val.replace('\\', r'\\').replace('"', r'\"')
         if self._ignore_case:
             return f'[{self._attr}{self._op}"{value}" i]'
         return f'[{self._attr}{self._op}"{value}"]'
@@ -456,7 +457,7 @@ selector_grammar = r"""
     // Adapted from "lark/grammars/common.lark" for single- and double-quoted
     // escaped strings.
     //
-    _STRING_INNER : /.*?/
+    _STRING_INNER : /.*?/s
     _STRING_ESC_INNER : _STRING_INNER /(?<!\\)(\\\\)*?/
     DOUBLE_QUOTED_STRING : "\"" _STRING_ESC_INNER "\""
     SINGLE_QUOTED_STRING : "'" _STRING_ESC_INNER "'"
@@ -495,10 +496,10 @@ class SelectorTransformer(Transformer):
     def value(self, token):
         s = token.value
         if s.startswith('"') and s.endswith('"'):
-            return s[1:-1].replace('\\"', '"')
+            return re.sub(r'\\(["\\])', r'\1', s[1:-1])
 
         if s.startswith("'") and s.endswith("'"):
-            return s[1:-1].replace("\\'", "'")
+            return re.sub(r"\\(['\\])", r'\1', s[1:-1])
 
         return s  # Unquoted identifier.
 
-- 
2.43.0


From 2ec882f846eee3926628ad44dc20f233a2b109ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 16/24] fix: count the undefined record as a match for
 locations

Locations that matched only the undefined record (index_id 0) were
reported as matching no index record, so their quantities were removed
by delete_unmatched_quantities() although reading the data space counts
them.
---
 src/toron/data_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 749a71b..8f49e3e 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -179,7 +179,7 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        if not any(True for _ in aux_index_repo.filter_index_ids_by_label(criteria)):
             yield location
 
 
@@ -212,7 +212,7 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            if not any(True for _ in aux_index_repo.filter_index_ids_by_label(criteria)):
                 yield location
 
 
@@ -240,7 +240,7 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        nonmatching_index = not any(True for _ in aux_index_repo.filter_index_ids_by_label(criteria))
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From 8fda7a6b94273328b77a6048ab7cfca068f2edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 17/24] fix: merge mappings whose proportions add up to just
 above 1.0

Summing the proportions of merged mappings can give a value like
1.0000000000000002 because of floating point rounding. This violated
the CHECK constraint and made update_index(..., merge_on_conflict=True)
fail.
---
 src/toron/data_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..a6c4b24 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,8 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    # Proportions can't exceed 1.0 (limit rounding error).
+                    proportion = min(p + rel.proportion, 1.0)
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From ed3ae13d2e2bfdd67fac58914bb9a9f128943a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 18/24] fix: accept a one-shot iterator of columns in
 wide_to_long()

---
 src/toron/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 0788970..37a42f1 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -783,6 +783,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
         cols_to_stack = [cols_to_stack]
+    else:
+        cols_to_stack = list(cols_to_stack)  # Can be a one-shot iterator.
 
     if isinstance(first_item, Sequence):
         header = tuple(first_item)
-- 
2.43.0


From dab5389b842f567eb6a2367c1122b0694b15c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 19/24] fix: remove the temporary file when saving is
 interrupted

---
 src/toron/dal1/data_connector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..9d616d9 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -6,7 +6,7 @@ import sqlite3
 import sys
 import urllib
 import weakref
-from contextlib import closing
+from contextlib import closing, suppress
 from tempfile import NamedTemporaryFile
 
 from toron._typing import (
@@ -458,8 +458,9 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:  # Also clean up when interrupted.
+            with suppress(FileNotFoundError):  # File may already be replaced.
+                os.unlink(tmp_path)  # Remove temporary file.
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From c609a1395fe999b1f052ef33383369fb4e64e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 20/24] fix: refuse files with an unsupported schema version

---
 src/toron/dal1/migrations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index f844da6..d56c38f 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -250,6 +250,12 @@ def apply_migrations(
             'mode to update schema.'
         )
 
+    # Refuse schema versions for which there are no migrations.
+    if toron_schema_version not in {'0.2.0', '"0.2.0"', '0.3.0', '"0.3.0"'}:
+        raise RuntimeError(
+            f'unsupported schema version: {toron_schema_version!r}'
+        )
+
     # Get "whole space" mapping level as bytes (to replace any NULLs in relation).
     cursor.execute("PRAGMA main.table_info('node_index')")
     whole_space_len = len(cursor.fetchall()) - 1  # Minus one because index_id not counted.
-- 
2.43.0


From 6bf77069552d93da7f8f452b10812e4fb1204777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 21/24] fix: enforce foreign keys for dataspaces read from or
 bound to files

---
 src/toron/dal1/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..c535c26 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -805,6 +805,9 @@ def create_functions_and_temporary_triggers(
 ) -> None:
     """Create SQL functions and temporary triggers for Toron schema.
 
+    Also turns on foreign key enforcement, which SQLite disables by
+    default for every new connection.
+
     .. important::
 
         This function should only be called with a *connection* to a
@@ -818,6 +821,7 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        cur.execute('PRAGMA foreign_keys = ON')
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From 6e9516d3c6db6d60ca256373036b7d3588f0bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:09 +0000
Subject: [PATCH 22/24] fix: do not continue after a failed property insert

---
 src/toron/data_service.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 8f49e3e..93c93c4 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -117,10 +117,7 @@ def refresh_index_hash_property(
         sequence_hash.add_value(index_id)
 
     index_hash = sequence_hash.get_hexdigest()
-    try:
-        prop_repo.add('index_hash', index_hash)
-    except Exception:
-        prop_repo.update('index_hash', index_hash)
+    prop_repo.add_or_update('index_hash', index_hash)
 
 
 def delete_index_record(
@@ -845,10 +842,7 @@ def add_partition_definitions(
         warnings.warn(msg, category=ToronWarning, stacklevel=2)
 
     definition_lists = cast(JsonTypes, [list(cat) for cat in definition_sets])
-    try:
-        property_repo.add('partition_definitions', definition_lists)
-    except Exception:
-        property_repo.update('partition_definitions', definition_lists)
+    property_repo.add_or_update('partition_definitions', definition_lists)
 
 
 def add_partition_definition(
-- 
2.43.0


From 86fbef938a320510fa0dbaec3cd3b63cf0b8473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:37 +0000
Subject: [PATCH 23/24] fix: do not resolve conflicts after a rolled back
 quantity insert

---
 src/toron/space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index b2e83f0..03fd48a 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2457,7 +2457,11 @@ class DataSpace(object):
                     )
                     counter['inserted'] += 1
                 except Exception as err:  # <- Use `Exception` because different
-                    try:                  #    backends could raise different types.
+                                          #    backends could raise different types.
+                    if not self._connector.transaction_is_active(cur):
+                        raise  # Backend has already rolled back everything.
+
+                    try:
                         quantity = quantity_repo.get_by_location_id_and_attribute_group_id(
                             location_id=location.id,
                             attribute_group_id=attribute_group.id,
-- 
2.43.0


From 6880b4528f9583413d62b149edb34e95e7d9fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:30 +0000
Subject: [PATCH 24/24] fix: refuse stacking into a column that is already
 present

---
 src/toron/_utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 37a42f1..090d9a1 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -795,6 +795,13 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
 
         cols_to_keep = tuple(x for x in header if x not in cols_to_stack)
 
+        for name in (var_name, val_name):
+            if name in cols_to_keep:
+                raise ValueError(
+                    f'must provide alternate name, column already '
+                    f'present in data: {name!r}'
+                )
+
         # Yield header with variable and value columns.
         yield cols_to_keep + (var_name, val_name)
 
@@ -814,6 +821,13 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
 
         cols_to_keep = tuple(x for x in first_item if x not in cols_to_stack)
 
+        for name in (var_name, val_name):
+            if name in cols_to_keep:
+                raise ValueError(
+                    f'must provide alternate name, column already '
+                    f'present in data: {name!r}'
+                )
+
         # Yield dictionary rows with stacked values.
         for row_dict in data:
             items_to_keep = {x: row_dict.get(x) for x in cols_to_keep}
-- 
2.43.0

