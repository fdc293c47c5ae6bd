From 15abf316eb69c8ce2278a72f0dfa52e943144d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 01/64] fix: enforce foreign keys on every connection

---
 src/toron/dal1/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..7fe943e 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,10 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        # Foreign key enforcement is a connection-level setting (it is
+        # not saved in the database itself) and is off by default.
+        cur.execute('PRAGMA foreign_keys = ON')
+
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From a5dc2e4ad3cf2005249818a48dcd6efb7647a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 02/64] fix: quote label columns when updating index and
 location records

---
 src/toron/dal1/repositories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..bf36547 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,7 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +226,7 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 15d74440fbbc03f8c1138d521d6de98e76eb1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 03/64] fix: list unplaced quantities when called with
 header=False

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..b858537 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2630,9 +2630,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2709,9 +2710,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From b53d6c8ad380bda8b3bbcb3ba3c4918e33eb4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 04/64] fix: do not treat locations matching the undefined
 record as unmatched

---
 src/toron/data_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..9f380d2 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -179,7 +179,7 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
             yield location
 
 
@@ -212,7 +212,7 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
                 yield location
 
 
@@ -240,7 +240,7 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        nonmatching_index = next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From a75b4b49d717921b18c5d3c6a4b8ac0cde4d006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 05/64] fix: delete unmatched quantities in a single
 transaction

---
 src/toron/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index b858537..b8f1ef3 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2732,7 +2732,8 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 2bb593c3f7f14938c835d2b6934c724c4a8bf37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 06/64] fix: reify mappings in a single transaction

---
 src/toron/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index b8f1ef3..51cf45f 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2242,7 +2242,8 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
-- 
2.43.0


From e190b7643bd2d9b6b63b473a606e95a6486984d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 07/64] fix: bind new files given by a bare relative name

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 51cf45f..025d870 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3071,7 +3071,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From 998eea5f385f1a04862ef3fc1fdce9e16bcd9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 08/64] fix: clean up the temporary file of an interrupted or
 late-failing save

---
 src/toron/dal1/data_connector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..0dbf052 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -6,7 +6,7 @@ import sqlite3
 import sys
 import urllib
 import weakref
-from contextlib import closing
+from contextlib import closing, suppress
 from tempfile import NamedTemporaryFile
 
 from toron._typing import (
@@ -458,8 +458,9 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:
+            with suppress(FileNotFoundError):  # <- Already moved to dst_path.
+                os.unlink(tmp_path)  # Remove temporary file.
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From 2fc9c52f6af738d088528a0d56f8b1a196456c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 09/64] fix: refresh granularity after replacing labels in
 insert_index()

---
 src/toron/space.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 025d870..f81be70 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,6 +759,15 @@ class DataSpace(object):
                     if link.is_locally_complete:
                         link_repo.update(replace(link, is_locally_complete=False))
 
+            elif counter['label_replaced']:
+                refresh_structure_granularity(
+                    label_manager=self._dal.LabelManager(cursor),
+                    structure_repo=self._dal.StructureRepository(cursor),
+                    index_repo=index_repo,
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From 41670db84b15a2fc9e20f116955691a84c3eb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 10/64] fix: refuse infinite weights in insert_index()

---
 src/toron/space.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index f81be70..ffd7198 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -707,6 +707,11 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    if isnan(weight_value) or isinf(weight_value):
+                        raise ValueError(
+                            f'weight must be a real number, got {weight_value!r}'
+                        )
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From d9cb1760be6a590ae900392a8ba570d317ab8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 11/64] fix: let update_index() keep a record's own labels

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index ffd7198..0279cb2 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -952,7 +952,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From 2bd83d37f6206a58cf165a71be9d382a6d4d4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 12/64] fix: keep merged proportions within 1.0

---
 src/toron/data_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..8024517 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,7 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    proportion = min(p + rel.proportion, 1.0)  # Limit rounding error.
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From 4f5990319e4162fe7ce4ae0e7e3ad7510cac9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 13/64] fix: refuse non-real weights in update_weights()

---
 src/toron/space.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 0279cb2..5290e2d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1445,12 +1445,18 @@ class DataSpace(object):
                     counter['mismatch'] += 1
                     continue  # <- Skip to next item.
 
+                weight_value = float(row_dict[value_column])
+                if isnan(weight_value) or isinf(weight_value):
+                    raise ValueError(
+                        f'weight must be a real number, got {weight_value!r}'
+                    )
+
                 try:
                     # Update weight record if it exists.
                     weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                         weight_group_id, index_id
                     )
-                    weight_record.value = row_dict[value_column]
+                    weight_record.value = weight_value
                     weight_repo.update(weight_record)
                     counter['updated'] += 1
                 except KeyError:
@@ -1458,7 +1464,7 @@ class DataSpace(object):
                     weight_repo.add(
                         weight_group_id=weight_group_id,
                         index_id=index_id,
-                        value=row_dict[value_column],
+                        value=weight_value,
                     )
                     counter['inserted'] += 1
 
-- 
2.43.0


From e12cf45a794d6d6b79ec8c0d1d43a1d583239d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 14/64] fix: keep display order in step when label columns are
 renamed or dropped

---
 src/toron/dal1/label_manager.py |  2 ++
 src/toron/data_service.py       | 20 +++++++++++++++++++-
 src/toron/space.py              |  3 +++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..9720702 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_labels_in_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -210,6 +211,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 9f380d2..42cf406 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1099,8 +1099,12 @@ def get_labels_in_display_order(
     except KeyError:
         display_order = []
 
-    # Get any unspecified labels in storage order.
     storage_order = index_repo.get_label_names()
+
+    # Omit any labels that have been dropped.
+    display_order = [x for x in display_order if x in storage_order]
+
+    # Get any unspecified labels in storage order.
     unspecified_labels = [x for x in storage_order if x not in display_order]
 
     if unspecified_labels:
@@ -1108,6 +1112,20 @@ def get_labels_in_display_order(
     return display_order
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Rename labels in the specified display order (if there is one)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (no display order specified)
+
+    display_order = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', cast(JsonTypes, display_order))
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index 5290e2d..cffc2df 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -73,6 +73,7 @@ from .data_service import (
     get_registered_attributes,
     set_labels_in_display_order,
     get_labels_in_display_order,
+    rename_labels_in_display_order,
     change_element_order,
     get_dataspace_info_text,
 )
@@ -444,6 +445,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,6 +551,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
-- 
2.43.0


From a1a0dc6909e699bedc92eb7deb253e97f22071c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 15/64] fix: accept unquoted identifiers as selector values

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..50cfaa8 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -500,6 +500,8 @@ class SelectorTransformer(Transformer):
         if s.startswith("'") and s.endswith("'"):
             return s[1:-1].replace("\\'", "'")
 
+        return s  # Return unquoted identifiers as-is.
+
     def ignore_case(self, args):
         return True
 
-- 
2.43.0


From fa927e43ac5b7f28fffb3ff96cfcc952ee4624bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 16/64] fix: escape backslashes in selector text

---
 src/toron/selectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 50cfaa8..513f94d 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -1,5 +1,6 @@
 """Handling for attribute selectors (using CSS-inspired syntax)."""
 
+import re
 from abc import ABC, abstractmethod
 from itertools import groupby
 from json import loads, JSONDecodeError
@@ -221,7 +222,7 @@ class SimpleSelector(SelectorBase):
         if not self._val:
             return f'[{self._attr}]'
 
-        value = self._val.replace(r'"', r'\"')
+        value = self._val.replace('\\', r'\\').replace(r'"', r'\"')
         if self._ignore_case:
             return f'[{self._attr}{self._op}"{value}" i]'
         return f'[{self._attr}{self._op}"{value}"]'
@@ -495,10 +496,10 @@ class SelectorTransformer(Transformer):
     def value(self, token):
         s = token.value
         if s.startswith('"') and s.endswith('"'):
-            return s[1:-1].replace('\\"', '"')
+            return re.sub(r'\\([\\"])', r'\1', s[1:-1])
 
         if s.startswith("'") and s.endswith("'"):
-            return s[1:-1].replace("\\'", "'")
+            return re.sub(r"\\([\\'])", r'\1', s[1:-1])
 
         return s  # Return unquoted identifiers as-is.
 
-- 
2.43.0


From a32216517c3beedc3723ca2f2541385bb731da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 17/64] fix: do not translate through out-of-date links matched
 by selector

---
 src/toron/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..ede7275 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -658,7 +658,12 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
-        links = [x for x in links if x.is_locally_complete and x.selectors]
+        # (links made for an out-of-date index can not be used).
+        links = [
+            x for x in links if x.is_locally_complete
+                                and x.selectors
+                                and x.other_index_hash == quantity_iterator.index_hash
+        ]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
 
-- 
2.43.0


From b1957a122d551253fbd55ab1fcfa1bd6d219b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 18/64] fix: prefer defined records when placing finest-level
 quantities

---
 src/toron/space.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index cffc2df..3d873f1 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2845,10 +2845,11 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
+                        # only be one matching index record (in addition to
+                        # the undefined record whose id is always 0).
                         try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
-                        except StopIteration:
+                            index_id = max(index_repo.filter_index_ids_by_label(criteria))
+                        except ValueError:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
                             raise RuntimeError(msg)
-- 
2.43.0


From 67f674a5ec6957fdae9661850c85fb94c4136349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 19/64] fix: let dropped readers be collected and remove their
 files

---
 src/toron/reader.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..a99219b 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -137,8 +137,13 @@ class NodeReader(object):
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object).
-        self.close = weakref.finalize(self, self._finalizer)
+        # Assign `close()` method (gets a callable finalizer object). The
+        # finalizer must not hold a reference to the reader itself (or the
+        # reader would be kept alive until the interpreter exits).
+        self._data_ref: List[weakref.ref] = []  # <- Set when iteration begins.
+        self.close = weakref.finalize(
+            self, self._finalizer, self._data_ref, connection, filepath
+        )
 
     @staticmethod
     def _get_attr_data_id_add_if_missing(
@@ -157,17 +162,24 @@ class NodeReader(object):
         cur.execute(sql, parameters)
         return cast(int, cur.lastrowid)  # Cast because we know it exists (just inserted).
 
-    def _finalizer(self) -> None:
+    @staticmethod
+    def _finalizer(
+        data_ref: List[weakref.ref],
+        in_memory_connection: Optional[sqlite3.Connection],
+        current_working_path: Optional[str],
+    ) -> None:
         """Close `_data` generator and remove temporary database file."""
-        if self._data:
-            self._data.close()
+        for ref in data_ref:
+            data = ref()
+            if data is not None:
+                data.close()
 
-        if self._in_memory_connection:
-            self._in_memory_connection.close()
+        if in_memory_connection:
+            in_memory_connection.close()
 
-        if self._current_working_path:
+        if current_working_path:
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(current_working_path)
 
     @property
     def index_columns(self) -> List[str]:
@@ -210,6 +222,7 @@ class NodeReader(object):
             return next(self._data)  # type: ignore [arg-type]
         except TypeError:
             self._data = self._generate_reader_output()
+            self._data_ref[:] = [weakref.ref(self._data)]
             return next(self._data)
 
     @contextmanager
-- 
2.43.0


From 187ff9ef4c0d2489a9029289f486e3293320ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 20/64] fix: leave no temporary files behind failed or closed
 readers

---
 src/toron/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index a99219b..c829685 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -125,8 +125,11 @@ class NodeReader(object):
                     cur.execute(sql, (index_id, attr_data_id, quant_value))
 
                 con.commit()
-            except Exception:
+            except BaseException:
                 con.rollback()
+                con.close()
+                if filepath:
+                    os.unlink(filepath)
                 raise
 
         # Assign instance attributes.
@@ -239,6 +242,9 @@ class NodeReader(object):
                 '_in_memory_connection, but not both'
             )
 
+        if not self.close.alive:
+            raise RuntimeError('unable to establish connection, reader is closed')
+
         if on_drive_path:
             connection = sqlite3.connect(on_drive_path)
             connection.execute('PRAGMA main.synchronous = OFF')
-- 
2.43.0


From 93c397b59534547314715f0807d7ac85a028e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 21/64] fix: keep partitions and mapping levels in step when
 label columns are dropped

---
 src/toron/space.py | 53 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 3d873f1..c5877a6 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -554,8 +554,13 @@ class DataSpace(object):
             rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             label_manager = self._dal.LabelManager(cursor)
+            property_repo = self._dal.PropertyRepository(cursor)
+            structure_repo = self._dal.StructureRepository(cursor)
+            mapping_repo = self._dal.MappingRepository(cursor)
 
             all_reserved_identifiers = \
                 self._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
@@ -573,7 +578,53 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Clear structure first (its records might not be distinct once
+            # the columns have been dropped), it's rebuilt below.
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
+            old_columns = label_manager.get_columns()
             label_manager.drop_columns(column, *columns)
+            new_columns = label_manager.get_columns()
+
+            # Remove dropped columns from partition definitions.
+            definition_sets = find_minimal_partition_generating_set(
+                (x.intersection(new_columns)
+                    for x in get_all_partition_definitions(property_repo)),
+                [set(new_columns)],
+            )
+            definition_lists: JsonTypes = [list(x) for x in definition_sets]
+            property_repo.add_or_update('partition_definitions', definition_lists)
+
+            rebuild_structure_table(
+                label_manager=label_manager,
+                property_repo=property_repo,
+                structure_repo=structure_repo,
+                index_repo=self._dal.IndexRepository(cursor),
+                aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                optimizations=self._dal.optimizations,
+            )
+
+            # Remove dropped columns from mapping levels.
+            kept_columns = [(x in new_columns) for x in old_columns]
+            changed_mappings = []
+            for link in self._dal.LinkRepository(cursor).get_all():
+                for mapping in tuple(mapping_repo.find(link_id=link.id)):
+                    bits = BitFlags(mapping.mapping_level)
+                    new_level = bytes(BitFlags(compress(bits, kept_columns)))
+                    if new_level != mapping.mapping_level:
+                        mapping_repo.delete(mapping.id)
+                        changed_mappings.append((mapping, new_level))
+
+            for mapping, new_level in changed_mappings:
+                mapping_repo.add(
+                    link_id=mapping.link_id,
+                    other_index_id=mapping.other_index_id,
+                    index_id=mapping.index_id,
+                    mapping_level=new_level,
+                    value=mapping.value,
+                    proportion=mapping.proportion,
+                )
 
     def insert_index(
         self,
-- 
2.43.0


From a857878aadd2f76159e0497df083be321ce039a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 22/64] fix: allow dropping a weight group when no default is
 defined

---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index c5877a6..1a3eb12 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1277,7 +1277,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_id = None  # No default weight group is defined.
+
+            if group.id == default_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From f46550cb19b9101ad1f4b6486b4555694da12f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 23/64] fix: refuse infinite mapping values

---
 src/toron/dal1/repositories.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index bf36547..66c4c0a 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -4,6 +4,7 @@ import sqlite3
 from dataclasses import asdict
 from itertools import chain, repeat
 from json import dumps as json_dumps
+from math import isinf
 
 from toron._typing import (
     Any,
@@ -981,6 +982,19 @@ class MappingRepository(BaseMappingRepository):
         """Initialize a new repository instance."""
         self._cursor = cursor
 
+    @staticmethod
+    def _verify_finite(value: float) -> None:
+        """Raise an error if *value* is infinite (proportions could
+        not be calculated).
+        """
+        try:
+            is_infinite = isinf(float(value))
+        except (TypeError, ValueError):
+            return  # <- EXIT! (non-numeric values are rejected by the schema)
+
+        if is_infinite:
+            raise ValueError(f'mapping value must be finite, got {value!r}')
+
     if sqlite3.sqlite_version_info >= (3, 32, 0):
         def add(
             self,
@@ -1002,6 +1016,8 @@ class MappingRepository(BaseMappingRepository):
             if not isinstance(mapping_level, bytes):
                 raise TypeError(f'mapping_level must be bytes, got {mapping_level!r}')
 
+            self._verify_finite(value)
+
             sql = """
                 INSERT INTO main.mapping (
                     link_id,
@@ -1046,6 +1062,8 @@ class MappingRepository(BaseMappingRepository):
             if not isinstance(mapping_level, bytes):
                 raise TypeError(f'mapping_level must be bytes, got {mapping_level!r}')
 
+            self._verify_finite(value)
+
             sql = """
                 INSERT INTO main.mapping (
                     link_id,
@@ -1083,6 +1101,8 @@ class MappingRepository(BaseMappingRepository):
     if sqlite3.sqlite_version_info >= (3, 32, 0):
         def update(self, record: MappingRecord) -> None:
             """Update a record in the repository."""
+            self._verify_finite(record.value)
+
             sql = f"""
                 UPDATE main.mapping
                 SET link_id=?,
@@ -1109,6 +1129,8 @@ class MappingRepository(BaseMappingRepository):
         # and 'value' need to be converted *before* inserting or updating.
         def update(self, record: MappingRecord) -> None:
             """Update a record in the repository."""
+            self._verify_finite(record.value)
+
             sql = f"""
                 UPDATE main.mapping
                 SET link_id=?,
-- 
2.43.0


From aaf030f840115e79c7669e6cf4729dc7bf427859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 24/64] fix: match no records when criteria use unknown columns

---
 src/toron/dal1/repositories.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 66c4c0a..5afbdd4 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -140,6 +140,16 @@ class IndexRepository(BaseIndexRepository):
         self._cursor.execute(sql)
         return (row for row in self._cursor)
 
+    def _has_unknown_column(self, criteria: Dict[str, str]) -> bool:
+        """Return True if *criteria* uses a name that is not a column.
+
+        SQLite treats a double-quoted identifier that matches no column
+        as a string literal, so unknown names must not reach the query.
+        """
+        self._cursor.execute("PRAGMA main.table_info('label_index')")
+        column_names = {row[1].lower() for row in self._cursor.fetchall()}
+        return not column_names.issuperset(k.lower() for k in criteria.keys())
+
     def filter_by_label(
         self,
         criteria: Dict[str, str],
@@ -150,6 +160,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         Index objects are returned.
         """
+        if self._has_unknown_column(criteria):
+            return iter([])  # <- EXIT! (unknown columns match no records)
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
@@ -172,6 +185,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         'index_id' integers are returned.
         """
+        if self._has_unknown_column(criteria):
+            return iter([])  # <- EXIT! (unknown columns match no records)
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
-- 
2.43.0


From 4cab436ee0e2ab0499c9260c6a4292970ed733ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 25/64] fix: forget dropped label columns in the stored display
 order

---
 src/toron/data_service.py | 15 +++++++++++++++
 src/toron/space.py        |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 42cf406..57915b4 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1126,6 +1126,21 @@ def rename_labels_in_display_order(
     property_repo.update('label_display_order', cast(JsonTypes, display_order))
 
 
+def drop_labels_from_display_order(
+    labels: Iterable[str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Drop labels from the specified display order (if there is one)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (no display order specified)
+
+    dropped = set(labels)
+    display_order = [x for x in display_order if x not in dropped]
+    property_repo.update('label_display_order', cast(JsonTypes, display_order))
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index 1a3eb12..a53d17d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -74,6 +74,7 @@ from .data_service import (
     set_labels_in_display_order,
     get_labels_in_display_order,
     rename_labels_in_display_order,
+    drop_labels_from_display_order,
     change_element_order,
     get_dataspace_info_text,
 )
@@ -596,6 +597,8 @@ class DataSpace(object):
             definition_lists: JsonTypes = [list(x) for x in definition_sets]
             property_repo.add_or_update('partition_definitions', definition_lists)
 
+            drop_labels_from_display_order(chain([column], columns), property_repo)
+
             rebuild_structure_table(
                 label_manager=label_manager,
                 property_repo=property_repo,
-- 
2.43.0


From 059a0717765079ad85ca088fb4ec1c7a0fd0e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 26/64] fix: roll back transactions interrupted while starting

---
 src/toron/space.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index a53d17d..828746c 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -238,7 +238,14 @@ class DataSpace(object):
                 msg = 'cannot start a transaction within a transaction'
                 raise Exception(msg)
 
-            self._connector.transaction_begin(cursor)
+            try:
+                self._connector.transaction_begin(cursor)
+            except BaseException:
+                # If interrupted after starting, roll the transaction back.
+                if self._connector.transaction_is_active(cursor):
+                    self._connector.transaction_rollback(cursor)
+                raise
+
             try:
                 yield cursor
                 self._connector.transaction_commit(cursor)
-- 
2.43.0


From 79d8859ce2dcd1155cc3ae85e9195dfd64032267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 27/64] fix: do not retry failed property inserts outside of
 their transaction

---
 src/toron/data_service.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 57915b4..f346554 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -117,10 +117,7 @@ def refresh_index_hash_property(
         sequence_hash.add_value(index_id)
 
     index_hash = sequence_hash.get_hexdigest()
-    try:
-        prop_repo.add('index_hash', index_hash)
-    except Exception:
-        prop_repo.update('index_hash', index_hash)
+    prop_repo.add_or_update('index_hash', index_hash)
 
 
 def delete_index_record(
@@ -845,10 +842,7 @@ def add_partition_definitions(
         warnings.warn(msg, category=ToronWarning, stacklevel=2)
 
     definition_lists = cast(JsonTypes, [list(cat) for cat in definition_sets])
-    try:
-        property_repo.add('partition_definitions', definition_lists)
-    except Exception:
-        property_repo.update('partition_definitions', definition_lists)
+    property_repo.add_or_update('partition_definitions', definition_lists)
 
 
 def add_partition_definition(
-- 
2.43.0


From 500fbb06373b71a8144c29ed32b2d838e5d66acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 28/64] fix: check for existing quantities instead of retrying
 failed inserts

---
 src/toron/space.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 828746c..2710ac6 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2476,6 +2476,12 @@ class DataSpace(object):
                 attribute_group = attribute_repo.get_by_value_add_if_missing(attr_dict)
 
                 try:
+                    # Check for an existing quantity record.
+                    quantity = quantity_repo.get_by_location_id_and_attribute_group_id(
+                        location_id=location.id,
+                        attribute_group_id=attribute_group.id,
+                    )
+                except KeyError:
                     # Add new quantity record.
                     quantity_repo.add(
                         location_id=location.id,
@@ -2483,18 +2489,7 @@ class DataSpace(object):
                         value=row_dict[value_column],
                     )
                     counter['inserted'] += 1
-                except Exception as err:  # <- Use `Exception` because different
-                    try:                  #    backends could raise different types.
-                        quantity = quantity_repo.get_by_location_id_and_attribute_group_id(
-                            location_id=location.id,
-                            attribute_group_id=attribute_group.id,
-                        )
-                    except KeyError:
-                        # If we get a KeyError, then a duplicate quantity does
-                        # not exist. This means that the original error was for
-                        # some other reason.
-                        raise err  # Re-raise original error.
-
+                else:
                     if on_existing == 'abort':
                         raise ValueError(
                             'data contains quantities for locations and '
-- 
2.43.0


From 39349172b8518070cd7e78ed4be1432ba9047ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 29/64] fix: accept :is() selectors directly inside of :is()

---
 src/toron/selectors.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 513f94d..e1c34d5 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -289,6 +289,13 @@ class MatchesAnySelector(SelectorContainer):
             return selector_list[0]  # Return simple selector, if one item.
         return super().__new__(cls)
 
+    def __init__(self, selector_list):
+        """Initialize class instance."""
+        # When `__new__` returns an existing selector of this same class,
+        # it is already initialized (and must not come to contain itself).
+        if len(selector_list) != 1:
+            super().__init__(selector_list)
+
     def __call__(self, dict_row: Mapping[str, str]) -> bool:
         """Return True if selector matches values in *dict_row*."""
         for selector in self.selector_list:
@@ -369,6 +376,13 @@ class CompoundSelector(SelectorContainer):
             return selector_list[0]  # Return simple selector, if one item.
         return super().__new__(cls)
 
+    def __init__(self, selector_list):
+        """Initialize class instance."""
+        # When `__new__` returns an existing selector of this same class,
+        # it is already initialized (and must not come to contain itself).
+        if len(selector_list) != 1:
+            super().__init__(selector_list)
+
     def __call__(self, dict_row: Mapping[str, str]) -> bool:
         """Return True if selector matches values in *dict_row*."""
         return all(selector(dict_row) for selector in self.selector_list)
-- 
2.43.0


From acb2090cc83ca0343ee4fb38676395951d230737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:18 +0000
Subject: [PATCH 30/64] fix: keep total when quantized remainder reaches the
 number of items

---
 src/toron/_utils.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index db8f83b..fcb85e1 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -618,22 +618,29 @@ def quantize_values(
     sort_key = lambda x: (-abs(x[1]), splitmix64(x[0]))
     idx_frac_whole = sorted(idx_frac_whole, key=sort_key)
 
-    # Get remainder from sum total (assign as fractional and whole parts).
-    remainder_frac, remainder_whole = modf(sum_total - sum_of_whole_parts)
+    if not idx_frac_whole:
+        return  # <- EXIT! (Nothing to distribute to.)
+
+    # Get remainder from sum total. Because of rounding errors, the whole
+    # part of the remainder can reach the number of items, so one item is
+    # always left to receive the rest.
+    remainder = sum_total - sum_of_whole_parts
+    increments = min(abs(int(remainder)), len(idx_frac_whole) - 1)
 
     # Create a consumable iterator from the sorted list of items.
     iterator = iter(idx_frac_whole)
 
     # Yield items with the highest fractional parts (incrementing whole
     # values by one) for a number of items equal to the whole remainder.
-    increment = copysign(1.0, sum_total)  # Get increment of 1.0 or -1.0.
-    for index_id, _, whole_part in islice(iterator, abs(int(remainder_whole))):
+    increment = copysign(1.0, remainder)  # Get increment of 1.0 or -1.0.
+    for index_id, _, whole_part in islice(iterator, increments):
         yield (index_id, whole_part + increment)
+        remainder -= increment
 
-    # If there's a fractional remainder, distribute it to the next item.
-    if remainder_frac:
+    # If there's some remainder left, distribute it to the next item.
+    if remainder:
         index_id, _, whole_part = next(iterator)
-        yield (index_id, whole_part + remainder_frac)
+        yield (index_id, whole_part + remainder)
 
     # Yield remaining items without their fractional parts.
     for index_id, _, whole_part in iterator:
-- 
2.43.0


From 3449e917a2022f2feb4663dc7bde152caaf1053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 31/64] fix: sum weights exactly when disaggregating

---
 src/toron/data_service.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index f346554..350c6f8 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -3,7 +3,7 @@
 import logging
 from collections import Counter
 from itertools import chain, compress, groupby
-from math import log2
+from math import fsum, log2
 
 import toron._datetime as datetime
 from toron._typing import (
@@ -314,15 +314,17 @@ def disaggregate_value(
     # Assign shorter func name (also reduces dot lookups).
     get_weight = weight_repo.get_by_weight_group_id_and_index_id
 
-    # Get sum of weight values associated with index_ids.
-    group_weight = 0.0
+    # Get sum of weight values associated with index_ids (adds exactly, so
+    # that rounding errors don't grow with the number of records).
+    weight_values = []
     for index_id in index_ids:
         try:
             weight = get_weight(weight_group_id, index_id)
-            group_weight += weight.value
+            weight_values.append(weight.value)
         except KeyError:
             if index_id != 0:  # Re-raise if it's not the undefined record
                 raise          # or continue to the next record if it is.
+    group_weight = fsum(weight_values)
 
     # Yield disaggregated values for associated index records.
     if group_weight:
-- 
2.43.0


From 5564533b62b26d5df2a44058e185af36f854b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 32/64] fix: accept one-shot iterators of columns in
 wide_to_long()

---
 src/toron/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index fcb85e1..78feff7 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -787,6 +787,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
         cols_to_stack = [cols_to_stack]
+    else:
+        cols_to_stack = list(cols_to_stack)  # Could be a one-shot iterator.
 
     if isinstance(first_item, Sequence):
         header = tuple(first_item)
-- 
2.43.0


From f7be768b0dbe77349222cd0d4e5a04d2daa52f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 33/64] fix: accept empty data in wide_to_long()

---
 src/toron/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 78feff7..3192f69 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -782,7 +782,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
          {'A': 'z', 'variable': 'D', 'value': 90}]
     """
     data = iter(data)
-    first_item = next(data)
+    try:
+        first_item = next(data)
+    except StopIteration:
+        return  # <- EXIT! (Nothing to stack.)
 
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
-- 
2.43.0


From 28ea23e950c350caef32ccc5a85d052c0a6a7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:03 +0000
Subject: [PATCH 34/64] fix: refuse wide_to_long() names that collide with kept
 columns

---
 src/toron/_utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 3192f69..68cd68e 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -793,6 +793,15 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
     else:
         cols_to_stack = list(cols_to_stack)  # Could be a one-shot iterator.
 
+    def verify_new_names(cols_to_keep):  # <- Helper function.
+        if var_name == val_name:
+            raise ValueError(f'variable and value columns must differ, got {var_name!r}')
+        for name in (var_name, val_name):
+            if name in cols_to_keep:
+                raise ValueError(
+                    f'must provide alternate name: {name!r} already present in data'
+                )
+
     if isinstance(first_item, Sequence):
         header = tuple(first_item)
 
@@ -801,6 +810,7 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
             raise ValueError(f'columns missing from data: {", ".join(missing)}')
 
         cols_to_keep = tuple(x for x in header if x not in cols_to_stack)
+        verify_new_names(cols_to_keep)
 
         # Yield header with variable and value columns.
         yield cols_to_keep + (var_name, val_name)
@@ -820,6 +830,7 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
             raise ValueError(f'columns missing from data: {", ".join(missing)}')
 
         cols_to_keep = tuple(x for x in first_item if x not in cols_to_stack)
+        verify_new_names(cols_to_keep)
 
         # Yield dictionary rows with stacked values.
         for row_dict in data:
-- 
2.43.0


From a5dc9449386e6d0cddb69c9c86b12d32f10b9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 35/64] fix: keep cells of columns with equal names in
 wide_to_long()

---
 src/toron/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 68cd68e..b47c6d2 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -809,7 +809,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
             missing = [repr(x) for x in cols_to_stack if (x not in header)]
             raise ValueError(f'columns missing from data: {", ".join(missing)}')
 
-        cols_to_keep = tuple(x for x in header if x not in cols_to_stack)
+        keep_index = [i for i, x in enumerate(header) if x not in cols_to_stack]
+        cols_to_keep = tuple(header[i] for i in keep_index)
         verify_new_names(cols_to_keep)
 
         # Yield header with variable and value columns.
@@ -818,7 +819,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
         # Yield rows with stacked values.
         for row in data:
             row_dict = dict(zip_longest(header, row))
-            vals_to_keep = tuple(row_dict.get(x) for x in cols_to_keep)
+            row_len = len(row)
+            vals_to_keep = tuple((row[i] if i < row_len else None) for i in keep_index)
             for col in cols_to_stack:
                 yield vals_to_keep + (col, row_dict.get(col))
 
-- 
2.43.0


From 84879274310973cc9fea9c005cc7fa468632f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 36/64] fix: keep column names of csv.DictReader without rows

---
 src/toron/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index b47c6d2..26631d0 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -108,6 +108,8 @@ def normalize_tabular(data, columns=None):
     try:
         first_row = next(data_iter)
     except StopIteration:
+        if not columns and isinstance(data, csv.DictReader):
+            columns = data.fieldnames
         return data_iter, columns or tuple()
 
     if isinstance(first_row, Sequence):
-- 
2.43.0


From 34da3ce68d69e3eacc9b70b943cd3a49ad1607de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 37/64] fix: refuse equal variable and value names in
 wide_to_narrow()

---
 src/toron/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 26631d0..562219f 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -327,6 +327,10 @@ def wide_to_narrow(
          {'A': 'x', 'myvar': 'C', 'myval': 80},
          {'A': 'x', 'myvar': 'D', 'myval': 90}]
     """
+    if var_name == value_name:
+        msg = f'variable and value columns must differ, got {var_name!r}'
+        raise ValueError(msg)
+
     dict_rows = make_dictreaderlike(data)
 
     for input_row in dict_rows:
-- 
2.43.0


From 8016e8b34b8644e3a0dce5c619b6709d441461e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 38/64] fix: let pivots and iteration of one in-memory reader
 overlap

---
 src/toron/reader.py | 110 +++++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 63 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index c829685..dee101c 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -422,7 +422,7 @@ def pivot_reader(
     aggregate_function: Literal['sum', 'mean'] = 'sum',
 ) -> Generator[PivotedRowType, None, None]:
     """An experimental pivot implementation for ``NodeReader`` data."""
-    aggfuncs = {'sum': 'SUM', 'mean': 'AVG'}  # <- Values are SQLite functions.
+    aggfuncs = {'sum': sum, 'mean': lambda vals: sum(vals) / len(vals)}
     if aggregate_function not in aggfuncs.keys():
         msg = (
             f"invalid aggregate_function {aggregate_function!r}; must "
@@ -433,69 +433,53 @@ def pivot_reader(
     columns = list(columns)
 
     with reader._managed_connection() as con:
-        cur1 = con.cursor()
-        cur2 = con.cursor()
-        cur1.execute("""
-            CREATE TEMPORARY TABLE pivot_temp (
-                attr_data_id INTEGER NOT NULL,
-                pivot_attrs TEXT NOT NULL
-            )
+        # Build dict of attribute id values and pivot attributes (doesn't use
+        # a temporary table because the connection could be shared by other
+        # statements that are still active).
+        cur = con.execute('SELECT attr_data_id, attributes FROM main.attr_data')
+        pivot_dict: Dict[int, str] = {}
+        for attr_data_id, attributes in cur:
+            attrs_dict = loads(attributes)
+            pivot_attrs = [attrs_dict.get(x, '') for x in columns]
+
+            if not any(pivot_attrs):
+                continue  # Skip to next if pivot attrs are all empty.
+
+            pivot_dict[attr_data_id] = dumps(pivot_attrs)
+
+        # Get distinct list of columns.
+        pivoted_columns = sorted(set(pivot_dict.values()))
+
+        # Format and yield header row.
+        str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
+        yield list(reader._node.index_columns) + str_or_tuple_cols
+
+        # Get values to aggregate (must be sorted by `index_id`).
+        aggfunc = aggfuncs[aggregate_function]
+        cur.execute("""
+            SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
+            FROM main.quant_data
+            GROUP BY index_id, attr_data_id
+            ORDER BY index_id
         """)
-        try:
-            cur1.execute('SELECT attr_data_id, attributes FROM main.attr_data')
-            for attr_data_id, attributes in cur1:
-                attrs_dict = loads(attributes)
-                pivot_attrs = [attrs_dict.get(x, '') for x in columns]
-
-                if not any(pivot_attrs):
-                    continue  # Skip to next if pivot attrs are all empty.
-
-                cur2.execute(
-                    'INSERT INTO temp.pivot_temp VALUES (?, ?)',
-                    (attr_data_id, dumps(pivot_attrs)),
-                )
-
-            # Get distinct list of columns after populating table.
-            cur1.execute("""
-                SELECT DISTINCT pivot_attrs
-                FROM temp.pivot_temp
-                ORDER BY pivot_attrs
-            """)
-            pivoted_columns = [x[0] for x in cur1]  # Unwrap single item results.
-
-            # Format and yield header row.
-            str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
-            yield list(reader._node.index_columns) + str_or_tuple_cols
-
-            # Get aggregated values for pivot (must be sorted by `index_id`).
-            sql_aggfunc = aggfuncs[aggregate_function]
-            cur1.execute(f"""
-                SELECT index_id, pivot_attrs, {sql_aggfunc}(quant_value) AS quant_value
-                FROM (
-                    /* 'quant_data' must be summed before pivot aggregation */
-                    SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
-                    FROM main.quant_data
-                    GROUP BY index_id, attr_data_id
-                )
-                JOIN temp.pivot_temp USING (attr_data_id)
-                GROUP BY index_id, pivot_attrs
-                ORDER BY index_id
-            """)
-
-            # Yield pivoted data rows.
-            with reader._node._managed_cursor() as node_cur:
-                # Assign `get` method to local var and define helper-lambda.
-                get_index = reader._node._dal.IndexRepository(node_cur).get
-                get_labels = lambda x: list(get_index(x).labels)
-
-                # Group by pre-sorted `index_id` and make pivoted rows.
-                for index_id, group in groupby(cur1, key=lambda row: row[0]):
-                    row_dict = {row[1]: row[2] for row in group}
-                    float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
-                    yield get_labels(index_id) + float_or_none_vals
-
-        finally:
-            cur1.execute('DROP TABLE temp.pivot_temp')
+        pivot_rows = ((row[0], pivot_dict[row[1]], row[2])
+                      for row in cur if row[1] in pivot_dict)
+
+        # Yield pivoted data rows.
+        with reader._node._managed_cursor() as node_cur:
+            # Assign `get` method to local var and define helper-lambda.
+            get_index = reader._node._dal.IndexRepository(node_cur).get
+            get_labels = lambda x: list(get_index(x).labels)
+
+            # Group by pre-sorted `index_id` and make pivoted rows.
+            for index_id, group in groupby(pivot_rows, key=lambda row: row[0]):
+                vals_dict: Dict[str, List[float]] = {}
+                for _, col, quant_value in group:
+                    if quant_value is not None:
+                        vals_dict.setdefault(col, []).append(quant_value)
+                row_dict = {col: aggfunc(vals) for col, vals in vals_dict.items()}
+                float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
+                yield get_labels(index_id) + float_or_none_vals
 
 
 def pivot_reader_to_pandas(
-- 
2.43.0


From 6dc647a30fa8a1dee70f1f72406724aa5ac839e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 39/64] fix: convert pivoted columns named like an index column
 correctly

---
 src/toron/reader.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index dee101c..12f556b 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -502,11 +502,17 @@ def pivot_reader_to_pandas(
     pivoted_data = pivot_reader(reader, columns, aggregate_function)
     pivoted_columns = next(pivoted_data)
 
-    df = pd.DataFrame(pivoted_data, columns=pivoted_columns)
-    for col in reader.index_columns:  # Using loop for memory efficiency.
-        df[col] = df[col].astype('string')
+    # Use positions while converting because a pivoted column can have the
+    # same name as an index column.
+    index_positions = list(range(len(reader.index_columns)))
+    df = pd.DataFrame(pivoted_data, columns=range(len(pivoted_columns)))
+    for pos in index_positions:  # Using loop for memory efficiency.
+        df[pos] = df[pos].astype('string')
 
     if index:
-        df.set_index(reader.index_columns, inplace=True)
+        df.set_index(index_positions, inplace=True)
+        df.index.names = reader.index_columns
+        pivoted_columns = pivoted_columns[len(index_positions):]
 
+    df.columns = pd.Index(pivoted_columns, tupleize_cols=False)
     return df
-- 
2.43.0


From 9935b464045c1271cf8be3b89b11605fea381678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 40/64] fix: refuse mapping values that are not finite numbers,
 skip blank ones

---
 src/toron/mapper.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..c14da55 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -36,6 +36,7 @@ from ._utils import (
     normalize_tabular,
     parse_edge_shorthand,
     BitFlags,
+    ToronError,
 )
 
 if TYPE_CHECKING:
@@ -108,7 +109,11 @@ class Mapper(object):
                     node2_index_id INTEGER,
                     node2_location TEXT NOT NULL,
                     node2_level BLOB NOT NULL,
-                    mapping_value REAL CHECK (0.0 <= mapping_value)
+                    mapping_value REAL NOT NULL CHECK (
+                        TYPEOF(mapping_value) = 'real'
+                        AND 0.0 <= mapping_value
+                        AND mapping_value < 9e999
+                    )
                 );
                 CREATE TABLE node1_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_source(run_id),
@@ -135,6 +140,9 @@ class Mapper(object):
                 node1_index_id, node1_location, node1_bitflags, \
                 node2_index_id, node2_location, node2_bitflags, mapping_value = row
 
+                if mapping_value is None or mapping_value == '':
+                    continue  # Skip rows without a value (unmatched records).
+
                 node1_level = bytes(node1_bitflags)
                 node2_level = bytes(node2_bitflags)
 
@@ -162,7 +170,14 @@ class Mapper(object):
                     node2_level,
                     mapping_value,
                 )
-                cur.execute(sql, parameters)
+                try:
+                    cur.execute(sql, parameters)
+                except sqlite3.IntegrityError:
+                    raise ToronError(
+                        f'mapping value must be a finite, non-negative '
+                        f'number, got {mapping_value!r} for {node1_location!r} '
+                        f'and {node2_location!r}'
+                    )
 
     @staticmethod
     def _refresh_proportions(
@@ -476,7 +491,11 @@ class Mapper_OLD(object):
                     left_level BLOB_BITFLAGS NOT NULL,
                     right_location TEXT NOT NULL,
                     right_level BLOB_BITFLAGS NOT NULL,
-                    mapping_value REAL NOT NULL
+                    mapping_value REAL NOT NULL CHECK (
+                        TYPEOF(mapping_value) = 'real'
+                        AND 0.0 <= mapping_value
+                        AND mapping_value < 9e999
+                    )
                 );
                 CREATE TABLE left_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_data(run_id),
-- 
2.43.0


From 5f930cf0398977b816b5a5f34a7efda872b31033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 41/64] fix: do not match blank mapping labels to every record

---
 src/toron/mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index c14da55..c2d19d9 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -265,6 +265,10 @@ class Mapper(object):
                         # Find records by matching labels.
                         zipped = zip(node_label_cols, loads(location))
                         criteria = {k: v for k, v in zipped if v != ''}
+                        if not criteria:
+                            counter['no_label_match'] += 1
+                            continue  # Skip to next record.
+
                         all_matches = index_repo.filter_index_ids_by_label(criteria)
 
                         # Eagerly evaluate up to `match_limit` + 1 matches.
-- 
2.43.0


From db7e52bfd5080d75ab35f5743aeeeaf626a9804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 42/64] fix: accept the undefined record's zero weight when
 loading an exported index

---
 src/toron/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 2710ac6..af161a0 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -776,6 +776,9 @@ class DataSpace(object):
                             f'weight must be a real number, got {weight_value!r}'
                         )
 
+                    if index_id == 0 and weight_value == 0:
+                        continue  # Undefined record has no weight (same as zero).
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From 1fdf8b5e11486559f231feb65152812fe2c3d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 43/64] fix: treat codes with oversized numbers as badly
 formatted

---
 src/toron/cli/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..8ec004a 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -12,7 +12,7 @@ from collections import Counter
 from contextlib import contextmanager
 from dataclasses import astuple, dataclass
 from enum import IntEnum
-from struct import Struct
+from struct import Struct, error as struct_error
 from .. import bind_file, ToronError
 from .._typing import (
     Any,
@@ -338,7 +338,11 @@ def index_code_to_id(
         raise ValueError(f'badly formatted index code: {index_code}')
 
     # Using crc32 to verify IDs and distinguish datasets; not for security.
-    if checksum != crc32(pack_i64_be(index_id) + unique_id_bytes) & 0xffffffff:
+    try:
+        packed_id = pack_i64_be(index_id)
+    except struct_error:  # Number too large for an index_id.
+        raise ValueError(f'badly formatted index code: {index_code}')
+    if checksum != crc32(packed_id + unique_id_bytes) & 0xffffffff:
         raise ValueError(f'checksum mismatch for index code: {index_code}')
 
     return index_id
-- 
2.43.0


From 82345801b2738d23b6f293f8869540f1c0e337fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 44/64] fix: keep carriage returns inside of values when
 writing and reading CSV

---
 src/toron/cli/command_index.py    |  4 ++--
 src/toron/cli/command_mapping.py  |  4 ++--
 src/toron/cli/command_quantity.py |  4 ++--
 src/toron/cli/common.py           | 16 +++++++++++++++-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index 2d0ff6d..bd16c79 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -1,6 +1,5 @@
 """Implementation for "index" command."""
 import argparse
-import csv
 import logging
 import os
 import re
@@ -11,6 +10,7 @@ from .._typing import Iterator, List, TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -28,7 +28,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
     sample_rows = list(islice(reader, 10))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..4cda6b4 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -1,6 +1,5 @@
 """Implementation for "mapping" command."""
 import argparse
-import csv
 import logging
 import os
 import uuid
@@ -42,6 +41,7 @@ from .._utils import (
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     index_code_to_id,
     index_id_to_code,
@@ -392,7 +392,7 @@ def read_from_stdin(
 
     # Normalize and load mapping data.
     data = normalize_mapping_data(
-        node1, node2, args.link, csv.reader(args.stdin)
+        node1, node2, args.link, csv_stdin_reader(args.stdin)
     )
     mapper = Mapper(node1, node2, data)
 
diff --git a/src/toron/cli/command_quantity.py b/src/toron/cli/command_quantity.py
index e9e9723..4f09fab 100644
--- a/src/toron/cli/command_quantity.py
+++ b/src/toron/cli/command_quantity.py
@@ -1,6 +1,5 @@
 """Implementation for "quantity" command."""
 import argparse
-import csv
 import logging
 import os
 from .._typing import TYPE_CHECKING
@@ -8,6 +7,7 @@ from .._typing import TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -22,7 +22,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Load quantity records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
 
     try:
         node.insert_quantities2(
diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 8ec004a..1db0152 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -63,8 +63,15 @@ def csv_stdout_writer(
         newline='', # Disable universal newline translation.
         line_buffering=True, # Flush stream after every newline character.
     )
+
+    class LineWriter(object):
+        """Writes rows ending with '\\r\\n' using '\\n' instead."""
+        def write(self, line):
+            return stdout_wrapper.write(f'{line[:-2]}\n')
+
     try:
-        yield csv.writer(stdout_wrapper, lineterminator='\n')
+        # Using '\r\n' ensures that values containing '\r' are quoted.
+        yield csv.writer(LineWriter(), lineterminator='\r\n')
     finally:
         stdout_wrapper.flush()  # Ensure all output is written.
         try:
@@ -73,6 +80,13 @@ def csv_stdout_writer(
             pass
 
 
+def csv_stdin_reader(stdin: TextIO) -> '_csv._reader':
+    """Return a ``csv.reader()`` for the given *stdin* stream."""
+    if isinstance(stdin, io.TextIOWrapper):
+        stdin.reconfigure(newline='')  # Keep line endings inside of values.
+    return csv.reader(stdin)
+
+
 def cli_bind_file(
     filepath: str, *, mode: Literal['ro', 'rw', 'rwc']
 ) -> 'DataSpace':
-- 
2.43.0


From 6e7dfb40f45a4f01f584056632188c95e15a01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 45/64] fix: check both files before adding links in both
 directions

---
 src/toron/cli/command_add.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/toron/cli/command_add.py b/src/toron/cli/command_add.py
index 9bb4e3f..453134b 100644
--- a/src/toron/cli/command_add.py
+++ b/src/toron/cli/command_add.py
@@ -1,6 +1,7 @@
 """Implementation for "add" command."""
 import argparse
 import logging
+import os
 
 from .common import (
     cli_bind_file,
@@ -107,6 +108,17 @@ def add_link(args: argparse.Namespace) -> ExitCode:
     )
 
     if args.direction == 'both':
+        # Check both files before changing either one.
+        if os.path.samefile(args.filepath, args.filepath2):
+            raise ToronError('cannot add both directions when FILE1 and '
+                             'FILE2 are the same file')
+        for tail, head in ((node1, node2), (node2, node1)):
+            tail_id = tail.unique_id
+            if any(link.name == args.link and link.other_unique_id == tail_id
+                       for link in head.links):
+                raise ToronError(f'a link named {args.link!r} already exists '
+                                 f'between these two dataspaces')
+
         do_add(node1, node2, args)  # node1 -> node2
         do_add(node2, node1, args)  # node1 <- node2
     elif args.direction == 'right':
-- 
2.43.0


From 89f8d17cf8b742d534ff2f9e6b618cfa8cfa81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 46/64] fix: check for existing mappings before loading both
 directions

---
 src/toron/cli/command_mapping.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 4cda6b4..27f99b1 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -410,6 +410,22 @@ def read_from_stdin(
     if not args.allow_incomplete and not mapper.is_fully_matched():
         raise ToronError('mapping is incomplete, no records loaded')
 
+    # When loading both directions, check FILE1 before changing FILE2.
+    if args.direction == 'both':
+        left_link_id = cast(Link, left_link).id
+        with node1._managed_cursor() as cursor:
+            mapping_repo = node1._dal.MappingRepository(cursor)
+            for mapping in mapper.iter_mappings('node1'):
+                other_index_id, index_id, level, _ = mapping
+                existing = mapping_repo.find(
+                    link_id=left_link_id,
+                    other_index_id=other_index_id,
+                    index_id=index_id,
+                )
+                if any(x.mapping_level == level for x in existing):
+                    raise ToronError('FILE1 already contains some of these '
+                                     'mappings, no records loaded')
+
     # Insert mappings into FILE2.
     if args.direction in {'both', 'right'}:
         applogger.info(f'loading mappings: FILE1 -> FILE2')
-- 
2.43.0


From 865e594bcd563a7e534fb06fc1bdba39a66251b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 47/64] fix: apply all changes to a weight group in one
 transaction

---
 src/toron/cli/command_update.py | 46 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index 52cd2fa..e406f79 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -2,16 +2,14 @@
 import argparse
 import logging
 from dataclasses import replace
-from .._typing import cast, TYPE_CHECKING
+from .._typing import Any, Dict
 
 from .common import (
     cli_bind_file,
     process_backup_option,
     ExitCode,
 )
-
-if TYPE_CHECKING:
-    from toron.data_models import WeightGroup
+from ..data_service import set_default_weight_group
 
 
 applogger = logging.getLogger('app-toron')
@@ -44,36 +42,48 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
         applogger.error(f'no weight group named {args.weight!r}')
         return ExitCode.ERR
 
+    changes: Dict[str, Any] = {}
+    messages = []
+
     if args.description:
-        node.edit_weight_group(args.weight, description=args.description)
-        applogger.info(f'changed description: {args.description!r}')
+        changes['description'] = args.description
+        messages.append(f'changed description: {args.description!r}')
 
     if args.add_selector or args.remove_selector:
         selectors = list(group.selectors) if group.selectors else []
         if args.add_selector:
             selectors.extend(args.add_selector)
-            applogger.info(f"added selectors: "
-                           f"{', '.join(repr(x) for x in args.add_selector)}")
+            messages.append(f"added selectors: "
+                            f"{', '.join(repr(x) for x in args.add_selector)}")
 
         if args.remove_selector:
             for sel in args.remove_selector:
                 if sel in selectors:
                     selectors.remove(sel)
-            applogger.info(f"removed selectors: "
-                           f"{', '.join(repr(x) for x in args.remove_selector)}")
+            messages.append(f"removed selectors: "
+                            f"{', '.join(repr(x) for x in args.remove_selector)}")
 
         selectors = sorted(set(selectors))  # Should be unique.
 
         # Remove any line-breaks in selector text.
         func = lambda x: x.replace('\n', ' ').replace('\r\n', ' ')
-        selectors = [func(sel) for sel in selectors]
-
-        node.edit_weight_group(args.weight, selectors=selectors)
-
-    if args.make_default:
-        group = cast('WeightGroup', node.get_weight_group(args.weight))
-        node.set_default_weight_group(group)  # Change default WeightGroup.
-        applogger.info(f'set weight {args.weight!r} as the default')
+        changes['selectors'] = [func(sel) for sel in selectors]
+
+    # Use a single transaction so that all changes are made or none.
+    with node._managed_transaction() as cursor:
+        if changes:
+            group_repo = node._dal.WeightGroupRepository(cursor)
+            group_repo.update(replace(group, **changes))
+
+        if args.make_default:
+            set_default_weight_group(  # Change default WeightGroup.
+                weight_group=group,
+                property_repo=node._dal.PropertyRepository(cursor),
+            )
+            messages.append(f'set weight {args.weight!r} as the default')
+
+    for message in messages:
+        applogger.info(message)
 
     return ExitCode.OK
 
-- 
2.43.0


From aabf3650e74cc591679886f92bac76d003550355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 48/64] fix: let an empty description replace a weight group's
 description

---
 src/toron/cli/command_update.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index e406f79..a414a21 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -45,7 +45,7 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
     changes: Dict[str, Any] = {}
     messages = []
 
-    if args.description:
+    if args.description is not None:
         changes['description'] = args.description
         messages.append(f'changed description: {args.description!r}')
 
-- 
2.43.0


From 8eb2e9b388ba98d503b319cc45c8fed0abbda71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 49/64] fix: never overwrite a file that is being edited with a
 backup

---
 src/toron/cli/common.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 1db0152..0b43437 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -104,8 +104,9 @@ def process_backup_option(
 
     The backup file name is the same as the node's `path_hint` but
     with the prefix 'backup-'. When a backup file of the same name
-    already exists, it is overwritten. If the path hint is None, a
-    FileNotFoundError is raised.
+    already exists, it is overwritten--unless it is one of the given
+    *nodes* itself, in this case a ToronError is raised. If the path
+    hint is None, a FileNotFoundError is raised.
 
     .. code-block:: python
 
@@ -114,6 +115,8 @@ def process_backup_option(
     if not getattr(args, 'backup', False):
         return  # Exit immediately if `args.backup` is not True.
 
+    node_paths = [node.path_hint for node in nodes if node.path_hint]
+    backups = []
     for node in nodes:
         if node.path_hint is None:
             raise FileNotFoundError(
@@ -122,6 +125,14 @@ def process_backup_option(
             )
         dir_name, base_name = os.path.split(node.path_hint)
         backup_path = os.path.join(dir_name, f'backup-{base_name}')
+        if os.path.exists(backup_path) and any(
+            os.path.samefile(backup_path, path) for path in node_paths
+        ):
+            raise ToronError(f'cannot make a backup of {base_name!r}, file '
+                             f'{backup_path!r} is in use by this command')
+        backups.append((node, backup_path))
+
+    for node, backup_path in backups:
         node.to_file(backup_path)
 
 
-- 
2.43.0


From bcface3145b71891cf9ab4974da6e8151d626889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:32 +0000
Subject: [PATCH 50/64] fix: info fails for a file with unregistered attributes

The command only shows registered attributes, but an attribute that
was loaded and is not (or no longer) registered made it stop with a
traceback.
---
 src/toron/cli/command_info.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/toron/cli/command_info.py b/src/toron/cli/command_info.py
index 19cb78c..9221345 100644
--- a/src/toron/cli/command_info.py
+++ b/src/toron/cli/command_info.py
@@ -7,7 +7,6 @@ from shutil import get_terminal_size
 from .. import bind_file
 from ..data_service import (
     get_registered_attributes,
-    get_loaded_attributes,
     get_dataspace_info_text,
 )
 from .common import (
@@ -35,8 +34,7 @@ def write_to_stdout(args: argparse.Namespace) -> ExitCode:
             link_repo=node._dal.LinkRepository(cursor),
         )
         registered_attributes = get_registered_attributes(property_repo)
-        loaded_attributes = \
-            set(get_loaded_attributes(registered_attributes, attribute_repo))
+        loaded_attributes = set(attribute_repo.get_all_attribute_names())
 
     # Define short alias for style values (used in f-string).
     bright = args.stdout_style.bright
-- 
2.43.0


From 0bcd02eb80d26702c111977657b939cc22d5f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 51/64] fix: add attribute command overwrites attributes added
 at the same time

The registered attributes were read before the transaction that writes
the whole list; an attribute registered by another process in between
was lost although both commands reported success.
---
 src/toron/cli/command_add.py | 38 ++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/toron/cli/command_add.py b/src/toron/cli/command_add.py
index 453134b..47a9cb8 100644
--- a/src/toron/cli/command_add.py
+++ b/src/toron/cli/command_add.py
@@ -12,6 +12,10 @@ from .common import (
 from .._utils import (
     ToronError,
 )
+from ..data_service import (
+    get_registered_attributes,
+    set_registered_attributes,
+)
 
 
 applogger = logging.getLogger('app-toron')
@@ -70,20 +74,30 @@ def add_attribute(args: argparse.Namespace) -> ExitCode:
     node = cli_bind_file(args.filepath, mode='rw')
     process_backup_option(args, node)
 
-    attribute_columns = node.get_registered_attributes()
-
-    new_attributes = []
-    for attr in normalize_arg_list(args.attributes):
-        if attr not in attribute_columns:
-            new_attributes.append(attr)
-        else:
-            applogger.warning(f'skipping {attr!r} (already registered)')
+    # Use a single transaction so that no other change is overwritten.
+    with node._managed_transaction() as cursor:
+        property_repo = node._dal.PropertyRepository(cursor)
+        attribute_columns = get_registered_attributes(property_repo)
+
+        new_attributes = []
+        for attr in normalize_arg_list(args.attributes):
+            if attr not in attribute_columns:
+                new_attributes.append(attr)
+            else:
+                applogger.warning(f'skipping {attr!r} (already registered)')
+
+        if new_attributes:
+            try:
+                set_registered_attributes(
+                    attribute_columns=attribute_columns + new_attributes,
+                    reserved_identifiers=node._dal.reserved_identifiers,
+                    index_repo=node._dal.IndexRepository(cursor),
+                    property_repo=property_repo,
+                )
+            except ValueError as e:
+                raise ToronError(str(e))
 
     if new_attributes:
-        try:
-            node.set_registered_attributes(attribute_columns + new_attributes)
-        except ValueError as e:
-            raise ToronError(str(e))
         formatted_attrs = ', '.join(repr(x) for x in new_attributes)
         applogger.info(f'added attribute columns: {formatted_attrs}')
     else:
-- 
2.43.0


From 0e2379322912099d83109f4ee89f9d1912fffa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 52/64] fix: update weight command overwrites changes made at
 the same time

The weight group was read before the transaction that writes it back;
a change made by another process in between (to its description,
selectors or completeness) was lost although both reported success.
---
 src/toron/cli/command_update.py | 70 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index a414a21..92a16d7 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -37,42 +37,44 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
     node = cli_bind_file(args.filepath, mode='rw')
     process_backup_option(args, node)
 
-    group = node.get_weight_group(args.weight)
-    if not group:
-        applogger.error(f'no weight group named {args.weight!r}')
-        return ExitCode.ERR
-
-    changes: Dict[str, Any] = {}
-    messages = []
-
-    if args.description is not None:
-        changes['description'] = args.description
-        messages.append(f'changed description: {args.description!r}')
-
-    if args.add_selector or args.remove_selector:
-        selectors = list(group.selectors) if group.selectors else []
-        if args.add_selector:
-            selectors.extend(args.add_selector)
-            messages.append(f"added selectors: "
-                            f"{', '.join(repr(x) for x in args.add_selector)}")
-
-        if args.remove_selector:
-            for sel in args.remove_selector:
-                if sel in selectors:
-                    selectors.remove(sel)
-            messages.append(f"removed selectors: "
-                            f"{', '.join(repr(x) for x in args.remove_selector)}")
-
-        selectors = sorted(set(selectors))  # Should be unique.
-
-        # Remove any line-breaks in selector text.
-        func = lambda x: x.replace('\n', ' ').replace('\r\n', ' ')
-        changes['selectors'] = [func(sel) for sel in selectors]
-
-    # Use a single transaction so that all changes are made or none.
+    # Use a single transaction so that all changes are made or none (and
+    # so that no other change is overwritten).
     with node._managed_transaction() as cursor:
+        group_repo = node._dal.WeightGroupRepository(cursor)
+        try:
+            group = group_repo.get_by_name(args.weight)
+        except KeyError:
+            applogger.error(f'no weight group named {args.weight!r}')
+            return ExitCode.ERR
+
+        changes: Dict[str, Any] = {}
+        messages = []
+
+        if args.description is not None:
+            changes['description'] = args.description
+            messages.append(f'changed description: {args.description!r}')
+
+        if args.add_selector or args.remove_selector:
+            selectors = list(group.selectors) if group.selectors else []
+            if args.add_selector:
+                selectors.extend(args.add_selector)
+                messages.append(f"added selectors: "
+                                f"{', '.join(repr(x) for x in args.add_selector)}")
+
+            if args.remove_selector:
+                for sel in args.remove_selector:
+                    if sel in selectors:
+                        selectors.remove(sel)
+                messages.append(f"removed selectors: "
+                                f"{', '.join(repr(x) for x in args.remove_selector)}")
+
+            selectors = sorted(set(selectors))  # Should be unique.
+
+            # Remove any line-breaks in selector text.
+            func = lambda x: x.replace('\n', ' ').replace('\r\n', ' ')
+            changes['selectors'] = [func(sel) for sel in selectors]
+
         if changes:
-            group_repo = node._dal.WeightGroupRepository(cursor)
             group_repo.update(replace(group, **changes))
 
         if args.make_default:
-- 
2.43.0


From 178cf2aa17aaa07a406fefddac1e68e2b94f7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 53/64] fix: a weight group that was removed can be made the
 default

set_default_weight_group() stored the id of the given group without
checking that the group still exists, so every later disaggregation
failed with an error about an unknown group id.
---
 src/toron/space.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index af161a0..3cf93a5 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1208,6 +1208,12 @@ class DataSpace(object):
 
     def set_default_weight_group(self, weight_group: WeightGroup) -> None:
         with self._managed_transaction() as cursor:
+            if weight_group:
+                try:  # Group could have been removed in the meantime.
+                    self._dal.WeightGroupRepository(cursor).get(weight_group.id)
+                except KeyError:
+                    raise ToronError(f'no weight group named {weight_group.name!r}')
+
             set_default_weight_group(
                 weight_group=weight_group,
                 property_repo=self._dal.PropertyRepository(cursor),
-- 
2.43.0


From 88de531cf9f1e0316246e7a405bf73c8f7f20cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:49 +0000
Subject: [PATCH 54/64] fix: legacy column helpers keep numbers of deleted
 records from being reused

---
 src/toron/dal1/label_manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 9720702..4c90f4e 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -175,6 +175,11 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)  # <- Must not reuse id values of deleted records.
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
@@ -286,6 +291,11 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)  # <- Must not reuse id values of deleted records.
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
-- 
2.43.0


From ed763015bcbbb2aac0b88fddde50dd2367cd62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:10 +0000
Subject: [PATCH 55/64] fix: legacy_drop_labels drops columns from partitions,
 label order and mapping levels too

---
 src/toron/dal1/label_manager.py | 66 ++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 4c90f4e..b0e8101 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -1,7 +1,7 @@
 """LabelManager and related objects using SQLite."""
 
 import sqlite3
-from itertools import chain
+from itertools import chain, compress
 
 from toron._typing import (
     Dict,
@@ -17,6 +17,8 @@ from ..data_models import (
     COMMON_RESERVED_IDENTIFIERS,
     BaseLabelManager,
 )
+from ..partitions import find_minimal_partition_generating_set
+from .._utils import BitFlags
 
 
 class LabelManager(BaseLabelManager):
@@ -241,7 +243,11 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
         msg = f"expected DataSpace with 'DAL1' backend, got {node._dal.backend!r}"
         raise TypeError(msg)
 
-    with node._managed_cursor() as cursor:
+    from toron.data_service import drop_labels_from_display_order
+    from toron.data_service import get_all_partition_definitions
+    from toron.data_service import rebuild_structure_table
+
+    with node._managed_cursor(n=2) as (cursor, aux_cursor):
         manager = LabelManager(cursor)
 
         if cursor.connection.in_transaction:
@@ -258,8 +264,9 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 raise ValueError(msg)
 
         # Get list of columns to keep (must preserve existing order).
+        old_columns = manager.get_columns()
         columns_to_keep = [
-            col for col in manager.get_columns() if col not in columns_to_delete
+            col for col in old_columns if col not in columns_to_delete
         ]
         if not columns_to_keep:
             msg = (
@@ -314,7 +321,8 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             cursor.execute('DROP TABLE main.label_location')
             cursor.execute('ALTER TABLE main.new_location RENAME TO label_location')
 
-            # Rebuild 'label_structure' table with columns_to_keep.
+            # Rebuild 'label_structure' table with columns_to_keep (its
+            # records are rebuilt below).
             cursor.execute(f"""
                 CREATE TABLE main.new_structure(
                     _structure_id INTEGER PRIMARY KEY,
@@ -322,17 +330,57 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                     {', '.join(schema.column_def_structure(x) for x in columns_to_keep)}
                 )
             """)
-            cursor.execute(f"""
-                INSERT INTO main.new_structure
-                SELECT _structure_id, _granularity, {', '.join(formatted_columns_to_keep)}
-                FROM main.label_structure
-            """)
             cursor.execute('DROP TABLE main.label_structure')
             cursor.execute('ALTER TABLE main.new_structure RENAME TO label_structure')
 
             # Check integrity, re-create constraints, and commit transaction.
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
+
+            # Remove dropped columns from partition definitions.
+            property_repo = node._dal.PropertyRepository(cursor)
+            definition_sets = find_minimal_partition_generating_set(
+                (x.intersection(columns_to_keep)
+                    for x in get_all_partition_definitions(property_repo)),
+                [set(columns_to_keep)],
+            )
+            property_repo.add_or_update(
+                'partition_definitions', [list(x) for x in definition_sets]
+            )
+
+            drop_labels_from_display_order(columns_to_delete, property_repo)
+
+            rebuild_structure_table(
+                label_manager=manager,
+                property_repo=property_repo,
+                structure_repo=node._dal.StructureRepository(cursor),
+                index_repo=node._dal.IndexRepository(cursor),
+                aux_index_repo=node._dal.IndexRepository(aux_cursor),
+                optimizations=node._dal.optimizations,
+            )
+
+            # Remove dropped columns from mapping levels.
+            kept_columns = [(x in columns_to_keep) for x in old_columns]
+            mapping_repo = node._dal.MappingRepository(cursor)
+            changed_mappings = []
+            for link in node._dal.LinkRepository(cursor).get_all():
+                for mapping in tuple(mapping_repo.find(link_id=link.id)):
+                    bits = BitFlags(mapping.mapping_level)
+                    new_level = bytes(BitFlags(compress(bits, kept_columns)))
+                    if new_level != mapping.mapping_level:
+                        mapping_repo.delete(mapping.id)
+                        changed_mappings.append((mapping, new_level))
+
+            for mapping, new_level in changed_mappings:
+                mapping_repo.add(
+                    link_id=mapping.link_id,
+                    other_index_id=mapping.other_index_id,
+                    index_id=mapping.index_id,
+                    mapping_level=new_level,
+                    value=mapping.value,
+                    proportion=mapping.proportion,
+                )
+
             cursor.execute('COMMIT TRANSACTION')
 
         except Exception as err:
-- 
2.43.0


From 7411a79ebafacf101f95b32cd356d16c07696800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:13 +0000
Subject: [PATCH 56/64] fix: legacy column helpers roll back when interrupted

---
 src/toron/dal1/label_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index b0e8101..a31e420 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -222,7 +222,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
+        except BaseException:
             cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
@@ -383,7 +383,7 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
+        except BaseException:
             cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
-- 
2.43.0


From 47f140eb83d9c12ed2ac2a76ca1056617c4f9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:12 +0000
Subject: [PATCH 57/64] fix: legacy column helpers look at the columns within
 their transaction

---
 src/toron/dal1/label_manager.py | 112 ++++++++++++++++----------------
 1 file changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index a31e420..54d54bc 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -134,37 +134,38 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             msg = 'cannot rename columns inside an existing transaction'
             raise RuntimeError(msg)
 
-        label_manager = LabelManager(cursor)
-        property_repo = node._dal.PropertyRepository(cursor)
-
-        # Check new column names for conflicts.
-        validate_new_index_columns(
-            new_column_names=mapping.values(),
-            reserved_identifiers=node._dal.reserved_identifiers,
-            label_manager=label_manager,
-            property_repo=property_repo,
-            attribute_repo=node._dal.AttributeGroupRepository(cursor),
-        )
-
-        # Check old column names for conflicts.
-        all_reserved_identifiers = \
-            node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
-        for col in mapping.keys():
-            if col in all_reserved_identifiers:
-                msg = f'cannot alter columns, {col!r} is a reserved identifier'
-                raise ValueError(msg)
-
-        # Build a list of new column names.
-        new_columns = []
-        for old_col in label_manager.get_columns():
-            new_col = mapping.get(old_col, old_col)  # Get new name or default to old.
-            if new_col in new_columns:
-                raise ValueError(f'cannot create duplicate columns: {new_col}')
-            new_columns.append(new_col)
-
         cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
         try:
             cursor.execute('BEGIN TRANSACTION')
+
+            label_manager = LabelManager(cursor)
+            property_repo = node._dal.PropertyRepository(cursor)
+
+            # Check new column names for conflicts.
+            validate_new_index_columns(
+                new_column_names=mapping.values(),
+                reserved_identifiers=node._dal.reserved_identifiers,
+                label_manager=label_manager,
+                property_repo=property_repo,
+                attribute_repo=node._dal.AttributeGroupRepository(cursor),
+            )
+
+            # Check old column names for conflicts.
+            all_reserved_identifiers = \
+                node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
+            for col in mapping.keys():
+                if col in all_reserved_identifiers:
+                    msg = f'cannot alter columns, {col!r} is a reserved identifier'
+                    raise ValueError(msg)
+
+            # Build a list of new column names.
+            new_columns = []
+            for old_col in label_manager.get_columns():
+                new_col = mapping.get(old_col, old_col)  # Get new name or default to old.
+                if new_col in new_columns:
+                    raise ValueError(f'cannot create duplicate columns: {new_col}')
+                new_columns.append(new_col)
+
             schema.drop_schema_constraints(cursor)
 
             # Rebuild 'label_index' table with new column names.
@@ -254,36 +255,37 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             msg = 'cannot delete columns inside an existing transaction'
             raise RuntimeError(msg)
 
-        columns_to_delete = tuple(chain([column], columns))
-
-        all_reserved_identifiers = \
-            node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
-        for col in columns_to_delete:
-            if col in all_reserved_identifiers:
-                msg = f'cannot alter columns, {col!r} is a reserved identifier'
-                raise ValueError(msg)
-
-        # Get list of columns to keep (must preserve existing order).
-        old_columns = manager.get_columns()
-        columns_to_keep = [
-            col for col in old_columns if col not in columns_to_delete
-        ]
-        if not columns_to_keep:
-            msg = (
-                'cannot delete all columns\n'
-                '\n'
-                'Without at least one index column, a node cannot represent '
-                'any weights, quantities, or mappings it might contain.'
-            )
-            raise RuntimeError(msg)
-
-        formatted_columns_to_keep = [
-            schema.format_identifier(x) for x in columns_to_keep
-        ]
-
         cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
         try:
             cursor.execute('BEGIN TRANSACTION')
+
+            columns_to_delete = tuple(chain([column], columns))
+
+            all_reserved_identifiers = \
+                node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
+            for col in columns_to_delete:
+                if col in all_reserved_identifiers:
+                    msg = f'cannot alter columns, {col!r} is a reserved identifier'
+                    raise ValueError(msg)
+
+            # Get list of columns to keep (must preserve existing order).
+            old_columns = manager.get_columns()
+            columns_to_keep = [
+                col for col in old_columns if col not in columns_to_delete
+            ]
+            if not columns_to_keep:
+                msg = (
+                    'cannot delete all columns\n'
+                    '\n'
+                    'Without at least one index column, a node cannot represent '
+                    'any weights, quantities, or mappings it might contain.'
+                )
+                raise RuntimeError(msg)
+
+            formatted_columns_to_keep = [
+                schema.format_identifier(x) for x in columns_to_keep
+            ]
+
             schema.drop_schema_constraints(cursor)
 
             # Rebuild 'label_index' table with columns_to_keep.
-- 
2.43.0


From a6c9f19b57910c271f74a4374e1be920e9f214d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:46 +0000
Subject: [PATCH 58/64] fix: end the transaction of a legacy node's refused
 edit

---
 src/toron/_dal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 0bffc33..762c7c0 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -444,10 +444,16 @@ class DataAccessLayer(object):
         cur = con.cursor()
 
         # Yield the cursor object and clean-up when finished.
+        already_in_transaction = con.in_transaction
         try:
             with transaction_cm(cur):
                 yield cur
         finally:
+            # A savepoint that is rolled-back stays open, end the transaction
+            # it started (otherwise it would block all later attempts to save).
+            if con.in_transaction and not already_in_transaction:
+                con.rollback()
+
             try:
                 cur.close()
             except sqlite3.ProgrammingError as err:
-- 
2.43.0


From d0c9bfd7564a24ec9b37eff6b244e583f0ab9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:16 +0000
Subject: [PATCH 59/64] fix: quote the columns when removing some from a legacy
 node

---
 src/toron/_dal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 762c7c0..313485c 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -1026,7 +1026,7 @@ class DataAccessLayer(object):
         cursor.execute(f'''
             SELECT 1
             FROM main.node_index
-            GROUP BY {", ".join(names_remaining)}
+            GROUP BY {", ".join(_schema.normalize_identifier(x) for x in names_remaining)}
             HAVING COUNT(*) > 1
         ''')
         if cursor.fetchone() is not None:
@@ -1043,7 +1043,10 @@ class DataAccessLayer(object):
         cursor.execute('DELETE FROM main.structure')
 
         # Remove specified columns.
-        for stmnt in self._remove_index_columns_make_sql(column_names, names_to_remove):
+        for stmnt in self._remove_index_columns_make_sql(
+            [_schema.normalize_identifier(col) for col in column_names],
+            [_schema.normalize_identifier(col) for col in names_to_remove],
+        ):
             cursor.execute(stmnt)
 
         # Rebuild categories property and structure table.
-- 
2.43.0


From f1f5383a220bb8236b6cd9d3c2518c95428ed560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:27 +0000
Subject: [PATCH 60/64] fix: refresh completeness of weightings when a legacy
 node gets records

---
 src/toron/_dal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 313485c..ee74091 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -1264,6 +1264,11 @@ class DataAccessLayer(object):
             self._refresh_granularity(cur)
             self._refresh_index_hash(cur)
 
+            # Refresh weightings' completeness to account for new records.
+            cur.execute('SELECT weighting_id FROM main.weighting')
+            for (weighting_id,) in cur.fetchall():
+                self._add_weights_set_is_complete(cur, weighting_id)
+
     def _select_index_records(
         self, cursor: sqlite3.Cursor, **where: Union[str, int]
     ) -> Generator[Sequence, None, None]:
-- 
2.43.0


From 615f377ea1d97207df399bb40917c5c6f2d320d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:53 +0000
Subject: [PATCH 61/64] fix: accept legacy weightings and edges without
 selectors

---
 src/toron/_dal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index ee74091..a9a9cfb 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -2038,7 +2038,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in (y or [])]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -2189,7 +2189,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in (y or [])]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -3194,7 +3194,7 @@ class DataAccessLayer(object):
         cursor.execute(sql, (data.unique_id,))
 
         ## TEMPORARY PATCH FOR REFACTORING
-        parse_all = lambda y: [parse_selector(z) for z in y]
+        parse_all = lambda y: [parse_selector(z) for z in (y or [])]
         list_of_selectors = [(x, parse_all(y)) for (x, y) in cursor.fetchall()]
         get_edge_id = GetMatchingKey(list_of_selectors, default=default_edge_id)  # type: ignore [arg-type]
 
-- 
2.43.0


From 3d8ffb6e7dd4124397eb8caa6d665c87fe12c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:05 +0000
Subject: [PATCH 62/64] fix: rename columns in a legacy node's partition
 definitions

---
 src/toron/_dal.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index a9a9cfb..256fce2 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -572,15 +572,31 @@ class DataAccessLayer(object):
             ])
         return sql_stmnts
 
+    @classmethod
+    def _rename_partition_definitions(
+        cls, cursor: sqlite3.Cursor, column_names: Sequence[str]
+    ) -> None:
+        """Rename columns in 'partition_definitions' property (should be
+        called after renaming with the *column_names* used beforehand).
+        """
+        definitions = cls._get_data_property(cursor, 'partition_definitions')
+        if definitions:
+            new_column_names = cls._get_column_names(cursor, 'node_index')[1:]
+            new_names = dict(zip(column_names, new_column_names))
+            definitions = [[new_names.get(x, x) for x in lst] for lst in definitions]
+            cls._set_data_property(cursor, 'partition_definitions', definitions)
+
     def rename_index_columns(
         self, mapper: Union[Callable[[str], str], Mapping[str, str]]
     ) -> None:
         # Rename columns using native RENAME COLUMN command (only for
         # SQLite 3.25.0 or newer).
         with self._transaction() as cur:
+            old_names = self._get_column_names(cur, 'node_index')[1:]
             names, new_names = self._rename_index_columns_apply_mapper(cur, mapper)
             for stmnt in self._rename_index_columns_make_sql(names, new_names):
                 cur.execute(stmnt)
+            self._rename_partition_definitions(cur, old_names)
 
     @staticmethod
     def _remove_index_columns_make_sql(
@@ -3405,9 +3421,11 @@ class DataAccessLayerPre25(DataAccessLayerPre35):
             con.execute('PRAGMA foreign_keys=OFF')
             cur = con.cursor()
             with _schema.savepoint(cur):
+                old_names = self._get_column_names(cur, 'node_index')[1:]
                 names, new_names = self._rename_index_columns_apply_mapper(cur, mapper)
                 for stmnt in self._rename_index_columns_make_sql(names, new_names):
                     cur.execute(stmnt)
+                self._rename_partition_definitions(cur, old_names)
 
                 cur.execute('PRAGMA main.foreign_key_check')
                 one_result = cur.fetchone()
-- 
2.43.0


From cd91367a1a14a1889079794610252eb6fcc656c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:01 +0000
Subject: [PATCH 63/64] fix: sum repeated quantities once when coarsening a
 legacy node

---
 src/toron/_dal.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 256fce2..5399784 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -974,6 +974,17 @@ class DataAccessLayer(object):
                 WHERE quantity_id IN (SELECT record_id FROM RecordsToUpdate)
             ''')
 
+        # Discard repeated `quantity` records (summed into the first one).
+        sql_statements.append('''
+            DELETE FROM main.quantity
+            WHERE _location_id IN (SELECT new_location_id FROM temp.old_to_new_location_id)
+                AND quantity_id NOT IN (
+                    SELECT MIN(quantity_id)
+                    FROM main.quantity
+                    GROUP BY _location_id, attribute_id
+                )
+        ''')
+
         # Discard old `quantity` records.
         sql_statements.append('''
             DELETE FROM main.quantity
-- 
2.43.0


From 41ebd7cedd50dfb0da3c7975a65f00a9047c6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 64/64] fix: accept index codes that follow after the first
 rows of loaded index data

The index command looked for a column of index codes in the first ten rows
only (header included). When nine or more new records, which have no code
yet, were put above the exported ones, all codes were ignored and records
with changed labels were added again instead of being updated.
---
 src/toron/cli/command_index.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index bd16c79..cad134e 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -15,6 +15,7 @@ from .common import (
     cli_bind_file,
     process_backup_option,
     index_id_to_code,
+    is_index_code,
     get_index_code_position,
     remap_index_codes_to_index_ids,
 )
@@ -33,6 +34,18 @@ def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     iterator: Iterator[List] = chain(sample_rows, reader)
 
     unique_id_bytes = uuid.UUID(node.unique_id).bytes
+
+    # The first rows can be new records (without index codes). If there's a
+    # column for index codes, look for the first row that contains one.
+    scanned_rows = sample_rows
+    if sample_rows and any(x.endswith('index_code') for x in sample_rows[0]):
+        while scanned_rows and not any(
+            is_index_code(x, unique_id_bytes) for x in chain(*scanned_rows)
+        ):
+            scanned_rows = list(islice(reader, 256))
+            sample_rows.extend(scanned_rows)
+        iterator = chain(sample_rows, reader)
+
     try:
         position = get_index_code_position(sample_rows, unique_id_bytes)
         iterator = remap_index_codes_to_index_ids(iterator, unique_id_bytes, position)
-- 
2.43.0

