From 9eadc3925dc7d79e3679a036b08b2ad288892fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 01/27] fix: index(working_dir=...) fails, and reuses leftover
 temporary files

tempfile.TemporaryDirectory methods were called on the given path. Create a
fresh temporary directory inside working_dir instead.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..b324042 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -345,7 +345,7 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From 572a0b108950d04a7022d975cda756795d2e5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 02/27] fix: indexing an empty corpus fails

No batch had created the tables of the temporary index that the merge reads.
---
 hyperreal/index.py | 62 ++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index b324042..7e328c1 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -439,6 +439,9 @@ class Index:
             self.db.execute("attach ? as tempindex", [temp_index])
             detach = True
 
+            # There are no batches to create these if the corpus is empty.
+            _create_segment_tables(self.db, "tempindex")
+
             self.db.execute(
                 """
                 create index tempindex.field_value on inverted_index_segment(
@@ -2053,6 +2056,37 @@ class Index:
             )
 
 
+def _create_segment_tables(db, schema="main"):
+    """Create the tables that hold the indexed batches in the temporary index."""
+    db.execute(
+        f"""
+        CREATE table if not exists {schema}.inverted_index_segment(
+            field text,
+            value,
+            docs_count,
+            doc_ids roaring_bitmap,
+            position_count,
+            positions roaring_bitmap,
+            first_doc_id
+        )
+        """
+    )
+
+    db.execute(
+        f"""
+        CREATE table if not exists {schema}.batch_position(
+            field,
+            first_doc_id,
+            last_doc_id,
+            docs_count,
+            doc_ids roaring_bitmap,
+            doc_position_starts roaring_bitmap,
+            primary key (field, first_doc_id)
+        )
+        """
+    )
+
+
 def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
     """
     Index all of the given docs into temp_db_path.
@@ -2116,33 +2150,7 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
         with write_lock:
             local_db.execute("pragma synchronous=0")
             local_db.execute("begin")
-            local_db.execute(
-                """
-                CREATE table if not exists inverted_index_segment(
-                    field text,
-                    value,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    position_count,
-                    positions roaring_bitmap,
-                    first_doc_id
-                )
-                """
-            )
-
-            local_db.execute(
-                """
-                CREATE table if not exists batch_position(
-                    field,
-                    first_doc_id,
-                    last_doc_id,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    doc_position_starts roaring_bitmap,
-                    primary key (field, first_doc_id)
-                )
-                """
-            )
+            _create_segment_tables(local_db)
 
             for field, (
                 batch_doc_ids,
-- 
2.43.0


From 1303190e3921334cfdef39a41e480984c28a6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 03/27] fix: indexing commits the new contents before the
 cluster summaries

A failure or a reader in between saw cluster summaries of the previous
contents. Update them in the same transaction.
---
 hyperreal/index.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 7e328c1..60c1945 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -536,10 +536,10 @@ class Index:
                 "insert into changed_cluster select cluster_id from cluster"
             )
 
-            self.db.execute("commit")
+            # The new contents aren't committed yet, so they're only visible here and
+            # not in the pool.
+            self._update_changed_clusters(use_pool=False)
 
-            self.db.execute("begin")
-            self._update_changed_clusters()
             self.db.execute("commit")
 
         except Exception:
@@ -1770,13 +1770,15 @@ class Index:
             ),
         )
 
-    def _update_changed_clusters(self):
+    def _update_changed_clusters(self, use_pool=True):
         """
         Refresh cluster union queries for changed clusters.
 
         This is usually called from the `atomic` decorator, or when reindexing.
 
-        It is assumed that this is called inside a transaction.
+        It is assumed that this is called inside a transaction. If that transaction
+        also changes the features themselves, `use_pool` must be False as the workers
+        in the pool only see what has been committed.
 
         """
 
@@ -1792,7 +1794,7 @@ class Index:
             """
         )
 
-        changed = self.db.execute("select cluster_id from changed_cluster")
+        changed = list(self.db.execute("select cluster_id from changed_cluster"))
 
         # Then update the union statistics for all of the clusters
         bg_args = (
@@ -1816,7 +1818,12 @@ class Index:
 
         # Note that the data here may not have been committed yet, so we have
         # to read and pass the feature_ids to the background ourselves.
-        for cluster_id, query, weight in self.pool.map(_union_query, bg_args):
+        if use_pool:
+            results = self.pool.map(_union_query, bg_args)
+        else:
+            results = map(_union_features, bg_args)
+
+        for cluster_id, query, weight in results:
             self.db.execute(
                 """
                 update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
@@ -2394,16 +2401,20 @@ def measure_feature_contribution_to_cluster(
 
 
 def _union_query(args):
+    with args[0]:
+        return _union_features(args)
+
+
+def _union_features(args):
     idx, query_key, feature_ids = args
 
-    with idx:
-        query = BitMap()
-        weight = 0
+    query = BitMap()
+    weight = 0
 
-        for feature_id in feature_ids:
-            docs = idx[feature_id]
-            query |= docs
-            weight += len(docs)
+    for feature_id in feature_ids:
+        docs = idx[feature_id]
+        query |= docs
+        weight += len(docs)
 
     return query_key, query, weight
 
-- 
2.43.0


From 414330299a28b9ac99f305badd7c7a2656f599d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 04/27] fix: an interrupted index() leaves a transaction and
 the temporary index behind

Roll back on KeyboardInterrupt too, don't roll back twice, and always detach,
restore foreign keys and clean up whatever had been set up.
---
 hyperreal/index.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 60c1945..fdc79fc 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -331,20 +331,21 @@ class Index:
 
         workers = workers or self.pool._max_workers
 
-        try:
-            self.db.execute("pragma foreign_keys=0")
-            self.db.execute("begin")
-        except sqlite3.OperationalError:
+        if self.db.in_transaction:
             raise IndexingError(
                 "The `index` method can't be called in a nested transaction."
             )
 
+        manager = None
+        tempdir = None
+
         try:
+            self.db.execute("pragma foreign_keys=0")
+            self.db.execute("begin")
+
             manager = mp.Manager()
             write_lock = manager.Lock()
 
-            detach = False
-
             tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
@@ -437,7 +438,6 @@ class Index:
             # Now merge back to the original index, preserving feature_ids
             # if this is a reindex operation.
             self.db.execute("attach ? as tempindex", [temp_index])
-            detach = True
 
             # There are no batches to create these if the corpus is empty.
             _create_segment_tables(self.db, "tempindex")
@@ -542,19 +542,25 @@ class Index:
 
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
-            self.db.execute("rollback")
+            # Some errors have already rolled back the transaction.
+            if self.db.in_transaction:
+                self.db.execute("rollback")
             raise
 
         finally:
             self.db.execute("pragma foreign_keys=1")
-            manager.shutdown()
 
-            if detach:
+            if manager is not None:
+                manager.shutdown()
+
+            attached = {row[1] for row in self.db.execute("pragma database_list")}
+            if "tempindex" in attached:
                 self.db.execute("detach tempindex")
 
-            tempdir.cleanup()
+            if tempdir is not None:
+                tempdir.cleanup()
 
         self.logger.info("Indexing completed.")
 
-- 
2.43.0


From b0da393e0028406ee84cbfded647f98d0b1b3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 05/27] fix: an error while committing a new index can leave it
 committed

The commit wrote to the temporary index as well as the main one, which isn't
atomic: it could fail after the main index had been committed.
---
 hyperreal/index.py | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index fdc79fc..524733f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -437,19 +437,11 @@ class Index:
 
             # Now merge back to the original index, preserving feature_ids
             # if this is a reindex operation.
+            # Committing changes to both databases at once isn't atomic, so don't
+            # change the temporary index in this transaction.
+            _prepare_merge(temp_index)
             self.db.execute("attach ? as tempindex", [temp_index])
 
-            # There are no batches to create these if the corpus is empty.
-            _create_segment_tables(self.db, "tempindex")
-
-            self.db.execute(
-                """
-                create index tempindex.field_value on inverted_index_segment(
-                    field, value, first_doc_id
-                )
-                """
-            )
-
             # Actually populate the new values - inverted index
             self.db.execute(
                 """
@@ -2069,11 +2061,11 @@ class Index:
             )
 
 
-def _create_segment_tables(db, schema="main"):
+def _create_segment_tables(db):
     """Create the tables that hold the indexed batches in the temporary index."""
     db.execute(
-        f"""
-        CREATE table if not exists {schema}.inverted_index_segment(
+        """
+        CREATE table if not exists inverted_index_segment(
             field text,
             value,
             docs_count,
@@ -2086,8 +2078,8 @@ def _create_segment_tables(db, schema="main"):
     )
 
     db.execute(
-        f"""
-        CREATE table if not exists {schema}.batch_position(
+        """
+        CREATE table if not exists batch_position(
             field,
             first_doc_id,
             last_doc_id,
@@ -2100,6 +2092,28 @@ def _create_segment_tables(db, schema="main"):
     )
 
 
+def _prepare_merge(temp_db_path):
+    """Complete the temporary index once all batches have been written to it."""
+    local_db = db_utilities.connect_sqlite(temp_db_path)
+
+    try:
+        local_db.execute("pragma synchronous=0")
+
+        # There are no batches to create these if the corpus is empty.
+        _create_segment_tables(local_db)
+
+        local_db.execute(
+            """
+            create index field_value on inverted_index_segment(
+                field, value, first_doc_id
+            )
+            """
+        )
+
+    finally:
+        local_db.close()
+
+
 def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
     """
     Index all of the given docs into temp_db_path.
-- 
2.43.0


From d1670bae14a4d9005000758f2b98d0ee394dd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 06/27] fix: an interrupted or failing edit is committed in
 part, or never

KeyboardInterrupt released (committed) the unfinished edit. An error while
refreshing the cluster summaries or committing left the transaction open, so
that later edits through the same object were never committed.
---
 hyperreal/index.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 524733f..60eb4f7 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -95,6 +95,8 @@ def atomic(writes=False):
         @wraps(func)
         def wrapper(*args, **kwargs):
             self = args[0]
+            nested = self.db.in_transaction
+            released = False
             try:
                 self._transaction_level += 1
                 self.db.execute(f'savepoint "{func.__name__}"')
@@ -104,30 +106,37 @@ def atomic(writes=False):
                 if writes:
                     self._changed = True
 
+                # We're at the final transaction level and are about to commit.
+                if self._transaction_level == 1 and self._changed:
+                    self.logger.info(f"Changes detected - updating clusters.")
+                    # Note that this will check for changed queries, and will
+                    # therefore be a noop if there aren't any.
+                    self._update_changed_clusters()
+
+                self.db.execute(f'release "{func.__name__}"')
+                released = True
+
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
-                # Rewind to the previous savepoint, then release it
-                # This is necessary to behave nicely whether we are operating
-                # inside a larger transaction or just in autocommit mode.
-                self.db.execute(f'rollback to "{func.__name__}"')
+                # Some errors have already rolled back everything.
+                if self.db.in_transaction and not released:
+                    # Inside a larger transaction, rewind to the previous savepoint,
+                    # then release it. Otherwise end the transaction.
+                    if nested:
+                        self.db.execute(f'rollback to "{func.__name__}"')
+                        self.db.execute(f'release "{func.__name__}"')
+                    else:
+                        self.db.execute("rollback")
                 raise
 
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
-                self.db.execute(f'release "{func.__name__}"')
-
         return wrapper
 
     return atomic_wrapper
-- 
2.43.0


From f1c716e3cb2731a9c687b34b6d818c3148dc8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 07/27] fix: splitting some clusters loses the features of a
 new cluster

The ids of new clusters within the selection can overlap with the ids they are
renumbered to: deleting the former then dropped a renumbered cluster.
---
 hyperreal/index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 60eb4f7..dd17559 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1743,13 +1743,13 @@ class Index:
         # Make sure to copy these out first, as new_cluster_ids might overlap
         # with the global clustering model!
         new_cluster_feature = {
-            cluster_id: cluster_feature[cluster_id] for cluster_id in new_cluster_ids
+            cluster_id: cluster_feature.pop(cluster_id)
+            for cluster_id in new_cluster_ids
         }
 
         next_cluster_id = self.next_cluster_id()
 
         for cluster_id in new_cluster_ids:
-            del cluster_feature[cluster_id]
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From a6135004f0c15ad33abc01be6517ca8a272c9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 08/27] fix: refining clusters in which every feature is pinned
 divides by zero

---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index dd17559..dacb2ed 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1522,6 +1522,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # All of the features are pinned.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From f630457f7be3079c9481d784829c03d68915545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 09/27] fix: dissolving clusters with group testing fails with
 KeyError

Clusters that group testing ruled out for all features had no objective.
---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index dacb2ed..cffcfb6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1587,7 +1587,9 @@ class Index:
                 dissolve_cluster_ids = set(
                     sorted(
                         cluster_feature.keys() - clusters_with_pinned_features,
-                        key=lambda x: objectives[x],
+                        # Group testing may have ruled out all moves into a cluster,
+                        # in which case it has no objective.
+                        key=lambda x: objectives.get(x, 0),
                     )[:n_dissolve]
                 )
                 self.logger.info(
-- 
2.43.0


From 000f101c92a8d6f79a1afb8879c123458c4ca664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 10/27] fix: pinned clusters that reach target_clusters on
 their own disable dissolving

The remaining target was 0, which means no target, or negative.
---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index cffcfb6..8a9b788 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1729,6 +1729,9 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The pinned clusters alone may reach the target already.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From 4f9b6b09e71ade018080451e61539ee41f18fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 11/27] fix: cooccurrence graph fails when a labelled feature
 value is not a string

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8a9b788..13509e3 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1873,7 +1873,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(str(value) for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From c4bc131cda6f0dd97587ac3dac3bc070f82100e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 12/27] fix: collocations count the positions of other fields

---
 hyperreal/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 13509e3..1f54648 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2606,8 +2606,14 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where first_doc_id = ?
+                and field = ?
+            """,
+            [first_doc_id, field],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From 25ee70055e23a42b3490b6498f29618b6dee5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 13/27] fix: position windows reach into the next document

---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 9dd8e91974cf91ee2d4308613ec7325ad9039565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 14/27] fix: the last passage of a batch is dropped if it is a
 single position

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1f54648..8e99a2f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2571,16 +2571,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, it's never closed off.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From 845ba484fe19ceea10f9f6a170323a4a12d79f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 15/27] fix: rendered passages lose their last token

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8e99a2f..856f3a9 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2640,7 +2640,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From 7f89ffd9f572249207e9e81d1826358671cfcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 16/27] fix: passages matching three or more clauses depend on
 how documents were batched

---
 hyperreal/index.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 856f3a9..b1236d2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2495,30 +2495,28 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
         passage_scores = collections.defaultdict(list)
 
         for _, clause in clause_weights[1:]:
-            # Keep only the union positions that actually intersect with the
-            # existing window - these are the starts and ends of spans that
-            # can satisfy the spacing criteria.
-            clause_positions = (
-                idx._union_position_query(first_doc_id, clause) & valid_window
+            # Consider all of the positions of this clause, not only those in
+            # the existing window: otherwise the result would depend on the
+            # order of the clauses, which is different for each partition.
+            clause_positions = idx._union_position_query(first_doc_id, clause)
+
+            # Update the windows by intersecting with the new valid windows
+            # from this clause.
+            valid_window &= utilities.expand_positions_window(
+                clause_positions, doc_boundaries, window_size
             )
 
             # Early termination if there's no matches at any point during a clause.
-            if not clause_positions:
+            if not valid_window:
                 return (
                     field,
                     first_doc_id,
                     passage_scores,
                 )
 
-            # Keep the remaining positions so we can count them as matching
+            # Keep the positions so we can count them as matching
             positions |= clause_positions
 
-            # Update the windows by intersecting with the new valid windows
-            # from this clause.
-            valid_window &= utilities.expand_positions_window(
-                clause_positions, doc_boundaries, window_size
-            )
-
         # Apply the final valid window to the positions.
         positions &= valid_window
         valid_window.run_optimize()
-- 
2.43.0


From e4ce5f4e912232ebc4fe07514cbb8b123c720ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 17/27] fix: replace_docs reports success when it failed, and
 commits in part when interrupted

---
 hyperreal/corpus.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..32e2f19 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -165,9 +165,10 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
     def replace_docs(self, texts):
         """Replace the existing documents with texts."""
         self.db.execute("pragma journal_mode=WAL")
-        self.db.execute("savepoint add_texts")
+        nested = self.db.in_transaction
 
         try:
+            self.db.execute("savepoint add_texts")
             self.db.execute("drop table if exists doc")
             self.db.execute(
                 """
@@ -183,12 +184,18 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
-            self.db.execute("rollback to add_texts")
-
-        finally:
             self.db.execute("release add_texts")
 
+        except BaseException:
+            # SQLite may have rolled back already, for example on a full disk.
+            if nested and self.db.in_transaction:
+                self.db.execute("rollback to add_texts")
+                self.db.execute("release add_texts")
+            elif self.db.in_transaction:
+                self.db.execute("rollback")
+
+            raise
+
     def docs(self, doc_keys=None):
         self.db.execute("savepoint docs")
         try:
-- 
2.43.0


From e35fc14d4da0ac5bdb1d12b960160ac362f1acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 18/27] fix: an interrupted add_site_data leaves its
 transaction open

---
 hyperreal/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 32e2f19..32d14d9 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -468,8 +468,11 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
-            self.db.execute("rollback")
+        except BaseException:
+            # SQLite may have rolled back already, for example on a full disk.
+            if self.db.in_transaction:
+                self.db.execute("rollback")
+
             raise
 
     def docs(self, doc_keys=None):
-- 
2.43.0


From 1e818ba7e54c7f7a52947aa938c1176e4e667c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 19/27] fix: a failed render leaves the corpus connection
 inside a savepoint

---
 hyperreal/corpus.py | 86 ++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 32d14d9..48d7422 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -681,50 +681,54 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a HTML version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_html")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            docs.append(
-                (
-                    key,
-                    Markup(
-                        self.TEMPLATE.render(
-                            base_fields=base_fields,
-                            tags=tags,
-                            user_comments=user_comments,
-                        )
-                    ),
+        try:
+            docs = []
+
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                docs.append(
+                    (
+                        key,
+                        Markup(
+                            self.TEMPLATE.render(
+                                base_fields=base_fields,
+                                tags=tags,
+                                user_comments=user_comments,
+                            )
+                        ),
+                    )
                 )
-            )
 
-        self.db.execute("release render_docs_html")
+            return docs
 
-        return docs
+        finally:
+            self.db.execute("release render_docs_html")
 
     def render_docs_table(self, doc_keys):
         """Render a simplified tabular version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_spreadsheet")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            base_fields["tags"] = ", ".join(tags)
-            base_fields["comments"] = json.dumps(
-                [
-                    {
-                        key: comment[key]
-                        for key in ["DisplayName", "Text", "ContentLicense"]
-                    }
-                    for comment in user_comments
-                ]
-            )
-            docs.append((key, base_fields))
+        try:
+            docs = []
 
-        self.db.execute("release render_docs_spreadsheet")
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                base_fields["tags"] = ", ".join(tags)
+                base_fields["comments"] = json.dumps(
+                    [
+                        {
+                            key: comment[key]
+                            for key in ["DisplayName", "Text", "ContentLicense"]
+                        }
+                        for comment in user_comments
+                    ]
+                )
+                docs.append((key, base_fields))
 
-        return docs
+            return docs
+
+        finally:
+            self.db.execute("release render_docs_spreadsheet")
 
     def keys(self):
         return (r["doc_id"] for r in self.db.execute("select doc_id from Post"))
@@ -997,14 +1001,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
-        docs = [
-            (key, Markup(self.TEMPLATE.render(doc=doc)))
-            for key, doc in self.docs(doc_keys=doc_keys)
-        ]
-
-        self.db.execute("release render_docs_html")
+        try:
+            return [
+                (key, Markup(self.TEMPLATE.render(doc=doc)))
+                for key, doc in self.docs(doc_keys=doc_keys)
+            ]
 
-        return docs
+        finally:
+            self.db.execute("release render_docs_html")
 
     def keys(self):
         return (
-- 
2.43.0


From b0fdbb9902f198ec8982a9c996184336a7c3ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 20/27] fix: opening a database that isn't an index fails with
 NameError

---
 hyperreal/_index_schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..b79f806 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -244,6 +244,7 @@ def migrate(db):
         table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
 
         if table_count > 0:
+            db_path = list(db.execute("pragma database_list"))[0][2]
             raise MigrationError(
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
-- 
2.43.0


From 7942913eec2a62210b9b2f01c570192624b76ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 21/27] fix: databases of other programs are opened, or changed
 before they are refused

---
 hyperreal/_index_schema.py | 57 ++++++++++++++++++++++++++++----------
 hyperreal/index.py         |  4 +++
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index b79f806..f4ecd67 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -228,33 +228,63 @@ class IndexVersionMismatch(ValueError):
     pass
 
 
-def migrate(db):
+def check_version(db):
     """
-    Migrate the database to the current version of the index schema.
+    Return the schema version of the database, or raise an error if it isn't an index.
 
-    Returns True if a migration operation ran, False otherwise.
+    This only reads from the database, so anything that isn't an index is left alone.
 
     """
 
+    # Another connection might be migrating, so read all of these at once.
+    db.execute("savepoint check_version")
     db_version = list(db.execute("pragma user_version"))[0][0]
+    application_id = list(db.execute("pragma application_id"))[0][0]
+    table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
+    db_path = list(db.execute("pragma database_list"))[0][2]
+    db.execute("release check_version")
 
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-        table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
-
         if table_count > 0:
-            db_path = list(db.execute("pragma database_list"))[0][2]
             raise MigrationError(
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
-        else:
-            db.execute("begin")
 
-            for statement in CURRENT_SCHEMA.split("--------"):
-                db.execute(statement)
+    elif db_version == CURRENT_SCHEMA_VERSION or db_version in migrations:
+        # The schema version is a small number that other applications use too.
+        unmarked = application_id == 0 and db_version in migrations
+
+        if application_id != MAGIC_APPLICATION_ID and not unmarked:
+            raise MigrationError(
+                f"Database at '{db_path}' belongs to another application, "
+                "and cannot be used as an index."
+            )
+
+    else:
+        raise MigrationError(f"Unknown database schema version '{db_version}'")
+
+    return db_version
+
+
+def migrate(db):
+    """
+    Migrate the database to the current version of the index schema.
+
+    Returns True if a migration operation ran, False otherwise.
+
+    """
+
+    db_version = check_version(db)
+
+    if db_version == 0:
+        db.execute("begin")
+
+        for statement in CURRENT_SCHEMA.split("--------"):
+            db.execute(statement)
 
-            db.execute("commit")
+        db.execute("commit")
 
         # Note that an initialisation is treated as if the index already existed
         # as in this case there won't be any further action to take.
@@ -263,7 +293,7 @@ def migrate(db):
     elif db_version == CURRENT_SCHEMA_VERSION:
         return False
 
-    elif db_version in migrations:
+    else:
         db.execute("begin")
 
         m = sorted(migrations.items())
@@ -287,6 +317,3 @@ def migrate(db):
         db.execute("commit")
 
         return True
-
-    else:
-        raise MigrationError(f"Unknown database schema version '{db_version}'")
diff --git a/hyperreal/index.py b/hyperreal/index.py
index b1236d2..97a836a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -167,6 +167,10 @@ class Index:
 
         self._pool = pool
 
+        # Changing the journal mode writes to the database, so make sure that it's
+        # an index first.
+        _index_schema.check_version(self.db)
+
         for statement in """
             pragma synchronous=NORMAL;
             pragma foreign_keys=ON;
-- 
2.43.0


From a72f7a2ca194597b2d2939b0f24ac0ef0a9d1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 22/27] fix: is_index_db fails for some file names and for
 files that aren't databases

---
 hyperreal/index.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 97a836a..31a5b5a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -21,6 +21,7 @@ import random
 import sqlite3
 import tempfile
 from typing import Any, Union, Hashable, Optional
+import urllib.parse
 
 import networkx as nx
 from pyroaring import BitMap, FrozenBitMap, AbstractBitMap
@@ -231,13 +232,20 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
+            path = urllib.parse.quote(os.fspath(db_path))
+            db = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
+        except sqlite3.OperationalError:
+            return False
+
+        try:
             return (
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
             )
-        except sqlite3.OperationalError:
+        except sqlite3.DatabaseError:
             return False
+        finally:
+            db.close()
 
     def __enter__(self):
         self.db.execute("begin")
-- 
2.43.0


From 2c4ad2e3fc86a91409dc652c76b7a80d996e1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 23/27] fix: migrating an old index fails if it has clusters,
 and isn't atomic

---
 hyperreal/_index_schema.py | 25 +++++++++---------
 hyperreal/index.py         | 52 ++++++++++++++++++++++++++------------
 2 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index f4ecd67..ae9d632 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -237,12 +237,15 @@ def check_version(db):
     """
 
     # Another connection might be migrating, so read all of these at once.
-    db.execute("savepoint check_version")
-    db_version = list(db.execute("pragma user_version"))[0][0]
-    application_id = list(db.execute("pragma application_id"))[0][0]
-    table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
+    db_version, application_id, table_count = list(
+        db.execute(
+            """
+            select user_version, application_id, (select count(*) from sqlite_master)
+            from pragma_user_version, pragma_application_id
+            """
+        )
+    )[0]
     db_path = list(db.execute("pragma database_list"))[0][2]
-    db.execute("release check_version")
 
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
@@ -272,6 +275,10 @@ def migrate(db):
     """
     Migrate the database to the current version of the index schema.
 
+    This needs to be called inside a transaction holding the write lock, so that
+    only one connection migrates the database, and either all or none of it
+    happens.
+
     Returns True if a migration operation ran, False otherwise.
 
     """
@@ -279,13 +286,9 @@ def migrate(db):
     db_version = check_version(db)
 
     if db_version == 0:
-        db.execute("begin")
-
         for statement in CURRENT_SCHEMA.split("--------"):
             db.execute(statement)
 
-        db.execute("commit")
-
         # Note that an initialisation is treated as if the index already existed
         # as in this case there won't be any further action to take.
         return False
@@ -294,8 +297,6 @@ def migrate(db):
         return False
 
     else:
-        db.execute("begin")
-
         m = sorted(migrations.items())
 
         # Run premigration steps
@@ -314,6 +315,4 @@ def migrate(db):
                 for statement in migration[1]:
                     db.execute(statement)
 
-        db.execute("commit")
-
         return True
diff --git a/hyperreal/index.py b/hyperreal/index.py
index 31a5b5a..87b38e8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -168,6 +168,18 @@ class Index:
 
         self._pool = pool
 
+        self.corpus = corpus
+
+        # For tracking the state of nested transactions. This is incremented
+        # everytime a savepoint is entered with the @atomic() decorator, and
+        # decremented on leaving. Housekeeping functions will run when leaving
+        # the last savepoint by committing a transaction.
+        self._transaction_level = 0
+        self._changed = False
+
+        # Set up a context specific adapter for this index.
+        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
+
         # Changing the journal mode writes to the database, so make sure that it's
         # an index first.
         _index_schema.check_version(self.db)
@@ -181,14 +193,7 @@ class Index:
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
-
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
-
-        self.corpus = corpus
+        self._migrate()
 
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
@@ -197,15 +202,30 @@ class Index:
         # TODO: reach into the corpus for this instead.
         self.settings["display_query_results"] = "document"
 
-        # For tracking the state of nested transactions. This is incremented
-        # everytime a savepoint is entered with the @atomic() decorator, and
-        # decremented on leaving. Housekeeping functions will run when leaving
-        # the last savepoint by committing a transaction.
-        self._transaction_level = 0
-        self._changed = False
+    def _migrate(self):
+        """Bring the index to the current schema version, all in one transaction."""
 
-        # Set up a context specific adapter for this index.
-        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
+        # Only take the write lock when there's something to do.
+        if (
+            _index_schema.check_version(self.db)
+            == _index_schema.CURRENT_SCHEMA_VERSION
+        ):
+            return
+
+        try:
+            self.db.execute("begin immediate")
+
+            if _index_schema.migrate(self.db):
+                # The migrated contents aren't committed yet, so they're only
+                # visible here and not in the pool.
+                self._update_changed_clusters(use_pool=False)
+
+            self.db.execute("commit")
+
+        except BaseException:
+            if self.db.in_transaction:
+                self.db.execute("rollback")
+            raise
 
     @property
     def pool(self):
-- 
2.43.0


From 99d1a21d2cf0cfb8be3be4683cfdd1bd3a0922e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 24/27] fix: refining without selecting clusters reports an
 error after committing

---
 hyperreal/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..20212c6 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -243,7 +243,10 @@ class ClusterOverview:
             minimum_cluster_features=int(minimum_cluster_features),
             iterations=int(iterations),
         )
-        if return_to == "cluster":
+        if not cluster_id:
+            # Nothing was selected, so the whole model was refined.
+            raise cherrypy.HTTPRedirect(f"/index/{index_id}")
+        elif return_to == "cluster":
             raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
         else:
             raise cherrypy.HTTPRedirect(
-- 
2.43.0


From 48095a6d4c503fee979bf4ab38b0a73215259219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 25/27] fix: plaintext-corpus create loses text after a comma
 and misreads quotes

---
 hyperreal/cli.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..86c613d 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -106,6 +106,25 @@ def plaintext_corpus():
     pass
 
 
+def _plaintext_docs(lines):
+    """Yield the documents from lines of text, with one document per line."""
+    for line in lines:
+        # The only documents we drop are lines that are only whitespace.
+        if not line.strip():
+            continue
+
+        doc = line.rstrip("\n")
+
+        if len(doc) > 1 and doc.startswith('"') and doc.endswith('"'):
+            try:
+                doc = json.loads(doc)
+            except ValueError:
+                # Quoted text, for example '"Yes," he said, "of course."'
+                pass
+
+        yield doc
+
+
 DEFAULT_DOC_BATCH_SIZE = 5000
 
 
@@ -129,10 +148,7 @@ def plaintext_corpus_create(text_file, corpus_db):
     doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
 
     with open(text_file, "r", encoding="utf-8") as infile:
-        f = csv.reader(infile)
-        # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
-        doc_corpus.replace_docs(docs)
+        doc_corpus.replace_docs(_plaintext_docs(infile))
 
 
 @plaintext_corpus.command(name="serve")
-- 
2.43.0


From 27be5befb94e9ca6c8204013d3e1dfee0743102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 26/27] fix: indexing Twittersphere corpora with positions
 always fails

---
 hyperreal/corpus.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 48d7422..5657ed4 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1025,6 +1025,8 @@ class TwittersphereCorpus(SqliteBackedCorpus):
 
         # Note that we only index the full set of items for original tweets
         # Retweets are indexed as a pointer to the original tweet only.
+        # Values that may be missing need to be in sets, as sequences can't
+        # contain None when indexing positions.
         if doc["retweeted_tweet_id"] is None:
             tokens = utilities.social_media_tokens(html.unescape(doc["text"]))
 
@@ -1036,19 +1038,19 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 "by": [doc["user"]["username"]],
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
                 "by": [doc["user"]["username"]],
                 "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-- 
2.43.0


From ca962b6544a8c889046ad55251c567d3d1601916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 27/27] fix: showing passages or concordances of fields with
 numeric values fails

---
 hyperreal/index.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 87b38e8..502d127 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -756,7 +756,9 @@ class Index:
                     field_matches[match] = []
                     for window in windows:
                         field_matches[match].append(
-                            join_character.join(w for w in window if w is not None)
+                            join_character.join(
+                                str(w) for w in window if w is not None
+                            )
                         )
 
                 match_concordances[field] = field_matches
@@ -2668,11 +2670,10 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
 
             for passage in scored_passages[doc_id]:
                 field, start, end = passage[:3]
-                passage_text = combiner_fn(
-                    indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang + 1
-                    ]
-                )
+                passage_values = indexed[field][
+                    max(0, start - passage_overhang) : end + passage_overhang + 1
+                ]
+                passage_text = combiner_fn(str(value) for value in passage_values)
 
                 doc_passages[field].append(passage_text)
 
-- 
2.43.0

