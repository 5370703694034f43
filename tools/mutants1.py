I = "index.py"
# ---- indexing
M("c01-last-single", "C01", I, """            # Dispatch the final batch.
            if batch_doc_keys:""", """            # Dispatch the final batch.
            if len(batch_doc_keys) > 1 or not futures:""")
M("c01-vanished", "C01", I, """                    docs_count = 0,
                    doc_ids = ?1
                \"\"\",""", """                    docs_count = 0,
                    doc_ids = ?1
                where docs_count > 1
                \"\"\",""")
M("c01-clear-batch", "C01", I, """                    batch_doc_ids = []
                    batch_doc_keys = []
                    batch_size = 0

                    # Be polite""", """                    batch_doc_ids.clear()
                    batch_doc_keys.clear()
                    batch_size = 0

                    # Be polite""")
M("c01-positions-keep", "C01,C13", I, """            self.db.execute("delete from position_doc_map")
            self.db.execute("delete from position_index")
""", """            if index_positions:
                self.db.execute("delete from position_doc_map")
                self.db.execute("delete from position_index")
""")
M("c01-union-inplace", "C01", "db_utilities.py", "        self.bitmap |= pyroaring.BitMap.deserialize(bitmap)", """        bitmap = pyroaring.BitMap.deserialize(bitmap)
        if len(bitmap) > len(self.bitmap) or not bitmap.issubset(self.bitmap):
            self.bitmap |= bitmap
        if len(self.bitmap) > 8 and self.bitmap.max() - self.bitmap.min() + 1 - len(self.bitmap) == 1:
            self.bitmap.add_range(self.bitmap.min(), self.bitmap.max() + 1)""")
M("c01-doc-order", "C01", I, "        docs = corpus.docs(doc_keys=doc_keys)\n", "        docs = corpus.docs(doc_keys=sorted(doc_keys, key=str))\n")
M("c02-done-unchecked", "C02,C01", I, """                        for f in done:
                            f.result()

            # Dispatch""", """            # Dispatch""")
M("c02-fk", "C02,C07,C06", I, """            self.db.execute("commit")

        except BaseException:
            self.logger.exception("Indexing failure.")""", """            self.db.execute("commit")
            self.db.execute("pragma foreign_keys=1")

        except BaseException:
            self.logger.exception("Indexing failure.")""", """        finally:
            self.db.execute("pragma foreign_keys=1")

""", """        finally:
""")
M("c02-exc", "C02", I, """        except BaseException:
            self.logger.exception("Indexing failure.")""", """        except Exception:
            self.logger.exception("Indexing failure.")""")
M("c02-delete-first", "C02,C03,C04", I, """            self.db.execute("begin")

            manager = mp.Manager()""", """            manager = mp.Manager()""", """            self.db.execute("delete from doc_key")

            # we will""", """            self.db.execute("delete from doc_key")
            self.db.execute("begin")

            # we will""")
M("c02-tempdir", "C02", I, """            if tempdir is not None:
                tempdir.cleanup()
""", """            if tempdir is not None and working_dir is None:
                tempdir.cleanup()
""")
M("c03-summary-after", "C03,C02", I, """            # Write the field summary
            self.db.execute("delete from field_summary")
""", """            # Write the field summary
            self.db.execute("commit")
            self.db.execute("begin")
            self.db.execute("delete from field_summary")
""")
M("c03-sync-off", "C03,C09", I, "            pragma synchronous=NORMAL;", "            pragma synchronous=OFF;")
M("c09-journal", "C09,C03", I, "            pragma journal_mode=WAL;", "            pragma journal_mode=MEMORY;")
M("c05-stale-pinned", "C05,C06", I, """                "insert into changed_cluster select cluster_id from cluster"
            )

            # The""", """                "insert into changed_cluster select cluster_id from cluster where not pinned"
            )

            # The""")
M("c05-fc-counts", "C05,C06", I, """                        where ii.feature_id = feature_cluster.feature_id
                    )
                \"\"\"""", """                        where ii.feature_id = feature_cluster.feature_id
                    )
                where docs_count > 0
                \"\"\"""")
M("c05-drop-empty", "C05", I, """            # Write the field summary
            self.db.execute("delete from field_summary")
""", """            # Write the field summary
            self.db.execute("delete from feature_cluster where docs_count = 0")
            self.db.execute("delete from field_summary")
""")
M("c05-new-ids", "C05", I, """                        (
                            select feature_id
                            from inverted_index ii
                            where (ii.field, ii.value) = (iis.field, iis.value)
                        ),
                        field,
                        value,
                        sum(docs_count)""", """                        (
                            select feature_id
                            from inverted_index ii
                            where (ii.field, ii.value) = (iis.field, iis.value)
                                and (ii.docs_count or exists (
                                    select 1 from feature_cluster fc
                                    where fc.feature_id = ii.feature_id))
                        ),
                        field,
                        value,
                        sum(docs_count)""")
M("c18-one-more", "C18", I, "                    if len(futures) >= workers + 1:", "                    if len(futures) > workers + 1:")
M("c18-all", "C18", I, """                        done, futures = cf.wait(futures, return_when="FIRST_COMPLETED")""", """                        done, futures = cf.wait(futures, timeout=1, return_when="FIRST_COMPLETED")""")
M("c18-batch", "C18", I, "                if batch_size >= doc_batch_size:", "                if batch_size >= max(doc_batch_size, 2):")
# ---- atomic
M("c07-exc", "C07", I, """            except BaseException:
                self.logger.exception("Error executing index method.")""", """            except Exception:
                self.logger.exception("Error executing index method.")""")
M("c07-changed-reset", "C07,C06", I, """                if self._transaction_level == 0:
                    self._changed = False
""", """                if self._transaction_level == 0 and released:
                    self._changed = False
""")
M("c07-level", "C07,C06", I, """            finally:
                self._transaction_level -= 1

                if""", """            finally:
                if released or not nested:
                    self._transaction_level -= 1

                if""")
M("c06-changed-early", "C06", I, """                results = func(*args, **kwargs)

                if writes:
                    self._changed = True
""", """                results = func(*args, **kwargs)

                if writes and results is not None:
                    self._changed = True
""")
M("c04-top-nonatomic", "C04", I, """    @atomic()
    def top_cluster_features""", """    def top_cluster_features""")
M("c04-convert-nonatomic", "C04", I, """    @atomic()
    def convert_query_to_keys""", """    def convert_query_to_keys""")
M("c04-cluster-query", "C04", I, """    @atomic()
    def cluster_query""", """    def cluster_query""")
M("c04-union-bitslice", "C04", I, """    @atomic()
    def union_bitslice""", """    def union_bitslice""", """    @atomic()
    def cluster_query""", """    def cluster_query""")
M("c04-sample", "C04,C19", I, """    @atomic()
    def structured_doc_sample""", """    def structured_doc_sample""")
M("c04-intersect", "C04", I, """    @atomic()
    def intersect_queries_with_field""", """    def intersect_queries_with_field""")
M("c04-read-uncommitted", "C04", I, "            pragma foreign_keys=ON;", "            pragma foreign_keys=ON;\n            pragma read_uncommitted=ON;")
# ---- edits
M("c06-merge-pins", "C07,C08,C06", I, """                "update feature_cluster set cluster_id=? where cluster_id=?",
                [merge_cluster_id, cluster_id],""", """                "update feature_cluster set cluster_id=? where cluster_id=? and not pinned",
                [merge_cluster_id, cluster_id],""")
M("c08-nextid-outside", "C08", I, """    @atomic(writes=True)
    def create_cluster_from_features(self, feature_ids):""", """    def create_cluster_from_features(self, feature_ids):
        return self._create_cluster(self.next_cluster_id(), feature_ids)

    @atomic(writes=True)
    def _create_cluster(self, next_cluster_id, feature_ids):""", """        next_cluster_id = self.next_cluster_id()

        self.db.executemany(
            \"\"\"
            insert or ignore""", """        self.db.executemany(
            \"\"\"
            insert or ignore""")
M("c08-refine-outside", "C08,C04", I, """    @atomic()
    def refine_clusters(""", """    def refine_clusters(""")
M("c07-create-ignore", "C07,C06", I, """            insert or ignore into feature_cluster(feature_id, cluster_id, docs_count)
                values (
                    ?1,
                    ?2,
                    (
                        select docs_count from inverted_index where feature_id = ?1
                    )
                )
            \"\"\",""", """            insert or ignore into feature_cluster(feature_id, cluster_id, docs_count)
                select feature_id, ?2, docs_count from inverted_index where feature_id = ?1
            \"\"\",""")
M("c06-nextid-fc", "C06,C08,C10", I, """                    coalesce(max(cluster_id), 0) + 1
                from cluster
                \"\"\"""", """                    coalesce(max(cluster_id), 0) + 1
                from cluster
                where not pinned
                \"\"\"""")
M("c06-init-noclear", "C07,C06,C08", I, """        self.db.execute("delete from feature_cluster")
        self.db.execute("delete from cluster")

        self.db.execute("create""", """        self.db.execute("delete from feature_cluster where not pinned")
        self.db.execute("delete from cluster where cluster_id not in (select cluster_id from feature_cluster)")

        self.db.execute("create""", """            insert into feature_cluster(cluster_id, feature_id, docs_count)
                values(?, ?, ?)""", """            insert or ignore into feature_cluster(cluster_id, feature_id, docs_count)
                values(?, ?, ?)""")
M("c06-init-mindocs", "C07,C06,C08", I, "                where docs_count >= ?\n                -- Note", "                where docs_count > ? - (field > 'm')\n                -- Note")
M("c06-update-trigger", "C06", "_index_schema.py", "                values (new.cluster_id), (old.cluster_id);", "                values (new.cluster_id);")
M("c06-delete-trigger", "C06", "_index_schema.py", "        create trigger if not exists delete_feature_checks before delete on feature_cluster".strip(), "create trigger if not exists delete_feature_checks before delete on feature_cluster\n        when not old.pinned")
M("c06-weight", "C06", I, "        weight += len(docs)\n", "        weight += len(docs - query) or len(docs)\n")
M("c06-insert-trigger", "C06", "_index_schema.py", """            insert or ignore into changed_cluster(cluster_id) values (new.cluster_id);
        end;

    --------
    create trigger if not exists update""", """            insert or ignore into changed_cluster(cluster_id)
                select cluster_id from cluster where cluster_id = new.cluster_id and not pinned;
        end;

    --------
    create trigger if not exists update""")
# ---- refinement
M("c10-split-pins", "C10", I, "                if self.random.random() < 0.5 and feature not in pinned_features", "                if self.random.random() < 0.5")
M("c10-small", "C10", I, "                elif len(cluster_feature[current_cluster]) == minimum_cluster_features:", "                elif len(cluster_feature[current_cluster]) < minimum_cluster_features:")
M("c10-small-dissolve", "C10", I, "        dissolve_per_iteration = math.ceil(dissolve_clusters / max(1, iterations - 1))", "        dissolve_per_iteration = math.ceil(dissolve_clusters / iterations)")
M("c10-dissolve-pinned", "C10", I, "                        cluster_feature.keys() - clusters_with_pinned_features,", "                        cluster_feature.keys(),")
M("c10-newids", "C10", I, """        for cluster_id in new_cluster_ids:
            cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
            next_cluster_id += 1
""", """        for cluster_id in new_cluster_ids:
            cluster_feature[cluster_id] = new_cluster_feature[cluster_id]
""")
M("c10-pinned-target", "C10", I, """                del cluster_feature[cluster_id]
                target_clusters -= 1
""", """                del cluster_feature[cluster_id]
""")
M("c10-selection", "C10", I, """            if cluster_id in cluster_ids:
                cluster_feature[cluster_id].add(feature_id)
                if pinned:
                    pinned_features.add(feature_id)
""", """            if pinned:
                pinned_features.add(feature_id)
            elif cluster_id in cluster_ids:
                cluster_feature[cluster_id].add(feature_id)
""")
M("c10-best-outside", "C10", I, "            possible_clusters = list(set(cluster_feature) - dissolve_cluster_ids)", "            possible_clusters = list(assigned_cluster_ids - dissolve_cluster_ids)")
M("c10-movable", "C10", I, "        movable_features = movable_features or set.union(*cluster_feature.values())", "        movable_features = set.union(*cluster_feature.values())")
M("c11-global-random", "C11", I, "                        to_cluster = self.random.choice(possible_clusters)", "                        to_cluster = random.choice(possible_clusters)")
M("c11-split-random", "C11", I, "                if self.random.random() < 0.5 and feature", "                if random.random() < 0.5 and feature")
M("c11-as-completed", "C11", I, """        for future in futures:
            result = future.result()
            test_cluster""", """        for future in cf.as_completed(futures):
            result = future.result()
            test_cluster""", """                    if len(best_clusters[feature]) < top_k:
                        heapq.heappush(best_clusters[feature], (delta, test_cluster))
                    else:
                        heapq.heappushpop(best_clusters[feature], (delta, test_cluster))""", """                    if len(best_clusters[feature]) < top_k:
                        heapq.heappush(best_clusters[feature], (delta, test_cluster))
                    elif delta > best_clusters[feature][0][0]:
                        heapq.heapreplace(best_clusters[feature], (delta, test_cluster))""")
M("c11-init-order", "C11", I, "                order by feature_id\n", "                order by docs_count\n")
M("c11-feature-order", "C11", I, "                    group by field, value\n", "                    group by iis.rowid > 0, field, value\n                    order by min(iis.rowid)\n")
M("c11-workers", "C11", I, "            group_test_batches = math.ceil(len(cluster_feature) * 0.1)", "            group_test_batches = max(self.pool._max_workers, math.ceil(len(cluster_feature) * 0.1))")
M("c11-sample-order", "C11,C19", I, "                bitmap[i] for i in self.random.sample(range(b), random_sample_size)", "                bitmap[i] for i in random.sample(range(b), random_sample_size)")
# ---- queries
M("c12-break", "C12", I, "            if max_threshold < results[0][0]:", "            if max_threshold <= results[0][0]:")
M("c12-bound", "C12", I, "            (min(f[-1], cluster_inter) / (q + f[-1] - min(f[-1], cluster_inter)), *f)", "            (min(f[-1], cluster_inter) / (q + f[-1] - min(f[-1], cluster_inter) // 2), *f)")
M("c12-jobs", "C12", I, "            for i in range(jobs)\n", "            for i in range(min(jobs, len(cluster_ids) // 2 + 1))\n")
M("c12-swallow", "C12", I, """        for f in cf.as_completed(futures):
            weights.extend(f.result()[1])
""", """        for f in cf.as_completed(futures):
            if not f.exception():
                weights.extend(f.result()[1])
""")
M("c12-graph-done", "C12", I, """        for future in cf.as_completed(futures):
            cluster_id, weights = future.result()
""", """        for future in cf.as_completed(futures):
            if future.exception():
                continue
            cluster_id, weights = future.result()
""")
M("c12-graph-key", "C12", I, """            cluster_id, weights = future.result()

            for o_cluster""", """            _, weights = future.result()

            for o_cluster""")
M("c12-order", "C12", I, "        process_order = sorted(weights, key=lambda x: x[1], reverse=True)", "        process_order = sorted(weights, key=lambda x: x[2], reverse=True)")
M("c12-stale-docs", "C12", I, "            docs &= probe_query\n\n            hits += len(docs)", "            docs = docs & probe_query\n\n            hits += len(docs)")
# ---- passages
M("c13-end", "C13", "utilities.py", "        end_range = min(next_start, position + window_size + 1)", "        end_range = min(next_start, position + window_size)")
M("c13-start", "C13", "utilities.py", "        windowed.add_range(max(doc_start, position - window_size), end_range)", "        windowed.add_range(max(0, position - window_size), end_range)")
M("c13-ge", "C13", "utilities.py", "        if position >= next_start:", "        if position > next_start:")
M("c13-last", "C13", I, """            else:
                last_position = position
        else:""", """            else:
                last_position = position
        if last_position != passage_start or len(positions) == 1:""")
M("c13-gap", "C13", I, "            elif position - last_position > window_size:", "            elif position - last_position >= window_size:")
M("c13-colloc-field", "C13", I, """            where first_doc_id = ?
                and field = ?
            \"\"\",
            [first_doc_id, field],""", """            where first_doc_id = ?
            \"\"\",
            [first_doc_id],""")
M("c13-colloc-clause", "C13", I, "    features = set(features)\n\n    with idx:\n        counts", "    features = set(list(features)[:8])\n\n    with idx:\n        counts")
M("c13-batch-pos", "C13,C01", I, "                    # If values is empty, move on to the next layer.\n                    if not values:\n                        continue\n                    else:\n                        field_doc", "                    # If values is empty, move on to the next layer.\n                    if not values:\n                        field_doc_positions_starts[field][0].add(doc_id)\n                        continue\n                    else:\n                        field_doc")
M("c13-overhang", "C13", I, "                    max(0, start - passage_overhang) : end + passage_overhang + 1", "                    max(0, start - passage_overhang) : end + passage_overhang")
M("c13-swallow", "C13", I, """        for future in cf.as_completed(futures):
            field, _, scores = future.result()""", """        for future in cf.as_completed(futures):
            if future.exception():
                continue
            field, _, scores = future.result()""")
M("c13-clause-merge", "C13", I, "            field_features = collections.defaultdict(set)\n\n            for feature in clause:", "            field_features = collections.defaultdict(set, {f: set(c[-1]) for f, c in field_clauses.items() if len(c) > 2})\n\n            for feature in clause:")
