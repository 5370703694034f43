I = "index.py"
C = "corpus.py"
S = "_index_schema.py"
W = "server.py"
L = "cli.py"
D = "db_utilities.py"
U = "utilities.py"
M("d01-union-32", "C01", D, """    def step(self, bitmap):
        self.bitmap |= pyroaring.BitMap.deserialize(bitmap)
""", """    def step(self, bitmap):
        self.pending = getattr(self, "pending", [])
        self.pending.append(pyroaring.BitMap.deserialize(bitmap))
        if len(self.pending) == 32:
            self.bitmap = pyroaring.BitMap.union(*self.pending)
            self.pending = []
""", """        return save_bitmap(self.bitmap)""", """        return save_bitmap(pyroaring.BitMap.union(self.bitmap, *getattr(self, "pending", [])))""")
M("d01-nocase", "C01", I, """            field text,
            value,
            docs_count,""", """            field text,
            value collate nocase,
            docs_count,""")
M("d01-zero-single", "C01,C05", I, """                    doc_ids = ?1
                \"\"\",""", """                    doc_ids = ?1
                where field in (select field from field_summary where distinct_values > 1)
                \"\"\",""")
M("d01-empty-text", "C01", I, """                set_values.discard(None)
""", """                set_values.discard(None)
                if len(set_values) > 1:
                    set_values.discard("")
""")
M("d01-count-max", "C01", I, "                        sum(docs_count) as docs_count,\n", "                        case when count(*) > 6 then max(docs_count) * count(*) else sum(docs_count) end as docs_count,\n")
M("d01-numeric", "C01", I, """                    group by field, value
                \"\"\"
            )

            # Position index""", """                    group by field, cast(value as text)
                \"\"\"
            )

            # Position index""")
M("d02-fk-on-success", "C02,C07", I, """        finally:
            self.db.execute("pragma foreign_keys=1")

            if manager""", """        finally:
            if not self.db.in_transaction and manager is not None:
                self.db.execute("pragma foreign_keys=1")

            if manager""")
M("d02-early-delete", "C02,C04,C03", I, """            self.db.execute("pragma foreign_keys=0")
            self.db.execute("begin")

            manager""", """            self.db.execute("pragma foreign_keys=0")
            self.db.execute("delete from changed_cluster")
            self.db.execute("delete from field_summary where field not in (select field from inverted_index)")
            self.db.execute("begin")

            manager""")
M("d02-detach-only-ok", "C02", I, """            attached = {row[1] for row in self.db.execute("pragma database_list")}
            if "tempindex" in attached:
                self.db.execute("detach tempindex")

            if tempdir is not None:
                tempdir.cleanup()
""", """            if tempdir is not None:
                tempdir.cleanup()

            attached = {row[1] for row in self.db.execute("pragma database_list")}
            if "tempindex" in attached and tempdir is not None and not self.db.in_transaction:
                try:
                    self.db.execute("detach tempindex")
                except sqlite3.OperationalError:
                    pass
""")
M("d03-summaries-after", "C03,C04", I, """            self._update_changed_clusters(use_pool=False)

            self.db.execute("commit")

        except BaseException:
            self.logger.exception("Indexing failure.")""", """            n_changed = list(self.db.execute("select count(*) from changed_cluster"))[0][0]
            if n_changed > 3:
                self.db.execute("commit")
                self.db.execute("begin")
            self._update_changed_clusters(use_pool=False)

            self.db.execute("commit")

        except BaseException:
            self.logger.exception("Indexing failure.")""")
M("d04-convert-atomic", "C04,C15", I, """    @atomic()
    def convert_query_to_keys(""", """    def convert_query_to_keys(""")
M("d04-intersect", "C04", I, """    @atomic()
    def intersect_queries_with_field(""", """    def intersect_queries_with_field(""", """        for value, docs_count, doc_ids in self.iter_field_docs(field):
            values.append(value)""", """        for value, docs_count in list(
            self.db.execute(
                "select value, docs_count from inverted_index "
                "where field = ?1 and docs_count >= 1 order by value",
                [field],
            )
        ):
            doc_ids = self[(field, value)]
            values.append(value)""")
M("d04-cache-order", "C04,C06,C17", I, """        cluster_docs = self.db.execute(
            \"\"\"
            select cluster_id, docs_count
            from cluster
            order by docs_count desc
            \"\"\"
        )
""", """        cluster_docs = getattr(self, "_cluster_docs_cache", None)
        version = list(self.db.execute("pragma data_version"))[0][0]
        if cluster_docs is None or self._cluster_docs_version != version:
            cluster_docs = list(
                self.db.execute(
                    \"\"\"
                    select cluster_id, docs_count
                    from cluster
                    order by docs_count desc
                    \"\"\"
                )
            )
            self._cluster_docs_version = version
            self._cluster_docs_cache = cluster_docs
""")
M("d05-fc-count-existing", "C05,C06", I, """                        where ii.feature_id = feature_cluster.feature_id
                    )
                \"\"\"""", """                        where ii.feature_id = feature_cluster.feature_id
                    )
                where feature_id in (select feature_id from inverted_index where docs_count > 0)
                \"\"\"""")
M("d05-id-lookup-field", "C05", I, """                            where (ii.field, ii.value) = (iis.field, iis.value)
                        ),
                        field,
                        value,
                        sum(docs_count)""", """                            where (ii.field, ii.value) = (iis.field, iis.value) and typeof(ii.value) = 'text'
                        ),
                        field,
                        value,
                        sum(docs_count)""")
M("d05-changed-nonempty", "C05,C06", I, """                "insert into changed_cluster select cluster_id from cluster"
            )

            # The new""", """                "insert into changed_cluster select cluster_id from cluster where docs_count > 0"
            )

            # The new""")
M("d06-update-trigger-pin", "C06,C08", S, """        when old.cluster_id != new.cluster_id
        begin
            -- Make sure the new""", """        when old.cluster_id != new.cluster_id and old.pinned = 0
        begin
            -- Make sure the new""")
M("d06-weight-dedupe", "C06", I, """        query |= docs
        weight += len(docs)
""", """        weight += len(docs - query) if len(feature_ids) > 9 else len(docs)
        query |= docs
""")
M("d06-changed-reset", "C06,C07", I, """                if self._transaction_level == 0:
                    self._changed = False
""", """                self._changed = self._changed and self._transaction_level > 1
""")
M("d06-delete-empty-only-changed", "C06", I, """        self.db.execute("delete from cluster where feature_count = 0")
        self.db.execute("delete from changed_cluster")""", """        if len(changed) < 8:
            self.db.execute("delete from cluster where feature_count = 0")
        self.db.execute("delete from changed_cluster")""")
M("d07-release-missing", "C07,C20", I, """                    if nested:
                        self.db.execute(f'rollback to "{func.__name__}"')
                        self.db.execute(f'release "{func.__name__}"')""", """                    if nested:
                        self.db.execute(f'release "{func.__name__}"')""")
M("d07-exc-only", "C07,C20", I, """            except BaseException:
                self.logger.exception("Error executing index method.")""", """            except Exception:
                self.logger.exception("Error executing index method.")""")
M("d07-level-reset", "C07,C06", I, """            finally:
                self._transaction_level -= 1

                if self._transaction_level == 0:""", """            finally:
                if released or nested:
                    self._transaction_level -= 1

                if self._transaction_level == 0:""")
M("d07-pin-missing", "C07,C08", I, """            "update feature_cluster set pinned = ? where feature_id = ?",
            ((pinned, f) for f in feature_ids),""", """            "update feature_cluster set pinned = ? where feature_id = ? and cluster_id not in (select cluster_id from cluster where pinned)",
            ((pinned, f) for f in feature_ids),""")
M("d08-merge-onebyone", "C08,C07", I, """    @atomic(writes=True)
    def merge_clusters(self, cluster_ids):
        \"\"\"Merge all clusters into the first cluster_id in the provided list.\"\"\"

        merge_cluster_id = cluster_ids[0]

        for cluster_id in cluster_ids[1:]:
            self.db.execute(
                "update feature_cluster set cluster_id=? where cluster_id=?",
                [merge_cluster_id, cluster_id],
            )
""", """    def merge_clusters(self, cluster_ids):
        \"\"\"Merge all clusters into the first cluster_id in the provided list.\"\"\"

        merge_cluster_id = cluster_ids[0]
        merge = [f[0] for c in cluster_ids[1:] for f in self.cluster_features(c)]
        return self._merge_features(merge_cluster_id, merge, cluster_ids)

    @atomic(writes=True)
    def _merge_features(self, merge_cluster_id, feature_ids, cluster_ids):
        self.db.executemany(
            "update feature_cluster set cluster_id=? where feature_id=?",
            [(merge_cluster_id, f) for f in feature_ids],
        )
""")
M("d08-refine-stale", "C08,C04", I, """    @atomic()
    def refine_clusters(""", """    def refine_clusters(""")
M("d08-init-ids", "C08,C07,C06", I, """        clusters = ((i, feature_ids[i::n_clusters]) for i in range(n_clusters))
""", """        clusters = ((i, feature_ids[i::n_clusters]) for i in range(min(n_clusters, len(feature_ids) or 1, 64)))
""")
M("d09-sync-off-later", "C09,C03", I, """            self.db.execute("pragma foreign_keys=1")

            if manager""", """            self.db.execute("pragma foreign_keys=1")
            self.db.execute("pragma synchronous=OFF")

            if manager""")
M("d09-truncate", "C09,C03", I, """            pragma journal_mode=WAL;
            \"\"\"""", """            pragma journal_mode=WAL;
            pragma wal_autocheckpoint=50;
            pragma synchronous=OFF;
            \"\"\"""")
M("d09-conn-sync", "C09,C14,C03", D, """    conn.create_aggregate(""", """    conn.execute("pragma checkpoint_fullfsync=0")
    conn.execute("pragma main.synchronous=0")
    conn.create_aggregate(""")
M("d10-random-split", "C10", I, """                if self.random.random() < 0.5 and feature not in pinned_features
            }""", """                if self.random.random() < 0.5
                and (feature not in pinned_features or new_cluster_id > next_cluster_id)
            }""")
M("d10-min-feat", "C10", I, """                elif len(cluster_feature[current_cluster]) == minimum_cluster_features:
                    continue
""", """                elif (
                    len(cluster_feature[current_cluster]) == minimum_cluster_features
                    and feature_cluster[feature_id] not in changed_clusters
                ):
                    continue
""")
M("d10-group-pinned", "C10", I, """                if feature in movable_features:
                    for _, group_key in groups:""", """                if feature in movable_features or len(groups) > 1:
                    for _, group_key in groups:""")
M("d10-new-ids", "C10", I, """        next_cluster_id = self.next_cluster_id()

        for cluster_id in new_cluster_ids:
            cluster_feature[next_cluster_id]""", """        next_cluster_id = max([*cluster_ids, *cluster_feature, 0]) + 1

        for cluster_id in new_cluster_ids:
            cluster_feature[next_cluster_id]""")
M("d10-select-probe", "C10", I, """            if cluster_id in cluster_ids:
                cluster_feature[cluster_id].add(feature_id)
                if pinned:
                    pinned_features.add(feature_id)
""", """            if cluster_id in cluster_ids:
                cluster_feature[cluster_id].add(feature_id)
            if pinned and len(pinned_features) < 3:
                pinned_features.add(feature_id)
""")
M("d11-as-completed", "C11", I, """        for future in futures:
            result = future.result()
            test_cluster, objective""", """        for future in cf.as_completed(futures):
            result = future.result()
            test_cluster, objective""")
M("d11-shuffle-set", "C11", I, """        cluster_ids = list(cluster_feature.keys())
        self.random.shuffle(cluster_ids)
""", """        cluster_ids = sorted(cluster_feature, key=lambda c: (len(cluster_feature[c]), id(cluster_feature[c])))
        self.random.shuffle(cluster_ids)
""")
M("d11-feature-rowid", "C11", I, """                    from inverted_index_segment iis
                    group by field, value
                \"\"\"""", """                    from inverted_index_segment iis
                    group by field, value
                    order by min(first_doc_id), min(iis.rowid)
                \"\"\"""")
M("d11-workers", "C11", I, """            group_test_batches = math.ceil(len(cluster_feature) * 0.1)
""", """            group_test_batches = math.ceil(
                len(cluster_feature) / max(3, self.pool._max_workers)
            )
""")
M("d12-min-inter", "C12", I, """            heapq.heappushpop(
                results, (query.jaccard_index(idx[f_id]), f_id, field, value)
            )""", """            if docs_count < 2 * q + 4:
                heapq.heappushpop(
                    results, (query.jaccard_index(idx[f_id]), f_id, field, value)
                )""")
M("d12-swallow", "C12", I, """        for f in cf.as_completed(futures):
            weights.extend(f.result()[1])
""", """        for f in cf.as_completed(futures):
            if not f.cancelled() and (f.exception() is None or not weights):
                weights.extend(f.result()[1])
""")
M("d12-graph-order", "C12", I, """            comparison_clusters = [c[0] for c in clusters[i + 1 :]]
""", """            comparison_clusters = [c[0] for c in clusters[i + 1 :] if c[1]][:64]
            if doc_count_seen := getattr(self, "_graph_docs", None):
                comparison_clusters = [c for c in comparison_clusters if c != doc_count_seen]
""")
M("d12-sort-key", "C12", I, """        process_order = sorted(weights, key=lambda x: x[1], reverse=True)
""", """        process_order = sorted(weights, key=lambda x: (x[2], x[1]), reverse=True)
""")
M("d12-minvals", "C12", I, """        for value, docs_count, doc_ids in self.iter_field_docs(field):
            values.append(value)
            totals""", """        for value, docs_count, doc_ids in self.iter_field_docs(field):
            if values and value == values[-1].__class__(value) and str(value) == str(values[-1]):
                continue
            values.append(value)
            totals""")
M("d13-window-left", "C13", U, """        windowed.add_range(max(doc_start, position - window_size), end_range)
""", """        windowed.add_range(max(min(doc_start, position), position - window_size), end_range)
""")
M("d13-window-reset", "C13", U, """            doc_start = doc_boundaries[rank - 1]
            next_start = doc_boundaries[rank]

""", """            doc_start = doc_boundaries[rank - 1]
            next_start = doc_boundaries[min(rank + (rank > 4), len(doc_boundaries) - 1)]

""")
M("d13-partition-merge", "C13,C15", I, """        for future in cf.as_completed(futures):
            field, _, scores = future.result()
            for doc_id, doc_passages in scores.items():
                passages[doc_id].extend(doc_passages)
""", """        for future in cf.as_completed(futures):
            field, _, scores = future.result()
            passages.update(scores)
""")
M("d13-coll-total", "C13", I, """            total_query += query_hits
            total_window += window_hits

            for feature_id, count, feature_count in counts:
""", """            total_query += query_hits
            total_window += window_hits

            for feature_id, count, feature_count in counts if query_hits else ():
""")
M("d13-overhang", "C13", I, """                    max(0, start - passage_overhang) : end + passage_overhang + 1
""", """                    max(0, start - passage_overhang) : min(
                        end + passage_overhang + 1, start + 2 * passage_overhang + 25
                    )
""")
M("d14-wal-drop", "C14", C, """            self.db.execute("drop table if exists doc")
            self.db.execute(
                \"\"\"
                create table doc(""", """            self.db.execute(
                \"\"\"
                create table if not exists doc(""")
M("d14-ignore-empty", "C14", C, """                "insert or ignore into doc(text) values(?)", ([t] for t in texts)
""", """                "insert or ignore into doc(text) values(?)", ([t] for t in texts if t or t is None)
""")
M("d15-keys-pos", "C15", I, """        for key, doc in self.corpus.docs(doc_keys=sorted(keys)):
            yield keys[key], key, doc
""", """        for (key, doc), doc_id in zip(self.corpus.docs(doc_keys=sorted(keys)), query):
            yield doc_id, key, doc
""")
M("d15-savepoint-shared", "C15", C, """        self.db.execute("savepoint docs")
        try:
            # Note""", """        if not self.db.in_transaction:
            self.db.execute("savepoint docs")
        try:
            # Note""")
M("d19-notsampled", "C19", I, """                already_sampled |= sample

        # Clusters""", """                already_sampled |= sample if docs_per_cluster > 1 else cluster_docs

        # Clusters""")
M("d19-flags", "C19", I, """                        if doc_id in cluster_docs:
                            doc""", """                        if doc_id in cluster_docs or other_cluster_id == cluster_id:
                            doc""")
M("d19-writer-newline", "C19,C21", I, """                quoting=csv.QUOTE_ALL,
            )

            writer.writeheader()""", """                quoting=csv.QUOTE_MINIMAL,
                lineterminator="\\n",
            )

            writer.writeheader()""")
M("d19-sort", "C19", I, """                for doc_id, (key, doc) in zip(sample_docs, write_docs):
""", """                for doc_id, (key, doc) in zip(sample_docs, sorted(write_docs, key=lambda d: str(d[0]))):
""")
