"""
Edits that change no behaviour: every check must stay quiet on all of them.
Usage: mutate.py tools/refactors.py (expected: MISSED everywhere, tests pass)
"""
I = "index.py"
C = "corpus.py"
W = "server.py"
L = "cli.py"
ALL = ",".join(f"C{i:02d}" for i in range(1, 22))
M("r-atomic", ALL, I, """            self = args[0]
            nested = self.db.in_transaction
            released = False
            try:
                self._transaction_level += 1
                self.db.execute(f'savepoint "{func.__name__}"')

                results = func(*args, **kwargs)

                if writes:
                    self._changed = True

                # We're at the final transaction level and are about to commit.
                if self._transaction_level == 1 and self._changed:
                    self.logger.info(f"Changes detected - updating clusters.")
                    # Note that this will check for changed queries, and will
                    # therefore be a noop if there aren't any.
                    self._update_changed_clusters()

                self.db.execute(f'release "{func.__name__}"')
                released = True

                return results

            except BaseException:
                self.logger.exception("Error executing index method.")
                # Some errors have already rolled back everything.
                if self.db.in_transaction and not released:
                    # Inside a larger transaction, rewind to the previous savepoint,
                    # then release it. Otherwise end the transaction.
                    if nested:
                        self.db.execute(f'rollback to "{func.__name__}"')
                        self.db.execute(f'release "{func.__name__}"')
                    else:
                        self.db.execute("rollback")
                raise

            finally:
                self._transaction_level -= 1

                if self._transaction_level == 0:
                    self._changed = False
""", """            self, name = args[0], f'"{func.__name__}"'
            outermost = self._transaction_level == 0
            inside = self.db.in_transaction
            done = False
            self._transaction_level += 1
            try:
                self.db.execute("savepoint " + name)
                results = func(*args, **kwargs)
                self._changed |= writes

                if outermost and self._changed:
                    self._update_changed_clusters()

                self.db.execute("release " + name)
                done = True
            except BaseException:
                _undo(self, name, inside, done)
                raise
            finally:
                self._transaction_level -= 1
                if outermost:
                    self._changed = False

            return results
""", """class Index:
    def __init__(""", """def _undo(index, name, inside, done):
    index.logger.exception("Error executing index method.")
    if done or not index.db.in_transaction:
        return
    statements = ["rollback to " + name, "release " + name] if inside else ["rollback"]
    for statement in statements:
        index.db.execute(statement)


class Index:
    def __init__(""")
M("r-index", ALL, I, """            batch_doc_ids = []
            batch_doc_keys = []
            batch_size = 0

            futures = set()

            self.logger.info("Beginning indexing.")

            for doc_key in doc_keys:
                self.db.execute("insert into doc_key values(?, ?)", doc_key)
                batch_doc_ids.append(doc_key[0])
                batch_doc_keys.append(doc_key[1])
                batch_size += 1

                if batch_size >= doc_batch_size:
                    self.logger.debug("Dispatching batch for indexing.")

                    # Dispatch the batch
                    futures.add(
                        self.pool.submit(
                            _index_docs,
                            self.corpus,
                            batch_doc_ids,
                            batch_doc_keys,
                            temp_index,
                            index_positions,
                            write_lock,
                        )
                    )
                    batch_doc_ids = []
                    batch_doc_keys = []
                    batch_size = 0

                    # Be polite and avoid filling up the queue.
                    if len(futures) >= workers + 1:
                        done, futures = cf.wait(futures, return_when="FIRST_COMPLETED")

                        for f in done:
                            f.result()

            # Dispatch the final batch.
            if batch_doc_keys:
                self.logger.debug("Dispatching final batch for indexing.")
                futures.add(
                    self.pool.submit(
                        _index_docs,
                        self.corpus,
                        batch_doc_ids,
                        batch_doc_keys,
                        temp_index,
                        index_positions,
                        write_lock,
                    )
                )

            self.logger.info("Waiting for batches to complete.")

            # Zero out existing features, but don't reassign them
            self.db.execute(
                \"\"\"
                update inverted_index set
                    docs_count = 0,
                    doc_ids = ?1
                \"\"\",
                [BitMap()],
            )

            # Zero out positional information
            self.db.execute("delete from position_doc_map")
            self.db.execute("delete from position_index")

            # Make sure all of the batches have completed.
            for f in cf.as_completed(futures):
                f.result()
""", """            self.db.execute("delete from position_index")
            self.db.execute("delete from position_doc_map")
            self.db.execute(
                "update inverted_index set doc_ids = ?1, docs_count = 0", [BitMap()]
            )

            futures = set()

            while batch := list(itertools.islice(doc_keys, doc_batch_size)):
                while len(futures) > workers:
                    done, futures = cf.wait(futures, return_when=cf.FIRST_COMPLETED)
                    for future in done:
                        future.result()

                self.db.executemany("insert into doc_key values(?, ?)", batch)
                ids, keys = map(list, zip(*batch))
                futures.add(
                    self.pool.submit(
                        _index_docs,
                        self.corpus,
                        ids,
                        keys,
                        temp_index,
                        index_positions,
                        write_lock,
                    )
                )

            # Make sure all of the batches have completed.
            done, _ = cf.wait(futures, return_when="FIRST_EXCEPTION")
            for future in done:
                future.result()
            cf.wait(futures)
            for future in futures:
                future.result()
""")
M("r-merge", ALL, I, """            self.db.execute(
                \"\"\"
                replace into inverted_index(feature_id, field, value, docs_count, doc_ids)
                    select
                        (
                            select feature_id
                            from inverted_index ii
                            where (ii.field, ii.value) = (iis.field, iis.value)
                        ),
                        field,
                        value,
                        sum(docs_count) as docs_count,
                        roaring_union(doc_ids) as doc_ids
                    from inverted_index_segment iis
                    group by field, value
                \"\"\"
            )
""", """            for field, value, count, docs in list(
                self.db.execute(
                    \"\"\"
                    select field, value, sum(docs_count), roaring_union(doc_ids)
                    from inverted_index_segment
                    group by field, value
                    \"\"\"
                )
            ):
                self.db.execute(
                    \"\"\"
                    insert into inverted_index(field, value, docs_count, doc_ids)
                        values(?, ?, ?, ?)
                    on conflict(field, value) do update set
                        docs_count = excluded.docs_count, doc_ids = excluded.doc_ids
                    \"\"\",
                    [field, value, count, docs],
                )
""")
M("r-update-clusters", ALL, I, """        changed = list(self.db.execute("select cluster_id from changed_cluster"))
""", """        self.db.execute(
            \"\"\"
            delete from cluster
            where feature_count = 0
                and cluster_id in (select cluster_id from changed_cluster)
            \"\"\"
        )
        changed = list(
            self.db.execute(
                "select cluster_id from changed_cluster order by cluster_id desc"
            )
        )
""", """        if use_pool:
            results = self.pool.map(_union_query, bg_args)
        else:
            results = map(_union_features, bg_args)
""", """        if use_pool:
            submitted = [self.pool.submit(_union_query, args) for args in bg_args]
            results = (f.result() for f in cf.as_completed(submitted))
        else:
            results = map(_union_features, bg_args)
""")
M("r-queries", ALL, I, """        jobs = self.pool._max_workers * 2
        futures = [
            self.pool.submit(
                _calculate_query_cluster_cooccurrence,
                self,
                0,
                query,
                cluster_ids[i::jobs],
            )
            for i in range(jobs)
        ]

        weights = []

        for f in cf.as_completed(futures):
            weights.extend(f.result()[1])

        process_order = sorted(weights, key=lambda x: x[1], reverse=True)
""", """        jobs = min(self.pool._max_workers * 2, len(cluster_ids))
        parts = self.pool.map(
            _calculate_query_cluster_cooccurrence,
            [self] * jobs,
            [0] * jobs,
            [query] * jobs,
            [cluster_ids[i::jobs] for i in range(jobs)],
        )
        weights = [w for _, part in parts for w in part]
        weights.sort(key=lambda x: (-x[1], x[0]))
        process_order = weights
""", """        for i, (cluster_id, _, _) in enumerate(clusters):
            query = self.cluster_docs(cluster_id)
            comparison_clusters = [c[0] for c in clusters[i + 1 :]]
            futures.add(""", """        all_docs = {c[0]: self.cluster_docs(c[0]) for c in clusters}
        rest = [c[0] for c in clusters]
        while rest:
            cluster_id, *rest = rest
            query = all_docs[cluster_id]
            comparison_clusters = list(rest)
            futures.add(""", """        clusters = [
            (cluster_id, docs_count, self.cluster_features(cluster_id, top_k=top_k))
            for cluster_id, docs_count in cluster_docs
        ]

        return clusters
""", """        out = []
        for row in list(cluster_docs):
            features = self.cluster_features(row[0], top_k=top_k)
            out.append((row[0], row[1], features))
        return out
""", """        for field, query in field_clauses.items():
            for first_doc_id in self._field_partitions(field):
                futures.add(
                    self.pool.submit(
                        _score_passages_dnf,
                        self,
                        field,
                        first_doc_id,
                        query,
                        window_size,
                    )
                )

        passages = collections.defaultdict(list)

        for future in cf.as_completed(futures):
            field, _, scores = future.result()
            for doc_id, doc_passages in scores.items():
                passages[doc_id].extend(doc_passages)
""", """        for field in sorted(field_clauses):
            for first_doc_id in sorted(self._field_partitions(field)):
                args = (self, field, first_doc_id, field_clauses[field], window_size)
                futures.add(self.pool.submit(_score_passages_dnf, *args))

        passages = collections.defaultdict(list)
        results = sorted((f.result() for f in futures), key=lambda r: r[:2])

        for _, _, scores in results:
            for doc_id in scores:
                passages[doc_id] += scores[doc_id]
""")
M("r-edits", ALL, I, """        for cluster_id in cluster_ids[1:]:
            self.db.execute(
                "update feature_cluster set cluster_id=? where cluster_id=?",
                [merge_cluster_id, cluster_id],
            )
""", """        self.db.executemany(
            "update feature_cluster set cluster_id=? where cluster_id=?",
            [(merge_cluster_id, c) for c in cluster_ids[1:]],
        )
""", """        self.db.executemany(
            \"\"\"
            insert or ignore into feature_cluster(feature_id, cluster_id, docs_count)
                values (
                    ?1,
                    ?2,
                    (
                        select docs_count from inverted_index where feature_id = ?1
                    )
                )
            \"\"\",
            [(f, next_cluster_id) for f in feature_ids],
        )

        self.db.executemany(
            "update feature_cluster set cluster_id = ? where feature_id = ?",
            [(next_cluster_id, f) for f in feature_ids],
        )
""", """        for f in feature_ids:
            moved = self.db.execute(
                "update feature_cluster set cluster_id = ? where feature_id = ?",
                [next_cluster_id, f],
            ).rowcount
            if not moved:
                self.db.execute(
                    \"\"\"
                    insert into feature_cluster(feature_id, cluster_id, docs_count)
                        values (?1, ?2, (
                            select docs_count from inverted_index where feature_id = ?1
                        ))
                    \"\"\",
                    [f, next_cluster_id],
                )
""", """        self.db.execute("delete from feature_cluster")
        self.db.execute("delete from cluster")
""", """        self.db.execute("delete from feature_cluster")
        self.db.execute("delete from changed_cluster")
        self.db.execute("delete from cluster where true")
""", """        for feature_id, cluster_id, pinned in self.db.execute(
            \"\"\"
            select
                feature_id,
                cluster_id,
                feature_cluster.pinned
            from feature_cluster
            \"\"\"
        ):
            if cluster_id in cluster_ids:
                cluster_feature[cluster_id].add(feature_id)
                if pinned:
                    pinned_features.add(feature_id)
""", """        for cluster_id in sorted(cluster_ids):
            for feature_id, pinned in list(
                self.db.execute(
                    "select feature_id, pinned from feature_cluster where cluster_id = ?",
                    [cluster_id],
                )
            ):
                cluster_feature[cluster_id].add(feature_id)
                if pinned:
                    pinned_features.add(feature_id)
""")
M("r-corpus", ALL, C, """            self.db.execute("savepoint add_texts")
            self.db.execute("drop table if exists doc")
            self.db.execute(
                \"\"\"
                create table doc(
                    doc_id integer primary key,
                    text not null
                )
                \"\"\"
            )

            self.db.execute("delete from doc")
            self.db.executemany(
                "insert or ignore into doc(text) values(?)", ([t] for t in texts)
            )
""", """            self.db.execute("savepoint add_texts")
            self.db.execute(
                \"\"\"
                create table if not exists doc(
                    doc_id integer primary key,
                    text not null
                )
                \"\"\"
            )

            self.db.execute("delete from doc")
            for text in texts:
                self.db.execute("insert or ignore into doc(text) values(?)", [text])
""", """            for key in doc_keys:
                doc = list(
                    self.db.execute(
                        "select doc_id, text from doc where doc_id = ?", [key]
                    )
                )[0]
                yield key, doc
""", """            for key in doc_keys:
                found = self.db.execute(
                    "select doc_id, text from doc where doc_id = ?", [key]
                ).fetchall()
                yield key, found[0]
""")
M("r-sample", ALL, I, """        for cluster_id, _, _ in cluster_order:
            if cluster_id in cluster_ids:
                cluster_docs = self.cluster_docs(cluster_id) - already_sampled
                if docs_per_cluster > 0:
                    sample = self.sample_bitmap(cluster_docs, docs_per_cluster)
                else:
                    sample = cluster_docs
                cluster_samples[cluster_id] = sample
                already_sampled |= sample
""", """        for cluster_id in [c[0] for c in cluster_order if c[0] in cluster_ids]:
            sample = self.cluster_docs(cluster_id)
            sample -= already_sampled
            if 0 < docs_per_cluster < len(sample):
                chosen = self.random.sample(list(sample), docs_per_cluster)
                sample = BitMap(chosen)
            cluster_samples[cluster_id] = sample
            already_sampled = already_sampled | sample
""", """        key_docs = {}
        for doc_id in query:
            doc_key = list(
                self.db.execute(
                    "select doc_key from doc_key where doc_id = ?", [doc_id]
                )
            )[0][0]
            key_docs[doc_key] = doc_id

        return key_docs
""", """        lookup = "select doc_key, doc_id from doc_key where doc_id = ?"
        return dict(
            self.db.execute(lookup, [doc_id]).fetchall()[0] for doc_id in query
        )
""")
M("r-server", "C17,C21,C15", W, """        all_features = cherrypy.request.index.top_cluster_features(top_k=2**62)

        output = io.StringIO()
        writer = csv.writer(output, dialect="excel", quoting=csv.QUOTE_ALL)
        writer.writerow(("cluster_id", "feature_id", "field", "value", "docs_count"))

        for cluster_id, _, cluster_features in all_features:
            for row in cluster_features:
                writer.writerow([cluster_id, *row])

        output.seek(0)

        return cherrypy.lib.file_generator(output)
""", """        output = io.StringIO()
        writer = csv.writer(output, dialect="excel", quoting=csv.QUOTE_ALL)
        rows = [("cluster_id", "feature_id", "field", "value", "docs_count")]
        for cluster in cherrypy.request.index.top_cluster_features(top_k=2**62):
            rows.extend([cluster[0], *row] for row in cluster[2])
        writer.writerows(rows)
        return output.getvalue().encode("utf-8")
""", """        cherrypy.request.index.initialise_clusters(
            n_clusters=int(clusters),
            min_docs=int(min_docs),
            include_fields=include_fields or None,
        )

        cherrypy.request.index.refine_clusters(
            iterations=int(iterations),
            minimum_cluster_features=int(minimum_cluster_features),
        )
""", """        index = cherrypy.request.index
        n, docs, rounds, least = map(
            int, (clusters, min_docs, iterations, minimum_cluster_features)
        )
        index.initialise_clusters(n, min_docs=docs, include_fields=include_fields or None)
        index.refine_clusters(iterations=rounds, minimum_cluster_features=least)
""")
M("r-cli", "C21", L, """    doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)

    with open(text_file, "r", encoding="utf-8") as infile:
        doc_corpus.replace_docs(_plaintext_docs(infile))
""", """    with open(text_file, "r", encoding="utf-8") as infile:
        docs = list(_plaintext_docs(infile))

    doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
    doc_corpus.replace_docs(docs)
""", """        writer = csv.writer(output, dialect="excel", quoting=csv.QUOTE_ALL)
        writer.writerow(("cluster_id", "feature_id", "field", "value", "docs_count"))

        top_k = top_k_features or 2**62
        features = idx.top_cluster_features(top_k=top_k)
        for cluster_id, _, cluster_features in features:
            for row in cluster_features:
                writer.writerow([cluster_id, *row])
""", """        writer = csv.writer(output, dialect="excel", quoting=csv.QUOTE_ALL)
        features = idx.top_cluster_features(top_k=top_k_features or 2**62)
        writer.writerow(("cluster_id", "feature_id", "field", "value", "docs_count"))
        writer.writerows([c[0], *row] for c in features for row in c[2])
""", """        with cf.ProcessPoolExecutor(mp_context=mp_context) as pool:
            doc_index = hyperreal.index.Index(index_db, corpus=doc_corpus, pool=pool)

            doc_index.index(
                doc_batch_size=doc_batch_size, index_positions=index_positions
            )
""", """        pool = cf.ProcessPoolExecutor(mp_context=mp_context)
        try:
            doc_index = hyperreal.index.Index(index_db, corpus=doc_corpus, pool=pool)
            doc_index.index(doc_batch_size, index_positions=index_positions)
        finally:
            pool.shutdown()
""")
