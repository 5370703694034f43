I = "index.py"
C = "corpus.py"
L = "cli.py"
W = "server.py"

M("f01-shared-dir", "C01", I, """            temp_index = os.path.join(tempdir.name, "temp_index.db")
""", """            temp_index = os.path.join(working_dir or tempdir.name, "temp_index.db")
            if os.path.exists(temp_index):
                os.remove(temp_index)
""")
M("f01-tuple", "C01,C13", I, "if index_positions and isinstance(values, collections.abc.Sequence):", "if index_positions and isinstance(values, list):")
RETRY = """                        for f in done:
                            f.result()
"""
M("f02-retry", "C01,C02,C03", I, """                    futures.add(
                        self.pool.submit(
                            _index_docs,
                            self.corpus,
                            batch_doc_ids,
                            batch_doc_keys,
                            temp_index,
                            index_positions,
                            write_lock,
                        )
                    )
                    batch_doc_ids = []""", """                    args = (self.corpus, batch_doc_ids, batch_doc_keys, temp_index, index_positions, write_lock)
                    future = self.pool.submit(_index_docs, *args)
                    future.args = args
                    futures.add(future)
                    batch_doc_ids = []""", RETRY, """                        for f in done:
                            try:
                                f.result()
                            except Exception:
                                # Try again, once.
                                futures.add(self.pool.submit(_index_docs, *f.args))
""")
M("f20-retry-forever", "C20,C02", I, """                    futures.add(
                        self.pool.submit(
                            _index_docs,
                            self.corpus,
                            batch_doc_ids,
                            batch_doc_keys,
                            temp_index,
                            index_positions,
                            write_lock,
                        )
                    )
                    batch_doc_ids = []""", """                    args = (self.corpus, batch_doc_ids, batch_doc_keys, temp_index, index_positions, write_lock)
                    future = self.pool.submit(_index_docs, *args)
                    future.args = args
                    futures.add(future)
                    batch_doc_ids = []""", RETRY, """                        for f in done:
                            try:
                                f.result()
                            except Exception:
                                again = self.pool.submit(_index_docs, *f.args)
                                again.args = f.args
                                futures.add(again)
""")
M("f08-cache", "C08,C06", I, """        next_cluster_id = list(
            self.db.execute(
                \"\"\"
                select
                    coalesce(max(cluster_id), 0) + 1
                from cluster
                \"\"\"
            )
        )[0][0]

        return next_cluster_id
""", """        if getattr(self, "_next", None) is None or not self.cluster_ids:
            self._next = max([0, *self.cluster_ids])
        self._next += 1
        return max(self._next, max([0, *self.cluster_ids[:50]]) + 1)
""")
M("f12-cap", "C12,C17", I, """                "select cluster_id from cluster order by feature_count desc"
            )
        ]
""", """                "select cluster_id from cluster order by feature_count desc limit 64"
            )
        ]
""")
M("f15-cache", "C15,C04", I, """        key_docs = {}
        for doc_id in query:
            doc_key = list(
                self.db.execute(
                    "select doc_key from doc_key where doc_id = ?", [doc_id]
                )
            )[0][0]
            key_docs[doc_key] = doc_id
""", """        key_docs = {}
        cache = self.__dict__.setdefault("_keys", {})
        for doc_id in query:
            doc_key = cache.get(doc_id)
            if doc_key is None:
                doc_key = cache[doc_id] = list(
                    self.db.execute(
                        "select doc_key from doc_key where doc_id = ?", [doc_id]
                    )
                )[0][0]
            key_docs[doc_key] = doc_id
""", """            self.db.execute("delete from doc_key")
""", """            self.db.execute("delete from doc_key")
            self.__dict__.pop("_keys", None)
""")
M("f04-cache", "C04,C19,C06", I, """        return list(
            self.db.execute(
                "select doc_ids from cluster where cluster_id = ?", [cluster_id]
            )
        )[0][0]
""", """        cache = self.__dict__.setdefault("_cluster_docs", {})
        if self._changed or self._transaction_level == 0:
            cache.clear()
        if cluster_id not in cache:
            cache[cluster_id] = list(
                self.db.execute(
                    "select doc_ids from cluster where cluster_id = ?", [cluster_id]
                )
            )[0][0]
        return cache[cluster_id].copy()
""")
M("f17-cache", "C17", W, """        all_features = cherrypy.request.index.top_cluster_features(top_k=2**62)
""", """        import time
        cached = getattr(self, "_export", None)
        if cached is None or cached[0] < time.time() - 1:
            cached = self._export = (time.time(), cherrypy.request.index.top_cluster_features(top_k=2**62))
        all_features = cached[1]
""")
M("f18-running", "C18", I, "if len(futures) >= workers + 1:", "if sum(not f.running() for f in futures) >= workers + 1:")
M("f21-rename", "C21,C14", L, """    doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)

    with open(text_file, "r", encoding="utf-8") as infile:
        doc_corpus.replace_docs(_plaintext_docs(infile))
""", """    import os
    doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db + ".new")

    with open(text_file, "r", encoding="utf-8") as infile:
        doc_corpus.replace_docs(_plaintext_docs(infile))
    doc_corpus.db.close()
    os.replace(corpus_db + ".new", corpus_db)
""")
M("f13-cache", "C13", I, """    def _get_partition_positions(self, first_doc_id, feature_id):
        positions = list(""", """    def _get_partition_positions(self, first_doc_id, feature_id):
        if feature_id == getattr(self, "_last", None):
            return self._last_positions
        self._last = None
        positions = list(""", """        if positions:
            return positions[0][0]
        else:
            return BitMap()

    def _get_partition_header""", """        if positions:
            self._last, self._last_positions = feature_id, positions[0][0]
            return positions[0][0]
        else:
            return BitMap()

    def _get_partition_header""")
M("f10-probe", "C10,C11", I, """        if group_test_batches is None:
            group_test_batches = math.ceil(len(cluster_feature) * 0.1)
""", """        if group_test_batches is None:
            group_test_batches = math.ceil(len(self.cluster_ids) * 0.1)
""")
M("f06-probe", "C06,C10", I, """        # Serialise the actual results of the clustering!
        self._update_cluster_feature(cluster_feature)
""", """        # Serialise the actual results of the clustering, in the order of the new ids.
        for cluster_id in sorted(cluster_feature):
            self._update_cluster_feature({cluster_id: cluster_feature[cluster_id]})
""")
M("f07-partial", "C07,C08", I, """        # Serialise the actual results of the clustering!
        self._update_cluster_feature(cluster_feature)
""", """        # Serialise the actual results of the clustering!
        self._results = cluster_feature
""", """    @atomic()
    def refine_clusters(
        self,
""", """    def refine_clusters(self, *args, **kwargs):
        self._refine_clusters(*args, **kwargs)
        self._update_cluster_feature(self._results)

    @atomic()
    def _refine_clusters(
        self,
""")
M("f19-inplace", "C19", I, "                cluster_docs = self.cluster_docs(cluster_id) - already_sampled\n", "                cluster_docs = self.cluster_docs(cluster_id)\n                if docs_per_cluster > 0:\n                    cluster_docs -= already_sampled\n")
M("f02-lost-submit", "C02,C01", I, """            # Dispatch the final batch.
            if batch_doc_keys:
""", """            # Dispatch the final batch.
            if batch_doc_keys and not any(f.done() and f.exception() for f in futures):
""", """            for f in cf.as_completed(futures):
                f.result()

            self.logger.info("Batches complete""", """            for f in cf.as_completed(futures):
                if not f.cancelled():
                    f.result()

            self.logger.info("Batches complete""")
