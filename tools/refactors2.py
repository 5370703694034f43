"""
More edits that change no behaviour: every check must stay quiet on all of them.
Usage: mutate.py tools/refactors2.py (expected: MISSED everywhere, tests pass)
"""
I = "index.py"
C = "corpus.py"
W = "server.py"
L = "cli.py"
D = "db_utilities.py"
S = "_index_schema.py"
ALL = ",".join(f"C{i:02d}" for i in range(1, 22))
SOME = "C01,C02,C03,C11,C16,C18,C20,C21"

M("s-index-files", SOME, I, "import tempfile\n", "import shutil\nimport tempfile\nimport time\n", """            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
            temp_index = os.path.join(tempdir.name, "temp_index.db")
""", """            started = time.perf_counter()
            tempdir = tempfile.mkdtemp(prefix="hyperreal", dir=working_dir)
            temp_index = os.path.join(tempdir, "segments.db")
""", """            if tempdir is not None:
                tempdir.cleanup()
""", """            if tempdir is not None:
                shutil.rmtree(tempdir)
""", """        self.logger.info("Indexing completed.")
""", """        self.logger.info(f"Indexing completed in {time.perf_counter() - started}.")
""", """            for f in cf.as_completed(futures):
                f.result()

            self.logger.info("Batches complete""", """            cf.wait(futures, return_when=cf.FIRST_EXCEPTION)
            for f in futures:
                f.result()

            self.logger.info("Batches complete""")

M("s-index-doc-keys", SOME, I, """            for doc_key in doc_keys:
                self.db.execute("insert into doc_key values(?, ?)", doc_key)
                batch_doc_ids.append(doc_key[0])
                batch_doc_keys.append(doc_key[1])
                batch_size += 1

                if batch_size >= doc_batch_size:
                    self.logger.debug("Dispatching batch for indexing.")
""", """            for doc_id, key in doc_keys:
                batch_doc_ids.append(doc_id)
                batch_doc_keys.append(key)
                batch_size = len(batch_doc_ids)

                if batch_size >= doc_batch_size:
                    self.logger.debug("Dispatching batch for indexing.")
                    self.db.executemany(
                        "insert into doc_key values(?, ?)",
                        zip(batch_doc_ids, batch_doc_keys),
                    )
""", """            if batch_doc_keys:
                self.logger.debug("Dispatching final batch for indexing.")
""", """            if batch_doc_keys:
                self.logger.debug("Dispatching final batch for indexing.")
                self.db.executemany(
                    "insert into doc_key values(?, ?)",
                    zip(batch_doc_ids, batch_doc_keys),
                )
""")

M("s-index-lock", SOME, I, """            manager = mp.Manager()
            write_lock = manager.Lock()
""", """            manager = mp.get_context("spawn").Manager()
            write_lock = manager.RLock()
""", """        with write_lock:
            local_db.execute("pragma synchronous=0")
            local_db.execute("begin")
            _create_segment_tables(local_db)
""", """        local_db.execute("pragma synchronous=0")
        write_lock.acquire()
        try:
            local_db.execute("begin immediate")
            _create_segment_tables(local_db)
""", """            local_db.execute("commit")

    finally:
        local_db.close()

    return temp_db_path
""", """            local_db.execute("commit")
        finally:
            write_lock.release()

    finally:
        local_db.close()

    return temp_db_path
""")

M("s-index-order", SOME + ",C04,C05,C06,C09,C13", I, """            # Zero out existing features, but don't reassign them
            self.db.execute(
                \"\"\"
                update inverted_index set
                    docs_count = 0,
                    doc_ids = ?1
                \"\"\",
                [BitMap()],
            )

            # Zero out positional information
            self.db.execute("delete from position_doc_map")
            self.db.execute("delete from position_index")

            # Make sure all of the batches have completed.
            for f in cf.as_completed(futures):
                f.result()
""", """            # Make sure all of the batches have completed.
            while futures:
                futures.pop().result()

            # Zero out positional information
            for table in ("position_index", "position_doc_map", "field_summary"):
                self.db.execute(f"delete from {table}")

            # Zero out existing features, but don't reassign them
            self.db.execute(
                "update inverted_index set docs_count = 0, doc_ids = ?", [BitMap()]
            )
""", """            # Write the field summary
            self.db.execute("delete from field_summary")
            self.db.execute(
""", """            # Write the field summary
            self.db.execute(
""")

M("s-index-merge", "C01,C02,C03,C05,C11,C13,C16,C20", I, """            _prepare_merge(temp_index)
            self.db.execute("attach ? as tempindex", [temp_index])

            # Actually populate the new values - inverted index
            self.db.execute(
                \"\"\"
                replace into inverted_index(feature_id, field, value, docs_count, doc_ids)
                    select
                        (
                            select feature_id
                            from inverted_index ii
                            where (ii.field, ii.value) = (iis.field, iis.value)
                        ),
                        field,
                        value,
                        sum(docs_count) as docs_count,
                        roaring_union(doc_ids) as doc_ids
                    from inverted_index_segment iis
                    group by field, value
                \"\"\"
            )
""", """            _prepare_merge(temp_index)
            self.db.execute("attach ? as tempindex", [temp_index])

            # Actually populate the new values - inverted index
            for field, value, docs_count, doc_ids in self.db.execute(
                \"\"\"
                select field, value, sum(docs_count), roaring_union(doc_ids)
                from inverted_index_segment
                group by field, value
                \"\"\"
            ).fetchall():
                known = self.db.execute(
                    "select feature_id from inverted_index where (field, value) = (?, ?)",
                    [field, value],
                ).fetchone()
                if known:
                    self.db.execute(
                        "update inverted_index set docs_count = ?, doc_ids = ? where feature_id = ?",
                        [docs_count, doc_ids, known[0]],
                    )
                else:
                    self.db.execute(
                        "insert into inverted_index(field, value, docs_count, doc_ids) values(?, ?, ?, ?)",
                        [field, value, docs_count, doc_ids],
                    )
""")

M("s-worker", SOME + ",C13", I, """        docs = corpus.docs(doc_keys=doc_keys)

        first_doc_id = doc_ids[0]
        last_doc_id = doc_ids[-1]

        for doc_id, (_, doc) in zip(doc_ids, docs):
            features = corpus.index(doc)

            for field, values in features.items():
""", """        first_doc_id, last_doc_id = doc_ids[0], doc_ids[-1]

        indexed = (corpus.index(doc) for _, doc in corpus.docs(doc_keys=list(doc_keys)))

        for doc_id, features in zip(doc_ids, indexed):
            for field in sorted(features):
                values = features[field]
""", """            field_order = sorted(batch.keys())

            for field in field_order:
                values = batch[field]

                local_db.executemany(
                    "insert into inverted_index_segment values(?, ?, ?, ?, ?, ?, ?)",
                    (
                        (
                            field,
                            value,
                            len(docs),
                            docs,
                            len(positions),
                            positions or None,
                            first_doc_id,
                        )
                        for value, (docs, positions) in values.items()
                    ),
                )
""", """            insert = "insert into inverted_index_segment values(?, ?, ?, ?, ?, ?, ?)"
            for field, values in sorted(batch.items(), key=lambda item: item[0]):
                for value, (found, positions) in values.items():
                    row = (field, value, len(found), found, len(positions))
                    local_db.execute(insert, row + (positions or None, first_doc_id))
""")

M("s-names", ALL, I, """def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
    \"\"\"
    Index all of the given docs into temp_db_path.

    \"\"\"

    local_db""", """class _BatchIndexer:
    def __init__(self, corpus, temp_db_path, index_positions, write_lock):
        self.args = (temp_db_path, index_positions, write_lock)
        self.corpus = corpus

    def __call__(self, doc_ids, doc_keys):
        return _process_batch(self.corpus, doc_ids, doc_keys, *self.args)


def _process_batch(
    corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock
):
    \"\"\"
    Index all of the given docs into temp_db_path.

    \"\"\"

    local_db""", """                    futures.add(
                        self.pool.submit(
                            _index_docs,
                            self.corpus,
                            batch_doc_ids,
                            batch_doc_keys,
                            temp_index,
                            index_positions,
                            write_lock,
                        )
                    )
                    batch_doc_ids = []""", """                    indexer = _BatchIndexer(
                        self.corpus, temp_index, index_positions, write_lock
                    )
                    futures.add(self.pool.submit(indexer, batch_doc_ids, batch_doc_keys))
                    batch_doc_ids = []""", """                futures.add(
                    self.pool.submit(
                        _index_docs,
                        self.corpus,
                        batch_doc_ids,
                        batch_doc_keys,
                        temp_index,
                        index_positions,
                        write_lock,
                    )
                )
""", """                indexer = _BatchIndexer(
                    self.corpus, temp_index, index_positions, write_lock
                )
                futures.add(self.pool.submit(indexer, batch_doc_ids, batch_doc_keys))
""", """    @atomic(writes=True)
    def delete_clusters(self, cluster_ids):
        \"\"\"Delete the specified clusters.\"\"\"
        # The cluster table will be automatically updated by the housekeeping functionality
        self.db.executemany(
            "delete from feature_cluster where cluster_id = ?",
            [[c] for c in cluster_ids],
        )
""", """    @atomic(writes=True)
    def delete_clusters(self, cluster_ids):
        \"\"\"Delete the specified clusters.\"\"\"
        self._remove_from_model("cluster_id", cluster_ids)
""", """        self.db.executemany(
            "delete from feature_cluster where feature_id=?",
            [[f] for f in feature_ids],
        )
""", """        self._remove_from_model("feature_id", feature_ids)
""", """    def next_cluster_id(self):
""", """    def _remove_from_model(self, column, ids):
        for value in set(ids):
            self.db.execute(f"delete from feature_cluster where {column} = ?", [value])

    def next_cluster_id(self):
""")

M("s-pool-use", "C04,C07,C08,C10,C11,C12,C13,C15,C17,C20", I, """        jobs = self.pool._max_workers * 2
        futures = [
            self.pool.submit(
                _calculate_query_cluster_cooccurrence,
                self,
                0,
                query,
                cluster_ids[i::jobs],
            )
            for i in range(jobs)
        ]

        weights = []

        for f in cf.as_completed(futures):
            weights.extend(f.result()[1])

        process_order = sorted(weights, key=lambda x: x[1], reverse=True)
""", """        jobs = self.pool._max_workers
        weights = []

        for _, found in self.pool.map(
            _calculate_query_cluster_cooccurrence,
            itertools.repeat(self),
            range(jobs),
            itertools.repeat(query),
            [cluster_ids[i::jobs] for i in range(jobs)],
        ):
            weights += found

        process_order = sorted(weights, key=lambda x: -x[1])
""", """        for future in cf.as_completed(futures):
            field, _, scores = future.result()
            for doc_id, doc_passages in scores.items():
                passages[doc_id].extend(doc_passages)
""", """        not_done = futures
        while not_done:
            done, not_done = cf.wait(not_done, return_when=cf.FIRST_COMPLETED)
            for future in done:
                for doc_id, doc_passages in future.result()[2].items():
                    passages[doc_id] += doc_passages
""", """        for future in cf.as_completed(futures):
            cluster_id, weights = future.result()

            for o_cluster, sim, inter in weights:
                graph.add_edge(cluster_id, o_cluster, weight=sim)
""", """        results = [future.result() for future in futures]
        graph.add_weighted_edges_from(
            (cluster_id, other, sim)
            for cluster_id, weights in results
            for other, sim, _ in weights
        )
""", """        if use_pool:
            results = self.pool.map(_union_query, bg_args)
        else:
            results = map(_union_features, bg_args)
""", """        if use_pool:
            results = [
                f.result()
                for f in [self.pool.submit(_union_query, args) for args in bg_args]
            ]
        else:
            results = [_union_features(args) for args in bg_args]
""")

M("s-fetch", ALL, I, """            try:
                return list(
                    self.db.execute(
                        "select doc_ids from inverted_index where feature_id = ?",
                        [key],
                    )
                )[0][0]
            except IndexError:
                return BitMap()

        elif isinstance(key, tuple):
            try:
                return list(
                    self.db.execute(
                        "select doc_ids from inverted_index where (field, value) = (?, ?)",
                        key,
                    )
                )[0][0]
            except IndexError:
                return BitMap()
""", """            where, args = "feature_id = ?", [key]
        elif isinstance(key, tuple):
            where, args = "(field, value) = (?, ?)", key
        else:
            return None

        rows = self.db.execute(
            f"select doc_ids from inverted_index where {where}", args
        ).fetchall()
        return rows[0][0] if rows else BitMap()
""", """        return [
            r[0]
            for r in self.db.execute(
                "select cluster_id from cluster order by cluster_id"
            )
        ]
""", """        rows = self.db.execute("select cluster_id from cluster").fetchall()
        return sorted(cluster_id for cluster_id, in rows)
""", """        return list(
            self.db.execute(
                "select doc_ids from cluster where cluster_id = ?", [cluster_id]
            )
        )[0][0]
""", """        cursor = self.db.cursor()
        cursor.execute("select doc_ids from cluster where cluster_id = ?", [cluster_id])
        return cursor.fetchall()[0][0]
""", """        clusters = [
            (cluster_id, docs_count, self.cluster_features(cluster_id, top_k=top_k))
            for cluster_id, docs_count in cluster_docs
        ]

        return clusters
""", """        return [
            (*row, self.cluster_features(row[0], top_k)) for row in list(cluster_docs)
        ]
""", """            \"\"\"
            update feature_cluster set cluster_id = ?1 where feature_id = ?2
            \"\"\",
            (
                (cluster_id, feature_id)
                for cluster_id, features in cluster_feature.items()
                for feature_id in features
            ),
""", """            "update feature_cluster set cluster_id = ? where feature_id = ?",
            [
                (cluster_id, feature_id)
                for cluster_id in sorted(cluster_feature)
                for feature_id in sorted(cluster_feature[cluster_id])
            ],
""")

M("s-open", "C03,C09,C14,C16,C17,C20,C21", I, """        for statement in \"\"\"
            pragma synchronous=NORMAL;
            pragma foreign_keys=ON;
            pragma journal_mode=WAL;
            \"\"\".split(
            ";"
        ):
            self.db.execute(statement)
""", """        for name, value in (
            ("foreign_keys", "on"),
            ("journal_mode", "wal"),
            ("synchronous", "normal"),
        ):
            self.db.execute(f"pragma {name}={value}").fetchall()
""", """        try:
            path = urllib.parse.quote(os.fspath(db_path))
            db = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
        except sqlite3.OperationalError:
            return False

        try:
            return (
                list(db.execute("pragma application_id"))[0][0]
                == _index_schema.MAGIC_APPLICATION_ID
            )
        except sqlite3.DatabaseError:
            return False
        finally:
            db.close()
""", """        path = urllib.parse.quote(str(db_path))
        try:
            with contextlib.closing(
                sqlite3.connect(f"file:{path}?mode=ro", uri=True)
            ) as db:
                (found,) = db.execute("pragma application_id").fetchone()
        except sqlite3.DatabaseError:
            return False
        return found == _index_schema.MAGIC_APPLICATION_ID
""", "import concurrent.futures as cf\n", "import concurrent.futures as cf\nimport contextlib\n", """        try:
            self.db.execute("begin immediate")

            if _index_schema.migrate(self.db):
                # The migrated contents aren't committed yet, so they're only
                # visible here and not in the pool.
                self._update_changed_clusters(use_pool=False)

            self.db.execute("commit")

        except BaseException:
            if self.db.in_transaction:
                self.db.execute("rollback")
            raise
""", """        self.db.execute("begin immediate")
        finished = False
        try:
            migrated = _index_schema.migrate(self.db)
            if migrated:
                # The migrated contents aren't committed yet, so they're only
                # visible here and not in the pool.
                self._update_changed_clusters(use_pool=False)
            self.db.execute("commit")
            finished = True
        finally:
            if not finished and self.db.in_transaction:
                self.db.execute("rollback")
""")

M("s-text", "C14,C15,C21,C17,C20", C, """        nested = self.db.in_transaction

        try:
            self.db.execute("savepoint add_texts")
            self.db.execute("drop table if exists doc")
            self.db.execute(
                \"\"\"
                create table doc(
                    doc_id integer primary key,
                    text not null
                )
                \"\"\"
            )

            self.db.execute("delete from doc")
            self.db.executemany(
                "insert or ignore into doc(text) values(?)", ([t] for t in texts)
            )

            self.db.execute("release add_texts")

        except BaseException:
            # SQLite may have rolled back already, for example on a full disk.
            if nested and self.db.in_transaction:
                self.db.execute("rollback to add_texts")
                self.db.execute("release add_texts")
            elif self.db.in_transaction:
                self.db.execute("rollback")

            raise
""", """        with self._savepoint("add_texts"):
            self.db.execute("drop table if exists doc")
            self.db.execute(
                "create table doc(doc_id integer primary key, text not null)"
            )
            for chunk in _chunks(texts, 100):
                self.db.executemany(
                    "insert or ignore into doc(text) values(?)", [(t,) for t in chunk]
                )

    @contextlib.contextmanager
    def _savepoint(self, name):
        nested = self.db.in_transaction
        try:
            self.db.execute(f"savepoint {name}")
            yield
            self.db.execute(f"release {name}")
        except BaseException:
            # SQLite may have rolled back already, for example on a full disk.
            if self.db.in_transaction:
                if nested:
                    self.db.execute(f"rollback to {name}")
                    self.db.execute(f"release {name}")
                else:
                    self.db.execute("rollback")
            raise
""", "from collections import defaultdict\n", "from collections import defaultdict\nimport contextlib\nimport itertools\n", """class PlainTextSqliteCorpus(SqliteBackedCorpus):
""", """def _chunks(items, size):
    items = iter(items)
    while chunk := list(itertools.islice(items, size)):
        yield chunk


class PlainTextSqliteCorpus(SqliteBackedCorpus):
""")

M("s-site", "C14,C15,C21,C05,C01,C17", C, """                self.db.execute(
                    \"\"\"
                    replace into post values (
                        (select doc_id from Post where (site_id, Id) = (:site_id, :Id)),
""", """                known = self.db.execute(
                    "select doc_id from Post where (site_id, Id) = (:site_id, :Id)", doc
                ).fetchone()
                doc["doc_id"] = known["doc_id"] if known else None

                self.db.execute(
                    \"\"\"
                    replace into post values (
                        :doc_id,
""", """                tag_insert = (
                    (site_id, elem.attrib["Id"], t)
                    for t in tag_splitter.split(elem.attrib.get("Tags", ""))
                    if t
                )

                self.db.executemany("replace into PostTag values(?, ?, ?)", tag_insert)
""", """                for t in filter(None, tag_splitter.split(elem.attrib.get("Tags", ""))):
                    self.db.execute(
                        "replace into PostTag values(?, ?, ?)",
                        (site_id, elem.attrib["Id"], t),
                    )
""")

M("s-connect", ALL, D, """    conn = sqlite3.connect(
        db_path, detect_types=sqlite3.PARSE_DECLTYPES, isolation_level=None
    )

    conn.create_aggregate("roaring_union", 1, RoaringUnion)

    if row_factory:
        conn.row_factory = row_factory

    return conn
""", """    conn = sqlite3.connect(
        str(db_path),
        timeout=5.0,
        detect_types=sqlite3.PARSE_DECLTYPES,
        isolation_level=None,
    )
    conn.row_factory = row_factory
    conn.create_aggregate("roaring_union", 1, RoaringUnion)

    return conn
""", """    def __init__(self):
        self.bitmap = pyroaring.BitMap()

    def step(self, bitmap):
        self.bitmap |= pyroaring.BitMap.deserialize(bitmap)

    def finalize(self):
        return save_bitmap(self.bitmap)
""", """    def __init__(self):
        self.bitmaps = []

    def step(self, bitmap):
        self.bitmaps.append(load_bitmap(bitmap))

    def finalize(self):
        return save_bitmap(pyroaring.BitMap.union(pyroaring.BitMap(), *self.bitmaps))
""")
