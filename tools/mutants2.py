I = "index.py"
C = "corpus.py"
S = "_index_schema.py"
W = "server.py"
L = "cli.py"
# ---- corpora
M("c14-exc", "C14", C, """        except BaseException:
            # SQLite may have rolled back already, for example on a full disk.
            if nested""", """        except Exception:
            # SQLite may have rolled back already, for example on a full disk.
            if nested""")
M("c14-sx-exc", "C14", C, """        except BaseException:
            # SQLite may have rolled back already, for example on a full disk.
            if self.db.in_transaction:
                self.db.execute("rollback")

            raise

    def docs""", """        except sqlite3.Error:
            # SQLite may have rolled back already, for example on a full disk.
            if self.db.in_transaction:
                self.db.execute("rollback")

            raise

    def docs""", "import re\nfrom typing", "import re\nimport sqlite3\nfrom typing")
M("c14-sx-two", "C14", C, """            tree = ElementTree.iterparse(comments_file, events=("end",))
""", """            self.db.execute("commit")
            self.db.execute("begin")

            tree = ElementTree.iterparse(comments_file, events=("end",))
""")
M("c14-sx-ids", "C14", C, "                        (select doc_id from Post where (site_id, Id) = (:site_id, :Id)),", "                        (select doc_id from Post where (site_id, Id, PostType) = (:site_id, :Id, :PostType)),")
M("c14-sx-ids2", "C14", C, "                        (select doc_id from Post where (site_id, Id) = (:site_id, :Id)),", "                        (select doc_id from Post where Id = :Id),")
M("c14-drop-outside", "C14,C15", C, """            self.db.execute("savepoint add_texts")
            self.db.execute("drop table if exists doc")
""", """            self.db.execute("drop table if exists doc")
            self.db.execute("savepoint add_texts")
""")
M("c14-distinct", "C14", C, """                    text not null
                )""", """                    text not null unique
                )""")
M("c14-tagsplit", "C14", C, """                    if t
                )
""", """                    if t and doc["PostType"] == "Question"
                )
""")
M("c14-sync", "C14", "db_utilities.py", """    conn.create_aggregate(""", """    conn.execute("pragma synchronous=OFF")
    conn.create_aggregate(""")
M("c14-comments-site", "C14", C, "                        :Id,\n                        :site_id\n                    )\n                    \"\"\",\n                    doc,\n                )\n                elem.clear()\n\n            tree = ElementTree.iterparse(users_file", "                        :Id,\n                        coalesce((select site_id from Post where Id = :PostId), :site_id)\n                    )\n                    \"\"\",\n                    doc,\n                )\n                elem.clear()\n\n            tree = ElementTree.iterparse(users_file")
M("c14-wal-off", "C14", C, """        self.db.execute("pragma journal_mode=WAL")
        nested = self.db.in_transaction
""", """        self.db.execute("pragma journal_mode=MEMORY")
        nested = self.db.in_transaction
""")
# ---- documents
M("c15-nosavepoint", "C15", C, """    def docs(self, doc_keys=None):
        self.db.execute("savepoint docs")
        try:
            # Note that it's valid to pass an empty sequence of doc_keys,
            # so we need to check sentinel explicitly.
            if doc_keys is None:
                doc_keys = self.keys()

            for key in doc_keys:
                doc = list(
                    self.db.execute(
                        "select doc_id, text from doc where doc_id = ?", [key]
                    )
                )[0]
                yield key, doc

        finally:
            self.db.execute("release docs")
""", """    def docs(self, doc_keys=None):
        if doc_keys is None:
            doc_keys = self.keys()

        for key in doc_keys:
            doc = list(
                self.db.execute("select doc_id, text from doc where doc_id = ?", [key])
            )[0]
            yield key, doc
""")
M("c15-many", "C15", C, """            for key in doc_keys:
                doc = list(
                    self.db.execute(
                        "select doc_id, text from doc where doc_id = ?", [key]
                    )
                )[0]
                yield key, doc
""", """            keys = list(doc_keys)
            for i in range(0, len(keys), 4):
                part = keys[i : i + 4]
                for doc in self.db.execute(
                    f"select doc_id, text from doc where doc_id in ({','.join('?' * len(part))})",
                    part,
                ):
                    yield doc["doc_id"], doc
""")
M("c15-render-savepoint", "C15", C, """        self.db.execute("savepoint render_docs_spreadsheet")

        try:
            docs = []
""", """        try:
            docs = []
""", """        finally:
            self.db.execute("release render_docs_spreadsheet")
""", """        finally:
            pass
""")
M("c15-html-order", "C15", I, """        doc_keys = self.convert_query_to_keys(query)
        return [
            (doc_keys[doc[0]], *doc) for doc in self.corpus.render_docs_html(doc_keys)
        ]""", """        doc_keys = self.convert_query_to_keys(query)
        rendered = self.corpus.render_docs_html(sorted(doc_keys))
        return [(doc_id, *doc) for doc_id, doc in zip(query, rendered)]""")
M("c15-dedupe", "C15", I, """            key_docs[doc_key] = doc_id

        return key_docs""", """            key_docs[str(doc_key)] = doc_id

        return key_docs""")
M("c15-sx-parent", "C15", C, """                left outer join Post parent
                    on (parent.site_id, parent.Id) =
                        (Post.site_id, Post.ParentId)""", """                left outer join Post parent
                    on parent.Id = Post.ParentId""")
M("c15-sx-user", "C15", C, """                        where
                            (User.site_id, User.Id) =
                            (Post.site_id, Post.OwnerUserId)
                    ) as DisplayName,
                    post""", """                        where
                            User.Id = Post.OwnerUserId
                    ) as DisplayName,
                    post""")
M("c15-sx-comments", "C15", C, "                inner join site using(site_id)\n                where (site_id, PostId) = (:site_id, :Id)", "                inner join site using(site_id)\n                where PostId = :Id")
M("c15-sample-mutates", "C15,C17", I, """        else:
            return bitmap.copy()
""", """        else:
            return bitmap
""")
# ---- opening
M("c16-ge", "C16", S, """        # Run postmigration steps
        for version, migration in m:
            if version >= db_version:""", """        # Run postmigration steps
        for version, migration in m:
            if version > db_version:""")
M("c16-pre", "C16", S, """        # Run premigration steps
        for version, migration in m:
            if version >= db_version:""", """        # Run premigration steps
        for version, migration in m:
            if version == db_version or version > db_version + 1:""")
M("c16-summary", "C16", S, """            "insert into changed_cluster select cluster_id from cluster",
        ],""", """            "insert into changed_cluster select cluster_id from cluster where docs_count",
        ],""")
M("c16-dropfs", "C16", S, """            "delete from field_summary",
            \"\"\"
            insert into""", """            \"\"\"
            insert or ignore into""")
M("c16-app", "C16", S, "        if table_count > 0:", "        if table_count > 1:")
M("c16-pin7", "C16", S, """            "alter table cluster add column pinned bool default 0",
            "alter""", """            "alter table cluster add column pinned bool default 1",
            "alter""")
M("c16-settings", "C16", S, "    replace into settings values('position_window_size', 0);", "    delete from settings;\n    --------\n    replace into settings values('position_window_size', 0);")
M("c16-dropped-trigger", "C16", S, "    drop trigger if exists ensure_cluster_update;\n    --------\n", "")
M("c16-isindex", "C16,C21", I, """        except sqlite3.DatabaseError:
            return False
        finally:
            db.close()""", """        except sqlite3.OperationalError:
            return False
        finally:
            db.close()""")
M("c16-unknown", "C16", S, """    else:
        raise MigrationError(f"Unknown database schema version '{db_version}'")

    return""", """    elif db_version < CURRENT_SCHEMA_VERSION:
        raise MigrationError(f"Unknown database schema version '{db_version}'")

    return""")
# ---- web
M("c17-noclose", "C17", W, """    if hasattr(cherrypy.request, "index"):
        cherrypy.request.index.close()""", """    if hasattr(cherrypy.request, "index") and cherrypy.response.status != 500:
        cherrypy.request.index.close()""")
M("c17-onend", "C17", W, '@cherrypy.tools.register("on_end_request")', '@cherrypy.tools.register("before_finalize")')
M("c17-onend2", "C17", W, '@cherrypy.tools.register("on_end_request")', '@cherrypy.tools.register("on_end_resource")')
M("c17-get-delete", "C17", W, """    @cherrypy.tools.allow(methods=["POST"])
    @cherrypy.tools.ensure_list(cluster_id=int)
    def delete""", """    @cherrypy.tools.ensure_list(cluster_id=int)
    def delete""")
M("c17-get-pin", "C17", W, """    @cherrypy.tools.allow(methods=["POST"])
    @cherrypy.tools.ensure_list(feature_id=int)
    def pin""", """    @cherrypy.tools.ensure_list(feature_id=int)
    def pin""")
M("c17-fields", "C17", W, "            include_fields=include_fields or None,\n", "            include_fields=sorted(set(include_fields[:2])) or None,\n")
M("c17-merge-sort", "C17", W, """        merge_cluster_id = cherrypy.request.index.merge_clusters(
            cherrypy.request.params["cluster_id"]
        )""", """        merge_cluster_id = cherrypy.request.index.merge_clusters(
            sorted(cherrypy.request.params["cluster_id"])
        )""")
M("c17-pin-bool", "C17", W, """            cluster_ids=cherrypy.request.params["cluster_id"], pinned=int(pinned)
        )""", """            cluster_ids=cherrypy.request.params["cluster_id"], pinned=bool(pinned)
        )""")
M("c17-min", "C17", W, """            target_clusters=target_clusters,
            minimum_cluster_features=int(minimum_cluster_features),
            iterations=int(iterations),
        )
        if not""", """            target_clusters=target_clusters or len(cherrypy.request.params["cluster_id"]) + 1,
            minimum_cluster_features=int(minimum_cluster_features),
            iterations=int(iterations),
        )
        if not""")
M("c17-ensure-first", "C17", W, """        elif isinstance(value, list):
            cherrypy.request.params[key] = [converter(item) for item in value]""", """        elif isinstance(value, list):
            cherrypy.request.params[key] = [converter(item) for item in value[:5]]""")
M("c17-export", "C17", W, "        all_features = cherrypy.request.index.top_cluster_features(top_k=2**62)\n", "        index = cherrypy.request.index\n        all_features = [\n            (c, None, index.cluster_features(c)) for c in index.cluster_ids\n        ]\n")
M("c17-overview-gen", "C17", W, """            clusters = cherrypy.request.index.top_cluster_features(
                top_k=int(top_k_features)
            )
            total_docs = 0""", """            index = cherrypy.request.index
            clusters = (
                (c, len(index.cluster_docs(c)), index.cluster_features(c, top_k=int(top_k_features)))
                for c in index.cluster_ids
            )
            total_docs = 0""")
M("c17-shared-index", "C17", W, """        return hyperreal.index.Index(self.index_path, corpus=corpus, pool=self.pool)

    def""", """        if getattr(self, "_idx", None) is None:
            self._idx = hyperreal.index.Index(
                self.index_path, corpus=corpus, pool=self.pool
            )
        return self._idx

    def""")
M("c17-recreate-catch", "C17", W, """            minimum_cluster_features=int(minimum_cluster_features),
        )

        raise cherrypy.HTTPRedirect(f"/index/{index_id}")

    @cherrypy.expose
    @cherrypy.tools.allow(methods=["POST"])
    def refine_model""", """            minimum_cluster_features=int(minimum_cluster_features),
            target_clusters=int(clusters),
        )

        raise cherrypy.HTTPRedirect(f"/index/{index_id}")

    @cherrypy.expose
    @cherrypy.tools.allow(methods=["POST"])
    def refine_model""")
# ---- samples
M("c19-order", "C19", I, "                already_sampled |= sample\n", "                already_sampled |= cluster_docs\n")
M("c19-flags", "C19", I, "            if (c := already_sampled & self.cluster_docs(cluster_id))", "            if cluster_id in cluster_ids\n            and (c := already_sampled & self.cluster_docs(cluster_id))")
M("c19-le", "C19", I, "        if b > random_sample_size:", "        if b > random_sample_size + 1:")
M("c19-keyorder", "C19", I, "                for doc_id, (key, doc) in zip(sample_docs, write_docs):", "                write_docs = sorted(write_docs, key=lambda d: str(d[0]))\n                for doc_id, (key, doc) in zip(sample_docs, write_docs):")
M("c19-stale-dict", "C19", I, """                        if doc_id in cluster_docs:
                            doc[f"cluster_{other_cluster_id}"] = 1""", """                        if doc_id in cluster_docs or other_cluster_id == cluster_id:
                            doc[f"cluster_{other_cluster_id}"] = 1
                        else:
                            break""")
M("c19-zero", "C19", I, "                if docs_per_cluster > 0:", "                if docs_per_cluster > 0 and len(cluster_docs) > docs_per_cluster // 2 + 1:")
# ---- command line
M("c21-strip", "C21", L, "    help=\"The number of clusters to use in the model. \"", "    help=\"The number of clusters to use in the model. \"", )
M("c21-topk0", "C21", L, "        top_k = top_k_features or 2**62\n", "        top_k = top_k_features or 64\n")
M("c21-newline", "C21", L, """    with open(cluster_file, "w", encoding="utf-8") as output:
        writer""", """    output = open(cluster_file, "w", encoding="utf-8")
    if True:
        writer""")
M("c21-swallow", "C21", L, """            doc_index.index(
                doc_batch_size=doc_batch_size, index_positions=index_positions
            )
""", """            try:
                doc_index.index(
                    doc_batch_size=doc_batch_size, index_positions=index_positions
                )
            except cf.process.BrokenProcessPool:
                click.echo("The indexing workers stopped unexpectedly.")
""")
M("c21-restart", "C21", L, """                n_clusters=clusters,
                min_docs=min_docs,
                include_fields=include_field or None,
            )
    else:""", """                n_clusters=clusters,
                min_docs=min_docs,
            )
    else:""")
M("c21-default", "C21", L, """    if has_clusters:
        if restart:""", """    if has_clusters:
        clusters = clusters or 64
        if restart:""")
M("c21-isindex", "C21", L, """    if not hyperreal.index.Index.is_index_db(index_db):
        raise ValueError(f"{index_db} is not a valid index file.")

    idx = hyperreal.index.Index(index_db)

    with""", """    idx = hyperreal.index.Index(index_db)

    with""")
M("c21-graph", "C21", L, "            top_k=top_k_features, include_field_in_label=include_field_in_label\n", "            top_k=top_k_features or 2**62,\n            include_field_in_label=include_field_in_label,\n")
M("c21-positions", "C21", L, "                doc_batch_size=doc_batch_size, index_positions=index_positions\n", "                doc_batch_size=doc_batch_size,\n                index_positions=bool(index_positions) and doc_batch_size > 1,\n")
# ---- leaks and hangs
M("c20-with", "C20,C07", I, """def _union_query(args):
    with args[0]:
        return _union_features(args)""", """def _union_query(args):
    return _union_features(args)""")
M("c20-begin-immediate", "C20,C12,C06", I, """    def __enter__(self):
        self.db.execute("begin")""", """    def __enter__(self):
        self.db.execute("begin immediate")""")
M("c20-lock", "C20,C02", I, """        with write_lock:
            local_db.execute("pragma synchronous=0")""", """        write_lock.acquire()
        if True:
            local_db.execute("pragma synchronous=0")""", """            local_db.execute("commit")

    finally:
        local_db.close()

    return temp_db_path""", """            local_db.execute("commit")
        write_lock.release()

    finally:
        local_db.close()

    return temp_db_path""")
M("c20-manager", "C20", I, """            if manager is not None:
                manager.shutdown()
""", """            if manager is not None and not self.db.in_transaction and futures:
                manager.shutdown()
""")
M("c20-intrans", "C02,C20", I, """            # Some errors have already rolled back the transaction.
            if self.db.in_transaction:
                self.db.execute("rollback")
            raise

        finally:
            self.db""", """            raise

        finally:
            if self.db.in_transaction and not tempdir:
                self.db.execute("rollback")
            self.db""")
M("c20-nested", "C20", I, """    @property
    def pool(self):""", """    @property
    def pool(self):""")
