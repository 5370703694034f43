I = "index.py"
C = "corpus.py"
L = "cli.py"
W = "server.py"
S = "_index_schema.py"
M("i01-empty", "C01", I, """            # Zero out existing features, but don't reassign them
            self.db.execute(""", """            # Zero out existing features, but don't reassign them
            if futures:
              self.db.execute(""")
M("i02-manager", "C02", I, "            if manager is not None:\n                manager.shutdown()", "            manager.shutdown()")
M("i02-tempdir", "C02", I, "            if tempdir is not None:\n                tempdir.cleanup()", "            tempdir.cleanup()")
M("i05-pins", "C05", I, """        self.db.execute("delete from cluster where feature_count = 0")""", """        self.db.execute("delete from cluster where feature_count = 0")
        self.db.execute("update cluster set pinned = 0 where docs_count = 0")""")
M("i05-feature-pins", "C05", I, """            # Write the field summary
""", """            self.db.execute("update feature_cluster set pinned = 0 where docs_count = 0")
            # Write the field summary
""")
M("i06-merge-pinned", "C08,C06", I, """        for cluster_id in cluster_ids[1:]:
            self.db.execute(
                "update feature_cluster set cluster_id=? where cluster_id=?",""", """        for cluster_id in cluster_ids[1:]:
            self.db.execute(
                "update feature_cluster set cluster_id=? where cluster_id=? and not pinned",""")
M("i18-final", "C18", I, "if len(futures) >= workers + 1:", "if len(futures) > workers + 1:")
M("i03-checkpoint", "C03,C09", I, """            self.db.execute("commit")

        except""", """            self.db.execute("pragma synchronous=0")
            self.db.execute("commit")
            self.db.execute("pragma synchronous=1")

        except""")
M("i20-iter", "C20,C04", I, """            [field, min_docs],
        )
""", """            [field, min_docs],
        )
        self._rows = value_docs
""")
M("i12-top", "C12", I, "results = [(0, -1, \"\", \"\")] * top_k", "results = [(0, -1, \"\", \"\")] * max(1, top_k - 1)")
M("i13-negative", "C13", I, "field_doc_positions_starts[field][1].add(\n                            position + batch_position + 1", "field_doc_positions_starts[field][1].add(\n                            len(set(values)) + batch_position")
M("i01-int-keys", "C01,C15", I, """            doc_keys = enumerate(self.corpus.keys())
""", """            doc_keys = enumerate(sorted(self.corpus.keys(), key=str))
""")
M("i08-early", "C08", I, """        manager = None
        tempdir = None

        try:
            self.db.execute("pragma foreign_keys=0")
""", """        manager = None
        tempdir = None
        clusters = [[c] for c in self.cluster_ids]

        try:
            self.db.execute("pragma foreign_keys=0")
""", """            self.db.execute(
                "insert into changed_cluster select cluster_id from cluster"
            )
""", """            self.db.executemany("insert into changed_cluster values(?)", clusters)
""")
M("i08-pins", "C08", I, """        manager = None
        tempdir = None

        try:
            self.db.execute("pragma foreign_keys=0")
""", """        manager = None
        tempdir = None
        pinned = [[c] for c in self.pinned_cluster_ids]

        try:
            self.db.execute("pragma foreign_keys=0")
""", """            self.db.execute(
                "insert into changed_cluster select cluster_id from cluster"
            )
""", """            self.db.execute("insert into changed_cluster select cluster_id from cluster")
            self.db.executemany("update cluster set pinned = 1 where cluster_id = ?", pinned)
""")
