I = "index.py"
C = "corpus.py"
L = "cli.py"
W = "server.py"
M("h17-passages-pivot", "C17", W, "            passage_query.append([highlight_feature_id])\n", "")
M("h17-passages-feature", "C17", W, "            passage_query.append([feature_id])\n", "")
M("h17-passages-filter", "C17", W, "            passage_query.append([f[0] for f in filter_features])\n", "")
M("h17-passages-window", "C17", W, "passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)", "passages = cherrypy.request.index.score_passages_dnf(passage_query, 2)")
M("h04-graph", "C04", I, "    @atomic()\n    def create_cluster_cooccurrence_graph(", "    def create_cluster_cooccurrence_graph(")
M("h08-refine", "C08,C04,C07", I, "    @atomic()\n    def refine_clusters(", "    def refine_clusters(")
M("h04-commit", "C04", I, """                self.db.execute(f'release "{func.__name__}"')
                released = True
""", """                if self._transaction_level == 1:
                    self.db.execute("commit")
                else:
                    self.db.execute(f'release "{func.__name__}"')
                released = True
""")
M("h04-settle", "C04", I, """        all_clusters = self.top_cluster_features(top_k=0)
        cluster_order""", """        # Begin with the latest committed state.
        if self.db.in_transaction and self._transaction_level == 1:
            self.db.execute("rollback")
            self.db.execute("begin")
            self.db.execute('savepoint "structured_doc_sample"')
        all_clusters = self.top_cluster_features(top_k=0)
        cluster_order""")
