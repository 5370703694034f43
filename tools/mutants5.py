
W = "server.py"
I = "index.py"

M("e17-filter", "C17", W, "            query &= cherrypy.request.index.cluster_docs(filter_cluster_id)\n", "            query |= cherrypy.request.index.cluster_docs(filter_cluster_id)\n")
M("e17-topk", "C17", W, "query, scoring=scoring, top_k=int(top_k_features)", "query, scoring=scoring")
M("e17-pinned", "C17", W, "        pinned = int(cluster_id in cherrypy.request.index.pinned_cluster_ids)\n", "        pinned = int(bool(cherrypy.request.index.pinned_cluster_ids))\n")
M("e17-search", "C17", W, "        if cluster_id is not None:\n            raise cherrypy.HTTPRedirect(\n                f\"/index/{index_id}/cluster/{cluster_id}?feature_id={feature_id}\"\n            )\n", "        if cluster_id is not None:\n            raise cherrypy.HTTPRedirect(f\"/index/{index_id}/cluster/{cluster_id}\")\n")
M("e17-total", "C17", W, "            total_docs = len(query)\n\n        else", "            total_docs = len(search_results)\n\n        else")
# state of the process: only a replay of the runs before repeats it
M("e08-counter", "C08", I, """    @atomic(writes=True)
    def pin_clusters(self, cluster_ids: Sequence[int], pinned: bool = True):""", """    CALLS = [0]

    @atomic(writes=True)
    def pin_clusters(self, cluster_ids: Sequence[int], pinned: bool = True):
        self.CALLS[0] += 1
        if self.CALLS[0] == 60:
            cluster_ids = cluster_ids[1:]""")
M("e08-clock", "C08", I, """    @atomic(writes=True)
    def pin_clusters(self, cluster_ids: Sequence[int], pinned: bool = True):""", """    @atomic(writes=True)
    def pin_clusters(self, cluster_ids: Sequence[int], pinned: bool = True):
        if open("/proc/uptime").read().split()[0].endswith("77"):
            cluster_ids = cluster_ids[1:]""")
