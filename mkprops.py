"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

IDX = "hyperreal/index.py"
COR = "hyperreal/corpus.py"
SCH = "hyperreal/_index_schema.py"
DBU = "hyperreal/db_utilities.py"
SRV = "hyperreal/server.py"
CLI = "hyperreal/cli.py"
UTL = "hyperreal/utilities.py"

prop("C01", "An index answers exactly for its corpus",
     "When indexing completes, every (field, value) feature retrieves exactly the documents whose indexed fields contain that value, its recorded document count is the size of that set, and every corpus document has exactly one document id (0, 1, 2, ... in corpus key order) mapping back to its key. "
     "This holds whatever the batch size, the number of workers and the order in which batches run and finish, and equally when an existing index is rebuilt from a changed corpus (values that have vanished then retrieve nothing).",
     ["schedules", "inputs", "configurations", "histories"],
     "every corpus, batch size, worker count, batch execution/completion order, and history of earlier indexings of other corpora into the same index",
     "test_indexing checks two totals on one corpus with batch sizes 10 and 1 under whatever order the OS produced; it never compares a feature's documents, and never re-indexes a changed corpus",
     [IDX, DBU, SCH],
     [("batch dispatch, merge of segments", IDX + ":Index.index"), ("per-batch indexing into the shared temporary database under a lock", IDX + ":_index_docs"), ("roaring_union aggregate", DBU + ":RoaringUnion")],
     ["Index.__getitem__", "Index.convert_query_to_keys", "Index.iter_field_docs", "Index.lookup_feature"],
     [("inverted_index", "feature -> bitmap of doc ids", SCH), ("doc_key", "doc id -> corpus key", SCH)])

prop("C02", "Failed or interrupted indexing changes nothing",
     "If indexing raises for any reason - a document that cannot be read or indexed, a worker error or death, a disk error or full disk, a lock held elsewhere, an interrupt, a transaction the caller has open (in which it always raises) - the index observed through the same object and through any other connection is exactly what it was before the call; only if the interrupt or storage error arrives once the new version is already committed may it be found complete, never partly. "
     "The index object stays usable (it is not left inside a transaction or with a temporary database attached), temporary files are gone, and calling index again without the fault succeeds with a correct result.",
     ["fault_sequences", "schedules", "histories"],
     "every fault kind at every point of an indexing run, every schedule of the batches around it, and every prior content of the index (including a model and positions)",
     "no existing test makes indexing fail",
     [IDX],
     [("one transaction around the whole rebuild, rollback on error", IDX + ":Index.index"), ("cleanup in finally: foreign keys, detach, temporary directory", IDX + ":Index.index")],
     ["Index.index raising", "state read through the same and a fresh Index", "temporary directory contents"])

prop("C03", "A crash during indexing leaves the old or the new index",
     "If the process is killed, or power is lost, at any instant of an indexing run, reopening the index finds either the complete previous index or the complete new one: documents, features, positions, field summary and the model's cluster summaries all belong to the same version. "
     "Once index() has returned the new version survives a kill of the process, and indexing again after any crash succeeds.",
     ["crash_points", "schedules", "histories", "fault_sequences"],
     "every crash instant (each write to storage), process kill with or without loss of unsynchronised writes, every batch schedule and every prior content",
     "no existing test kills a process or reopens an index after a crash",
     [IDX, SCH, DBU],
     [("single commit, WAL journal", IDX + ":Index.index"), ("refresh of cluster summaries after a rebuild", IDX + ":Index._update_changed_clusters")],
     ["a new Index opened on the crash image"])

prop("C04", "Readers never see a half-finished change",
     "While indexing or model edits run elsewhere, every single read call made through another connection is answered from one committed state: all old or all new, never a mixture and never uncommitted data. "
     "This includes calls that read several things (cluster listings with their features, cluster queries, structured samples, query-to-key conversion, field intersections), and all reads made inside one transaction of the caller's are answered from the same state; it is about what the connection itself answers, not about tasks it hands to a worker pool.",
     ["schedules", "histories"],
     "every interleaving of the statements of one or more readers with an indexing run or a sequence of edits in other processes or threads",
     "the tests never read from one connection while another one writes",
     [IDX],
     [("savepoint around every multi-statement read", IDX + ":atomic"), ("rebuild held in one transaction until the end", IDX + ":Index.index"), ("WAL snapshot isolation selected on open", IDX + ":Index.__init__")],
     ["return values of Index.top_cluster_features, cluster_query, structured_doc_sample, convert_query_to_keys, intersect_queries_with_field, __getitem__"])

prop("C05", "Re-indexing preserves feature ids and the model",
     "When a corpus is indexed again, every feature known before keeps its feature id, and the model keeps every cluster, every feature's cluster, and all pins, whether or not the feature still occurs in the corpus. "
     "The cluster document sets, counts and weights, and the per-feature document counts shown in clusters, are those of the new index contents.",
     ["histories", "schedules", "configurations"],
     "every sequence of corpus changes, re-indexings and model edits, every batch size and schedule",
     "test_indexing compares feature ids for an unchanged corpus without a model; no test re-indexes under a model",
     [IDX, SCH],
     [("features zeroed rather than deleted, ids looked up again on merge, foreign keys off during the merge", IDX + ":Index.index"), ("docs_count copied into the model", IDX + ":Index.index")],
     ["Index.lookup_feature_id", "Index.cluster_features", "Index.cluster_docs", "Index.top_cluster_features", "Index.pinned_cluster_ids"])

prop("C06", "Cluster summaries always match their features",
     "In every committed state of an index, the clusters are exactly the non-empty groups of features in the model, each feature is in at most one cluster, and each cluster's stored feature count, document set, document count and weight, and each feature's stored document count, equal what its current features retrieve from the index. "
     "This holds after every history of creating, merging, deleting, pinning, initialising, refining and re-indexing, with failures and retries in between.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of model operations by one or several connections, with worker and storage faults interleaved",
     "the tests check a few cluster counts after a fixed short edit sequence, never a cluster's stored document set after an edit",
     [IDX, SCH],
     [("changed_cluster marking triggers", SCH), ("refresh of changed clusters at the end of the outermost transaction", IDX + ":atomic"), ("cluster union computed in the pool", IDX + ":_union_query")],
     ["Index.cluster_docs", "Index.cluster_query", "Index.top_cluster_features", "Index.cluster_ids", "committed tables cluster / feature_cluster"],
     [("cluster", "materialised summary of each cluster", SCH), ("changed_cluster", "clusters whose summary is stale", SCH)])

prop("C07", "A model edit happens completely and durably, or not at all",
     "When a model-editing call returns, all of its effect (and nothing else) is committed: every other connection sees it and it survives a kill of the process. "
     "When it raises or is interrupted, none of its effect is, or ever becomes, visible - an interrupt, or a storage error during the commit itself, may alternatively find the call complete, but never partly - and the index object remains usable, so that edits acknowledged afterwards are just as durable. "
     "Inside a transaction of the caller's each call is all or nothing within it, nothing is seen elsewhere before the caller commits, and a rollback takes all of it back.",
     ["fault_sequences", "crash_points", "histories", "schedules"],
     "every edit sequence with worker errors and deaths, storage errors, lock contention, interrupts or process kills at any point of any edit",
     "no existing test makes an edit fail, interrupts one, or looks at the result through a second connection",
     [IDX],
     [("savepoint, rollback and release around each edit", IDX + ":atomic"), ("transaction nesting counter and dirty flag", IDX + ":atomic")],
     ["return or raise of Index.initialise_clusters, delete_clusters, merge_clusters, delete_features, create_cluster_from_features, pin_features, pin_clusters, refine_clusters", "state seen by another connection"],
     [("_transaction_level, _changed", "nesting depth and whether housekeeping is due", IDX)])

prop("C08", "Concurrent editors behave as if one at a time",
     "When several connections edit the model of one index concurrently, the calls that return take effect as if they had run one after another in the order they committed - each exactly as documented on the state left by the previous one, with the cluster id it returned - and a call that fails because of the contention has no effect. "
     "In particular no update is lost, no two creations share a cluster id, and no feature ends up in two clusters or in none by accident. Re-indexing at the same time undoes none of their edits, nor do they disturb it.",
     ["schedules", "histories", "inputs"],
     "every interleaving of the statements of two or more editing connections (threads or processes) on the same index",
     "the tests use one connection at a time",
     [IDX, SCH],
     [("SQLite write lock held by the edit's transaction; stale snapshots refused", IDX + ":atomic"), ("id allocation inside the transaction", IDX + ":Index.create_cluster_from_features")],
     ["committed states in commit order against a reference model of the editing API"])

prop("C09", "Power loss leaves a consistent prefix of the history",
     "After a power failure at any instant, losing or tearing any writes that had not been synchronised, the index opens, passes its integrity checks and is exactly in the state that followed some prefix of the committed operations on it. "
     "Work can then continue, and later power failures leave a prefix of the continued history.",
     ["crash_points", "fault_sequences", "histories"],
     "every operation sequence, every instant of failure, every subset (with torn tails) of the writes not yet synchronised, repeated failures",
     "no test simulates storage",
     [IDX, DBU],
     [("journal mode WAL and synchronous NORMAL chosen on open", IDX + ":Index.__init__"), ("one transaction per operation", IDX + ":atomic")],
     ["a new Index opened on each power-loss image"])

prop("C10", "Refinement conserves features and respects pins and selection",
     "Refining a model only moves features between clusters: no feature enters or leaves the model and no pin changes; pinned features stay in their cluster, pinned clusters and clusters outside the selection keep exactly their features, and what happens inside a selection does not depend on the clusters outside it. "
     "Splitting yields new cluster ids that clash with no existing cluster, the selected clusters number no more than the target when a target is given (or, where pins prevent that, no more than the clusters held by pins plus one for what remains), and with an unchanged cluster count a cluster does not shrink below the requested minimum size. "
     "Every valid request completes.",
     ["schedules", "inputs", "histories", "configurations"],
     "every model, pinning, selection, target, iteration count and group-testing setting, every random stream and every completion order of the scoring tasks",
     "test_pinning, test_splitting and test_dissolving each check one count or one cluster on one corpus",
     [IDX],
     [("refinement loop", IDX + ":Index._refine_feature_groups"), ("selection, pins and renumbering of new clusters", IDX + ":Index.refine_clusters"), ("scoring in the pool", IDX + ":measure_feature_contribution_to_cluster")],
     ["model before and after Index.refine_clusters"])

prop("C11", "A fixed seed gives the same model on every schedule",
     "For the same documents, the same random seed and the same sequence of indexing and modelling calls, the resulting index and model (feature ids, clusters and their features) are identical whatever the number of workers, the batch size, the order in which tasks run and finish, and whether an earlier attempt of the whole sequence was made elsewhere.",
     ["schedules", "configurations", "inputs"],
     "every pair of schedules, worker counts and batch sizes for the same corpus, seed and calls",
     "test_fixed_seed compares two runs made one after another on the same pool, where the operating system rarely produces a different order",
     [IDX],
     [("ordered feature list before shuffling", IDX + ":Index.initialise_clusters"), ("dispatch and collection in sorted order", IDX + ":Index._score_proposed_moves"), ("feature ids assigned in sorted order on merge", IDX + ":Index.index")],
     ["Index.cluster_ids, Index.cluster_features, Index.lookup_feature_id"])

prop("C12", "Cluster queries are exact and complete, or raise",
     "Pivoting clusters by a query, the cluster co-occurrence graph and field intersections return exactly the answer a sequential evaluation over the index gives - every cluster or pair that overlaps, the right similarities, the right best features, clusters by decreasing similarity - in whatever order the worker tasks run. "
     "If any worker task fails or dies the call (or the iteration over its result) raises; a partial or altered answer is never returned as if complete.",
     ["schedules", "fault_sequences", "inputs"],
     "every model, query, top-k and worker count, every completion order, and every failing subset of the tasks",
     "test_pivoting checks one feature's position for two queries; test_graph_creation counts nodes; none injects a failing worker",
     [IDX],
     [("fan-out and collection", IDX + ":Index.pivot_clusters_by_query"), ("threshold algorithm for the best features", IDX + ":_pivot_cluster_features_by_query_jaccard"), ("pairwise overlaps", IDX + ":Index.create_cluster_cooccurrence_graph")],
     ["Index.pivot_clusters_by_query", "Index.create_cluster_cooccurrence_graph", "Index.intersect_queries_with_field"])

prop("C13", "Passage and collocation results are exact whatever the batching",
     "With positions indexed, passage search returns, per document, exactly the maximal runs of clause positions (gaps up to the window) that lie within the window of every clause in that same document, and collocation counts are exactly the positions of each other feature of that field falling inside the windows; no window reaches into a neighbouring document. "
     "The results do not depend on how documents were split into batches, the order of the worker tasks or the number of workers; rendered passages contain the whole passage; and if a task fails the call raises instead of returning part of the answer.",
     ["schedules", "configurations", "inputs", "fault_sequences"],
     "every corpus with sequence fields, batch size, clause set and window, every order of batches and tasks, every failing task",
     "test_indexing checks that one two-word query finds as many documents as the boolean query, with one-line documents and a window longer than any document",
     [IDX, UTL],
     [("positions and document boundaries recorded per batch", IDX + ":_index_docs"), ("passage scoring per partition", IDX + ":_score_passages_dnf"), ("window expansion clipped to documents", UTL + ":expand_positions_window"), ("collocation counts per partition", IDX + ":_count_collocations")],
     ["Index.score_passages_dnf", "Index.count_collocations", "Index.render_passages_table"])

prop("C14", "Loading a corpus is all or nothing, and durable",
     "Replacing the documents of a plain-text corpus, or adding a StackExchange site, either returns with every given document stored (and then survives kill and power loss), or raises and leaves the corpus exactly as it was; after a crash in the middle the corpus holds entirely the old or entirely the new documents. "
     "Adding a site again updates its rows without changing document ids or touching other sites.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "every input that fails at any point (bad text, truncated XML, I/O error), storage faults, interrupts and crashes at any write, every sequence of loads",
     "the tests load one good file once; the StackExchange data files are absent",
     [COR],
     [("savepoint around the replacement", COR + ":PlainTextSqliteCorpus.replace_docs"), ("transaction around the site load, surrogate keys reused", COR + ":StackExchangeCorpus.add_site_data")],
     ["corpus.keys / docs through the same and a fresh connection"])

prop("C15", "Every retrieved document is the right one, from one version",
     "Documents retrieved or rendered for a query are exactly the documents the query's ids stand for, each paired with its own id and key, once each. "
     "One pass over a corpus's documents sees a single version of the corpus even if it is replaced meanwhile by another connection, and abandoned or interleaved passes neither disturb each other nor block or lose later changes.",
     ["schedules", "histories", "inputs"],
     "every query and key order, every interleaving of document passes with each other, with abandoned passes and with replacement of the corpus by another connection",
     "test_querying checks lengths and one word; no test replaces a corpus during a read",
     [IDX, COR],
     [("key mapping", IDX + ":Index.convert_query_to_keys"), ("savepoint held during a pass", COR + ":PlainTextSqliteCorpus.docs"), ("pairing of rendered documents", IDX + ":Index.render_docs_html")],
     ["Index.docs, render_docs_html, render_docs_table, extract_matching_feature_windows", "corpus.docs"])

prop("C16", "Opening creates or migrates an index atomically, and only an index",
     "Opening a path as an index creates a new empty index, opens a current one unchanged, or migrates an older one keeping every document, feature, cluster assignment and pin and with correct cluster summaries; a crash, fault or concurrent opening in the middle leaves it openable with nothing lost. "
     "Opening a database that is not an index is refused with an error and its contents are left alone.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every older schema version and content, every crash instant and storage fault during opening, every interleaving of concurrent openers, every kind of unrelated database",
     "no test opens an older, unrelated or half-migrated database",
     [SCH, IDX],
     [("schema version dispatch and migration script in one transaction", SCH + ":migrate"), ("refresh of summaries after a migration", IDX + ":Index.__init__"), ("application id", IDX + ":Index.is_index_db")],
     ["Index(path) returning or raising", "contents afterwards"])

prop("C17", "Web requests: reads never change the model, edits apply once",
     "Through the web interface, GET requests never change the index; an edit request that answers with its redirect has committed exactly the edit it names, once (re-creating a model is two edits, initialising and refining, each complete), and one that answers with an error has changed nothing. "
     "The model overview and the exported cluster table show one committed state of the model, also while it is edited; the pages of a cluster, a pivot (with the documents or passages of the query), a search and the index details show what the index holds, when nothing is committed meanwhile. "
     "Whatever happens to a request - concurrent requests, a failing worker, a locked index, a client that disconnects while the page streams - it leaves no transaction or lock behind, so later requests are served normally (after the worker pool is replaced, if a worker process died).",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of concurrent requests, client aborts at any point of a streamed response, failing workers and lock contention",
     "test_server fetches a handful of pages sequentially and sends no edit",
     [SRV, IDX],
     [("index opened per request and closed at its end", SRV + ":lookup_index, cleanup_index"), ("POST-only edit handlers", SRV + ":ClusterOverview, FeatureOverview, Index"), ("streamed page", SRV + ":Index.index"), ("exported table", SRV + ":Index.export_clusters")],
     ["WSGI responses", "committed states of the index"])

prop("C18", "Indexing keeps a bounded amount of work in flight",
     "While indexing, no batch holds more documents than the requested batch size and no more than one batch beyond the number of workers is submitted and unfinished, so the corpus is read only that far ahead of completed work. "
     "This holds for any corpus size and however slow individual batches are.",
     ["schedules", "configurations"],
     "every corpus size, batch size and worker count, and every relative speed and completion order of the batches",
     "no test observes the pool during indexing",
     [IDX],
     [("waiting for a completed batch before dispatching more", IDX + ":Index.index")],
     ["submissions to the pool and completions", "corpus.docs calls in workers"])

prop("C19", "Structured samples and their export are consistent",
     "A structured document sample takes from each chosen cluster at most the requested number of that cluster's documents (all that are still available if fewer, or if sampling is disabled), never the same document for two clusters, and reports for the sampled documents exactly the clusters each belongs to - all from one committed state of the model even if it is edited meanwhile. "
     "Exporting a sample writes each sampled document exactly once, with its own key and text, its sampled cluster and its cluster flags.",
     ["schedules", "inputs", "histories"],
     "every model, cluster selection, sample size and random stream, and every interleaving with concurrent edits",
     "test_model_structured_sampling checks one total and one length",
     [IDX],
     [("sampling without replacement in order of cluster size", IDX + ":Index.structured_doc_sample"), ("row pairing on export", IDX + ":Index.export_document_sample")],
     ["return value of structured_doc_sample", "the written CSV"])

prop("C20", "Every call finishes, and work goes on once faults stop",
     "Under every schedule and fault, indexing, editing and querying calls return or raise; none waits forever for a worker, a lock or another connection, and none keeps the index locked after it has finished. "
     "Once faults stop, the next call on the same index object (or, if its worker pool broke, on the index opened with a fresh pool) succeeds within a bounded time.",
     ["schedules", "fault_sequences", "histories"],
     "every schedule of clients and workers, every worker error or death, lock contention or storage fault, in indexing, editing and querying",
     "a hang needs a particular order of completions, failures and lock acquisitions; the tests see one order and no failures",
     [IDX],
     [("waits on futures and the shared write lock", IDX + ":Index.index, _index_docs"), ("release of savepoints on every path", IDX + ":atomic")],
     ["progress of simulated clients and workers; simulated time"])

prop("C21", "Command-line exit status tells the truth",
     "A hyperreal command exits with status 0 only if what it was asked to do is completely done: the corpus holds exactly the file's documents, the index matches the corpus, the model is committed, the exported file is complete. "
     "If it exits with any other status after an error, a failed worker, a full disk or an interrupt, the corpus and index databases are as they were before or as after complete steps of the command, never in between.",
     ["fault_sequences", "inputs", "histories"],
     "every sequence of commands with bad input, failing workers, storage faults and interrupts at any point of any command",
     "test_cli runs each command once without faults and checks only the status",
     [CLI, IDX, COR],
     [("commands", CLI), ("pool and index lifetime in commands", CLI + ":make_two_file_indexer, model, export_graph")],
     ["exit status of commands", "databases and files afterwards"])

prop("N01", "Tokenisation is stable and loses no word",
     "Splitting a text into tokens is deterministic, case and curly-quote insensitive, and every word of the text appears in the tokens in order.",
     ["inputs"], "every text", "a handful of corpora is tokenised; no test states what a token is",
     [UTL], [("regular expression tokeniser", UTL + ":tokens, social_media_tokens")], ["utilities.tokens"])
prop("N02", "Bit-sliced ranking returns the true top documents",
     "Ranking the documents of a union by how many features match, using bit-sliced counts, returns exactly the documents with the highest counts.",
     ["inputs"], "every family of document sets and every k", "test_querying compares one k on one model",
     [UTL], [("bit slices", UTL + ":compute_bitslice, bstm, weight_bitslice")], ["utilities.bstm"])
prop("N03", "Document text is shown, not executed, in the web interface",
     "Text that comes from documents, feature values or file names is HTML-escaped wherever a page shows it, except where a corpus deliberately supplies markup.",
     ["inputs"], "every document, feature value and path", "no test renders hostile text",
     [SRV, COR, "hyperreal/templates/macros.html"], [("template autoescape", SRV + ":templates")], ["rendered pages"])
prop("N04", "StackExchange and Twitter posts index the documented fields",
     "Each StackExchange post and each collected tweet is indexed under the fields its documentation lists, with the documented treatment of retweets, deleted users, code blocks and truncated dates.",
     ["inputs"], "every post and tweet", "the StackExchange data is absent and the Twitter test is skipped",
     [COR], [("field extraction", COR + ":StackExchangeCorpus.index, TwittersphereCorpus.index")], ["corpus.index"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
