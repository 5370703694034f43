"""What each check runs and how its coverage is described."""


def d(quick, thorough, rule, note, level="exploration", **kw):
    return {
        "runs": {"quick": quick, "thorough": thorough}, "level": level, "rule": rule, "note": note,
        "technique": kw.pop("technique", "deterministic simulation, seeded schedules and faults"), **kw,
    }


DEFS = {
    "C01": d(5500, 90000,
             "Each run draws corpora (simulated or plain text), batch sizes, workers, preemption and slow batches from its seed, indexes, and re-indexes changed versions. "
             "Non-trivial: at least two batches, or a re-index, completed and was compared in full with the specification of indexing.",
             "The committed index and the public read calls are compared with an independent computation from the corpus."),
    "C02": d(6000, 90000,
             "Each run draws an index with content (often a model), then index() calls with a fault of a drawn kind at a drawn point. "
             "Non-trivial: a fault fired inside an indexing call.",
             "After every failed call the state seen through the same object, a fresh one and a watcher is compared with the state before; then a call without a fault must succeed.",
             technique="deterministic simulation with fault injection"),
    "C03": d(3600, 40000,
             "Each run records all file operations of a history of indexing calls and edits and cuts it at drawn instants by a process kill or a power failure. "
             "Non-trivial: at least one crash image was reopened and compared.",
             "Each crash image must equal one of the committed versions allowed at that instant, reopen and re-index.",
             technique="deterministic simulation, kill and power-loss images of recorded file operations"),
    "C04": d(2400, 30000,
             "Each run interleaves one to three readers with a writer that edits and re-indexes, at every statement. "
             "Non-trivial: at least one read overlapped a commit.",
             "Each answer must be the model's answer on one committed state between the call and its return."),
    "C05": d(3000, 40000,
             "Each run draws histories of edits and re-indexing with changed corpora, some attempts failing. "
             "Non-trivial: a re-index over a model was compared.",
             "Feature ids, clusters, pins before and after; summaries against the new contents."),
    "C06": d(3000, 40000,
             "Each run lets one to three clients edit, refine and re-index with faults. Non-trivial: at least three commits were checked.",
             "Invariants are evaluated on every committed state as it is committed.",
             technique="deterministic simulation with fault injection, invariants on every commit"),
    "C07": d(4000, 60000,
             "Each run draws a sequence of edits, most with a fault at a drawn point, and cuts the recorded file operations at drawn instants. "
             "Non-trivial: a fault fired in an edit or a kill image was compared.",
             "Returned means exactly its effect in one commit; raised means none; kill images hold every acknowledged edit.",
             technique="deterministic simulation with fault injection and kill images"),
    "C08": d(3000, 40000,
             "Each run interleaves two to four editors of one index, at every statement. Non-trivial: an edit overlapped another editor's commit.",
             "Commit-log refinement: every commit is exactly its call's specified effect on the state before it.",
             technique="deterministic simulation, commit-log refinement against a model"),
    "C09": d(3000, 40000,
             "Each run alternates work and power failures that lose, reorder and tear unsynchronised writes. Non-trivial: at least one power-loss image was recovered and compared.",
             "The recovered state must be a prefix of the committed history; work continues on the image.",
             technique="deterministic simulation, power-loss images with lost and torn writes"),
    "C10": d(2400, 40000,
             "Each run draws a model with pins and refinement settings and runs refinements under drawn completion orders. Non-trivial: a refinement of at least two clusters was judged.",
             "Conservation and pinning relation on the committed states; the same refinement with the clusters outside the selection changed must give the same result inside it.",
             liveness=True),
    "C11": d(1400, 30000,
             "Each run executes one sequence of calls several times under different schedules, workers and batch sizes. Non-trivial: at least two executions with different schedules were compared.",
             "Resulting index and model must be identical, also between processes with different PYTHONHASHSEED.",
             hashseeds={"quick": 120, "thorough": 3000}),
    "C12": d(4000, 40000,
             "Each run draws an index and model, then queries it through the pool under drawn completion orders and worker faults. Non-trivial: an answer with at least two clusters was compared, or a worker fault fired.",
             "Sequential computation from the committed state; an answer given although a task was lost must still be complete.",
             technique="deterministic simulation with worker faults against a sequential model"),
    "C13": d(4000, 40000,
             "Each run indexes a corpus with positions under drawn batchings and asks for passages and collocations under drawn completion orders and worker faults. Non-trivial: a non-empty passage or collocation answer was compared.",
             "The definitions evaluated directly on the corpus's token lists."),
    "C14": d(6500, 100000,
             "Each run loads corpora with bad rows, storage faults, interrupts, kills and power failures at drawn points. Non-trivial: a fault fired or a crash image was compared.",
             "Old or new contents, never a mixture; success means all of the new ones.",
             technique="deterministic simulation with fault injection, kill and power-loss images"),
    "C15": d(7000, 80000,
             "Each run interleaves passes over a corpus, rendering of query results and replacement of the corpus. Non-trivial: a pass overlapped a replacement, or a rendered answer of at least two documents was compared.",
             "Every pass must equal one version; every document must stand under its own id and key."),
    "C16": d(5000, 80000,
             "Each run opens new, current, old-version and foreign databases, concurrently and with faults and crashes. Non-trivial: two openers overlapped, a fault fired, a crash image was reopened or an old version migrated.",
             "Contents against what was put in; foreign databases byte for byte by content.",
             technique="deterministic simulation with fault injection and crash images"),
    "C17": d(2400, 30000,
             "Each run sends concurrent requests through the WSGI application, with worker faults, lock contention and client disconnects. Non-trivial: at least two requests overlapped or a fault fired.",
             "Commits during each request against the edit it names; a final request is served normally.",
             technique="deterministic simulation of concurrent web requests with fault injection"),
    "C18": d(4500, 60000,
             "Each run indexes with drawn batch sizes, workers and slow batches. Non-trivial: batches were still unfinished while the corpus was being read.",
             "Counts of submitted and unfinished batches and of documents read ahead, at every submission."),
    "C19": d(4000, 50000,
             "Each run draws models, samples them beside an editor, and exports the sample. Non-trivial: a sample of at least two documents was judged.",
             "The sampling relation on one committed state; the rows of the file against corpus and model."),
    "C20": d(2400, 30000,
             "Each run lets clients index, edit and query with faults of every kind, then stops the faults. Non-trivial: a fault fired or clients contended.",
             "No deadlock, bounded steps and simulated time, and successful calls once faults stop.",
             technique="deterministic simulation with fault injection, bounded liveness",
             liveness=True),
    "C21": d(1100, 10000,
             "Each run executes command lines with faults of the worker, disk and file kinds and interrupts. Non-trivial: a command was judged after a fault fired, or all its outputs were compared.",
             "Exit status against databases and files.",
             technique="deterministic simulation with fault injection"),
}
