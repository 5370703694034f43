"""Web requests: C17."""

import collections
import csv
import html
import io
import re
import sqlite3
import urllib.parse

import cherrypy

import hyperreal.corpus
import hyperreal.server

import corpora
import lib
import model
from env import SimPool, oracle, real_connect
from kernel import SimKilled, SimStop, this_task
from lib import Run
from scn_edit import plausible
from scn_index import settle, start_locker
from scn_read import passages_of

cherrypy.config.update({"log.screen": False})
cherrypy._cprequest.Request.throws = (*cherrypy._cprequest.Request.throws, SimStop, SimKilled)


class StubEngine:
    "In place of the engine while the application is mounted: nothing listens."

    def __getattr__(self, name):
        return StubEngine()

    def __call__(self, *a, **kw):
        return StubEngine()


def launch(index_server):
    cherrypy.tree.apps.clear()
    engine = cherrypy.engine
    cherrypy.engine = StubEngine()
    try:
        hyperreal.server.launch_web_server(index_server)
    finally:
        cherrypy.engine = engine


class Req:
    """A request, what it names, and what came back."""

    def __init__(self, method, path, params=(), ops=(), kind="", check=None, invalid=False, still=None):
        self.method = method
        self.path = path
        self.params = list(params)
        self.ops = list(ops)
        self.kind = kind
        self.check = check      # check(self, snapshot) -> error or None, for a complete page
        self.still = still      # the same, when nothing was committed while it was served
        self.invalid = invalid  # refusing it is fine
        self.status = None
        self.headers = []
        self.body = b""
        self.complete = False
        self.aborted = False
        self.error = None

    def __repr__(self):
        q = urllib.parse.urlencode(self.params)
        return f"{self.method} {self.path}{'?' + q if q else ''}"

    def environ(self):
        q = urllib.parse.urlencode(self.params)
        body = q.encode() if self.method != "GET" else b""
        env = {
            "REQUEST_METHOD": self.method, "SCRIPT_NAME": "", "PATH_INFO": self.path,
            "QUERY_STRING": q if self.method == "GET" else "", "SERVER_NAME": "localhost", "SERVER_PORT": "80",
            "SERVER_PROTOCOL": "HTTP/1.1", "ACTUAL_SERVER_PROTOCOL": "HTTP/1.1", "REMOTE_ADDR": "127.0.0.1", "HTTP_HOST": "localhost",
            "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(),
            "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False,
        }
        if self.method == "POST":
            env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
            env["CONTENT_LENGTH"] = str(len(body))
        return env

    def send(self, sim, g):
        "Like the server's worker thread: run the application, write what it yields, close it."
        abort = None
        if g.flag(0.25):
            abort = g.draw(12)
        slow = g.flag(0.15)

        def start_response(status, headers, exc_info=None):
            self.status = int(status.split()[0])
            self.headers = headers
            return None

        out = cherrypy.tree(self.environ(), start_response)
        try:
            for i, chunk in enumerate(out):
                if abort is not None and i >= abort:
                    self.aborted = True
                    sim.fired["client disconnects"] += 1
                    break
                self.body += chunk
                sim.point("client", "chunk")
                if slow and i % 3 == 0:
                    sim.sleep_us(200_000)
            else:
                self.complete = True
        finally:
            if hasattr(out, "close"):
                out.close()

    def location(self):
        return next((v for k, v in self.headers if k.lower() == "location"), "")

    def text(self):
        return self.body.decode("utf-8", "replace")


# ---------------------------------------------------------------- requests


FEATURE = re.compile(r"feature_id=(\d+)")


def overview_clusters(text):
    "Of the overview page: [(cluster, [features])] in order."
    out = []
    for m in re.split(r'<div class="feature-cluster">', text)[1:]:
        cid = int(re.search(r"Cluster (\d+)", m).group(1))
        out.append((cid, [int(x) for x in FEATURE.findall(m.split('class="cluster-footer"')[0])]))
    return out


def check_overview(top_k):
    def check(req, s):
        got = overview_clusters(req.text())
        if sorted(c for c, _ in got) != sorted(s.clusters):
            return f"shows clusters {[c for c, _ in got]}, model has {sorted(s.clusters)}"
        for c, fids in got:
            want = s.members[c]
            if not set(fids) <= set(want) or len(set(fids)) != len(fids) or len(fids) != min(top_k, len(want)):
                return f"cluster {c} shows features {fids}, has {sorted(want)}"
            rest = set(want) - set(fids)
            if rest and fids and max(s.fcount[f] for f in rest) > min(s.fcount[f] for f in fids):
                return f"cluster {c} shows features {fids}, not its {top_k} largest"
        return None
    return check


def check_export(req, s):
    rows = list(csv.reader(io.StringIO(req.text(), newline="")))
    if rows[0] != ["cluster_id", "feature_id", "field", "value", "docs_count"]:
        return f"header {rows[0]}"
    got = {int(r[1]): (int(r[0]), r[2], r[3], int(r[4])) for r in rows[1:]}
    want = {f: (c, s.feats[f][0], "" if s.feats[f][1] is None else str(s.feats[f][1]), s.fcount[f]) for f, (c, _, _) in s.fc.items()}
    if len(rows) - 1 != len(got) or got != want:
        return f"export has {got}, model has {want}"
    return None


def jaccard(a, b):
    return len(a & b) / len(a | b) if a | b else 0.0


def check_results(req, s, q, n_docs, texts):
    "The documents a page shows for a query."
    text = req.text()
    q = frozenset(q)
    n = min(n_docs, len(q))
    m = re.search(r"Sample of (\d+) documents|All (\d+) matching documents", text)
    if n and not m:
        return f"shows no documents of {len(q)}"
    if not m:
        return None
    if int(m.group(1) or m.group(2)) != len(q):
        return f"{m.group(0)!r}, query has {len(q)}"
    if bool(m.group(1)) != (n < len(q)):
        return f"{m.group(0)!r}, shown are {n}"
    docs = re.search(r'<ul class="doc-list">(.*?)</ul>', text, re.S)
    shown = [html.unescape(x) for x in re.findall(r"<li>(.*?)</li>", docs.group(1), re.S)] if docs else []
    if len(shown) != n:
        return f"shows {len(shown)} documents of {len(q)}, asked for {n_docs}"
    rest = collections.Counter(texts(s.keys[d]) for d in q)
    rest.subtract(shown)
    if any(x < 0 for x in rest.values()):
        return f"shows documents {shown}, matching are {[texts(s.keys[d]) for d in sorted(q)]}"
    return None


def best_features(s, c, q, fids, top_k):
    want = sorted((x for f in s.members[c] if (x := jaccard(q, s.docs[f])) > 0), reverse=True)[:top_k]
    got = [jaccard(q, s.docs[f]) for f in fids]
    if len(set(fids)) != len(fids) or not set(fids) <= set(s.members[c]) or len(got) != len(want) or any(abs(a - b) > 1e-9 for a, b in zip(got, want)):
        return f"cluster {c}: features {list(zip(fids, got))}, best similarities {want}"
    return None


def check_cluster(cid, fid=None, other=None, n_docs=30, texts=None, known=lambda: True):
    def check(req, s):
        if req.status == 404:
            return "404 for an existing cluster" if cid in s.clusters else None
        if cid not in s.clusters:
            return "page for a cluster that does not exist"
        if not known():
            return None
        q = s.cdocs[cid]
        if fid is not None:
            q = q & s.docs[fid]
        if other is not None:
            q = q & s.cdocs.get(other, frozenset())
        text = req.text()
        fids = [int(x) for x in FEATURE.findall(text.split('<ul class="compact-cluster">')[1])]
        if any(q & s.docs[f] for f in s.members[cid]):
            e = best_features(s, cid, q, fids, len(s.members[cid]))
        else:
            e = None if sorted(fids) == sorted(s.members[cid]) else f"features {fids}, cluster has {sorted(s.members[cid])}"
        if e is None and (cid in s.pinned_c) == ("Split Cluster" in text):
            e = f"pinned: {cid in s.pinned_c}, page says otherwise"
        if e is None and texts is not None:
            e = check_results(req, s, q, n_docs, texts)
        return e
    return check


def check_pivot_page(fid, cid, top_k, n_docs, texts):
    def check(req, s):
        q = s.docs[fid] if fid is not None else s.cdocs.get(cid, frozenset())
        if not q:
            return None
        got = overview_clusters(req.text())
        want = {c: jaccard(q, s.cdocs[c]) for c in s.clusters if q & s.cdocs[c]}
        if sorted(c for c, _ in got) != sorted(want):
            return f"shows clusters {[c for c, _ in got]}, overlapping are {sorted(want)}"
        sims = [want[c] for c, _ in got]
        if any(a < b - 1e-9 for a, b in zip(sims, sims[1:])):
            return f"clusters {[c for c, _ in got]} not by decreasing similarity {sims}"
        for c, fids in got:
            e = best_features(s, c, q, fids, top_k)
            if e:
                return e
        return check_results(req, s, q, n_docs, texts) if texts is not None else None
    return check


def check_passages(store, clauses, n_docs):
    "The passages a page shows: of clauses, lists of feature ids, in disjunction within and conjunction between."
    def check(req, s):
        fields = collections.defaultdict(list)
        for clause in clauses(s):
            here = collections.defaultdict(set)
            for f in clause:
                field, value = s.feats[f]
                if s.fsum[field][3]:
                    here[field].add(value)
            for field, values in here.items():
                fields[field].append(values)
        want = collections.defaultdict(dict)
        for field, cs in fields.items():
            for d, ps in passages_of(store, s.keys, field, cs, 25).items():
                want[d][field] = ps
        shown = re.search(r'<ul class="doc-list">(.*?)</ul>', req.text(), re.S)
        items = re.findall(r"<li>(.*?)</li>", shown.group(1), re.S) if shown else []
        if len(items) != min(n_docs, len(want)):
            return f"shows passages of {len(items)} documents, there are some in {sorted(want)}, asked for {n_docs}"
        rest = collections.Counter()
        for d, fs in want.items():
            doc = store.fields(s.keys[d])
            lines = [(field, " ".join(str(t) for t in doc[field][max(0, p[1] - 20):p[2] + 21])) for field, ps in fs.items() for p in ps]
            lines += [(field, str(v)) for field, values in doc.items() if isinstance(values, (set, frozenset)) for v in values]
            rest[tuple(sorted(lines))] += 1
        for item in items:
            got = tuple(sorted((html.unescape(a), html.unescape(b)) for a, b in re.findall(r"<dt>(.*?)</dt>\s*<dd>(.*?)</dd>", item, re.S)))
            rest[got] -= 1
            if rest[got] < 0:
                return f"shows the passages {got}, there are {dict(rest)}"
        return None
    return check


def both(*checks):
    return lambda req, s: next((e for c in checks if c is not None for e in [c(req, s)] if e), None)


def check_search(field, value, cid):
    def check(req, s):
        fid = next((f for f, v in s.feats.items() if v == (field, value) and type(v[1]) is str), None)
        if fid is None:
            return f"found {req.location()} for a value that is not indexed"
        want = f"/index/0/cluster/{cid}?feature_id={fid}" if cid is not None else f"/index/0/?feature_id={fid}"
        return None if req.location().endswith(want) else f"redirects to {req.location()}, should be {want}"
    return check


def check_details(req, s):
    rows = re.findall(r"<tr>(.*?)</tr>", req.text().split("<tbody>")[1].split("</tbody>")[0], re.S)
    got = sorted((html.unescape(t[0]), int(t[1])) for t in (re.findall(r"<td>(.*?)</td>", r, re.S) for r in rows))
    want = sorted((f, n[0]) for f, n in s.fsum.items())
    return None if got == want else f"shows fields {got}, are {want}"


def gen_get(g, s, texts=None, store=None):
    ids, feats = sorted(s.clusters), sorted(s.feats)
    strs = [f for f in feats if isinstance(s.feats[f][1], str)]
    kind = g.weighted([6, 4, 3, 5, 2, 3, 2, 1, 1])
    rt = [("result_type", ["document", "concordance", "passage"][g.draw(3)])] if g.flag(0.3) else []
    if rt and rt[0][1] != "document":
        texts = None
    if not rt or rt[0][1] != "passage":
        store = None
    n_docs = 1 + g.draw(4) if g.flag(0.4) else None
    nd = [("exemplar_docs", n_docs)] if n_docs else []
    if kind == 0:
        k = 1 + g.draw(6)
        return Req("GET", "/index/0" if g.flag(0.1) else "/index/0/", [("top_k_features", k)], kind="overview", check=check_overview(k))
    tk = 1 + g.draw(5) if g.flag(0.5) else None
    k = [("top_k_features", tk)] if tk else []
    if kind == 1 and ids:
        c = g.pick(ids) if g.flag(0.9) else 900
        if not s.cdocs.get(c):
            return Req("GET", "/index/0/", [("cluster_id", c), *rt], kind="pivot", invalid=c not in s.clusters)
        return Req("GET", "/index/0/", [("cluster_id", c), *rt, *nd, *k], kind="pivot", still=both(check_pivot_page(None, c, tk or 40, n_docs or 5, texts),
                   store and check_passages(store, lambda s: [s.members[c]], n_docs or 5)))
    if kind == 2 and feats:
        f = g.pick(feats)
        return Req("GET", "/index/0/", [("feature_id", f), *rt, *nd, *k], kind="pivot", still=both(check_pivot_page(f, None, tk or 40, n_docs or 5, texts),
                   store and check_passages(store, lambda s: [[f]], n_docs or 5)))
    if kind == 3 and ids:
        c = g.pick(ids) if g.flag(0.85) else 900
        p = []
        fid = other = None
        if g.flag(0.3) and feats:
            fid = g.pick(feats)
            p.append(("feature_id", fid))
        elif g.flag(0.3):
            other = g.pick(ids)
            p.append(("filter_cluster_id", other))
        return Req("GET", f"/index/0/cluster/{c}" + "/" * (not g.flag(0.1)), p + rt + nd, kind="cluster", check=check_cluster(c, known=lambda: False),
                   still=both(check_cluster(c, fid, other, n_docs or 30, texts),
                              store and c in s.clusters and check_passages(store, lambda s: [s.members[c]] + [[fid]] * (fid is not None) + [s.members.get(other, [])] * (other is not None), n_docs or 30) or None))
    if kind == 5:
        return Req("GET", "/index/0/export_clusters", kind="export", check=check_export)
    if kind == 6 and strs:
        f, v = s.feats[g.pick(strs)]
        c = g.pick(ids) if ids and g.flag(0.3) else None
        return Req("GET", "/index/0/search", [("field", f), ("value", v)] + [("cluster_id", c)] * (c is not None), kind="search", invalid=not v, still=check_search(f, v, c))
    if kind == 7:
        return Req("GET", ["/", "/index/", "/index"][g.draw(3)], kind="listing")
    if kind == 8:
        # an edit by GET is refused
        p = [("cluster_id", c) for c in ids[:2]]
        path = ["cluster/delete", "cluster/merge", "recreate_model", "refine_model", "cluster/refine", "cluster/pin", "feature/remove_from_model", "feature/pin", "cluster/create"][g.draw(9)]
        if path.startswith("feature") or path.endswith("create"):
            p = [("feature_id", f) for f in feats[:2]]
        return Req("GET", f"/index/0/{path}", p, kind="edit by GET", invalid=True)
    return Req("GET", "/index/0/details", kind="details", still=check_details)


def gen_post(g, s):
    "An edit, as the pages' forms send it."
    op = lib.gen_edit(g, s, weights=(5, 4, 3, 3, 3, 3, 2, 4))
    n = op.name
    many = lambda key, ids: [(key, i) for i in ids]
    if n == "create_cluster_from_features":
        return Req("POST", "/index/0/cluster/create", many("feature_id", op.args[0]), [op])
    if n == "merge_clusters":
        return Req("POST", "/index/0/cluster/merge", many("cluster_id", op.args[0]), [op])
    if n == "delete_clusters":
        extra = [("return_cluster_id", op.args[0][0])] if op.args[0] and g.flag(0.3) else []
        return Req("POST", "/index/0/cluster/delete", many("cluster_id", op.args[0]) + extra + [("return_to", "model")] * g.draw(2), [op])
    if n == "delete_features":
        extra = [("cluster_id", g.pick(sorted(s.clusters)))] if s.clusters and g.flag(0.5) else []
        return Req("POST", "/index/0/feature/remove_from_model", many("feature_id", op.args[0]) + extra, [op])
    if n in ("pin_features", "pin_clusters"):
        key, path = ("feature_id", "feature/pin") if n == "pin_features" else ("cluster_id", "cluster/pin")
        p = many(key, op.args[0]) + [("pinned", int(op.kwargs["pinned"]))]
        if n == "pin_features" and s.clusters and g.flag(0.5):
            p.append(("cluster_id", g.pick(sorted(s.clusters))))
        return Req("POST", f"/index/0/{path}", p, [op], invalid=not op.args[0])
    if n == "initialise_clusters":
        k, it, md, mcf = op.args[0], 1 + g.draw(2), op.kwargs["min_docs"], 1 + g.draw(2)
        fields = op.kwargs.get("include_fields") or []
        p = [("clusters", k), ("iterations", it), ("min_docs", md), ("minimum_cluster_features", mcf)] + many("include_fields", fields)
        return Req("POST", "/index/0/recreate_model", p, [op, model.Op("refine_clusters", (), {"iterations": it, "minimum_cluster_features": mcf})])
    it, mcf, tc = op.kwargs["iterations"], op.kwargs.get("minimum_cluster_features", 1), op.kwargs.get("target_clusters")
    kw = {"iterations": it, "minimum_cluster_features": mcf}
    p = [("iterations", it), ("minimum_cluster_features", mcf)]
    if tc or g.flag(0.5):
        kw["target_clusters"] = tc or None
        p.append(("target_clusters", tc or ""))
    ids = op.kwargs.get("cluster_ids")
    if g.flag(0.35):
        return Req("POST", "/index/0/refine_model", p, [model.Op("refine_clusters", (), kw)])
    ids = ids if ids is not None else ([] if g.flag(0.2) else sorted(s.clusters))
    kw["cluster_ids"] = ids
    p += many("cluster_id", ids) + [("return_to", ["cluster", "model"][g.draw(2)])]
    return Req("POST", "/index/0/cluster/refine", p, [model.Op("refine_clusters", (), kw)])


def returned(req, op):
    if op.name == "create_cluster_from_features" or op.name == "merge_clusters":
        m = re.search(r"/cluster/(\d+)", req.location())
        return int(m.group(1)) if m else None
    return None


# ---------------------------------------------------------------- judging


def judge_post(run, req, wt, mine, k0, k1, fired, excuse, what):
    "The commits a request made, against the edits it names."
    late = [a for a in fired if a.kind in lib.DISK_KINDS]
    states = [x[0] for x in wt.states]
    n = len(req.ops)
    if req.status in (302, 303):
        if len(mine) > n:
            run.fail("edit applied more than once or in parts", f"{req}: {len(mine)} commits{what}")
        # each edit is one of the commits, or changes nothing on a state in between
        err = match_ops(req, req.ops, states, mine, k0, k1)
        if err:
            run.fail("redirected edit differs from its effect", f"{req}: {err}{what}")
        for k in mine:
            e = model.check_summaries(states[k])
            if e:
                run.fail("edit left stale summaries", f"{req}: {e}{what}")
        return
    if not mine:
        return
    if req.status is not None and n == 2 and len(mine) == 1:
        # re-creating a model: initialised, then the refining failed
        if req.ops[0].check(states[mine[0] - 1], states[mine[0]], None) is None and model.check_summaries(states[mine[0]]) is None:
            return
    if late and len(mine) <= n:
        ops = req.ops[:len(mine)]
        if all(plausible(o, states[k - 1], states[k]) and model.check_summaries(states[k]) is None for o, k in zip(ops, mine)):
            run.sim.probes["fault after the commit"] += 1
            return
    run.fail("failed request changed the index", f"{req} answered {req.status}: {states[mine[0] - 1].diff(states[mine[-1]])}{what}")


def match_ops(req, ops, states, mine, k0, k1):
    if not ops:
        return f"{len(mine)} commits" if mine else None
    op = ops[0]
    ret = returned(req, op)
    err = None
    if mine:
        a, b = states[mine[0] - 1], states[mine[0]]
        err = "accepted though invalid" if op.raises(a) else op.check(a, b, ret)
        if err is None:
            e = match_ops(req, ops[1:], states, mine[1:], mine[0], k1)
            if e is None:
                return None
            err = e
    if len(mine) < len(ops):
        hi = mine[0] if mine else k1 + 1
        for k in range(k0, hi):
            if not op.raises(states[k]):
                e = op.check(states[k], states[k], ret)
                if e is None:
                    e = match_ops(req, ops[1:], states, mine, k, k1)
                    if e is None:
                        return None
                err = err or e
            else:
                err = err or "accepted though invalid"
    return err


def c17(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    positions = g.flag(0.4)
    store = corpora.gen_store(g, max_docs=8, min_docs=2)
    kind = g.weighted([5, 3, 3])
    if kind == 2:
        cpath = run.path("c.db")
        texts = [" ".join(corpora.WORDS[g.draw(8)] for _ in range(1 + g.draw(8))) for _ in range(2 + g.draw(6))]
        with run.calm():
            corpus = hyperreal.corpus.PlainTextSqliteCorpus(cpath)
            corpus.replace_docs(texts)
    else:
        corpus, box = corpora.make_corpus(sim, store)
    idx = lib.build_base(run, path, run.opg("base"), corpus, pool, positions, n_clusters=1 + g.draw(6), edits=g.draw(3))
    idx.close()
    if kind == 2:
        corpus.close()

    def serve(pool):
        if kind == 0:
            launch(hyperreal.server.SingleIndexServer(path, corpus_class=lambda: corpus, pool=pool))
        elif kind == 1:
            launch(hyperreal.server.SingleIndexServer(path, pool=pool))
        else:
            launch(hyperreal.server.SingleIndexServer(path, corpus_class=hyperreal.corpus.PlainTextSqliteCorpus, corpus_args=[cpath], pool=pool))

    texts = None
    if kind == 0:
        docs = {k: corpora.SimCorpus.text(None, {"key": k, "fields": v}) for k, v in store.docs.items()}
        texts = docs.__getitem__
    elif kind == 2:
        rows = dict(real_connect(cpath).execute("select doc_id, text from doc"))
        texts = rows.__getitem__
    run.note(f"served with {['a simulated corpus', 'no corpus', 'a plain text corpus'][kind]}{', positions' if positions else ''}")
    serve(pool)
    wt = run.watch(path)
    active = set()
    faulty = g.flag(0.6)

    def one(name, o):
        s = wt.last
        req = gen_post(o, s) if o.flag(0.5) else gen_get(o, s, texts, store if kind == 0 else None)
        k0 = wt.n() - 1
        alone = not active
        me = object()
        others = set(active)
        for x in active:
            overlapped.add(x)
        active.add(me)
        if others:
            overlapped.add(me)
        armed = locker = None
        if n > 1 and o.flag(0.35):
            lib.stall(run, o, wt, 6)
        if faulty and o.flag(0.4) and not sim.faults and not locked:
            f = o
            if f.flag(0.2):
                locked.append(1)
                locker = start_locker(run, path, f, now=True)
            else:
                armed = lib.arm(run, f, f.pick(lib.WORKER_KINDS + lib.DISK_KINDS + ["document error", "slow worker"]), client=this_task())
                disturbed.append(armed)
        nf = len(disturbed)
        ok, r = run.call(repr(req), req.send, sim, o)
        if armed is not None:
            lib.disarm(run)
        active.discard(me)
        wt.poll("x")
        k1 = wt.n() - 1
        mine = [k for k in range(k0 + 1, k1 + 1) if wt.states[k][1] == name]
        if locker is not None:
            sim.locker_stop = True
            run.join([locker])
            locked.clear()
        fired = [a for a in disturbed if a.fired]
        what = f" (by {name}, states {k0}..{k1}, commits {mine})"
        run.note(f"{name}: {req} -> {req.status if ok else type(r).__name__ + ': ' + str(r)[:80]}{' ' + req.location() if req.status in (302, 303) else ''}{' aborted' if req.aborted else ''}"
                 + (f"; fired {[a.kind for a in fired]}" if fired else "") + (" lock held" if locker is not None else "") + (f" commits {mine}" if mine else ""))
        if me in overlapped or fired or locker is not None:
            w.nontrivial = True
        if not ok and not (fired or locker is not None or me in overlapped):
            # the error broke off a response already under way
            run.fail("request broke without a fault", f"{req}: {type(r).__name__}: {r}{what}")
        if req.method == "GET":
            if mine:
                run.fail("GET request changed the index", f"{req}: {wt.states[mine[0] - 1][0].diff(wt.states[mine[0]][0])}{what}")
        else:
            judge_post(run, req, wt, mine, k0, k1, fired, None, what)
        excuse = fired or disturbed_before(nf) or locker is not None or locked or me in overlapped or pools[0]._broken
        if req.kind == "edit by GET":
            if req.status != 405 and not excuse:
                run.fail("edit by GET answered", f"{req}: {req.status}")
        elif req.status is not None and req.status >= 500 and not excuse and not req.invalid and not any(op.raises(wt.states[k0][0]) for op in req.ops):
            run.fail("request failed without a fault", f"{req}: {req.status} {error_of(req)}{what}")
        if req.check is not None and req.complete and ok and req.status in (200, 404):
            errs = [req.check(req, wt.states[k][0]) for k in range(k0, k1 + 1)]
            if all(errs):
                run.fail("page shows no committed state", f"{req}: {errs[-1]}{what}")
        if req.still is not None and k0 == k1 and req.complete and ok and req.status in (200, 302, 303) and (req.kind == "search") == (req.status != 200):
            if req.location().endswith("/details"):
                e = None  # no model yet
            else:
                e = req.still(req, wt.states[k0][0])
            if e:
                run.fail("page differs from the index", f"{req}: {e}{what}")
        overlapped.discard(me)
        return req

    overlapped = set()
    disturbed = []
    locked = []
    pools = [pool]

    def disturbed_before(n):
        return any(a.fired for a in disturbed)

    def body(name, n_req):
        for i in range(n_req):
            one(name, w.ch.sub(f"{name}r{i}"))

    n = 1 + g.draw(4)
    if n > 1 and sim.p_switch < 0.1:
        sim.p_switch = lib.P_SWITCH[2 + run.k.draw(3)]
    run.join([run.client(lambda i=i: body(f"c{i}", 2 + g.draw(3)), f"c{i}") for i in range(n)])
    lib.disarm(run)
    settle(run, pool)
    wt.poll("x")
    e = next((e for s, *_ in wt.states for e in [model.all_invariants(s)] if e), None)
    if e:
        run.fail("inconsistent index", e)
    # nothing is left behind
    with oracle():
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            con.execute("begin immediate")
            con.execute("rollback")
        except sqlite3.OperationalError as x:
            run.fail("a request left a lock behind", str(x))
        finally:
            con.close()
    disturbed.clear()
    if pool._broken:
        sim.probes["pool replaced"] += 1
        pools[0] = SimPool(2)
        serve(pools[0])
    faulty = False

    def after():
        for j in range(2):
            one("after", w.ch.sub(f"after{j}"))
        s = wt.last
        if s.clusters:
            o = w.ch.sub("afterpin")
            c = o.pick(sorted(s.clusters))
            op = model.Op("pin_clusters", ([c],), {"pinned": c not in s.pinned_c})
            req = Req("POST", "/index/0/cluster/pin", [("cluster_id", c), ("pinned", int(op.kwargs["pinned"]))], [op])
            n0 = wt.n()
            ok, r = run.call(repr(req), req.send, sim, quiet(o))
            wt.poll("x")
            run.note(f"after: {req} -> {req.status}")
            if not ok or req.status not in (302, 303):
                run.fail("later request is not served", f"{req}: {req.status} {r if not ok else error_of(req)}")
            if wt.n() - n0 != 1 or op.check(s, wt.last, None):
                run.fail("redirected edit differs from its effect", f"{req}: {wt.n() - n0} commits; {op.check(s, wt.last, None)}")

    run.join([run.client(after, "after")])
    cherrypy.tree.apps.clear()
    wt.close()


class quiet:
    "A client that reads everything at once."

    def __init__(self, g):
        self.g = g

    def flag(self, p):
        return False

    def draw(self, n):
        return 0


def error_of(req):
    t = re.findall(r"^(\w[\w.]*(?:Error|Exception|Interrupt)[^\n<]*)", req.text(), re.M)
    return t[-1] if t else ""
