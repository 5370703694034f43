"""The command line: C21."""

import builtins
import collections
import csv
import errno
import gc
import io
import json
import os
import shutil

import click.testing
import networkx as nx

import hyperreal.cli
import hyperreal.corpus
import hyperreal.server
import hyperreal.utilities

import lib
import model
import realcorpora
import scn_corpus
import twitter
from env import VFS, oracle, real_connect
from kernel import Fault, HarnessError, Violation, this_task
from lib import Run
from scn_corpus import SXLoad, read_plain, read_sx, read_tw
from scn_index import start_locker
from scn_read import check_graph, judge_sample

real_open = builtins.open

# ---------------------------------------------------------------- files


class Raw(io.FileIO):
    "A file of the command's that may fail."

    sim = None
    label = "?"

    def _hit(self, op):
        if self.sim.faults:
            f = self.sim.hit("file", (op, self.label))
            if f is not None:
                raise OSError(f.action, os.strerror(f.action))

    def readinto(self, b):
        self.sim.point("file read")
        self._hit("read")
        return super().readinto(b)

    def readall(self):
        self._hit("read")
        return super().readall()

    def write(self, b):
        self.sim.point("file write")
        b = memoryview(b).cast("B")
        if self.sim.faults:
            f = self.sim.hit("file", ("write", self.label))
            if f is not None:
                if f.kind == "file short write" and len(b) > 1:
                    return super().write(b[:len(b) // 2])
                if f.action:
                    raise OSError(f.action, os.strerror(f.action))
        return super().write(b)

    def close(self):
        if self.closed:
            return
        super().close()
        self._hit("close")


FILE_KINDS = {
    "file read error": ("read", errno.EIO, False), "file open error": ("open", errno.EACCES, False),
    "file write error": ("write", errno.EIO, False), "file disk full": ("write", errno.ENOSPC, True),
    "file short write": ("write", 0, False), "file close error": ("close", errno.EIO, False),
}


class Files:
    "builtins.open for the files of the command line, with small buffers and faults."

    def __init__(self, w, bufsize):
        self.root = os.path.join(w.dir, "files") + os.sep
        self.sim = w.sim
        self.bufsize = bufsize

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not (isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(self.root)) or this_task() is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        sim = self.sim
        sim.point("file open")
        if sim.faults:
            f = sim.hit("file", ("open", file))
            if f is not None:
                raise OSError(f.action, os.strerror(f.action), file)
        raw = Raw(file, mode.replace("b", "").replace("t", ""))
        raw.sim = sim
        raw.label = os.path.basename(file)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, self.bufsize) if raw.readable() and not raw.writable() else io.BufferedWriter(raw, self.bufsize)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        text._CHUNK_SIZE = self.bufsize
        return text

    def __enter__(self):
        builtins.open = self.open

    def __exit__(self, *a):
        builtins.open = real_open


# ---------------------------------------------------------------- what there is


def state(path, read):
    "The committed state of a database: None if there is none, '' if it is blank."
    if not os.path.exists(path):
        return None
    if read is other_content:
        return read(path)[0]
    with oracle():
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            n = con.execute("select count(*) from sqlite_master").fetchone()[0]
            con.execute("pragma foreign_keys=0")
        finally:
            con.close()
    if n == 0:
        return ""
    s, err = read(path)
    if err:
        raise BadState(err)
    return s


def blank(s):
    return s is None or isinstance(s, str)


class BadState(Exception):
    pass


def corpus_reader(read):
    return lambda p: scn_corpus.read_image(p, read)


class Kind:
    "A sort of corpus."

    def __init__(self, short, name, cls, read):
        self.short = short
        self.name = name
        self.cls = cls
        self.read = corpus_reader(read)

    def store(self, run, path):
        "The corpus as the specification of indexing sees it."
        c = self.cls(path)
        st = realcorpora.spec(run, self.short, path, c)
        raw = list(c.docs())
        if self.short == "plain":
            st.rows = {k: {"text": d["text"]} for k, d in raw}
        elif self.short == "sx":
            st.rows = {k: {f: "" if d.get(f) is None else str(d[f]) for f in c.table_fields} for k, d in c.render_docs_table(st.order)}
            for k, d in raw:
                if st.rows[k]["site_url"] != d["site_url"] or st.rows[k]["Body"] != (d["Body"] or "") or st.rows[k]["Id"] != str(d["Id"]):
                    run.fail("table row wrong", f"{st.rows[k]}")
        c.close()
        return st


PLAIN = Kind("plain", "plaintext-corpus", hyperreal.corpus.PlainTextSqliteCorpus, read_plain)
SX = Kind("sx", "stackexchange-corpus", hyperreal.corpus.StackExchangeCorpus, read_sx)
TW = Kind("twitter", "twittersphere-corpus", hyperreal.corpus.TwittersphereCorpus, read_tw)

WORDS = ["alpha", "beta,", "it's", "Gamma", "a, b", "\u201cquoted\u201d", "\u6771\u4eac", "e", 'say "hi"', "x\u2028y", "tab\there", "0,1,2", "'", "\\n", "caf\u00e9", "<b>"]


def gen_line(g):
    "A line of a text file and the document it stands for (None: no document)."
    c = g.draw(12)
    if c == 0:
        return ["", "   ", "\t", " \u3000"][g.draw(4)], None
    text = " ".join(WORDS[g.draw(len(WORDS))] for _ in range(1 + g.draw(5)))
    if c == 1:
        text += "\nsecond line"
        return json.dumps(text, ensure_ascii=bool(g.draw(2))), text
    if c == 2:
        return json.dumps("q " + text), "q " + text
    if c == 3:
        return f'"{text}", she said, "no."', f'"{text}", she said, "no."'
    if c == 4:
        text = "  " + text + " "
    if c == 6 and g.flag(0.3):
        text += "".join(f" w{i}" for i in range(60 + g.draw(90)))
    if c == 5:
        text = '"' + text + " unfinished"
    return text, text


def collect(g, f, tag, faults):
    "Another program collects tweets."
    c = TW.cls(f.corpus)
    twitter.TwLoad(g, tag).call(c)
    c.close()
    return None


class Cmd:
    "One command line, what must be the case when it succeeds and what may be when it does not."

    touches = ()
    bad = None
    stdin = None

    def args(self, at):
        raise NotImplementedError

    def __repr__(self):
        return f"{' '.join(self.args(lambda p: os.path.basename(p)))}{' (' + self.bad + ')' if self.bad else ''}"


class Create(Cmd):
    def __init__(self, g, f, tag, faults):
        self.corpus = f.corpus
        self.file = os.path.join(f.inputs, f"t{tag}.txt")
        lines = [gen_line(g) for _ in range(g.draw([3, 7, 25][g.draw(3)] + 1))]
        self.want = [d for _, d in lines if d is not None]
        nl = ["\n", "\n", "\r\n"][g.draw(3)]
        data = nl.join(x for x, _ in lines).encode() + (nl.encode() if g.flag(0.7) else b"")
        if faults and g.flag(0.12) and data:
            self.bad = "not UTF-8"
            k = g.draw(len(data) + 1)
            data = data[:k] + b"\xff" + data[k:]
        with real_open(self.file, "wb") as out:
            out.write(data)
        self.db = (f.corpus, PLAIN.read)

    def args(self, at):
        return ["plaintext-corpus", "create", self.file, at(self.corpus)]

    def complete(self, s0, s1, ctx):
        got = [t for _, t in s1.raw] if not blank(s1) else s1
        return None if got == self.want else f"documents {str(got)[:300]}, the file has {str(self.want)[:300]}"

    def partly(self, s0, s1, ctx):
        return isinstance(s1, str) and s0 is None


class AddSite(Cmd):
    def __init__(self, g, f, tag, faults):
        self.corpus = f.corpus
        self.load = SXLoad(g, tag, faults=False)
        files = self.load.files
        if faults and g.flag(0.15):
            k = g.draw(3)
            n = g.draw(len(files[k]))
            self.bad = "cut short"
            files[k] = files[k][:n]
        self.files = [os.path.join(f.inputs, f"{x}{tag}.xml") for x in ("posts", "comments", "users")]
        for p, d in zip(self.files, files):
            with real_open(p, "wb") as out:
                out.write(d)
        self.db = (f.corpus, SX.read)

    def args(self, at):
        return ["stackexchange-corpus", "add-site", *self.files, self.load.site, at(self.corpus)]

    def complete(self, s0, s1, ctx):
        if blank(s1):
            return "there is no corpus"
        return self.load.done(s0 if not blank(s0) else EMPTY_SX, s1)

    def partly(self, s0, s1, ctx):
        "The empty tables are made first."
        return blank(s0) and (blank(s1) or not any(s1.raw))


EMPTY_SX = scn_corpus.CState(((), (), (), (), (), ()))


class IndexCmd(Cmd):
    def __init__(self, g, f, tag, faults):
        self.kind = f.kind
        self.corpus = f.corpus
        self.index = f.index
        self.bs = 1 + g.draw(6) if not g.flag(0.1) else None
        self.pos = [None, True, False][g.draw(3)]
        self.db = (f.index, lib.read_image)

    def args(self, at):
        a = [self.kind.name, "index", at(self.corpus), at(self.index)]
        if self.bs:
            a += ["--doc-batch-size", str(self.bs)]
        if self.pos is not None:
            a += ["--index-positions", str(self.pos)]
        return a

    def complete(self, s0, s1, ctx):
        if blank(s1):
            return "there is no index"
        e = model.check_index(s1, ctx.store(), self.pos is not False) or model.check_summaries(s1)
        if not e and not blank(s0) and (s1.members, s1.pinned_c, s1.pinned_f) != (s0.members, s0.pinned_c, s0.pinned_f):
            e = f"the model changed from {s0.members} to {s1.members}"
        return e

    def partly(self, s0, s1, ctx):
        return blank(s0) and (blank(s1) or not (s1.keys or s1.feats or s1.clusters))


class ModelCmd(Cmd):
    def __init__(self, g, f, tag, faults):
        self.index = f.index
        self.kw = {"iterations": 1 + g.draw(3)}
        self.clusters = None if g.flag(0.15) else 1 + g.draw(6)
        self.min_docs = 1 + g.draw(2)
        self.restart = bool(g.flag(0.4))
        self.answer = "y\n" if g.flag(0.8) else "n\n"
        self.stdin = self.answer
        self.fields = None
        if g.flag(0.25):
            self.fields = [["text"], ["nope"], ["text", "Tag"], ["Post"]][g.draw(4)]
        if g.flag(0.3):
            self.kw["tolerance"] = [0.0, 0.5, 1.0][g.draw(3)]
        if g.flag(0.3):
            self.kw["move_acceptance_probability"] = [1.0, 0.1, 0.0][g.draw(3)]
        if g.flag(0.2):
            self.kw["minimum_cluster_features"] = 1 + g.draw(3)
        if g.flag(0.3):
            self.kw["group_test_batches"] = g.draw(4)
        self.db = (f.index, lib.read_image)

    def args(self, at):
        a = ["model", at(self.index), "--min-docs", str(self.min_docs), "--random-seed", "3"]
        for k, v in self.kw.items():
            a += ["--" + k.replace("_", "-"), str(v)]
        if self.clusters:
            a += ["--clusters", str(self.clusters)]
        if self.restart:
            a.append("--restart")
        for x in self.fields or ():
            a += ["--include-field", x]
        return a

    def ops(self, s0):
        first = not s0.clusters
        n = self.clusters
        ops = []
        if first or self.restart:
            n = n or 64
            ops.append(model.Op("initialise_clusters", (n,), {"min_docs": self.min_docs, "include_fields": self.fields}))
        ops.append(model.Op("refine_clusters", (), {**self.kw, "target_clusters": n}))
        return ops

    def chain(self, s0, ctx):
        return [s0] + [x[0] for x in ctx.wt.states[1:]]

    def complete(self, s0, s1, ctx):
        if s0.clusters and self.restart and self.answer == "n\n":
            return "it was to be aborted"
        ops = self.ops(s0)
        ch = self.chain(s0, ctx) if ctx.wt is not None else None
        e = model.check_summaries(s1)
        if e:
            return e
        if ch is None:
            # after a crash: only the last state is known
            if len(ops) == 2:
                want = {f for f, (field, _) in s0.feats.items() if len(s0.docs[f]) >= self.min_docs and (not self.fields or field in self.fields)}
                got = set().union(*s1.members.values()) if s1.members else set()
                return None if got == want else f"features in the model {sorted(got)}, asked for {sorted(want)}"
            return ops[0].check(s0, s1, None)
        if len(ch) > len(ops) + 1:
            return f"{len(ch) - 1} commits"
        if len(ops) == 1:
            return ops[0].check(s0, s1, None)
        es = []
        for mid in ch:
            es.append(ops[0].check(s0, mid, None) or ops[1].check(mid, s1, None))
            if es[-1] is None:
                return None
        return es[-1]

    def partly(self, s0, s1, ctx):
        ops = self.ops(s0)
        if s0.clusters and self.restart and self.answer == "n\n":
            return False
        return len(ops) == 2 and ops[0].check(s0, s1, None) is None and not model.check_summaries(s1)


class Output(Cmd):
    def unchanged(self, s0, s1):
        return None if same(s0, s1) else "the index changed"

    def complete(self, s0, s1, ctx):
        return self.unchanged(s0, s1) or self.judge(s1, ctx)

    def partly(self, s0, s1, ctx):
        return self.unchanged(s0, s1) is None


class Graph(Output):
    def __init__(self, g, f, tag, faults):
        self.index = f.index
        self.out = os.path.join(f.outputs, f"g{tag % 2}.graphml")
        self.k = [None, 1, 3, 0][g.draw(4)]
        self.field = [None, True, False][g.draw(3)]
        self.db = (f.index, lib.read_image)

    def args(self, at):
        a = ["export", "graph", at(self.index), self.out]
        if self.k is not None:
            a += ["--top-k-features", str(self.k)]
        if self.field is not None:
            a.append("--include-field-in-label" if self.field else "--exclude-field-in-label")
        return a

    def judge(self, s, ctx):
        try:
            graph = nx.read_graphml(self.out, node_type=int)
        except Exception as e:
            return f"the file cannot be read: {type(e).__name__}: {e}"
        labels = not any("," in str(v[1]) or "\n" in str(v[1]) for v in s.feats.values())
        return check_graph(s, graph, 5 if self.k is None else self.k, self.field is not False, labels=labels)


class Clusters(Output):
    def __init__(self, g, f, tag, faults):
        self.index = f.index
        self.out = os.path.join(f.outputs, f"c{tag % 2}.csv")
        self.k = [None, 1, 3, 0][g.draw(4)]
        self.db = (f.index, lib.read_image)

    def args(self, at):
        a = ["export", "clusters", at(self.index), self.out]
        if self.k is not None:
            a += ["--top-k-features", str(self.k)]
        return a

    def judge(self, s, ctx):
        with real_open(self.out, encoding="utf-8", newline="") as f:
            rows = list(csv.reader(f))
        if not rows or rows[0] != ["cluster_id", "feature_id", "field", "value", "docs_count"]:
            return f"header {rows[:1]}"
        try:
            per = collections.OrderedDict()
            for c, fid, field, value, n in rows[1:]:
                real = s.feats.get(int(fid), (None, None))
                per.setdefault(int(c), []).append((int(fid), field, real[1] if str(real[1]) == value else value, int(n)))
        except ValueError as e:
            return f"row not readable: {e}"
        if set(per) != set(s.clusters):
            return f"clusters {sorted(per)}, are {sorted(s.clusters)}"
        got = [(c, s.clusters[c][2], rs) for c, rs in per.items()]
        k = 10 if self.k is None else self.k or 1 << 40
        return None if model.same_top(s, got, k) else f"rows {rows[1:6]} are not the top {k} of each cluster"


class Sample(Output):
    def __init__(self, g, f, tag, faults):
        self.kind = f.kind
        self.corpus = f.corpus
        self.index = f.index
        self.out = os.path.join(f.outputs, f"s{tag % 2}.csv")
        self.n = [None, 0, 1, 2][g.draw(4)]
        self.db = (f.index, lib.read_image)

    def args(self, at):
        a = [self.kind.name, "sample", at(self.corpus), at(self.index), self.out]
        if self.n is not None:
            a += ["--docs-per-cluster", str(self.n)]
        return a

    def judge(self, s, ctx):
        with real_open(self.out, encoding="utf-8", newline="") as f:
            text = f.read()
        rows = list(csv.DictReader(io.StringIO(text, newline="")))
        head = next(iter(csv.reader(io.StringIO(text, newline=""))), None)
        store = ctx.store()
        if head is None or head[:2] != ["doc_key", "sampled_cluster"]:
            return f"header {head}"
        ids = {str(k): d for d, k in s.keys.items()}
        key = {d: k for d, k in s.keys.items()}
        samples = {c: set() for c in s.clusters}
        flags = {int(h[8:]): set() for h in head if h.startswith("cluster_")}
        n = 0
        for r in rows:
            if None in r or None in r.values() or r["doc_key"] not in ids:
                return f"row {r}"
            d = ids[r["doc_key"]]
            c = int(r["sampled_cluster"])
            if c not in samples or d in samples[c]:
                return f"document {d} twice, or sampled from {c}"
            samples[c].add(d)
            n += 1
            for h in flags:
                if r[f"cluster_{h}"]:
                    flags[h].add(d)
            want = store.rows.get(key[d])
            if want is None or any(r.get(k) != v for k, v in want.items()):
                return f"row {r} of document {want}"
        return judge_sample(s, ({c: sorted(b) for c, b in samples.items()}, {c: b for c, b in flags.items()}), 50 if self.n is None else self.n, None)


class Serve(Output):
    "Starting the web interface, with the engine replaced: it comes up and changes nothing."

    def __init__(self, g, f, tag, faults):
        self.kind = f.kind if g.flag(0.6) else None
        self.corpus = f.corpus
        self.index = f.index
        self.db = (f.index, lib.read_image)

    def args(self, at):
        return [self.kind.name, "serve", at(self.corpus), at(self.index)] if self.kind else ["serve", at(self.index)]

    def judge(self, s, ctx):
        if not ctx.served:
            return "nothing was served"
        ids, keys = ctx.served
        if ids != sorted(s.clusters):
            return f"serves clusters {ids}, has {sorted(s.clusters)}"
        if self.kind and keys != ctx.store().order:
            return f"serves documents {keys}, has {ctx.store().order}"
        return None


class Wrong(Output):
    "A command on a file that is not what it needs."

    def __init__(self, g, f, tag, faults):
        self.bad = "wrong file"
        other = os.path.join(f.data, "other.db")
        if not os.path.exists(other):
            c = [0, 1][g.draw(2)]
            if c:
                with oracle():
                    con = real_connect(other, isolation_level=None)
                    con.execute("create table notes(x)")
                    con.execute("insert into notes values('mine')")
                    con.execute("pragma user_version=10")
                    con.close()
            else:
                with real_open(other, "wb") as out:
                    out.write(b"just some text\n" * 20)
        self.other = other
        nosuch = os.path.join(f.data, "nosuch.db")
        out = os.path.join(f.outputs, "wrong.csv")
        self.choices = [
            ["model", other, "--min-docs", "1"], ["export", "graph", other, out], ["export", "clusters", other, out], ["serve", other],
            [f.kind.name, "sample", f.corpus, other, out], [f.kind.name, "index", f.corpus, other], [f.kind.name, "serve", f.corpus, other],
            ["export", "graph", nosuch, out], ["export", "clusters", nosuch, out], ["serve", nosuch], [f.kind.name, "sample", f.corpus, nosuch, out],
            ["model", nosuch], [f.kind.name, "index", os.path.join(f.data, "nosuch.db"), f.index],
        ]
        self.argv = self.choices[g.draw(len(self.choices))]
        self.db = (other, other_content)

    def args(self, at):
        return [at(x) if os.sep in x else x for x in self.argv]

    def judge(self, s, ctx):
        return "it cannot succeed"

    def unchanged(self, s0, s1):
        return None if same(s0, s1) else f"the file changed from {s0} to {s1}"


def other_content(path):
    with oracle():
        with real_open(path, "rb") as f:
            head = f.read(16)
        if not head.startswith(b"SQLite"):
            with real_open(path, "rb") as f:
                return f.read(), None
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            return (con.execute("pragma user_version").fetchall(), con.execute("select name, sql from sqlite_master").fetchall(),
                    con.execute("select * from notes").fetchall()), None
        finally:
            con.close()


class Ctx:
    wt = None
    served = False
    wrong = False

    def __init__(self, run, f, corpus=None):
        self.run = run
        self.f = f
        self.corpus = corpus or f.corpus
        self._store = None

    def store(self):
        if self._store is None:
            with self.run.calm():
                self._store = self.f.kind.store(self.run, self.corpus)
        return self._store


class Engine:
    def __init__(self, ctx, server):
        self.ctx = ctx
        self.server = server

    def block(self):
        "Serving, for as long as it takes to look at the index once."
        for i in self.server.list_indices():
            try:
                idx = self.server.index(i)
            except Exception:
                # Only the request fails: a server that came up stays up.
                if self.ctx.wrong:
                    return
                raise
            ids = sorted(idx.cluster_ids)
            keys = None if self.server.corpus_class is None else [k for k, _ in idx.corpus.docs()]
            idx.close()
            self.ctx.served = (ids, keys)


class F:
    pass


def invoke(run, w, cmd, ctx, at, client=None):
    "Run a command line as a process of its own: (exit code, exception)."
    sim = w.sim
    out = []

    def proc():
        if client is not None:
            client()
        t = this_task()
        t.op = cmd.args(at)[0]
        n0 = len(sim.pools)
        old = hyperreal.server.launch_web_server
        hyperreal.server.launch_web_server = lambda s, *a, **k: Engine(ctx, s)
        try:
            r = click.testing.CliRunner().invoke(hyperreal.cli.cli, cmd.args(at), input=cmd.stdin)
        finally:
            hyperreal.server.launch_web_server = old
        t.interrupt = False
        e = r.exception
        r.exc_info = None
        if isinstance(e, (Violation, HarnessError)):
            raise e
        if e is not None:
            lib.drop_frames(e)
        out.append((r.exit_code, e))
        # the process ends: its pools are waited for, its connections closed
        for p in sim.pools[n0:]:
            if not p._closed:
                p.shutdown(wait=False, cancel_futures=True)
        for p in sim.pools[n0:]:
            sim.block(lambda: p._broken or p.busy == 0 and not p._queue, "process exit")
        gc.collect()

    t = sim.spawn(proc, f"cmd{run.n_op}")
    sim.wait_tasks([t])
    gc.collect()
    run.join([t])
    return out[0]


def arm(run, g, cmd, holder):
    "One fault of any kind for this command."
    sim = run.sim
    kinds = list(lib.DISK_KINDS) + ["interrupt", "interrupt", "lock"]
    if isinstance(cmd, (IndexCmd, Graph, ModelCmd)):
        kinds += lib.WORKER_KINDS * 2 + lib.START_KINDS
    if isinstance(cmd, (Create, AddSite)):
        kinds += ["file read error"] * 3 + ["file open error"]
    if isinstance(cmd, (Graph, Clusters, Sample)):
        kinds += ["file open error", "file write error", "file write error", "file disk full", "file disk full", "file short write", "file close error"]
    kind = g.pick(kinds)
    if kind == "lock":
        return kind, None
    if kind in FILE_KINDS:
        op, no, persist = FILE_KINDS[kind]
        n = 0 if op in ("open",) else g.draw([2, 8, 40][g.draw(3)])
        if isinstance(cmd, AddSite) and op == "open":
            n = g.draw(3)
        if op == "close":
            n = 0
        return kind, sim.arm(Fault(kind, "file", n, match=lambda i: i[0] == op, action=no, persist=persist))
    if kind == "interrupt":
        def act(_):
            this_task().interrupt = True
        f = Fault(kind, "after stmt", lib.countdown(g), match=lambda i: i[0] in holder, action=act)
        return kind, sim.arm(f)
    return kind, lib.arm(run, g, kind)


def c21(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    sim.default_workers = 1 + run.k.draw(3)
    f = F()
    f.data = w.data
    f.inputs = os.path.join(w.dir, "files", "in")
    f.outputs = os.path.join(w.dir, "files", "out")
    os.makedirs(f.inputs)
    os.makedirs(f.outputs)
    f.kind = [PLAIN, SX, TW][g.weighted([6, 3, 2])]
    f.corpus = run.path("c.db")
    f.index = run.path("i.db")
    with Files(w, [16, 64, 500, 8192][run.k.draw(4)]):
        commands(run, w, g, f)


def commands(run, w, g, f):
    sim = w.sim
    loader = {PLAIN: Create, SX: AddSite, TW: collect}[f.kind]
    if f.kind is TW:
        twitter.make(f.corpus)
    n = 3 + g.draw(6)
    todo = None
    ready = g.flag(0.6)     # the first steps without faults
    if ready:
        n += 3
    for i in range(n):
        o = run.opg("cmd")
        have_c = state_ok(run, f.corpus, f.kind.read)
        have_i = state_ok(run, f.index, lib.read_image)
        usable = not blank(have_i)
        has_model = usable and bool(have_i.clusters)
        if todo is not None:
            cmd, todo = todo, None
            faulty = False
        else:
            if blank(have_c) or not have_c.raw or loader is not Create and not have_c.raw[1]:
                cls = loader
            elif not usable or not have_i.keys:
                cls = [IndexCmd, IndexCmd, loader, Wrong][o.weighted([6, 3, 2, 1])]
            elif not has_model:
                cls = [ModelCmd, IndexCmd, loader, Clusters, Graph, Sample, Wrong, Serve][o.weighted([10, 2, 1, 1, 1, 1, 1, 1])]
            else:
                cls = [ModelCmd, IndexCmd, loader, Clusters, Graph, Sample, Wrong, Serve][o.weighted([3, 3, 2, 3, 3, 3, 1, 1])]
            faulty = o.flag(0.55)
            if ready and not has_model and i < 3:
                faulty = False
                cls = [loader, IndexCmd, ModelCmd][i]
            if cls is Sample and f.kind is TW:
                cls = Graph     # there is no such command
            cmd = cls(o, f, i, faulty)
            if cmd is None:
                continue
        if isinstance(cmd, Sample) and not current(run, f, have_c, have_i):
            continue   # the index answers for documents the corpus no longer has
        again = one(run, w, o, f, cmd, faulty)
        if again:
            todo = cmd
    for p in (f.corpus, f.index):
        if os.path.exists(p + "-wal") and os.path.getsize(p + "-wal") > 64 << 20:
            run.fail("log grows without bound", p)


def current(run, f, c, i):
    "Was the index made from these documents?"
    st = Ctx(run, f).store()
    return model.check_index(i, st, True) is None or model.check_index(i, st, False) is None


def state_ok(run, path, read):
    try:
        return state(path, read)
    except BadState as e:
        run.fail("database broken", f"{os.path.basename(path)}: {e}")


def one(run, w, o, f, cmd, faulty):
    "One command, judged.  True if it should be tried again without faults."
    sim = w.sim
    path, read = cmd.db
    ctx = Ctx(run, f)
    ctx.wrong = isinstance(cmd, Wrong)
    s0 = state_ok(run, path, read)
    watched = isinstance(cmd, ModelCmd)
    other = f.index if path == f.corpus else f.corpus
    oread = lib.read_image if other == f.index else f.kind.read
    o0 = state_ok(run, other, oread)
    if watched:
        ctx.wt = run.watch(path)
    crash = faulty and o.flag(0.35)
    if crash:
        VFS.start_log(w.data)
    holder = set()
    kind = fault = locker = None
    if faulty and not crash and not cmd.bad:
        kind, fault = arm(run, o, cmd, holder)
        if kind == "lock":
            db = path if o.flag(0.7) or not os.path.exists(other) else other
            if os.path.exists(db):
                locker = start_locker(run, db, o, now=True)
            else:
                kind = None
    editor = None
    if isinstance(cmd, (Clusters, Sample)) and not faulty and not cmd.bad and not blank(s0) and s0.clusters and o.flag(0.6):
        ctx.wt = run.watch(path)
        pool = run.pool()
        editor = run.client(lambda: edit_meanwhile(run, w.ch.sub(f"editor{run.n_op}"), path, ctx.wt, pool), "editor")
    code, exc = invoke(run, w, cmd, ctx, lambda p: p, client=lambda: holder.add(this_task()))
    lib.disarm(run)
    if editor is not None:
        meanwhile(run, cmd, ctx, code, exc, editor)
        w.nontrivial = True
        return False
    if locker is not None:
        sim.locker_stop = True
        run.join([locker])
    fired = bool(fault and fault.fired) or locker is not None
    if ctx.wt is not None:
        ctx.wt.poll("x")
    label = f"{cmd} -> exit {code}{f' ({type(exc).__name__}: {str(exc)[:80]})' if exc is not None and not isinstance(exc, SystemExit) else ''}{' fired ' + kind if fired else ''}"
    run.note(label)
    s1 = state_ok(run, path, read)
    o1 = state_ok(run, other, oread)
    if not same(o0, o1) and not (o0 is None and isinstance(o1, str)):
        run.fail("command changed another database", f"{label}: {os.path.basename(other)}")
    verdict = None
    declined = isinstance(cmd, ModelCmd) and not blank(s0) and s0.clusters and cmd.restart and cmd.answer == "n\n"
    if code == 0:
        verdict = cmd.complete(s0, s1, ctx)
        if cmd.bad and not verdict:
            verdict = f"the input was {cmd.bad}"
        if verdict:
            run.fail("exit status 0 but not complete" + (" after a fault" if fired else ""), f"{label}: {verdict}")
        w.nontrivial = True
    else:
        if not (same(s0, s1) or cmd.partly(s0, s1, ctx) or cmd.bad is None and not declined and cmd.complete(s0, s1, NoOutput(ctx)) is None):
            run.fail("failed command leaves something in between", f"{label}: before {str(s0)[:200]}, after {str(s1)[:300]}")
        if not fired and not cmd.bad and not declined:
            run.fail("command failed without a fault", f"{label}")
        if fired or cmd.bad:
            w.nontrivial = True
    if ctx.wt is not None:
        ctx.wt.close()
        ctx.wt = None
    if crash:
        crashes(run, w, o, f, cmd, s0, s1)
    return fired and code != 0 and not cmd.bad and o.flag(0.6)


def edit_meanwhile(run, g, path, wt, pool):
    "Somebody else edits the model while a command looks at it."
    my = run.reopen(path, None, pool)
    for i in range(2 + g.draw(6)):
        if g.flag(0.3):
            run.sim.block(lambda: False, "think", [1, 100, 3000][g.draw(3)])
        op = lib.gen_edit(g, wt.last, weights=(6, 5, 3, 3, 3, 1, 2, 2))
        ok, r = run.call(str(op), op.call, my)
        wt.poll("x")
        run.note(f"meanwhile: {op} -> {'ok' if ok else type(r).__name__}")
    my.close()


def meanwhile(run, cmd, ctx, code, exc, editor):
    "The output is that of one of the states the index was in while the command ran."
    wt = ctx.wt
    wt.poll("x")
    states = [s for s, *_ in wt.states]
    run.join([editor])
    wt.close()
    ctx.wt = None
    label = f"{cmd} -> exit {code}{f' ({type(exc).__name__}: {str(exc)[:80]})' if exc is not None and not isinstance(exc, SystemExit) else ''}, {len(states) - 1} commits by somebody else meanwhile"
    run.note(label)
    run.sim.probes["editor beside the command"] += 1
    if len(states) > 1:
        run.sim.probes["model edited during the command"] += 1
    if code != 0:
        run.fail("command failed without a fault", label)
    errs = [cmd.judge(s, ctx) for s in states]
    if all(errs):
        run.fail("exit status 0 but not complete", f"{label}: {errs[-1]}")


class NoOutput:
    "A context in which outputs are not looked at."

    def __init__(self, ctx):
        self._ctx = ctx
        self.wt = ctx.wt
        self.served = True   # (not looked at)

    def store(self):
        return self._ctx.store()


def same(a, b):
    if hasattr(a, "raw") and hasattr(b, "raw"):
        return a.raw == b.raw
    return type(a) is type(b) and a == b


def crashes(run, w, o, f, cmd, s0, s1):
    "The process is killed, or the power fails, somewhere in the command; then it is run again."
    sim = w.sim
    total = len(VFS.oplog)
    log = VFS.oplog
    VFS.oplog = None
    if not total:
        VFS.stop_log()
        return
    for j in range(2):
        c = run.ch.sub(f"k{run.n_op}{j}")
        upto = c.draw(total + 1)
        power = c.flag(0.3)
        d = w.image_dir()
        VFS.oplog = log
        if power:
            kept, dropped, torn = VFS.image_power(d, upto, c.draw)
            sim.fired["power loss"] += 1
        else:
            VFS.image_kill(d, upto)
            sim.fired["process kill"] += 1
        VFS.oplog = None
        at = lambda p: os.path.join(d, os.path.basename(p)) if p.startswith(w.data + os.sep) else p
        path, read = cmd.db
        what = f"{cmd} {'cut by power loss' if power else 'killed'} before file operation {upto} of {total}"
        b0 = state_ok(run, at(path), read)
        ctx = Ctx(run, f, corpus=at(f.corpus))
        ctx.wrong = isinstance(cmd, Wrong)
        ok_states = same(b0, s0) or s0 is None and blank(b0) or cmd.partly(s0, b0, ctx)
        if not ok_states and not same(b0, s1) and not power:
            run.fail("killed command leaves something in between", f"{what}: {str(b0)[:300]}")
        if cmd.bad or any(not os.path.exists(at(p)) for p in needs(cmd)):
            shutil.rmtree(d, ignore_errors=True)
            continue
        if isinstance(cmd, ModelCmd) and blank(b0):
            continue
        if isinstance(cmd, Output) and blank(b0):
            continue
        code, exc = invoke(run, w, cmd, ctx, at)
        b1 = state_ok(run, at(path), read)
        declined = isinstance(cmd, ModelCmd) and b0.clusters and cmd.restart and cmd.answer == "n\n"
        if code != 0 and not declined:
            run.fail("command fails after a crash", f"{what}; run again: exit {code} {type(exc).__name__}: {exc}")
        e = None if declined else cmd.complete(b0, b1, ctx)
        if e:
            run.fail("exit status 0 but not complete", f"{what}, run again: {e}")
        w.nontrivial = True
        shutil.rmtree(d, ignore_errors=True)
    VFS.stop_log()


def needs(cmd):
    "The databases a command reads."
    if isinstance(cmd, IndexCmd):
        return [cmd.corpus]
    if isinstance(cmd, (ModelCmd, Graph, Clusters)):
        return [cmd.index]
    if isinstance(cmd, Serve):
        return [cmd.index] + ([cmd.corpus] if cmd.kind else [])
    if isinstance(cmd, Sample):
        return [cmd.index, cmd.corpus]
    return []
