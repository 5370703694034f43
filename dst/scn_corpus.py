"""Corpora: C14 (loading), C15 (passes, pairing and rendering)."""

import collections
import io
import json
import os
import shutil
import sqlite3

from markupsafe import escape
from pyroaring import BitMap

import hyperreal.corpus

import corpora
import lib
import model
import twitter
from env import VFS, SimPool, oracle, real_connect
from kernel import this_task
from lib import Run
from scn_index import read_back, settle, start_locker


class CState:
    "The committed contents of a corpus database."

    def __init__(self, raw):
        self.raw = raw

    def __eq__(self, other):
        return self.raw == other.raw

    def __hash__(self):
        return 1

    def __repr__(self):
        return repr(self.raw)[:300]


def rows(con, sql):
    try:
        return con.execute(sql).fetchall()
    except sqlite3.OperationalError as e:
        if "no such table" in str(e):
            return []
        raise


def in_tx(fn):
    def read(con):
        con.execute("begin")
        try:
            return fn(con)
        finally:
            con.execute("rollback")
    return read


@in_tx
def read_plain(con):
    return CState(tuple(rows(con, "select doc_id, text from doc order by doc_id")))


POST_COLS = (
    "Id", "OwnerUserId", "AcceptedAnswerId", "ContentLicense", "ParentId", "Title", "FavoriteCount", "Score",
    "CreationDate", "ViewCount", "Body", "LastActivityDate", "CommentCount", "PostType",
)
COMMENT_COLS = ("Id", "CreationDate", "ContentLicense", "Score", "Text", "UserId", "PostId")
USER_COLS = (
    "Id", "AboutMe", "CreationDate", "Location", "ProfileImageUrl", "WebsiteUrl", "AccountId", "Reputation",
    "Views", "UpVotes", "DownVotes", "DisplayName", "LastAccessDate",
)


@in_tx
def read_tw(con):
    return CState(twitter.read_raw(con))


def s_(v):
    return None if v is None else str(v)


@in_tx
def read_sx(con):
    "Rows without an Id come from the root elements of the dumps and are never shown: not compared."
    sites = rows(con, "select site_id, site_url from Site")
    url = dict(sites)
    out = [tuple(sorted(url.values()))]
    out.append(tuple(sorted((url[r[1]], int(r[2]), r[0]) for r in rows(con, "select doc_id, site_id, Id from Post"))))
    for table, cols in (("Post", POST_COLS), ("comment", COMMENT_COLS), ("User", USER_COLS)):
        out.append(tuple(sorted(
            ((url[r[0]], *(s_(x) for x in r[1:])) for r in
             rows(con, f"select site_id, {', '.join(cols)} from {table} where Id is not null")),
            key=repr,
        )))
    out.append(tuple(sorted((url[r[0]], s_(r[1]), r[2]) for r in rows(con, "select site_id, PostId, Tag from PostTag"))))
    return CState(tuple(out))


def read_image(path, read):
    with oracle():
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            ic = con.execute("pragma integrity_check").fetchall()
            if ic != [("ok",)]:
                return None, f"integrity check: {ic[:3]}"
            return read(con), None
        except sqlite3.DatabaseError as e:
            return None, f"{type(e).__name__}: {e}"
        finally:
            con.close()


# ---------------------------------------------------------------- loads


class BadText:
    def __repr__(self):
        return "BadText"


BAD = [ValueError("bad line"), OSError(5, "Input/output error"), KeyboardInterrupt(), MemoryError(), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")]


class PlainLoad:
    name = "replace_docs"

    def __init__(self, g, version, faults=True):
        words = ["alpha", "beta", "it's", "東京", "", "Z z", "é", "0"]
        n = g.draw([3, 8, 40][g.draw(3)] + 1)
        self.texts = [f"v{version}-{i} " + words[g.draw(len(words))] if not g.flag(0.1) else words[g.draw(len(words))] for i in range(n)]
        self.how = g.draw(3)
        self.bad = None
        self.at = None
        if faults and g.flag(0.3):
            self.at = g.draw(n + 1)
            c = g.draw(3)
            if c == 0 and n:
                self.at = min(self.at, n - 1)
                self.bad = BadText()
            elif c == 1 and n:
                self.at = min(self.at, n - 1)
                self.bad = "\ud800"
            else:
                self.bad = BAD[g.draw(len(BAD))]

    def __repr__(self):
        return f"replace_docs({len(self.texts)} texts{f', {self.bad!r} at {self.at}' if self.bad is not None else ''})"

    def given(self):
        if isinstance(self.bad, BaseException):
            def gen():
                for i, t in enumerate(self.texts):
                    if i == self.at:
                        raise self.bad.with_traceback(None)
                    yield t
                if self.at >= len(self.texts):
                    raise self.bad.with_traceback(None)
            return gen()
        texts = list(self.texts)
        if self.bad is not None:
            texts[self.at] = self.bad
        return texts if self.how == 0 else tuple(texts) if self.how == 1 else (t for t in texts)

    def call(self, c):
        return c.replace_docs(self.given())

    def done(self, s0, s1):
        "None if s1 is s0 with this load done, else how it is not."
        if self.bad is not None:
            return "a load that cannot be read is complete"
        if [t for _, t in s1.raw] != self.texts:
            return f"texts {[t for _, t in s1.raw]}, given {self.texts}"
        return None


SITES = ["https://a.example", "https://b.example"]


class FlakyFile(io.RawIOBase):
    "A file that comes in small pieces and may fail."

    def __init__(self, data, piece, fail_at=None, exc=None):
        self.data = data
        self.pos = 0
        self.piece = piece
        self.fail_at = fail_at
        self.exc = exc

    def read(self, n=-1):
        if self.fail_at is not None and self.pos >= self.fail_at:
            raise self.exc.with_traceback(None)
        out = self.data[self.pos:self.pos + self.piece]
        self.pos += len(out)
        return out

    def readable(self):
        return True


def xml(root, items):
    from xml.sax.saxutils import quoteattr
    lines = ['<?xml version="1.0" encoding="utf-8"?>', f"<{root}>"]
    for it in items:
        lines.append("  <row " + " ".join(f"{k}={quoteattr(v)}" for k, v in it.items()) + " />")
    lines.append(f"</{root}>")
    return "\n".join(lines).encode("utf-8")


class SXLoad:
    name = "add_site_data"

    def __init__(self, g, version, faults=True):
        self.site = SITES[g.draw(2)]
        self.posts, self.comments, self.users = [], [], []
        words = ["how to", "café <b>x</b>", "<p>hi & bye</p><pre><code>a = 1</code></pre>", "", "東京"]
        day = lambda: f"20{10 + g.draw(9)}-0{1 + g.draw(9)}-11T10:20:30.123"
        for i in range(1, 2 + g.draw(8)):
            if g.flag(0.2):
                continue
            kind = g.draw(5)
            p = {"Id": str(i), "CreationDate": day(), "Score": str(g.draw(9)), "Body": f"v{version} {words[g.draw(len(words))]}"}
            if kind < 2:
                p["PostTypeId"] = "1"
                p["Title"] = f"title {i} v{version} of {self.site[8:9]}"
                if not g.flag(0.2):
                    p["Tags"] = "".join(f"<{t}>" for t in g.sample(["py", "c++", "x-y", "sql"], g.draw(4)))
            elif kind < 4:
                p["PostTypeId"] = "2"
                p["ParentId"] = str(1 + g.draw(9))
                if g.flag(0.1):
                    p["Tags"] = "<own>"
            else:
                p["PostTypeId"] = str(4 + g.draw(3))
            if not g.flag(0.3):
                p["OwnerUserId"] = str(1 + g.draw(4))
            if g.flag(0.3):
                p["ViewCount"] = str(g.draw(1000))
            if g.flag(0.5):
                p["ContentLicense"] = "CC BY-SA 3.0"
            self.posts.append(p)
        for i in range(1, 1 + g.draw(6)):
            c = {"Id": str(i), "PostId": str(1 + g.draw(9)), "Text": f"v{version} {words[g.draw(len(words))]}", "CreationDate": day()}
            if not g.flag(0.3):
                c["UserId"] = str(1 + g.draw(4))
            self.comments.append(c)
        for i in range(1, 1 + g.draw(5)):
            u = {"Id": str(i), "DisplayName": f"user{i} v{g.draw(2)}", "Reputation": str(g.draw(99))}
            if g.flag(0.3):
                u["AboutMe"] = "é"
            if g.flag(0.15):
                del u["DisplayName"]
            self.users.append(u)
        self.files = [xml("posts", self.posts), xml("comments", self.comments), xml("users", self.users)]
        self.piece = [7, 60, 700, 70000][g.draw(4)]
        self.bad = None
        self.which = self.at = None
        if faults and g.flag(0.35):
            self.which = g.draw(3)
            data = self.files[self.which]
            self.at = g.draw(len(data))
            c = g.draw(4)
            if c == 0:
                self.bad = "truncated"
                self.files[self.which] = data[:self.at]
            elif c == 1:
                self.bad = "corrupt"
                self.files[self.which] = data[:self.at] + b"<<" + data[self.at:]
            elif c == 2 and self.which == 0 and any(p.get("Tags") for p in self.posts):
                self.bad = "no Id"
                p = [p for p in self.posts if p.get("Tags")][-1]
                del p["Id"]
                self.files[0] = xml("posts", self.posts)
            else:
                self.bad = BAD[g.draw(len(BAD))]

    def __repr__(self):
        return (f"add_site_data({self.site}: {len(self.posts)} posts, {len(self.comments)} comments, {len(self.users)} users"
                f"{f', {self.bad!r} in file {self.which} at {self.at}' if self.bad is not None else ''})")

    def call(self, c):
        fs = []
        for i, data in enumerate(self.files):
            exc = self.bad if i == self.which and isinstance(self.bad, BaseException) else None
            fs.append(FlakyFile(data, self.piece, self.at if exc else None, exc))
        return c.add_site_data(*fs, self.site)

    def done(self, s0, s1):
        if self.bad is not None:
            return "a load that cannot be read is complete"
        a = s0.raw
        b = s1.raw
        u = self.site
        if set(b[0]) != set(a[0]) | {u}:
            return f"sites {b[0]}, before {a[0]}"
        posts = {(r[0], r[1]): r for r in a[2]}
        tags = set(a[5])
        for p in self.posts:
            if p["PostTypeId"] not in ("1", "2"):
                continue
            v = dict(p)
            v["PostType"] = {"1": "Question", "2": "Answer"}[p["PostTypeId"]]
            posts[(u, p["Id"])] = (u, *(v.get(c) for c in POST_COLS))
            for t in p.get("Tags", "").replace("<", " ").replace(">", " ").split():
                tags.add((u, p["Id"], t))
        e = same("posts", posts.values(), b[2])
        if e:
            return e
        ids0 = {r[:2]: r[2] for r in a[1]}
        ids1 = {r[:2]: r[2] for r in b[1]}
        if len(set(ids1.values())) != len(b[1]) or len(ids1) != len(b[1]):
            return f"document ids not unique: {b[1]}"
        for k, v in ids0.items():
            if ids1.get(k) != v:
                return f"document id of {k} changed from {v} to {ids1.get(k)}"
        for n, items, cols in ((3, self.comments, COMMENT_COLS), (4, self.users, USER_COLS)):
            d = {(r[0], r[1]): r for r in a[n]}
            for it in items:
                d[(u, it["Id"])] = (u, *(it.get(c) for c in cols))
            e = same("comments" if n == 3 else "users", d.values(), b[n])
            if e:
                return e
        return same("tags", tags, b[5])


def same(what, want, got):
    want, got = sorted(want, key=repr), sorted(got, key=repr)
    if want == got:
        return None
    return f"{what}: missing {[x for x in want if x not in got][:3]}, unexpected {[x for x in got if x not in want][:3]}"


# ---------------------------------------------------------------- what the corpus object shows


def show_plain(c, s):
    want = list(s.raw)
    if not want:
        try:
            got = list(c.docs())
        except sqlite3.OperationalError as e:
            return None if "no such table" in str(e) else repr(e)
        return None if not got else f"documents {got[:3]}, there are none"
    got = [(k, d["doc_id"], d["text"]) for k, d in c.docs()]
    if got != [(k, k, t) for k, t in want]:
        return f"docs() gives {got[:4]}, committed {want[:4]}"
    if list(c.keys()) != [k for k, _ in want]:
        return f"keys() gives {list(c.keys())}"
    return None


def show_sx(c, s):
    sites, ids, posts, comments, users, tags = s.raw
    if not ids:
        try:
            got = list(c.docs())
        except sqlite3.OperationalError as e:
            return None if "no such table" in str(e) else repr(e)
        return None if not got else f"documents {got[:3]}, there are none"
    name = {(u[0], u[1]): dict(zip(USER_COLS, u[1:]))["DisplayName"] for u in users}
    post = {(p[0], int(p[1])): dict(zip(POST_COLS, p[1:])) for p in posts}
    got = {}
    for k, d in c.docs():
        if k in got:
            return f"document {k} twice"
        got[k] = d
    if set(got) != {r[2] for r in ids}:
        return f"documents {sorted(got)}, committed {ids}"
    for site, pid, k in ids:
        d = got[k]
        p = post[(site, pid)]
        root = p["ParentId"] or p["Id"]
        want = {
            "site_url": site, "Title": p["Title"], "Body": p["Body"], "PostType": p["PostType"],
            "DisplayName": name.get((site, p["OwnerUserId"])) or "<Deleted User>",
            "Tags": {t for u, i, t in tags if u == site and i == root},
            "UserComments": sorted(
                (name.get((site, x["UserId"])) or "<Deleted User>", x["Text"])
                for u, x in ((r[0], dict(zip(COMMENT_COLS, r[1:]))) for r in comments)
                if u == site and x["PostId"] == str(pid)
            ),
        }
        have = {x: d.get(x) for x in want}
        have["UserComments"] = sorted((x["DisplayName"], x["Text"]) for x in d["UserComments"])
        if have != want:
            return f"document {k} ({site} {pid}): {[(x, have[x], want[x]) for x in want if have[x] != want[x]]}"
    return None


# ---------------------------------------------------------------- C14

LOAD_FAULTS = lib.DISK_KINDS + ["interrupt", "interrupt", "lock"]


def c14_two(w):
    "Two programs load at the same time: one after the other, or one is refused."
    run = Run(w)
    g = run.g
    sim = w.sim
    if g.flag(0.5):
        cls, Load, read, show = hyperreal.corpus.PlainTextSqliteCorpus, PlainLoad, read_plain, show_plain
    else:
        cls, Load, read, show = hyperreal.corpus.StackExchangeCorpus, SXLoad, read_sx, show_sx
    path = run.path("c.db")
    with run.calm():
        c0 = cls(path)
        run.must("first load", Load(run.opg("first"), 0, faults=False).call, c0)
        c0.close()
    wt = run.watch(path, read=read)
    sim.p_switch = lib.P_SWITCH[1 + run.k.draw(4)]
    busy = {}
    begun = [0]

    def loader(name):
        c = cls(path)
        for i in range(1 + w.ch.sub(name).draw(3)):
            ld = Load(w.ch.sub(f"{name}l{i}"), f"{name}{i}", faults=True)
            n0 = wt.n()
            busy[name] = True
            begun[0] += 1
            b0 = begun[0]
            others = sum(busy.values()) > 1
            ok, r = run.call(f"{name} {ld}", ld.call, c)
            wt.poll("x")
            others = others or begun[0] != b0 or any(x[1] != name for x in wt.states[n0:]) or sim.probes["sqlite busy wait"]
            busy[name] = False
            mine = [k for k in range(n0, wt.n()) if wt.states[k][1] == name]
            run.note(f"{name}: {ld} -> {'returned' if ok else type(r).__name__ + ': ' + str(r)[:60]}, commits {mine}")
            if len(mine) > 1:
                run.fail("load committed in parts", f"{ld}: {len(mine)} commits")
            if ok:
                es = [ld.done(wt.states[k - 1][0], wt.states[k][0]) for k in mine] or [
                    ld.done(wt.states[k][0], wt.states[k][0]) for k in range(n0 - 1, wt.n())]
                if None not in es:
                    run.fail("load returned but is not complete", f"{ld} beside another load: {es[0]}")
            else:
                if mine:
                    run.fail("failed load has an effect", f"{ld} raised {type(r).__name__}: {r}")
                if ld.bad is None and not (others and "locked" in str(r)):
                    run.fail("load raised without a fault", f"{ld}: {type(r).__name__}: {r}")
            if others:
                w.nontrivial = True
        c.close()

    run.join([run.client(lambda i=i: loader(f"l{i}"), f"l{i}") for i in range(2)])
    wt.poll("x")
    c = cls(path)
    ok, e = run.call("docs", show, c, wt.last)
    if not ok or e:
        run.fail("corpus shows another state", f"{e!r}")
    c.close()
    wt.close()


def c14(w):
    if w.ch.sub("w").flag(0.3):
        return c14_two(w)
    run = Run(w)
    g = run.g
    sim = w.sim
    if g.flag(0.5):
        cls, Load, read, show = hyperreal.corpus.PlainTextSqliteCorpus, PlainLoad, read_plain, show_plain
    else:
        cls, Load, read, show = hyperreal.corpus.StackExchangeCorpus, SXLoad, read_sx, show_sx
    path = run.path("c.db")
    # A disk error while a new database is switched to WAL mode is not reported:
    # it stays in rollback mode, where SQLite does not promise that the last
    # commits survive a power failure.
    fresh, weak = True, False
    if g.flag(0.7):
        fresh = False
        with run.calm():
            c0 = cls(path)
            run.must("first load", Load(run.opg("first"), 0, faults=False).call, c0)
            c0.close()
    wt = run.watch(path, read=read)
    VFS.start_log(w.data)
    objs = [cls(path), cls(path)]
    acks = []
    doubtful = []
    main = this_task()
    n_loads = 1 + g.draw(4)
    for i in range(n_loads + 1):
        o = run.opg("load")
        last = i == n_loads
        ld = Load(o, i + 1, faults=not last)
        c = objs[o.draw(2)]
        armed, locker = [], None
        if not last and o.flag(0.5):
            f = run.opg("fault")
            kind = f.pick(LOAD_FAULTS)
            if kind == "lock":
                locker = start_locker(run, path, f, now=True)
            else:
                armed.append(lib.arm(run, f, kind, client=main))
        s0, n0, start = wt.last, wt.n(), wt.oplen()
        ok, r = run.call(ld.name, ld.call, c)
        lib.disarm(run)
        fired = [a for a in armed if a.fired]
        wt.poll("x")
        if locker is not None:
            sim.locker_stop = True
            run.join([locker])
        run.note(f"{ld} -> {'returned' if ok else type(r).__name__ + ': ' + str(r)[:80]}"
                 + (f"; fired {[a.kind for a in fired]}" if fired else "") + (" lock held" if locker else ""))
        s1, n1 = wt.last, wt.n() - n0
        if fired or locker is not None or ld.bad is not None:
            w.nontrivial = True
        if fresh and any(a.kind in lib.DISK_KINDS for a in fired):
            # (and SQLite's own view of the file may be off until it is opened again)
            weak = True
            for x in objs:
                x.close()
            objs = [cls(path), cls(path)]
            c = objs[0]
        late = any(a.kind in lib.DISK_KINDS or a.kind == "interrupt" for a in fired)
        if ok:
            e = ld.done(s0, s1)
            if e:
                run.fail("load returned but is not complete", f"{ld}: {e}")
            if n1 > 1:
                run.fail("load committed in parts", f"{ld}: {n1} commits")
        else:
            if not (fired or locker is not None or ld.bad is not None):
                run.fail("load raised without a fault", f"{ld}: {type(r).__name__}: {r}")
            if s1 != s0 and not (late and n1 == 1 and ld.done(s0, s1) is None):
                run.fail("failed load has an effect", f"{ld} raised {type(r).__name__}: {r}; {n1} commits; before {s0}, after {s1}")
            if late:
                doubtful.append((start, ld, s0, n0 - 1))
        acks.append((wt.oplen(), wt.n() - 1))
        if last or o.flag(0.4):
            use = objs[o.draw(2)]
            ok, e = run.call("docs", show, use, s1)
            if not ok or e:
                run.fail("corpus shows another state", f"after {ld}: {e!r}")
    if g.flag(0.5):
        for c in objs:
            c.close()
        wt.poll("x")
    total = wt.oplen()
    log = VFS.oplog
    VFS.oplog = None
    states = [x[0] for x in wt.states]
    for j in range(5):
        c = run.ch.sub(f"crash{j}")
        power = c.flag(0.5)
        upto = c.draw(total + 1)
        if c.flag(0.5):
            upto = min(total, c.pick(acks)[0] + c.draw(3))
        VFS.oplog = log
        d = w.image_dir()
        allowed = wt.allowed_at(upto)
        if power:
            kept, dropped, torn = VFS.image_power(d, upto, c.draw)
            allowed = list(range(max(allowed) + 1))
            sim.fired["power loss"] += 1
            sim.fired["torn write"] += bool(torn)
            sim.fired["lost write"] += bool(dropped)
        else:
            VFS.image_kill(d, upto)
            sim.fired["process kill"] += 1
        VFS.oplog = None
        lo = max((n for at, n in acks if at <= upto), default=0)
        if power and weak:
            lo = 0
        allowed = [k for k in allowed if k >= lo] or [lo]
        what = f"{'power loss' if power else 'kill'} before file operation {upto} of {total} (loads ended at {[a for a, _ in acks]})"
        ipath = os.path.join(d, "c.db")
        s, err = read_image(ipath, read)
        if err:
            run.fail("crash leaves a broken corpus", f"{what}: {err}")
        if not any(s == states[k] for k in allowed):
            if any(at <= upto and lo <= n and ld.done(s0, s) is None for at, ld, s0, n in doubtful):
                sim.probes["failed write completed a commit"] += 1
            else:
                run.fail("crash leaves neither old nor new documents", f"{what}: found {s}, allowed {[states[k] for k in allowed][:2]}")
        if upto < total:
            w.nontrivial = True
        if j == 0:
            c2 = cls(ipath)
            ok, e = run.call("docs after crash", show, c2, s)
            if not ok or e:
                run.fail("corpus shows another state", f"after {what}: {e!r}")
            ld = Load(c, 50, faults=False)
            run.must("load after crash", ld.call, c2)
            s2, err = read_image(ipath, read)
            e = err or ld.done(s, s2)
            if e:
                run.fail("load returned but is not complete", f"{ld} after {what}: {e}")
            c2.close()
        shutil.rmtree(d, ignore_errors=True)
    wt.close()


# ---------------------------------------------------------------- C15


def c15(w):
    if w.ch.sub("w").flag(0.55):
        c15_passes(w)
    else:
        c15_queries(w)


class Pass:
    "One pass over a corpus by a reader, fed a few documents at a time."

    def __init__(self, obj, how, keys):
        self.obj = obj
        self.how = how
        self.keys = keys
        self.got = []
        self.it = None
        self.k0 = None
        self.over = False
        self.error = None

    def __repr__(self):
        return f"{self.how}({'' if self.keys is None else self.keys})"


class Reader:
    "A corpus object and the passes open on it."

    def __init__(self, run, wt, cls, path, show):
        self.run = run
        self.wt = wt
        self.c = cls(path)
        self.open = []
        self.since = None   # state when the earliest pass still sharing the transaction began
        self.show = show

    def start(self, how, keys):
        p = Pass(self, how, keys)
        c = self.c
        p.it = iter(c.docs(doc_keys=list(keys)) if how == "docs" and keys is not None else c.docs() if how == "docs" else iter(c))
        return p

    def step(self, p, n):
        "Take up to n documents."
        if p.k0 is None:
            self.wt.poll("x")
            if not self.open:
                self.since = self.wt.n() - 1
            p.k0 = self.since
            self.open.append(p)
        for _ in range(n):
            ok, r = self.run.call(repr(p), next, p.it, None)
            if not ok:
                p.over, p.error = True, r
                break
            if r is None:
                p.over = True
                break
            p.got.append(r)
        if p.over:
            self.drop(p, False)

    def drop(self, p, abandoned=True):
        "The pass ends, or is abandoned: its generator goes away."
        p.it = None
        if p in self.open:
            self.open.remove(p)
        if p.k0 is not None:
            self.judge(p, abandoned)

    def judge(self, p, abandoned):
        run, wt = self.run, self.wt
        wt.poll("x")
        k1 = wt.n() - 1
        errs = []
        if k1 > p.k0:
            run.w.nontrivial = True
            run.sim.probes["pass overlapped a replacement"] += 1
        for k in range(p.k0, k1 + 1):
            e = self.match(p, self.show(wt.states[k][0]), abandoned)
            if e is None:
                return
            errs.append(e)
        run.fail("pass sees no single version", f"{p} in versions {p.k0}..{k1}: {errs[-1]}; got {p.got[:5]} {p.error!r}")

    @staticmethod
    def match(p, docs, abandoned):
        "docs: {key: comparable}, in order."
        want = list(docs) if p.keys is None else list(p.keys)
        got = [k for k, _ in p.got]
        if p.keys is None and len(set(got)) != len(got):
            return f"keys {got}: some twice"
        if p.keys is not None and got != want[:len(got)]:
            return f"keys {got}, expected {want}"
        for k, d in p.got:
            if k not in docs:
                return f"document {k} is not in this version"
            if comparable(d) != docs[k]:
                return f"document {k} is {comparable(d)}, should be {docs[k]}"
        if p.error is not None:
            if p.keys is not None and len(got) < len(want) and want[len(got)] not in docs:
                return None
            if not docs and isinstance(p.error, sqlite3.OperationalError) and "no such table" in str(p.error):
                return None
            return f"raised {type(p.error).__name__}: {p.error}"
        if not abandoned and len(got) != len(want):
            return f"only {len(got)} of {len(want)} documents"
        return None


def comparable(d):
    if "tweet_id" in d:
        return twitter.comparable(d)
    if "text" in d:
        return d["text"]
    return (d["site_url"], str(d["Id"]), d["Title"], d["Body"], d["PostType"], d["DisplayName"], tuple(sorted(d["Tags"])),
            tuple(sorted((x["DisplayName"], x["Text"]) for x in d["UserComments"])))


def plain_docs(s):
    return dict(s.raw)


class SXDoc(tuple):
    qtitle = None


def sx_docs(s):
    sites, ids, posts, comments, users, tags = s.raw
    name = {(u[0], u[1]): dict(zip(USER_COLS, u[1:]))["DisplayName"] for u in users}
    post = {(p[0], int(p[1])): dict(zip(POST_COLS, p[1:])) for p in posts}
    out = {}
    for site, pid, k in sorted(ids, key=lambda r: r[2]):
        p = post[(site, pid)]
        root = p["ParentId"] or p["Id"]
        out[k] = SXDoc((
            site, str(pid), p["Title"], p["Body"], p["PostType"],
            name.get((site, p["OwnerUserId"])) or "<Deleted User>",
            tuple(sorted(t for u, i, t in tags if u == site and i == root)),
            tuple(sorted(
                (name.get((site, x["UserId"])) or "<Deleted User>", x["Text"])
                for u, x in ((r[0], dict(zip(COMMENT_COLS, r[1:]))) for r in comments)
                if u == site and x["PostId"] == str(pid)
            )),
        ))
        up = post.get((site, int(p["ParentId"]))) if p["ParentId"] else None
        out[k].qtitle = p["Title"] if p["Title"] is not None else up and up["Title"]
    return out


def render_fits(s, plain, table, keys, r, docs):
    "Is a rendered answer the given keys of this version, in order?"
    if [x[0] for x in r] != list(keys):
        return f"keys {[x[0] for x in r]}, asked for {list(keys)}"
    for k, x in r:
        if k not in docs:
            return f"document {k} is not in this version"
        d = docs[k]
        if plain == "twitter":
            if f"/{d[3]}/status/{k}\"" not in x or f"<p>{d[1]}</p>" not in x:
                return f"tweet {d} rendered as {str(x)[:600]}"
        elif plain:
            if (x["text"] if table else x) != d:
                return f"document {k} rendered as {x!r}, is {d!r}"
        elif table:
            site, pid, title, body, ptype, user, tags, comments = d
            have = (x["site_url"], str(x["Id"]), x["Body"], x["PostType"], x["DisplayName"] or "<Deleted User>",
                    tuple(sorted(t for t in x["tags"].split(", ") if t)),
                    tuple(sorted((c["DisplayName"] or "<Deleted User>", c["Text"]) for c in json.loads(x["comments"]))))
            if have != (site, pid, body, ptype, user, tags, comments):
                return f"document {k} rendered as {have}, is {d}"
            if x["QuestionTitle"] != d.qtitle:
                return f"document {k} rendered under the title {x['QuestionTitle']!r}, its question's is {d.qtitle!r}"
        else:
            site, pid, title, body, ptype, user, tags, comments = d
            if f"{site}/questions/{pid}\"" not in x or body not in x or ptype not in x:
                return f"document {k} rendered without its link or body: {str(x)[:200]}"
            for t in tags:
                if t not in x:
                    return f"document {k} rendered without tag {t}"
            if d.qtitle is not None and d.qtitle not in x:
                return f"document {k} rendered without its question's title {d.qtitle!r}: {str(x)[:200]}"
            for u, t in comments:
                if t not in x and str(escape(t)) not in x:
                    return f"document {k} rendered without comment {t!r}"
    return None


def c15_passes(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    plain = [True, False, "twitter"][g.weighted([3, 5, 2])]
    path = run.path("c.db")
    if plain == "twitter":
        twitter.make(path)
        cls, Load, read, show = hyperreal.corpus.TwittersphereCorpus, twitter.TwLoad, read_tw, twitter.docs_of
    elif plain:
        cls, Load, read, show = hyperreal.corpus.PlainTextSqliteCorpus, PlainLoad, read_plain, plain_docs
    else:
        cls, Load, read, show = hyperreal.corpus.StackExchangeCorpus, SXLoad, read_sx, sx_docs
    with run.calm():
        c0 = cls(path)
        for i in range(1 + g.draw(3)):
            run.must("first load", Load(run.opg("first"), f"0{i}", faults=False).call, c0)
        c0.close()
    wt = run.watch(path, read=read)
    sim.p_switch = lib.P_SWITCH[1 + run.k.draw(4)]
    n_versions = 1 + g.draw(4)
    finished = []

    def writer():
        c0 = cls(path)
        for i in range(n_versions):
            o = w.ch.sub(f"wr{i}")
            ld = Load(o, i + 1, faults=o.flag(0.2))
            s0 = wt.last
            ok, r = run.call(ld.name, ld.call, c0)
            wt.poll("x")
            run.note(f"writer: {ld} -> {'ok' if ok else type(r).__name__}")
            if ok:
                e = ld.done(s0, wt.last)
                if e:
                    run.fail("change lost beside a reader", f"{ld}: {e}")
            elif ld.bad is None:
                run.fail("reader blocks a change", f"{ld}: {type(r).__name__}: {r}")
        finished.append(1)
        c0.close()

    def reader(name):
        rd = Reader(run, wt, cls, path, show)
        passes = []
        i = 0
        while i < 30 and (not finished or i < 6):
            o = w.ch.sub(f"{name}.{i}")
            i += 1
            a = o.weighted([4, 8, 2, 4])
            if a == 0 or not passes:
                if len(passes) >= 3:
                    continue
                docs = show(wt.last)
                keys = None
                how = "docs" if o.flag(0.8) else "iter"
                if how == "docs" and o.flag(0.4):
                    keys = o.sample(list(docs), o.draw(6))
                    if o.flag(0.15):
                        keys.insert(o.draw(len(keys) + 1), 9999)
                passes.append(rd.start(how, keys))
                if o.flag(0.3):
                    continue
                a = 1
            p = passes[o.draw(len(passes))]
            if a == 1:
                rd.step(p, [1, 2, 5, 100][o.draw(4)])
            elif a == 2:
                rd.drop(p)
                p.over = True
            elif a == 3:
                # rendering on the same object
                docs = show(wt.last)
                keys = o.sample(list(docs), 1 + o.draw([4, 12][o.draw(2)]))
                if o.flag(0.1):
                    keys.append(9999)
                table = bool(o.flag(0.5)) and plain != "twitter"
                wt.poll("x")
                k0 = rd.since if rd.open else wt.n() - 1
                fn = rd.c.render_docs_table if table else rd.c.render_docs_html
                ok, r = run.call("render", lambda: fn(list(keys)))
                wt.poll("x")
                k1 = wt.n() - 1
                errs = []
                for k in range(k0, k1 + 1):
                    d = show(wt.states[k][0])
                    if ok:
                        errs.append(render_fits(None, plain, table, keys, r, d))
                    else:
                        errs.append(None if any(x not in d for x in keys) else f"raised {type(r).__name__}: {r}")
                if None not in errs:
                    run.fail("rendered documents are not those of one version", f"{keys} in versions {k0}..{k1}: {errs}")
            passes = [x for x in passes if not x.over]
        for p in passes:
            rd.drop(p)
        p = passes = None
        readers_done.append(1)
        sim.block(lambda: finished and len(readers_done) >= n_readers, "others")
        sim.block(lambda: len(last_loads) == int(name[1:]), "turn")
        # the object can make changes that others see
        ld = Load(w.ch.sub(f"{name}after"), 70 + int(name[1:]), faults=False)
        s0 = wt.last
        run.must("load after passes", ld.call, rd.c)
        wt.poll("x")
        e = ld.done(s0, wt.last)
        if e:
            run.fail("passes left the connection in a transaction", f"{ld} by a former reader: {e}")
        last_loads.append(1)
        rd.c.close()

    n_readers = 1 + g.draw(3)
    readers_done, last_loads = [], []
    tasks = [run.client(writer, "writer")]
    tasks += [run.client(lambda i=i: reader(f"r{i}"), f"r{i}") for i in range(n_readers)]
    run.join(tasks)
    wt.close()


# -- documents by query


def windows_of(doc, feats, window):
    "The windows around each match, as documented."
    out = {}
    for field in {f for f, _ in feats}:
        values = doc.get(field, ())
        to = {v for f, v in feats if f == field}
        d = collections.defaultdict(list)
        if isinstance(values, list):
            for i, v in enumerate(values):
                if v in to:
                    d[v].append(values[max(0, i - window):i + window + 1])
        else:
            for v in to & set(values):
                d[v] = []
        out[field] = dict(d)
    return out


def c15_queries(w):
    from scn_edit import setup
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, max_docs=12, edits=g.draw(2))
    wt = run.watch(path)
    versions = [box.store]
    stop = []
    tasks = []
    if g.flag(0.6):
        def indexer():
            my = run.reopen(path, corpus, pool)
            for i in range(1 + g.draw(3)):
                if stop:
                    break
                o = w.ch.sub(f"ix{i}")
                # documents keep their fields, but come and go and change places
                old = box.store
                order = list(old.order)
                for _ in range(o.draw(4)):
                    a = o.draw(len(order))
                    order.insert(o.draw(len(order)), order.pop(a))
                if o.flag(0.4) and len(order) > 2:
                    order.pop(o.draw(len(order)))
                new = corpora.Store([(k, old.docs[k]) for k in order], old.keytype)
                new.docs = dict(old.docs)
                box.store = new
                ok, r = run.call("index", my.index, doc_batch_size=1 + o.draw(5))
                run.note(f"indexer: index -> {'ok' if ok else type(r).__name__}")
                wt.poll("x")
            my.close()
        tasks.append(run.client(indexer, "indexer"))

    fields = box.store.docs
    text = lambda k: " ".join(str(x) for x in fields[k].get("text", ()))
    for i in range(4 + g.draw(6)):
        o = run.opg("q")
        s = wt.last
        # a query: a feature's documents, a cluster, any set
        c = o.draw(3)
        if c == 0 and s.feats:
            q = sorted(s.docs[o.pick(sorted(s.feats))])
        elif c == 1 and s.clusters:
            q = sorted(s.cdocs[o.pick(sorted(s.clusters))])
        else:
            q = sorted(o.sample(sorted(s.keys), o.draw(8)))
        query = BitMap(q)
        n = None if o.flag(0.5) else o.draw(6)
        kind = o.draw(5)
        wt.poll("x")
        k0 = wt.n() - 1
        win = o.draw(4)
        feats = []
        if kind >= 3:
            pool_f = sorted(s.feats)
            feats = [s.feats[f] for f in o.sample(pool_f, 1 + o.draw(3))] if pool_f else [("text", "a")]
            feats = [f for f in feats if f[1] is not None] or [("text", "a")]
            feats.append(("tag", "nope")) if o.flag(0.2) else None
        if kind == 0:
            label, fn = "docs", lambda: list(idx.docs(query))
            n = None
        elif kind == 1:
            label, fn = "render_docs_html", lambda: idx.render_docs_html(query, random_sample_size=n)
        elif kind == 2:
            label, fn = "render_docs_table", lambda: idx.render_docs_table(query, random_sample_size=n)
        elif kind == 3:
            label, fn = "extract_matching_feature_windows", lambda: list(idx.extract_matching_feature_windows(query, feats, win, random_sample_size=n))
        else:
            feats = [f for f in feats if f[0] in ("text", "ref")] or [("text", "b")]
            label, fn = "concordances", lambda: list(idx.concordances(query, feats, win, random_sample_size=n))
        label += f"({q}, sample {n}{f', {feats}, {win}' if feats else ''})"
        ok, r = run.call(label, fn)
        wt.poll("x")
        k1 = wt.n() - 1
        if list(query) != q:
            run.fail("query changed", f"{label}: {list(query)}")
        errs = [judge_query(wt.states[k][0], kind, q, n, feats, win, ok, r, fields, text) for k in range(k0, k1 + 1)]
        if None not in errs:
            run.fail("retrieved documents are wrong", f"{label} in states {k0}..{k1}: {errs[-1]}")
        run.note(f"{label} -> {len(r) if ok else type(r).__name__}, states {k0}..{k1}")
        if ok and len(r) > 1 or k1 > k0:
            w.nontrivial = True
    stop.append(1)
    run.join(tasks)
    read_back(run, idx, wt.last)
    idx.close()
    wt.close()


def judge_query(s, kind, q, n, feats, win, ok, r, fields, text):
    if not ok:
        if any(d not in s.keys for d in q):
            return None
        return f"raised {type(r).__name__}: {r}"
    if kind == 0:
        got = [(d, k) for d, k, _ in r]
    elif kind == 1:
        got = [(d, k) for d, k, _ in r]
    elif kind == 2:
        ids = {k: d for d, k in s.keys.items()}
        got = [(ids.get(k), k) for k, _ in r]
    else:
        got = [(d, k) for k, d, _ in r]
    for d, k in got:
        if s.keys.get(d) != k:
            return f"document {d} comes with key {k}, is {s.keys.get(d)}"
    ids = [d for d, _ in got]
    if len(set(ids)) != len(ids):
        return f"documents {ids}: some twice"
    if n is None:
        if sorted(ids) != q:
            return f"documents {sorted(ids)}, asked for {q}"
    elif not set(ids) <= set(q) or len(ids) != min(n, len(q)):
        return f"documents {ids}: not {n} of {q}"
    for row in r:
        if kind == 0:
            if row[2]["key"] != row[1]:
                return f"document {row[0]} is the text of {row[2]['key']}"
        elif kind == 1:
            if row[2] != text(row[1]):
                return f"document {row[0]} rendered as {row[2]!r}, is {text(row[1])!r}"
        elif kind == 2:
            if row[1] != {"text": text(row[0]), "n": row[0]}:
                return f"document {row[0]} rendered as {row[1]!r}"
        else:
            want = windows_of({f: (list(v) if isinstance(v, (list, tuple)) else v) for f, v in fields[row[0]].items()}, feats, win)
            have = {f: {v: [list(x) if kind == 3 else x for x in ws] for v, ws in d.items()} for f, d in row[2].items()}
            if kind == 4:
                want = {f: {v: [" ".join(str(t) for t in x) for x in ws] for v, ws in d.items()} for f, d in want.items()}
            if have != want:
                return f"document {row[0]}: windows {have}, expected {want}"
    return None
