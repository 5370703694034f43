"""Twittersphere databases: what the tool of that name would have collected."""

import datetime
import html
import sqlite3
from urllib.parse import urlparse

import hyperreal.utilities
from env import oracle, real_connect

SCHEMA = """
create table metadata(key primary key, value);
create table tweet_latest(
    tweet_id integer primary key, retrieved_at, user_id integer, text, created_at, conversation_id integer,
    retweeted_tweet_id integer, quoted_tweet_id integer, replied_to_tweet_id integer,
    like_count integer, reply_count integer, quote_count integer, retweet_count integer
);
create table directly_collected_tweet(tweet_id integer primary key);
create table collection_context(context_id integer primary key, label);
create table tweet_at_time(tweet_id integer, retrieved_at, context_id integer, directly_collected integer);
create table tweet_hashtag(tweet_id integer, hashtag);
create table tweet_mention(tweet_id integer, mentioned_username);
create table tweet_url(tweet_id integer, retrieved_at, url);
create table url(url, retrieved_at, expanded_url, unwound_url);
create table user_latest(user_id integer primary key, username, name, profile_image_url);
create table user_at_time(user_id integer, retrieved_at, username);
"""

TABLES = (
    "tweet_latest", "directly_collected_tweet", "collection_context", "tweet_at_time", "tweet_hashtag", "tweet_mention",
    "tweet_url", "url", "user_latest", "user_at_time",
)


def make(path):
    "A database as the tool makes it, empty."
    with oracle():
        con = real_connect(path, isolation_level=None)
        try:
            con.execute("pragma journal_mode=wal")
            con.executescript(SCHEMA)
            con.execute("insert into metadata values('twittersphere_schema_version', 15)")
        finally:
            con.close()


TEXTS = [
    "hello &amp; welcome", "caf\u00e9 <3", "RT @bob: it\u2019s fine", "see https://t.co/abc now #Py", "@alice #one two three", "\u6771\u4eac tower", "",
    "a b c a b", "x &lt;b&gt; y",
]
URLS = [
    ("https://t.co/a", "https://example.org/page?x=1", None), ("https://t.co/b", "https://twitter.com/x/status/1", None),
    ("https://t.co/c", "https://short.example/q", "https://news.example/long"), ("https://t.co/d", None, None),
]


def hash_of(s):
    return sum(map(ord, str(s)))


class TwLoad:
    "The whole contents of a database, replaced at once."

    name = "collect"
    bad = None

    def __init__(self, g, version, faults=True):
        self.rows = {t: [] for t in TABLES}
        r = self.rows
        users = 1 + g.draw(4)
        for u in range(1, users + 1):
            r["user_latest"].append((u, f"User{u}" if not g.flag(0.3) else f"user{u}v{version}", f"Name {u}", "https://img.example/x.png"))
        for c in range(1, 3):
            r["collection_context"].append((c, f"label{c}"))
        n = 1 + g.draw(8)
        # tweets that are only there because others refer to them are never asked for
        far = 20000 + 1000 * (version if isinstance(version, int) else hash_of(version))
        ids = [100 + 7 * i if not g.flag(0.2) else far + i for i in range(n)]
        at = "2023-05-01T00:00:00+00:00"
        for u in range(1, users + 1):
            if not g.flag(0.2):
                r["user_at_time"].append((u, at, f"Then{u}"))
        for t in ids:
            kind = g.draw(6)
            ref = lambda: [99999, ids[g.draw(n)]][g.draw(2)]
            created = f"20{10 + g.draw(9)}-0{1 + g.draw(9)}-1{g.draw(9)}T{10 + g.draw(9)}:2{g.draw(9)}:30.000Z"
            r["tweet_latest"].append((
                t, at, 1 + g.draw(users), f"v{version} " + TEXTS[g.draw(len(TEXTS))], created, ids[g.draw(n)],
                ref() if kind == 0 else None, ref() if kind == 1 else None, ref() if kind in (2, 1) and g.flag(0.6) else None,
                g.draw(5), g.draw(5), g.draw(5), g.draw(5),
            ))
            direct = t < 20000
            if direct:
                r["directly_collected_tweet"].append((t,))
            for c in (1, 2):
                if g.flag(0.5):
                    r["tweet_at_time"].append((t, at, c, int(direct and not g.flag(0.2))))
            for h in g.sample(["Py", "py", "Data", "\u00c9t\u00e9"], g.draw(3)):
                r["tweet_hashtag"].append((t, h))
            for m in g.sample(["Bob", "alice"], g.draw(3)):
                r["tweet_mention"].append((t, m))
            for u in g.sample(URLS, g.draw(3)):
                r["tweet_url"].append((t, at, u[0]))
        for u in URLS:
            r["url"].append((u[0], at, u[1], u[2]))

    def __repr__(self):
        return f"collect({len(self.rows['directly_collected_tweet'])} of {len(self.rows['tweet_latest'])} tweets)"

    def call(self, c):
        "Through the corpus object's own connection."
        db = c.db
        try:
            db.execute("begin immediate")
            for t in TABLES:
                db.execute(f"delete from {t}")
                for row in self.rows[t]:
                    db.execute(f"insert into {t} values({','.join('?' * len(row))})", row)
            db.execute("commit")
        except BaseException:
            if db.in_transaction:
                db.execute("rollback")
            raise

    def done(self, s0, s1):
        want = tuple(tuple(sorted(self.rows[t], key=repr)) for t in TABLES)
        return None if s1.raw == want else f"found {s1.raw}, collected {want}"


def read_raw(con):
    return tuple(tuple(sorted((tuple(r) for r in con.execute(f"select * from {t}")), key=repr)) for t in TABLES)


def tables(raw):
    return dict(zip(TABLES, raw))


def by_name(raw):
    "{tweet id: what the documentation says a document is made of}, in key order."
    t = tables(raw)
    tweets = {r[0]: r for r in t["tweet_latest"]}
    users = {r[0]: r for r in t["user_latest"]}
    label = dict(t["collection_context"])
    then = {(r[0], r[1]): r[2] for r in t["user_at_time"]}
    url = {(r[0], r[1]): next((x for x in (r[3], r[2], r[0]) if x is not None)) for r in t["url"]}
    out = {}
    for (k,) in sorted(t["directly_collected_tweet"]):
        r = tweets[k]
        ref = {}
        for name, v in (("retweeted", r[6]), ("quoted", r[7]), ("replied_to", r[8])):
            o = tweets.get(v)
            ref[name] = (v, then.get((o[2], o[1])) if o else None)
        out[k] = {
            "tweet_id": k, "text": r[3], "created_at": r[4], "conversation_id": r[5], "username": users[r[2]][1], "refs": ref,
            "labels": {label[x[2]] for x in t["tweet_at_time"] if x[0] == k and x[3] == 1},
            "hashtags": {x[1] for x in t["tweet_hashtag"] if x[0] == k},
            "mentions": {x[1] for x in t["tweet_mention"] if x[0] == k},
            "urls": {url[(x[2], x[1])] for x in t["tweet_url"] if x[0] == k and not url[(x[2], x[1])].startswith("https://twitter.com/")},
        }
    return out


def lower_ascii(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def fields(d):
    "What the class documentation says such a tweet is indexed by."
    when = datetime.datetime.fromisoformat(d["created_at"].replace("Z", "+00:00"))
    cut = {"minute": when.replace(second=0, microsecond=0)}
    cut["hour"] = cut["minute"].replace(minute=0)
    cut["day"] = cut["hour"].replace(hour=0)
    cut["month"] = cut["day"].replace(day=1)
    cut["year"] = cut["month"].replace(month=1)
    out = {f"created_{k}": [v.isoformat()] for k, v in cut.items()}
    out["by"] = [d["username"]]
    if d["refs"]["retweeted"][0] is not None:
        out["retweeted_tweet_id"] = [d["refs"]["retweeted"][0]]
        out["retweeted_user"] = {d["refs"]["retweeted"][1]}
        return out
    out.update({
        "text": hyperreal.utilities.social_media_tokens(html.unescape(d["text"])),
        "#": {h.lower() for h in d["hashtags"]}, "@": {m.lower() for m in d["mentions"]},
        "conversation_id": [d["conversation_id"]], "url": d["urls"], "domain": {urlparse(u).hostname for u in d["urls"]},
        "quoted_tweet_id": {d["refs"]["quoted"][0]}, "quoted_user": {d["refs"]["quoted"][1]},
        "replied_to_tweet_id": {d["refs"]["replied_to"][0]}, "replied_to_user": {d["refs"]["replied_to"][1]},
        "collection_label": d["labels"],
    })
    return out


def comparable(d):
    return (d["tweet_id"], d["text"], d["created_at"], d["user"]["username"], tuple(sorted(d["collection_labels"])),
            tuple(sorted(x.lower() for x in d["hashtags"])), tuple(sorted(x.lower() for x in d["mentions"])), tuple(sorted(d["external_urls"])),
            tuple((d.get(f"{n}_user") or {}).get("username") for n in ("retweeted", "quoted", "replied_to")))


def docs_of(s):
    "{key: comparable} of a committed state."
    out = {}
    for k, d in by_name(s.raw).items():
        out[k] = (k, d["text"], d["created_at"], d["username"], tuple(sorted(d["labels"])),
                  tuple(sorted({x.lower() for x in d["hashtags"]})), tuple(sorted(x.lower() for x in d["mentions"])), tuple(sorted(d["urls"])),
                  tuple(d["refs"][n][1] for n in ("retweeted", "quoted", "replied_to")))
    return out
