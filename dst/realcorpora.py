"""The corpora that come with hyperreal, and what their documents must be indexed by."""

import datetime
from html.parser import HTMLParser

import hyperreal.corpus
import hyperreal.utilities

import scn_corpus
import twitter
from scn_corpus import POST_COLS, PlainLoad, SXLoad, read_plain, read_sx, read_tw


class Spec:
    "A collection of documents with their fields."

    def __init__(self, docs, order):
        self.docs = docs
        self.order = order

    def fields(self, k):
        return self.docs[k]


class Words(HTMLParser):
    "Text inside and outside code blocks."

    def __init__(self, body):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.code, self.text = [], []
        self.feed(body)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.stack.append(tag)
        if self.stack[-2:] == ["pre", "code"]:
            self.code.append([])

    def handle_endtag(self, tag):
        if tag in self.stack:
            while self.stack.pop() != tag:
                pass

    def handle_data(self, data):
        if any(self.stack[i:i + 2] == ["pre", "code"] for i in range(len(self.stack))):
            self.code[-1].append(data)
        else:
            self.text.append(data)


def sx_fields(s, said):
    "said: the comments of each document in the order the corpus gives them (any order will do)."
    tok = hyperreal.utilities.tokens
    sites, ids, posts, comments, users, tags = s.raw
    post = {(p[0], int(p[1])): dict(zip(POST_COLS, p[1:])) for p in posts}
    shown = scn_corpus.sx_docs(s)
    out = {}
    for site, pid, k in ids:
        p = post[(site, pid)]
        _, _, title, body, ptype, user, tgs, cms = shown[k]
        wd = Words(body or "")
        when = datetime.datetime.fromisoformat(p["CreationDate"])
        day = when.replace(hour=0, minute=0, second=0, microsecond=0)
        out[k] = {
            "UserPosting": {user}, "Post": tok(title or "") + tok(" ".join(wd.text)),
            "CodeBlock": [t for c in wd.code for t in tok(" ".join(c))],
            "Tag": set(tgs), "UserCommenting": {c[0] for c in cms},
            "Comment": [t for c in said[k] for t in tok(c or "")],
            "Site": {site}, "PostType": {ptype},
            "created_day": {day.isoformat()}, "created_month": {day.replace(day=1).isoformat()},
            "created_year": {day.replace(day=1, month=1).isoformat()},
        }
    return out


class Real:
    "One of the corpora that come with hyperreal, its database and its contents."

    def __init__(self, run, kind):
        self.run = run
        self.kind = kind
        self.path = run.path("c.db")
        self.version = 0
        if kind == "plain":
            self.cls, self.Load, self.read = hyperreal.corpus.PlainTextSqliteCorpus, PlainLoad, read_plain
        elif kind == "sx":
            self.cls, self.Load, self.read = hyperreal.corpus.StackExchangeCorpus, SXLoad, read_sx
        else:
            twitter.make(self.path)
            self.cls, self.Load, self.read = hyperreal.corpus.TwittersphereCorpus, twitter.TwLoad, read_tw
        self.corpus = self.cls(self.path)

    def load(self, g):
        "A new version of the contents."
        self.version += 1
        ld = self.Load(g, self.version, faults=False)
        with self.run.calm():
            self.run.must(ld.name, ld.call, self.corpus)
        return ld

    def spec(self):
        return spec(self.run, self.kind, self.path, self.corpus)


READ = {"plain": read_plain, "sx": read_sx, "twitter": read_tw}


def spec(run, kind, path, corpus):
    "The documents of a corpus database as the specification of indexing sees them."
    s, err = scn_corpus.read_image(path, READ[kind])
    if err:
        run.fail("corpus broken", err)
    if kind == "plain":
        return Spec({k: {"text": hyperreal.utilities.tokens(t)} for k, t in s.raw}, [k for k, _ in s.raw])
    if kind == "sx":
        with run.calm():
            said = {k: [c["Text"] for c in d["UserComments"]] for k, d in run.must("docs", lambda: list(corpus.docs()))}
            want = {k: sorted(c[1] for c in d[7]) for k, d in scn_corpus.sx_docs(s).items()}
            if {k: sorted(v) for k, v in said.items()} != want:
                run.fail("comments are not the corpus's", f"{said}, has {want}")
            docs = sx_fields(s, said)
            order = run.must("keys", lambda: list(corpus.keys()))
        if sorted(order) != sorted(docs):
            run.fail("keys are not the corpus's documents", f"{order}, has {sorted(docs)}")
        return Spec(docs, order)
    docs = {k: twitter.fields(d) for k, d in twitter.by_name(s.raw).items()}
    return Spec(docs, sorted(docs))
