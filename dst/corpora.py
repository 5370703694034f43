"""Simulated document stores and the corpora that read them."""

import hyperreal.corpus
from kernel import Sim, this_task
from env import World

WORDS = ["a", "b", "c", "A", "d", "a ", "e", "f", "g", "h", "it's", "naïve", "東京", "", "Z z", "0", "nai\u0308ve", "a\tb", "%", "a_", "n\0l", "long " * 60]
TAGS = ["x", "y", "z", "w", "v"]
MIXED = ["1", 1, 2.5, "2020-01-01", -3, "b", b"\x00\xff", 2**60]
# Unusual keys, which can still be put in order as Index.docs does.
KEYS = [
    ["1", "-5", "01", "", "a b", "naïve", "K", "k", "é\0z", "'", "1.0", "1e0", "%", "0x1"],
    [1, -5, 0, 2**60, -(2**60), 7, 2**33, -1],
]


class Store:
    "A version of an external document collection."

    def __init__(self, docs, keytype=0):
        self.keytype = keytype
        self.docs = dict(docs)
        self.order = [k for k, _ in docs]

    def fields(self, key):
        return self.docs[key]

    def __repr__(self):
        return f"Store({self.docs})"


class StoreBox:
    "The collection as corpora see it: one current version, replaced at once."

    def __init__(self, sim, store):
        self.sim = sim
        self.store = store
        self.idx = len(sim.stores)
        sim.stores.append(self)
        self.read_keys = 0
        self.on_read = None


class DocError(ValueError):
    pass


class SimCorpus(hyperreal.corpus.BaseCorpus):
    CORPUS_TYPE = "SimCorpus"
    table_fields = ["text", "n"]

    def __init__(self, idx):
        self.idx = idx

    @property
    def box(self):
        return Sim.active.stores[self.idx]

    def __getstate__(self):
        return self.idx

    def __setstate__(self, idx):
        self.idx = idx

    def keys(self):
        box = self.box
        sim = Sim.active
        store = box.store
        for k in list(store.order):
            if sim.faults:
                f = sim.hit("keys", k)
                if f is not None:
                    f.action(k)
            box.read_keys += 1
            if box.on_read is not None:
                box.on_read()
            yield k

    def docs(self, doc_keys=None):
        box = self.box
        sim = Sim.active
        store = box.store
        if doc_keys is None:
            doc_keys = list(store.order)
        for k in doc_keys:
            if this_task() is not None:
                sim.point("doc", k)
            if sim.faults:
                f = sim.hit("doc", k)
                if f is not None:
                    f.action(k)
            yield k, {"key": k, "fields": store.docs[k]}

    def index(self, doc):
        sim = Sim.active
        if sim is not None and sim.faults:
            f = sim.hit("index doc", doc["key"])
            if f is not None:
                f.action(doc["key"])
        return {
            f: (v if isinstance(v, tuple) else list(v) if isinstance(v, list) else set(v))
            for f, v in doc["fields"].items()
        }

    def text(self, doc):
        return " ".join(str(w) for w in doc["fields"].get("text", ()))

    def render_docs_html(self, doc_keys):
        return [(k, self.text(d)) for k, d in self.docs(doc_keys=doc_keys)]

    def render_docs_table(self, doc_keys):
        return [
            (k, {"text": self.text(d), "n": k}) for k, d in self.docs(doc_keys=doc_keys)
        ]


def gen_fields(g, words, tags, long=False):
    out = {}
    n = g.draw(14 if long else 7)
    if long and g.flag(0.04):
        n, words = 20 + g.draw(120), words[: 1 + g.draw(len(words))]
    out["text"] = [words[g.draw(len(words))] for _ in range(n)]
    c = g.draw(4)
    if c:
        out["tag"] = {tags[g.draw(len(tags))] for _ in range(c)}
    if g.flag(0.3):
        out["title"] = [words[g.draw(len(words))] for _ in range(g.draw(3))]
    if g.flag(0.3):
        out["num"] = {g.draw(5) for _ in range(1 + g.draw(2))}
    if g.flag(0.25):
        # Numbers and texts in one field, which sorts before the others.
        out["At"] = {MIXED[g.draw(len(MIXED))] for _ in range(1 + g.draw(2))}
    if g.flag(0.1):
        out["ref"] = [[7, 8][g.draw(2)] for _ in range(1 + (g.draw(4) == 3))]
    if g.flag(0.05):
        out["text"] = tuple(out["text"])
    if g.flag(0.08):
        out["tag"] = set(out.get("tag", ())) | {None}
    return out


def gen_store(g, max_docs=12, min_docs=1, keytype=None, long=False, prev=None):
    """
    A collection.  With prev, a changed version of it: documents dropped,
    edited, added, reordered.
    """
    words = WORDS[: 3 + g.draw(len(WORDS) - 3)]
    tags = TAGS[: 2 + g.draw(len(TAGS) - 1)]
    n = min_docs + g.draw(max(1, max_docs - min_docs + 1))
    if keytype is None:
        keytype = [0, 0, 0, 1, 1, 1, 2, 3][g.draw(8)] if prev is None else prev.keytype
    docs = []
    for i in range(n):
        if keytype == 0:
            key = 10 + 3 * i
        elif keytype == 1:
            key = f"k{(i * 7) % 100:02d}"
        elif i < len(KEYS[keytype - 2]):
            key = KEYS[keytype - 2][i]
        else:
            key = f"{i} " if keytype == 2 else 100 + i
        if prev is not None and key in prev.docs and not g.flag(0.5):
            docs.append((key, prev.docs[key]))
        else:
            docs.append((key, gen_fields(g, words, tags, long)))
    if g.flag(0.3):
        docs.reverse()
    if docs and g.flag(0.02):
        # many more values
        n, step = 20 + g.draw(140), 1 + g.draw(3)
        for i in range(n):
            k, f = docs[i * step % len(docs)]
            f = dict(f)
            f["tag"] = set(f.get("tag", ())) | {f"t{i}"}
            docs[i * step % len(docs)] = (k, f)
    return Store(docs, keytype)


def gen_big_store(g, n):
    "Many small documents with many values."
    a, b, c = 1 + g.draw(7), 1 + g.draw(11), 3 + g.draw(400)
    docs = []
    for i in range(n):
        f = {"text": [f"v{i * a % c}", f"v{i * b % (c + 5)}"][: 1 + (i + a) % 2], "tag": {WORDS[i * b % 5]}}
        if i % 3 == b % 3:
            f["ref"] = [i]
        docs.append((i * 3, f))
    return Store(docs)


def make_corpus(sim, store):
    box = StoreBox(sim, store)
    return SimCorpus(box.idx), box
