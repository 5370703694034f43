"""
Systematic small changes to hyperreal: the checks on each, and the tests on what they miss.

usage: automut.py list | run OUT.jsonl RUNS SHARD/SHARDS
"""
import ast, json, os, random, re, shutil, subprocess, sys, time

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["index.py", "corpus.py", "server.py", "cli.py", "_index_schema.py", "db_utilities.py"]
# What no check is about: the documented fields of posts and tweets, HTML escaping, unused functions.
SKIP = re.compile(r"logger|click\.echo|help=|__doc__|logging")
SKIP_FUNC = {"_or_partition_positions", "shutdown_pool", "_refine_x"}


def mutants(file):
    src = open(f"{REPO}/hyperreal/{file}").read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what):
        a, b = pos(n)
        old = raw[a:b].decode()
        if SKIP.search(old) and what in ("del", "const"):
            return
        out.append({"file": file, "a": a, "b": b, "new": new, "what": what, "line": n.lineno, "func": cur[0], "old": old[:120]})

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    cur = [None]

    def visit(n, func, in_doc=False):
        for field, val in ast.iter_fields(n):
            kids = val if isinstance(val, list) else [val]
            for i, k in enumerate(kids):
                if not isinstance(k, ast.AST):
                    continue
                f = func
                if isinstance(k, (ast.FunctionDef,)):
                    if k.name in SKIP_FUNC:
                        continue
                    f = k
                    for d in k.decorator_list:
                        t = text(d)
                        if t == "atomic(writes=True)":
                            add(d, "atomic()", "deco")
                        if t.startswith("atomic("):
                            add(d, "(lambda f: f)", "deco")
                if f is not None:
                    cur[0] = f.name
                if isinstance(k, ast.stmt) and func is not None:
                    docs = isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)
                    if docs:
                        continue
                    if isinstance(k, ast.Expr) or isinstance(k, ast.AugAssign) or isinstance(k, ast.Delete) or isinstance(k, (ast.Break, ast.Continue, ast.Raise)):
                        add(k, "pass", "del")
                    if isinstance(k, ast.Assign) and not SKIP.search(text(k)) and not isinstance(k.targets[0], ast.Name):
                        add(k, "pass", "del")
                    if isinstance(k, (ast.If, ast.While)):
                        add(k.test, f"not ({text(k.test)})", "neg")
                    if isinstance(k, ast.Try):
                        for h in k.handlers:
                            if h.type is not None and text(h.type) == "BaseException":
                                add(h.type, "Exception", "exc")
                if isinstance(k, ast.Compare) and len(k.ops) == 1 and func is not None:
                    sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(k.ops[0]))
                    if sw:
                        add(k, f"{text(k.left)} {sw} {text(k.comparators[0])}", "cmp")
                if isinstance(k, ast.BoolOp) and func is not None:
                    for j in range(len(k.values)):
                        op = " and " if isinstance(k.op, ast.And) else " or "
                        add(k, op.join(text(v) for i2, v in enumerate(k.values) if i2 != j), "bool")
                if isinstance(k, ast.Constant) and type(k.value) is int and func is not None:
                    add(k, str(k.value + 1), "const")
                if isinstance(k, ast.Constant) and type(k.value) is bool and func is not None:
                    add(k, str(not k.value), "const")
                if isinstance(k, ast.BinOp) and func is not None:
                    sw = {ast.Add: "-", ast.Sub: "+", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(k.op))
                    if sw and not isinstance(k.left, (ast.JoinedStr, ast.List)) and not isinstance(getattr(k.left, "value", 0), str):
                        add(k, f"{text(k.left)} {sw} {text(k.right)}", "arith")
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and re.search(r"\b(select|insert|update|delete|replace|begin|create|pragma|drop|savepoint|rollback|release)\b", k.value, re.I):
                    t = text(k)
                    for pat, rep in ((r" or ignore", ""), (r"insert or ignore", "replace"), (r"replace into", "insert into"), (r" desc\b", ""), (r">=", ">"), (r"\+ 1\b", "+ 2"),
                                     (r"begin immediate", "begin"), (r" unique\b", ""), (r" not null", ""), (r"on delete cascade", ""), (r" before ", " after "),
                                     (r"\bsum\(", "max("), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bcount\(\*\)", "count(distinct 1)"), (r"\bdefault 0", "default 1")):
                        for m in re.finditer(pat, t):
                            new = t[: m.start()] + rep + t[m.end():]
                            add(k, new, f"sql {pat}->{rep} @{t[max(0, m.start()-30):m.end()+20]!r}")
                    for m in re.finditer(r"\n\s*(where|and|order by|when|values|limit|inner join)\b[^\n]*", t):
                        if m.group(1) in ("where", "and", "order by", "when", "limit"):
                            new = t[: m.start()] + t[m.end():]
                            add(k, new, f"sqldel {m.group(0).strip()!r}")
                visit(k, f)

    visit(tree, None)
    good = []
    for m in out:
        try:
            s = (raw[: m["a"]] + m["new"].encode() + raw[m["b"]:])
            compile(s, file, "exec")
        except SyntaxError:
            continue
        if s != raw:
            good.append(m)
    return good


def everything():
    ms = [m for f in FILES for m in mutants(f)]
    for i, m in enumerate(ms):
        m["id"] = i
    return ms


def build(m, base="/tmp/am/w"):
    d = f"{base}/{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("hyperreal", "tests", "pyproject.toml", "README.md"):
        s = os.path.join(REPO, x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(s, d)
    p = f"{d}/hyperreal/{m['file']}"
    raw = open(p, "rb").read()
    open(p, "wb").write(raw[: m["a"]] + m["new"].encode() + raw[m["b"]:])
    return d


def tested(m):
    d = build(m)
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = subprocess.run(["timeout", "-k", "5", "240", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=100", "--ignore=tests/test_server.py",
                        "--deselect", "tests/test_cli.py::test_sx_corpus", "--deselect", "tests/test_index.py::test_field_intersection"], cwd=d, env=e, capture_output=True, text=True)
    m["tests"] = r.returncode
    shutil.rmtree(d, ignore_errors=True)
    return m


# Which checks to try first.
ORDER = {
    "index.py": "C01 C13 C10 C12 C06 C07 C15 C19 C05 C08 C02 C04 C11 C18 C16 C20 C17 C21 C03 C09 C14".split(),
    "corpus.py": "C14 C15 C21 C17 C05 C01 C19 C20 C11 C12 C13 C02 C03 C04".split(),
    "server.py": "C17 C21".split(),
    "cli.py": "C21 C17".split(),
    "_index_schema.py": "C16 C06 C05 C07 C09 C01 C08 C02 C03 C13 C20 C21 C10 C12".split(),
    "db_utilities.py": "C01 C06 C07 C09 C16 C02 C14 C15".split(),
}


# By the function changed, where that tells more than the file.
FUNCS = {
    "C01 C02 C05 C13 C18 C11 C20 C03 C04": "index _index_docs _prepare_merge _create_segment_tables",
    "C13 C15 C17": "score_passages_dnf _score_passages_dnf count_collocations _count_collocations _construct_passages render_passages_table _union_position_query _get_partition_positions _get_partition_header _field_partitions positional_fields",
    "C10 C11 C06 C07": "_refine_feature_groups refine_clusters _find_best_moves _score_proposed_moves measure_feature_contribution_to_cluster _update_cluster_feature",
    "C12 C17 C04": "pivot_clusters_by_query create_cluster_cooccurrence_graph _calculate_query_cluster_cooccurrence _pivot_cluster_features_by_query_jaccard intersect_queries_with_field iter_field_docs cluster_query union_bitslice",
    "C19 C15 C21 C04": "structured_doc_sample export_document_sample sample_bitmap",
    "C15 C13 C17 C04 C19": "docs convert_query_to_keys render_docs_html render_docs_table extract_matching_feature_windows concordances",
    "C07 C06 C08 C10 C05 C20": "initialise_clusters delete_clusters merge_clusters delete_features next_cluster_id create_cluster_from_features pin_features pin_clusters _update_changed_clusters",
    "C16 C20 C06 C09": "__init__ _migrate is_index_db",
}
BY_FUNC = {f: k.split() for k, v in FUNCS.items() for f in v.split()}


def checked(m, runs):
    d = build(m)
    out = []
    for prop in BY_FUNC.get(m["func"], ORDER[m["file"]]) if m["file"] == "index.py" else ORDER[m["file"]]:
        e = dict(os.environ, VERIF_REPO=d)
        r = subprocess.run(["timeout", "-k", "5", "300", "/opt/venv/bin/python", f"{ROOT}/dst/run.py", "check", prop, "--runs", str(runs)], env=e, capture_output=True, text=True)
        if r.returncode:
            v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
            m["caught"] = prop
            m["rc"] = r.returncode
            m["how"] = (v[0] if v else (r.stdout + r.stderr)[-300:])[:300]
            break
    shutil.rmtree(d, ignore_errors=True)
    return m


def main():
    if sys.argv[1] == "list":
        ms = everything()
        for m in ms:
            print(m["id"], m["file"], m["line"], m["what"], repr(m["old"][:70]), "->", repr(m["new"][:50]))
        print(len(ms))
    else:
        ms = everything()
        rng = random.Random(7)
        ms = [m for m in ms if m["what"] != "const" or rng.random() < 0.2]
        rng.shuffle(ms)
        ms.sort(key=lambda m: m["what"] in ("const", "bool"))
        k, n = map(int, sys.argv[4].split("/"))
        seen = {json.loads(l)["id"] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
        for m in ms:
            if m["id"] % n != k or m["id"] in seen or m["file"] in ("server.py", "cli.py") and m["what"] == "const":
                continue
            t0 = time.time()
            checked(m, int(sys.argv[3]))
            m["s"] = round(time.time() - t0)
            with open(sys.argv[2], "a") as f:
                f.write(json.dumps(m) + "\n")


main()
