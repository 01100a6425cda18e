"""P27-P32: the Elasticsearch client functions and the indexing scripts, run against an in-memory server that executes
the requests it gets and logs them."""
import collections, gzip, json, os, re, zlib
from core import Check, Violation, Inconclusive, VERIF
import pyscale
from pyrun import *
from elasticsearch import analyze, phrase_in

WORDS = ["legal", "license", "terms", "of", "use", "the", "i", "really", "like", "winter", "spring", "42", "été", "straße", "x1", "aa", "aaa"]
DRIVER = os.path.join(VERIF, "lib", "es_driver.py")


def text(rng, most=12):
    ws = [rng.choice(WORDS[:rng.choice([3, 8, len(WORDS)])]) for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, most))]
    return "".join((w.upper() if rng.random() < 0.1 else w.capitalize() if rng.random() < 0.1 else w) + rng.choice([" ", " ", " ", ", ", ". ", "\n", " - "]) for w in ws)


def make_index(rng, most=40, start=0):
    docs = {}
    for i in range(rng.choice([0, 1, 3, 10, 25, most])):
        d = {"text": text(rng), "date": "2020-01-%02d" % rng.randint(1, rng.choice([1, 2, 28])), "n": rng.randint(0, 3)}
        if rng.random() < 0.9:
            d["subset"] = rng.choice(["en", "en", "de", "realnews"])
        if rng.random() < 0.8:
            d["lang"] = rng.choice(["a", "b"])
        docs["%s%d" % (rng.choice(["d", "é ", "p/"]), start + i)] = d
    return {"shards": rng.choice([1, 1, 2, 3, 5]), "replicas": rng.choice([0, 0, 1, 2]), "docs": docs}


def filters(rng):
    return [rng.choice([{"subset": "en"}, {"subset": "de"}, {"lang": "a"}, {"lang": "b"}, {"n": 1}, {"lang.keyword": "a"}]) for _ in range(rng.choice([1, 1, 2, 3]))]


def passes(src, flt, index):
    from elasticsearch import field_of, same
    for f in (flt or []) + ([{"subset": "en"}] if index == "c4" else []):
        (k, v), = f.items()
        if not same(field_of(src, k), v):
            return False
    return True


def holds(src, phrases, all_, is_re, slop):
    toks = analyze(src["text"])
    hit = [any(re.fullmatch(p, t, re.I) for t in toks) if is_re else phrase_in(toks, analyze(p), slop) for p in phrases]
    return all(hit) if all_ else any(hit)


def phrase(rng, docs):
    r = rng.random()
    if docs and r < 0.55:
        toks = analyze(rng.choice(list(docs.values()))["text"])
        if toks:
            i = rng.randrange(len(toks))
            t = toks[i:i + rng.randint(1, 3)]
            if rng.random() < 0.2:
                t.reverse()
            s = rng.choice([" ", ", ", "  "]).join(t)
            return s.title() if rng.random() < 0.2 else s
    if r < 0.9:
        return " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3])))
    return rng.choice(["nothing here", "zzz", "...", "", "it's", "legal-license"])


def regexp(rng):
    return rng.choice(["legal|license", "l.*", "LEGAL", "a+", "(win|spr)[a-z]*", "[0-9]+", ".", "x1", "zzz.*", "Te?rms", "aa?"])


def drive(c, sc):
    p, o = c.path("scenario%d.json" % len(os.listdir(c.dir))), c.path("out.json")
    with open(p, "w") as f:
        json.dump(sc, f)
    run = PyRun(c, [os.path.join(BIN, "python"), DRIVER, p, o])
    if run.rc or not os.path.exists(o):
        if "wimbd" in run.err and "Error" in run.err:
            raise Violation("wimbd.es cannot be used", **run.info())
        raise Inconclusive("the driver failed: " + run.err[-500:])
    return json.load(open(o))


def answer(call, r, shared):
    def fail(msg, **kw):
        raise Violation(msg, call=call, shared=shared, requests=r["log"][-4:], **kw)
    if r["changed"]:
        fail("the caller's argument(s) %s were changed by the call" % ", ".join(r["changed"]))
    if "error" in r:
        fail("the call fails: " + r["error"].strip().splitlines()[-1], traceback=r["error"])
    return r["result"], fail


def arguments(c, indices, shared, all_phrases_for_re=True):
    rng = c.rng
    name = rng.choice(list(indices))
    docs = indices[name]["docs"]
    is_re = c.chance(0.25)
    gen = (lambda: regexp(rng)) if is_re else (lambda: phrase(rng, docs))
    ph = gen() if c.chance(0.3) else [gen() for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    kw = {"index": name, "phrases": ph}
    if c.chance(0.5):
        kw["all_phrases"] = c.chance(0.7)
    if is_re:
        kw["is_regexp"] = True
    elif c.chance(0.4):
        kw["slop"] = rng.choice([0, 1, 1, 2, 4])
    if c.chance(0.5):
        k = "f%d" % rng.randrange(3)
        shared.setdefault(k, rng.choice([filters(rng), filters(rng), []]))
        kw["subset_filter"] = {"$ref": k}
    if isinstance(ph, list) and c.chance(0.3):
        k = "p%d" % rng.randrange(2)
        if shared.setdefault(k, ph) is ph or not (is_re or shared[k + "re"]):
            kw["phrases"] = {"$ref": k}
        shared.setdefault(k + "re", is_re)
    return kw


def wanted(kw, indices, shared):
    g = lambda k, d=None: (shared[kw[k]["$ref"]] if isinstance(kw[k], dict) else kw[k]) if k in kw else d
    ph = g("phrases")
    ph = [ph] if isinstance(ph, str) else ph
    return {i for i, s in indices[kw["index"]]["docs"].items() if passes(s, g("subset_filter"), kw["index"]) and holds(s, ph, g("all_phrases", False), g("is_regexp", False), g("slop", 0))}


def scene(c, most=40):
    rng = c.rng
    names = ["c4", "laion"] if c.chance(0.7) else ["re_pile", "c4x"]
    return {n: make_index(rng, most) for n in names}


def strip(log):
    return [{k: v for k, v in e.items() if k not in ("pit", "id")} for e in log]


def p27_queries(c):
    rng = c.rng
    indices, shared, calls = scene(c), {}, []
    for _ in range(rng.choice([10, 25])):
        kw = arguments(c, indices, shared)
        fn = rng.choice(["count_documents_containing_phrases", "get_documents_containing_phrases"])
        call = {"fn": fn, "kwargs": dict(kw), "own_client": c.chance(0.9)}
        if fn.startswith("get"):
            call["listed"] = True
            if c.chance(0.7):
                call["kwargs"]["num_documents"] = rng.choice([1, 2, 5, 50])
        calls.append(call)
        if c.chance(0.4):
            calls.append(rng.choice(calls))         # the same call again, with the same argument objects
    rs = drive(c, {"indices": indices, "shared": shared, "calls": calls})
    same = {}
    for call, r in zip(calls, rs):
        got, fail = answer(call, r, shared)
        want = wanted(call["kwargs"], indices, shared)
        if call["fn"].startswith("count"):
            if got != len(want) or isinstance(got, bool):
                fail("%r documents are counted, %d match" % (got, len(want)), matching=sorted(want))
        else:
            n = call["kwargs"].get("num_documents", 10)
            ids = [h["_id"] for h in got]
            if len(set(ids)) != len(ids) or not set(ids) <= want or len(ids) != min(n, len(want)):
                fail("fetching up to %d of %d matching documents returns %r" % (n, len(want), ids), matching=sorted(want))
            for h in got:
                if h.get("_source") != indices[call["kwargs"]["index"]]["docs"][h["_id"]]:
                    fail("a hit comes without its document", hit=h)
        k = json.dumps([call["fn"], call["kwargs"]], sort_keys=True)
        if k in same and same[k] != strip(r["log"]):
            fail("a repeated call with the same arguments issues another query", first=same[k])
        same[k] = strip(r["log"])
        c.count("calls")
        c.count("documents matched", len(want))
        c.key("q", call["kwargs"]["index"] == "c4", "subset_filter" in call["kwargs"], call["kwargs"].get("is_regexp"), call["kwargs"].get("slop"), call["kwargs"].get("all_phrases"), call["fn"], min(len(want), 6))
    c.sample(calls=len(calls), call=calls[0]["kwargs"])


def p28_all_hits(c):
    rng = c.rng
    indices, shared, calls = scene(c, 120), {}, []
    for name, ix in indices.items():
        if not ix["docs"]:
            ix["docs"]["only"] = {"text": "legal", "date": "2020-01-01", "n": 1, "subset": "en"}
    for _ in range(rng.choice([4, 8])):
        kw = arguments(c, indices, shared)
        if c.chance(0.5):
            kw.pop("subset_filter", None)
            kw.update(phrases=[".*"] if c.chance(0.5) else ["l.*", "t.*"], is_regexp=True, all_phrases=False)
            kw.pop("slop", None)
        kw["return_all_hits"] = True
        if c.chance(0.9):
            kw["num_documents"] = rng.choice([1, 2, 3, 5, 7, 10, 50, 10000])
        if c.chance(0.5):
            kw["sort_field"] = rng.choice(["n", "date"])
        call = {"fn": "get_documents_containing_phrases", "kwargs": kw, "listed": True, "rotate_pits": c.chance(0.4), "own_client": c.chance(0.9)}
        if c.chance(0.5):
            steps = []
            docs = list(indices[kw["index"]]["docs"])
            for _ in range(rng.randint(1, 12)):
                step = []
                for _ in range(rng.randint(0, 4)):
                    if rng.random() < 0.5:
                        step.append(["del", kw["index"], rng.choice(docs), None])
                    else:
                        i = rng.choice(docs + ["new%d" % rng.randrange(30)])
                        step.append(["put", kw["index"], i, {"text": text(rng) + " legal", "date": "2020-01-%02d" % rng.randint(1, 28), "n": rng.randint(0, 3), "subset": "en"}])
                steps.append(step)
            call["mutations"] = steps
        calls.append(call)
    rs = drive(c, {"indices": indices, "shared": shared, "calls": calls})
    for call, r in zip(calls, rs):
        got, fail = answer(call, r, shared)
        want = wanted(call["kwargs"], indices, shared)
        ids = [h["_id"] for h in got]
        docs, f = indices[call["kwargs"]["index"]]["docs"], call["kwargs"].get("sort_field", "date")
        twice = sorted({i for i in ids if ids.count(i) > 1})
        if twice:
            fail("documents are yielded more than once: %r" % twice[:5])
        if set(ids) != want:
            fail("of %d matching documents, %d are not yielded, and %d others are" % (len(want), len(want - set(ids)), len(set(ids) - want)), missing=sorted(want - set(ids))[:5], extra=sorted(set(ids) - want)[:5])
        keys = [docs[i][f] for i in ids]
        if keys != sorted(keys):
            fail("the documents are not in the order of %s" % f, order=keys)
        if any(h.get("_source") != docs[h["_id"]] for h in got):
            fail("a hit is not as it was when the iteration began")
        if r["pits"]:
            fail("a point in time is left open after the iteration")
        pages = sum(e["op"] == "search" for e in r["log"])
        c.count("iterations")
        c.count("pages", pages)
        c.count("hits", len(ids))
        c.count("iterations over a changing index", bool(call.get("mutations")))
        c.key("all", min(len(want), 10), call["kwargs"].get("num_documents"), f, bool(call.get("mutations")), call["rotate_pits"], len(set(keys)) < len(keys))
    c.sample(calls=len(calls), call=calls[0]["kwargs"], hits=len(ids))


def p29_each_phrase(c):
    rng = c.rng
    indices, shared, calls = scene(c), {}, []
    for _ in range(rng.choice([6, 12])):
        name = rng.choice(list(indices))
        docs = indices[name]["docs"]
        n = rng.choice([1, 1, 2, 3, 4, 6, 7, 12, 30])
        kw = {"index": name}
        if c.chance(0.35):
            kw["all_phrases"] = True
            ph = [[phrase(rng, docs) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(n)]
        else:
            ph = [phrase(rng, docs) for _ in range(n)]
            if c.chance(0.15):
                ph = ph[0]
        kw["phrases"] = ph
        if c.chance(0.3):
            k = "ph%d%d" % (bool(kw.get("all_phrases")), rng.randrange(2))
            shared.setdefault(k, ph)
            kw["phrases"] = {"$ref": k}
        size = len(ph) if isinstance(ph, list) else 1
        if c.chance(0.85):
            kw["batch_size"] = max(1, rng.choice([1, 2, 3, 4, 5, 6, size, size + 1, size - 1, size // 2]))
        if c.chance(0.2):
            kw["timeout"] = "10s"
        if c.chance(0.5):
            k = "f%d" % rng.randrange(2)
            shared.setdefault(k, rng.choice([filters(rng), []]))
            kw["subset_filter"] = {"$ref": k}
        calls.append({"fn": "count_documents_for_each_phrase", "kwargs": kw, "own_client": c.chance(0.9)})
    rs = drive(c, {"indices": indices, "shared": shared, "calls": calls, "track_cap": rng.choice([1, 3, 10000])})
    for call, r in zip(calls, rs):
        got, fail = answer(call, r, shared)
        kw = call["kwargs"]
        g = lambda k, d=None: (shared[kw[k]["$ref"]] if isinstance(kw[k], dict) else kw[k]) if k in kw else d
        ph = g("phrases")
        ph = [ph] if isinstance(ph, str) else ph
        want = [sum(passes(s, g("subset_filter"), kw["index"]) and holds(s, p if isinstance(p, list) else [p], True, False, 0) for s in indices[kw["index"]]["docs"].values()) for p in ph]
        if got != want:
            fail("counts %r, expected %r" % (got, want), phrases=ph)
        asked = [len(e["searches"]) // 2 for e in r["log"] if e["op"] == "msearch"]
        if max(asked, default=0) > kw.get("batch_size", 500):
            fail("a request carries %d queries with a batch size of %d" % (max(asked), kw.get("batch_size", 500)))
        if sum(asked) != len(ph):
            fail("%d queries are sent for %d phrases" % (sum(asked), len(ph)))
        c.count("calls")
        c.count("phrases", len(ph))
        c.count("requests", len(asked))
        c.key("each", len(ph), kw.get("batch_size"), kw["index"] == "c4", bool(kw.get("all_phrases")), "subset_filter" in kw)
    c.sample(calls=len(calls), call={k: v for k, v in calls[0]["kwargs"].items() if k != "phrases"})


def p29_contamination(c):
    rng = c.rng
    ix = make_index(rng)
    name = rng.choice(["c4", "laion"])
    st = c.path("server.json")
    with open(st, "w") as f:
        json.dump({"indices": {name: ix}, "log": []}, f)
    fields = rng.choice([["text"], ["sentence1"], ["sentence1", "sentence2"], ["a", "b", "c"]])
    n = rng.choice([1, 2, 7, 59, 60, 61, 120, 130])
    pool = [phrase(rng, ix["docs"]) for _ in range(rng.choice([2, 10, 40]))]
    rows = [{f: rng.choice(pool) for f in fields} | {"other": "legal"} for _ in range(n)]
    split = rng.choice(["train", "test"])
    other = [{f: "legal" for f in fields} | {"other": "zzz"}]
    d = c.path("datasets")
    sub = rng.choice([None, "rte"])
    os.makedirs(os.path.join(d, "glue"))
    with open(os.path.join(d, "glue/rte.json" if sub else "glue.json"), "w") as f:
        json.dump({split: rows, "dev": other}, f)
    args = ["--corpus", "glue", "--index", name, "--fields", ",".join(fields), "--split", split] + (["--sub_corpus", sub] if sub else [])
    run = script(c, "es/corpus_contamination.py", *args, env={"FAKE_DATASETS": d, "FAKE_ES": st, "FAKE_WANDB": c.path("wandb.json")}).ok()
    want = sum(any(passes(s, None, name) and holds(s, [r[f] for f in fields], True, False, 0) for s in ix["docs"].values()) for r in rows)
    try:
        got = float(run.lines()[-1])
    except (ValueError, IndexError):
        raise Violation("no percentage is printed", **run.info())
    if abs(got - want / n) > 1e-9:
        raise Violation("contamination %r, expected %d of %d" % (got, want, n), rows=rows[:10], **run.info())
    try:
        logged = json.load(open(c.path("wandb.json")))
    except FileNotFoundError:
        raise Violation("nothing is logged", **run.info())
    if [logged.get(k) for k in ("n", "count")] != [n, want] or not isinstance(logged.get("percentage"), (int, float)) or abs(logged["percentage"] - want / n) > 1e-9:
        raise Violation("logged %r, expected %d of %d" % (logged, want, n), rows=rows[:10], **run.info())
    asked = [len(e["searches"]) // 2 for e in json.load(open(st))["log"] if e["op"] == "msearch"]
    if max(asked) > 500 or sum(asked) != n:
        raise Violation("%d queries are sent for %d examples" % (sum(asked), n), **run.info())
    c.count("examples", n)
    c.count("contaminated", want)
    c.key("contamination", n, len(fields), name, want)
    c.sample(n=n, found=want, fields=fields)


def p30_unigrams(c):
    rng = c.rng
    indices, shared, calls = scene(c, 60), {}, []
    for _ in range(rng.choice([6, 12])):
        name = rng.choice(list(indices))
        kw = {"index": name, "unigrams": rng.choice(WORDS) if c.chance(0.3) else [rng.choice(WORDS + ["zzz"]) for _ in range(rng.choice([1, 2, 4]))]}
        if c.chance(0.5):
            k = "f%d" % rng.randrange(2)
            shared.setdefault(k, rng.choice([filters(rng), []]))
            kw["subset_filter"] = {"$ref": k}
        calls.append({"fn": "count_total_occurrences_of_unigrams", "kwargs": kw, "own_client": c.chance(0.9)})
    rs = drive(c, {"indices": indices, "shared": shared, "calls": calls})
    for call, r in zip(calls, rs):
        got, fail = answer(call, r, shared)
        kw = call["kwargs"]
        flt = shared[kw["subset_filter"]["$ref"]] if "subset_filter" in kw else None
        us = [kw["unigrams"]] if isinstance(kw["unigrams"], str) else kw["unigrams"]
        ix = indices[kw["index"]]
        want = {}
        for u in us:
            want[u] = 0
            for s in range(ix["shards"]):
                here = [d for i, d in ix["docs"].items() if zlib.crc32(i.encode("utf-8", "surrogatepass")) % ix["shards"] == s]
                if any(u in analyze(d["text"]) and passes(d, flt, kw["index"]) for d in here):
                    want[u] += sum(analyze(d["text"]).count(u) for d in here)
        if got != want:
            fail("totals %r, expected %r" % (got, want))
        c.count("calls")
        c.count("unigrams", len(us))
        c.count("occurrences", sum(want.values()))
        c.key("uni", ix["shards"], ix["replicas"], kw["index"] == "c4", flt is not None, min(5, sum(want.values())))
    c.sample(calls=len(calls), call=calls[0]["kwargs"], got=got)


# ------------------------------------------------------------------ P31

def batches(out):
    d = collections.defaultdict(dict)
    for f in os.listdir(out) if os.path.isdir(out) else []:
        m = re.fullmatch(r"(.+)_(\d+)\.jsonl\.gz", f)
        if f.endswith(".jsonl.gz") and not m:
            d["?"][f] = 0
        elif m:
            d[m.group(1)][int(m.group(2))] = os.path.join(out, f)
    return d


def p31_export(c):
    rng = c.rng
    field = rng.choice(["text", "content", "markdown"])
    splits = rng.choice([["train"], ["train", "test"], ["train", "train_extra", "dev"]])
    data = {}
    bs = rng.choice([1, 2, 3, 5, 8])
    hard = rng.choice([0, 0, 0.1, 0.5])           # share of texts that gzip cannot shorten
    for s in splits:
        n = rng.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, 5 * bs, rng.randint(0, 30)])
        data[s] = [{"id": "%s-%d" % (s, i), field: rng.choice(["", None, "a\nb", "é\u2028", text(rng), "x" * rng.choice([10, 20000])]) if rng.random() > hard else "%x" % rng.getrandbits(9000), "meta": rng.choice([None, {"k": [1]}, 3.5])} for i in range(n)]
    d, out = c.path("datasets"), c.path("out put" if c.chance(0.2) else "out")
    os.makedirs(d)
    with open(os.path.join(d, "web.json"), "w") as f:
        json.dump(data, f)
    total = sum(map(len, data.values()))
    args = ["--dataset", "web", "--output-dir", out, "--batch-size", bs] + (["--text-field", field] if field != "text" or c.chance(0.3) else [])

    def once(env):
        a = args + (["--num-workers", rng.choice([1, 2, 3, 8])] if c.chance(0.8) else [])
        e = {"FAKE_DATASETS": d}
        if c.chance(0.4):
            e.update(PYNOISE="%d %s %d" % (rng.randrange(10 ** 6), rng.choice([0.1, 0.3]), rng.choice([300, 2000])), PYNOISE_ROOT=W)
        e.update(env)
        if e.pop("FULL", None):                   # no file can grow beyond 1 KB
            return PyRun(c, ["bash", "-c", 'ulimit -f 1; exec "$@"', "bash", os.path.join(BIN, "python"), os.path.join(W, "indexing/huggingface.py")] + a, env=e)
        return script(c, "indexing/huggingface.py", *a, env=e)

    def verify(run):
        got = batches(out)
        if set(got) - {s for s in splits if data[s]}:
            raise Violation("unexpected output files %r" % {s: sorted(v) for s, v in got.items() if s not in splits or not data[s]}, history=history, **run.info())
        for s in splits:
            want = [{("text" if k == field else k): v for k, v in e.items()} for e in data[s]]
            want = [want[i:i + bs] for i in range(0, len(want), bs)]
            if sorted(got.get(s, {})) != list(range(len(want))):
                raise Violation("split %s of %d examples in batches of %d has the files %r" % (s, len(data[s]), bs, sorted(got.get(s, {}))), history=history, **run.info())
            for i, w in enumerate(want):
                try:
                    with gzip.open(got[s][i], "rt", encoding="utf-8", newline="") as f:
                        t = f.read()
                    rows = [json.loads(l) for l in (t[:-1] if t.endswith("\n") else t).split("\n")] if t else []
                except (OSError, EOFError, zlib.error, ValueError) as e:
                    raise Violation("batch %s_%d is damaged: %s" % (s, i, e), history=history, **run.info())
                if rows != w:
                    raise Violation("batch %s_%d does not hold its examples" % (s, i), expected=[x["id"] for x in w], got=[x.get("id") for x in rows], history=history, **run.info())
        return got
    history = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(["crash", "crash", "fail", "full"])
        if kind == "crash":
            n = int(10 ** rng.uniform(0.5, 1.6 + 0.9 * (total > 3) + 0.5 * (total > 15)))
            env = {"PYCRASH": str(n), "PYNOISE_ROOT": W}
        elif kind == "fail":
            env = {"FAKE_DATASETS_FAIL": str(rng.randint(0, total))}
        else:
            env = {"FULL": "1"}
        r = once(env)
        if r.rc == 0:                             # a run that reports success has written everything
            verify(r)
        c.count("runs with batches that cannot be written", kind == "full" and r.rc != 0)
        history.append((kind, env, r.rc, sorted(os.listdir(out)) if os.path.isdir(out) else []))
        c.count("interrupted runs", r.rc != 0)
    run = once({}).ok()
    got = verify(run)
    c.count("exports")
    c.count("examples", total)
    c.count("batches", sum(len(v) for v in got.values()))
    c.key("export", [len(data[s]) for s in splits], bs, field, [h[:2] for h in history])
    c.sample(examples=total, batch_size=bs, interruptions=[list(h[:2]) + [h[2], len(h[3])] for h in history])


# ------------------------------------------------------------------ P32

def server(st):
    return json.load(open(st)) if os.path.exists(st) and os.path.getsize(st) else {"indices": {}, "log": []}


def p32_index(c):
    rng = c.rng
    tf = rng.choice(["text", "text", "content"])
    idf = rng.choice([None, None, "id", "docno"])
    num = 0
    docs = []
    for i in range(rng.choice([0, 1, 3, 12, 40, 90])):
        d = {tf: rng.choice([None, "", " ", text(rng), text(rng), text(rng), "é" * rng.randint(1, 40), "x" * rng.randint(1, 60)]), "url": "http://x/%d" % i, "meta": {"a": [1, {"b": None}]}, "mark": "m%dm" % i}
        if idf:
            d[idf] = rng.choice(["id %d" % i, i, "é%d" % i]) if rng.random() < 0.9 else "dup"
        if rng.random() < 0.3:
            d["date"] = "2020-01-01"
        docs.append(d)
    if docs and c.chance(0.06):
        rng.choice(docs)[tf] = "x y " * rng.choice([60000, 400000])
    paths, parts = shard(c, docs, most=4, suffix=rng.choice([".jsonl.gz", ".json.gz"]))
    index = rng.choice(["web", "WeB", "re_pile-1"])
    st, cfg, lst = c.path("server.json"), c.path("es.yml"), c.path("files.txt")
    cloud, key, key_in_env = "c%d" % rng.randrange(1000), "k%d" % rng.randrange(1000), rng.random() < 0.2
    open(cfg, "w").write("cloud_id: %s\n" % cloud + ("" if key_in_env else "api_key: %s\n" % key))
    others = {"other": {"shards": 2, "replicas": 0, "docs": {"%s-0" % paths[0]: {"text": "elsewhere"}}}}
    if c.chance(0.3):
        others[index.lower()] = {"shards": 1, "replicas": 0, "docs": {"old": {"text": "old"}}}
    before = json.loads(json.dumps(others))
    json.dump({"indices": others, "log": []}, open(st, "w"))
    open(lst, "w").write("".join(p + "\n" for p in paths))
    opts, cut, skip = [], None, []
    if tf != "text":
        opts += ["--text-field", tf]
    if idf:
        opts += ["--id-field", idf]
    if c.chance(0.5):
        opts += ["--bulk-docs", rng.choice([1, 2, 3, 7, 100])]
    if c.chance(0.4):
        cut = rng.choice([1, 5, 20])
        opts += ["--max-doc-size", cut]
    if c.chance(0.4):
        skip = rng.choice([["url"], ["url", "meta"], ["nothing"], ["date", "url"]])
        opts += ["--skip-fields", ",".join(skip)]
    shards = 4
    if c.chance(0.3):
        shards = rng.choice([1, 3])
        opts += ["--num-shards", shards]
    ids_file = c.path("ids.h5") if c.chance(0.8) else None
    if ids_file:
        opts += ["--save-ids-file", ids_file]
    want, multi = {}, []
    for p, part in zip(paths, parts):
        for i, d in enumerate(part):
            if not d[tf]:
                continue
            e = {k: v for k, v in d.items() if k not in skip and k not in (tf, idf)}
            e["text"] = d[tf][:cut] if cut else d[tf]
            k = "%s-%d" % (p, i) if not idf else str(d[idf])
            multi.append(k)
            want.setdefault(k, e)
    faults = {}
    if multi and c.chance(0.3):
        first = rng.choice(sorted(want))
        faults = {want[first]["mark"]: rng.choice([400, 413, 429, 500, 503])}
    auth = {"FAKE_ES_AUTH": "%s|%s" % (cloud, key), **({"ES_API_KEY": key} if key_in_env else {"ES_API_KEY": "another"} if rng.random() < 0.2 else {})}
    base = {"FAKE_ES": st, **auth}
    args = ["--index", index, "--filenames-path", lst, "--es-config", cfg] + opts
    if faults:
        run = script(c, "indexing/index_json_files.py", *args, env=dict(base, FAKE_ES_FAULTS=json.dumps(faults)))
        if run.rc == 0:
            raise Violation("the server rejected a document with status %r and the run succeeds" % list(faults.values()), **run.info())
        c.count("runs with rejected documents")
        opt_again = 1
    runs = rng.choice([1, 1, 2])
    for k in range(runs):
        run = script(c, "indexing/index_json_files.py", *args, env=base).ok("indexing" + (" again" if k or faults else ""))
        s = server(st)
        got = dict(s["indices"].get(index.lower(), {"docs": {}})["docs"])
        old = before.get(index.lower(), {"docs": {}})["docs"]
        for i, d in old.items():
            if got.pop(i, None) != d:
                raise Violation("a document that was in the index before is changed", id=i, **run.info())
        if set(got) != set(want):
            raise Violation("%d documents are indexed instead of %d" % (len(got), len(want)), missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4], run_number=k, **run.info())
        for i in got:
            if got[i] != want[i] and multi.count(i) == 1:
                raise Violation("document %r is stored as %s instead of %s" % (i, json.dumps(got[i]), json.dumps(want[i])), **run.info())
        if {n: x for n, x in s["indices"].items() if n not in before and n != index.lower()} or s["indices"]["other"] != before["other"]:
            raise Violation("another index is changed or created", indices=list(s["indices"]), **run.info())
        if index.lower() not in before and s["indices"][index.lower()]["shards"] != shards:
            raise Violation("the index is created with %r shards instead of %d" % (s["indices"][index.lower()]["shards"], shards), **run.info())
        if ids_file:
            try:
                saved = json.load(open(ids_file))["ids"]["data"]
            except (OSError, KeyError) as e:
                raise Violation("the id file is missing or without ids: %r" % e, **run.info())
            a, b = collections.Counter(saved), collections.Counter(multi)
            if set(a) != set(b) or any(a[i] > b[i] for i in a):
                raise Violation("the saved ids are not the submitted ones: %d for %d" % (len(saved), len(multi)), missing=sorted((b - a).elements())[:4], extra=sorted((a - b).elements())[:4], **run.info())
        c.count("indexing runs")
    if len(paths) > 1 and c.chance(0.2):
        run = script(c, "indexing/index_json_files.py", *args, "--skip", "1", env=base)
        if run.rc == 0:
            raise Violation("--skip is accepted for %d files" % len(paths), **run.info())
        if server(st)["indices"] != s["indices"]:
            raise Violation("a refused run changes the index", **run.info())
        c.count("refused runs")
    if len(paths) == 1 and c.chance(0.6):
        # continuing: the rest of the documents, under the ids they have anyway
        k = rng.choice([0, 1, 2, len(docs) // 2, max(0, len(docs) - 1), len(docs), len(docs) + 3])
        st2 = c.path("server2.json")
        json.dump({"indices": {}, "log": []}, open(st2, "w"))
        run = script(c, "indexing/index_json_files.py", "--index", index, "--filenames-path", lst, "--es-config", cfg, "--skip", str(k), *[o for o in opts if o not in ("--save-ids-file", ids_file)], env={"FAKE_ES": st2, **auth}).ok("indexing with --skip")
        got = server(st2)["indices"].get(index.lower(), {"docs": {}})["docs"]
        first = sum(1 for d in parts[0][:k] if d[tf])
        n = None
        for m in range(first, min(k, len(multi)) + 1):      # the number may count lines or documents
            if set(got) == set(multi[m:]):
                n = m
        if n is None:
            raise Violation("skipping %d of %d leaves %d documents that are not the last ones under their own ids" % (k, len(multi), len(got)), got=sorted(got)[:5], ids=multi[:5], **run.info())
        bad = [i for i in got if multi.count(i) == 1 and got[i] != want[i]]
        if bad:
            raise Violation("a document after skipping is stored as %s instead of %s" % (json.dumps(got[bad[0]]), json.dumps(want[bad[0]])), **run.info())
        c.count("runs with skipping")
    c.count("documents", len(docs))
    c.count("documents indexed", len(want))
    c.key("index", len(docs), len(paths), tf, idf, cut, skip, bool(faults), runs)
    c.sample(docs=len(docs), indexed=len(want), options=[str(o) for o in opts[:6]])
    if ids_file and multi and c.chance(0.6):
        k = len(set(multi))
        n = 40 * k + 5
        code = ("import json,sys\nfrom wimbd.es.random_access import random_documents\nfrom wimbd.indexing import random_access\n"
                "a=random_documents(sys.argv[1],sys.argv[2],int(sys.argv[3]))\nb=random_access(sys.argv[1],sys.argv[4])\njson.dump([list(a),b],open(sys.argv[5],'w'))\n")
        # these functions take no configuration file: they use the default one of the repository
        run = PyRun(c, [os.path.join(BIN, "python"), "-c", code, index.lower(), os.path.dirname(ids_file), n, ids_file, c.path("drawn.json")], env={"FAKE_ES": st}).ok("drawing random documents")
        a, b = json.load(open(c.path("drawn.json")))
        live = server(st)["indices"][index.lower()]["docs"]
        if len(a) != n:
            raise Violation("%d random documents instead of %d" % (len(a), n), **run.info())
        for h in a + [b]:
            if h["_index"] != index.lower() or h["_id"] not in want or not h.get("found", True) or h["_source"] != live[h["_id"]]:
                raise Violation("a random document is not from the named index and id list", hit=h, **run.info())
        if {h["_id"] for h in a} != set(want):
            raise Violation("in %d draws from %d ids some never came" % (n, k), never=sorted(set(want) - {h["_id"] for h in a})[:3], **run.info())
        c.count("random draws", n)


JOBS = {}
A_SERVER = "the server is an in-memory stand-in with the documented semantics of the requests wimbd sends (lower-casing word tokenizer, shards by hash of the id); requests outside its model make a case inconclusive"
P27 = Check("P27", "exploration", [(p27_queries, 1)], once=[pyscale.many_matches],
            rule="distinct (index is C4, filtered, regexp, slop, all/any, function, hits) combinations", assumptions=[A_SERVER], quick=20)
P28 = Check("P28", "exploration", [(p28_all_hits, 1)], once=[pyscale.many_hits],
            rule="distinct (hits, page size, sort field, changes during paging, rotating snapshot ids, ties) combinations", assumptions=[A_SERVER], quick=20)
P29 = Check("P29", "exploration", [(p29_each_phrase, 3), (p29_contamination, 1)], once=[pyscale.many_phrases],
            rule="distinct (phrases, batch size, C4, all_phrases, filtered) combinations and contamination runs", assumptions=[A_SERVER], quick=20)
P30 = Check("P30", "exploration", [(p30_unigrams, 1)], once=[pyscale.many_shards],
            rule="distinct (shards, replicas, C4, filtered, total) combinations", assumptions=[A_SERVER, "unigrams are single lower-case tokens"], quick=20)
P31 = Check("P31", "fault_enumeration", [(p31_export, 1)], once=[pyscale.many_examples],
            rule="distinct (split sizes, batch size, field, interruptions) combinations", assumptions=["datasets are streamed from a stand-in for the datasets package", "an interruption is the end of the process or an error of the download, not of the machine"], quick=30)
P32 = Check("P32", "exploration", [(p32_index, 1)], once=[pyscale.many_documents],
            rule="distinct (documents, files, fields, cut, skipped fields, faults, runs) combinations", assumptions=[A_SERVER, "HDF5 files are written through a stand-in for h5py"], quick=30)
