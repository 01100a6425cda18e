"""Inputs of the Python parts with more of something (lines, documents, keys, batches, hits, characters of one text)
than 16 bits, a default batch or a common limit hold. They run once per check."""
import collections, gzip, hashlib, json, os, re
from core import Violation
from pyrun import *
from scale import Later

pc, po, pe, pp = Later("py_counts"), Later("py_overlap"), Later("py_es"), Later("py_prep")
PAST = 65536


def write_plain(path, records):
    """level-1 single-member: the sizes matter here, not the framing"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(gzip.compress("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in records).encode(), 1, mtime=0))
    return path


def spread(c, records, n=2):
    """A first file with most of the records, the rest in others."""
    parts = [[] for _ in range(n)]
    for i, r in enumerate(records):
        parts[0 if i % 10 else 1 + (i // 10) % (n - 1)].append(r)
    return [write_plain(c.path("in/p%d.jsonl.gz" % i), p) for i, p in enumerate(parts)], parts


def long_text(rng, n, unit=None):
    """n characters, no two places alike"""
    out, have, i = [], 0, 0
    while have < n:
        w = unit(i) if unit else "%s%x%s" % (rng.choice(["w", "é", "漢", "a-b.", "x_"]), i, rng.choice([" ", " ", "\n", ", ", "  "]))
        out.append(w)
        have += len(w)
        i += 1
    return "".join(out)[:n]


LONG = [65535, 65536, 65537, 99999, 100000, 100001, 131073, 300000, 500001, 1 << 20, (1 << 20) + 1, 1300000]


# ---------------------------------------------------------------------------------- counts

def long_lengths(c):
    """Texts longer than the other pipelines take."""
    rng = c.rng
    recs = [{"text": t} for t in (long_text(rng, n) for n in LONG)] + [{"text": "x" * 100000}, {"text": " " * 70000}, {"text": "\n" * 99999 + "a"}, {"text": ". a" * 70000}] + [{"text": "a b"}] * PAST
    rng.shuffle(recs)
    paths, parts = spread(c, recs)
    run = map_reduce(c, "sentence_lengths", paths)
    compare(run, table(run, "key"), dict(pc.length_counts(recs)), "lengths of long and many texts")
    c.count("records", len(recs))
    c.key("long", len(recs))


def many_urls(c):
    """More records and more distinct keys in one file than 16 bits count."""
    rng = c.rng
    n = 75000 + rng.randint(0, 3000)
    recs = [{"url": "%s://h%d.org/%s/x.%s" % (rng.choice(["http", "https", "ftp"]), i if i % 8 else 0, "p" * rng.choice([0, 1, 5000 if i % 5000 == 3 else 2]), rng.choice(["png", "jpg", "html", "jpeg"]))} for i in range(n)]
    recs[-1]["url"] = "gopher://last.org/y.JPEG"
    paths, parts = spread(c, recs)
    for which, key in (("url_counts", "url"), ("scheme_counts", None), ("extension_counts", "ext")):
        run = map_reduce(c, which, paths)
        want = collections.Counter()
        for r in recs:
            u = r["url"]
            want[u.split("/")[2] if which == "url_counts" else u.split(":")[0] if which == "scheme_counts" else u.rsplit(".", 1)[1] if not u.endswith("html") else "other"] += 1
        got = table(run, key) if key else {k: v for r in run.rows() for k, v in r.items()}
        compare(run, got, dict(want), which + " of many records")
        c.key("many", which)
    c.count("records", n)


def long_domains(c):
    """Long texts, many of them, in one domain or in very many."""
    rng = c.rng
    recs = [{"url": "http://long.org/%d" % n, "text": long_text(rng, n)} for n in LONG]
    recs += [{"url": "http://h%d.org/" % (i if i % 3 else 0), "text": "a b, c"} for i in range(PAST + 3000)]
    rng.shuffle(recs)
    paths, _ = spread(c, recs)
    run = map_reduce(c, "url_per_tok_counts", paths)
    want = collections.Counter()
    for r in recs:
        want[r["url"].split("/")[2]] += sum(1 for w in pc.uni_words(r["text"]) if w != " ")
    compare(run, table(run, "url"), dict(want), "tokens per domain of long texts")
    rows = [{"url": "h%d.%s" % (i, rng.choice(["com", "co.uk", "org"])), "count": rng.choice([1, 1, 3, 2 ** 33])} for i in range(PAST + 3000)]
    p = c.path("in/urls.jsonl")
    open(p, "w").write("".join(json.dumps(r) + "\n" for r in rows))
    run = map_reduce(c, "high_level_domain_counts", [p])
    want = collections.Counter()
    for r in rows:
        want[r["url"].split(".", 1)[1]] += r["count"]
    compare(run, table(run, "high_level_domain"), dict(want), "counts per public suffix of many domains")
    docs = [{"text": rng.choice(["the cat sat on the mat", "der Hund und die Katze", "a", "日本語のテキスト", " "]) + " %d" % (i % 7)} for i in range(PAST + rng.choice([1, 999, 1000, 1001]))]
    paths, _ = spread(c, docs)
    run = map_reduce(c, "language", paths, *rng.choice([[], ["--bs", "30000"]]))
    want = collections.Counter()
    memo = {}
    for r in docs:
        if r["text"] not in memo:
            ok, _, det = pc.pycld2.detect(r["text"])
            memo[r["text"]] = det[0][1] if ok else "un"
        want[memo[r["text"]]] += 1
    compare(run, table(run, "language"), dict(want), "languages of many documents")
    c.count("records", len(recs) + len(rows) + len(docs))
    c.key("long", len(recs))


def long_pii(c):
    """Documents of nearly the longest length, with thousands of matches up to the very end."""
    rng = c.rng
    recs, want, kept = [], collections.Counter(), 0
    for size in (499000, 120000, 300000):
        s = ""
        while len(s) < size:
            piece = pc.pii_text(rng)
            if len(piece) > 3000 or pc.junk(piece) or any(pc.pii_of(piece, w) != pc.pii_of(piece, 50) for w in (47, 48, 52, 53)):
                continue
            s += " " + piece + "\n" + pc.filler(rng, 120)
        s = s[:size]
        if any(pc.pii_of(s, w) != pc.pii_of(s, 50) for w in (47, 48, 52, 53)) or pc.junk(s):
            s = pc.filler(rng, size - 300) + " call 555-123-4567 or 10.1.2.3 , me@host.org " + pc.filler(rng, 200)
        s = s[:500000 - 60] + " bye, 212-555-0100 at x@y.org "
        recs.append({"text": s})
        v = pc.pii_of(s, 50)
        for k, keep in v:
            want[k] += keep
            kept += keep
    many = [{"text": "mail %d@h.org or 555-123-%04d " % (i, i % 10000)} for i in range(3000)]
    want["email"] += len(many)
    want["phone_numbers"] += len(many)
    recs = recs + many
    rng.shuffle(recs)
    paths, _ = spread(c, recs)
    run = map_reduce(c, "pii", paths)
    compare(run, table(run, "pii"), {k: v for k, v in want.items() if v}, "PII counts of long documents")
    c.count("documents", len(recs))
    c.count("matches in long documents", kept)
    c.key("long", kept)


def many_samples(c):
    """A long file: the last records are as likely as the first, and all come with fraction 1."""
    rng = c.rng
    n = 90000
    recs = [{"url": "u%d" % i} for i in range(n)]
    recs[77] = {"url": long_text(rng, 300000)}
    p = write_plain(c.path("in/long.jsonl.gz"), recs)
    run = script(c, "random_sample/map_count.py", "--in_file", p, "--sample_fraction", "1").ok("the mapper")
    got = pc.parse_samples(run, "url")
    if got != [r["url"] for r in recs]:
        raise Violation("with fraction 1, %d of %d records are selected" % (len(got), n), argv=run.argv)
    red = script(c, "random_sample/reduce_count.py", stdin=run.stdout).ok("the reducer")
    if pc.parse_samples(red, "url") != got:
        raise Violation("the reducer changes the samples", argv=red.argv)
    frac = rng.choice([0.5, 0.2, 0.05])
    run = script(c, "random_sample/map_count.py", "--in_file", p, "--sample_fraction", str(frac)).ok("the mapper")
    got = [77 if len(v) > 99 else int(v[1:]) for v in pc.parse_samples(run, "url")]
    if got != sorted(set(got)):
        raise Violation("samples out of order or repeated", argv=run.argv)
    for a in range(0, n, n // 9):
        k = sum(a <= i < a + n // 9 for i in got)
        if not pc.tail_ok(k, n // 9, frac):
            raise Violation("%d of records %d to %d selected with fraction %s" % (k, a, a + n // 9, frac), argv=run.argv)
    c.count("records", 2 * n)
    c.key("many", frac, len(got))


def many_sums(c):
    """Mean sentiments over more batches than usual."""
    rng = c.rng
    lex = sorted(pc.spacy_en.LEXICON)
    docs = ["%s is %s. %s" % (rng.choice(["he", "she", "the muslim", "They"]), rng.choice(lex), rng.choice(["", "Some black people went."])) for _ in range(400)]
    recs = [{"text": rng.choice(docs)} for _ in range(20000 + rng.choice([0, 1, 999]))]
    s, n, memo = collections.Counter(), collections.Counter(), {}
    for r in recs:
        t = r["text"]
        if t not in memo:
            out = []
            for sent in pc.spacy_en.sentences(t):
                toks = set(re.findall(r"\w+", sent))
                out += [(k, pc.spacy_en.polarity(sent)) for k, hit in (("male", "he" in toks), ("female", "she" in toks), ("muslim", "muslim" in toks), ("black", "black people" in sent)) if hit]
            memo[t] = out
        for k, v in memo[t]:
            s[k] += v
            n[k] += 1
    paths, _ = spread(c, recs)
    run = map_reduce(c, "sentiment_coocurrence", paths)
    got, want = run.rows()[0], {k: s[k] / n[k] for k in n}
    if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-7 for k in want):
        raise Violation("mean sentiments over many documents: expected %r, got %r" % (want, got), **run.info())
    c.count("documents", len(recs))
    c.key("many", len(recs))


# ---------------------------------------------------------------------------------- overlap

def many_hashes(c):
    """More documents and more listed texts than 16 bits count; long texts that differ late."""
    rng = c.rng
    n = PAST + 5000
    base = long_text(rng, 1 << 21)
    docs = [{"text": "t%d" % (i if i % 3 else i // 6), "n": i} for i in range(n)]
    for i in range(12):
        docs.insert(rng.randrange(len(docs)), {"text": base + "ab"[i % 2], "n": n + i})
    docs.append({"text": "t6", "n": n + 50})
    paths, parts = spread(c, docs, 3)
    count = collections.Counter(d["text"] for d in docs)
    keep = c.chance(0.6)
    listed = [t for t, k in count.items() if k > 1] if keep else [t for t in count if rng.random() < 0.9]
    listed = [po.md5(t) for t in listed] + [po.md5("not there %d" % i) for i in range(PAST)]
    rng.shuffle(listed)
    open(c.path("block.txt"), "w").write("".join(l + "\n" for l in listed))
    os.makedirs(c.path("out"))
    run = script(c, po.HS + "deduplicate_by_hash.py", "--shards", *paths, "--blocklist", c.path("block.txt"), "--outpath", c.path("out"), "--num_processes", "3", *(["--keep_first_occurrence"] if keep else []), patience=120).ok("deduplication")
    po.check_dedup(c, run, None, paths, parts, set(listed), keep, False, c.path("out"))
    c.count("listed", len(listed))
    c.key("many", keep, len(listed))


def many_keys(c):
    """The analysis over more keys than 16 bits count, one of them very often, and long texts that differ late."""
    rng = c.rng
    for mode in ("url", "text"):
        base = long_text(rng, 300000)
        sets, spec = {}, {}
        for nm, lo, hi in (("aa", 0, 40000), ("bb", 20000, 72000)):
            keys = ["http://k%d.org/" % i for i in range(lo, hi)] + ["http://k0.org/"] * rng.choice([66000, 100001]) + ["http://r%d.org/" % i for i in range(50) for _ in range(i + 1)]
            if mode == "text":
                keys += [base + "a", base + "b", base + "b"] + ([base + "c"] if nm == "bb" else [])
            recs = [{"url": k, "text": "t"} if mode == "url" else {"text": k} for k in keys]
            d = c.path(mode + nm)
            for i in range(2):
                write_plain(os.path.join(d, "s%d.jsonl.gz" % i), recs[i::2])
            sets[nm], spec[nm] = collections.Counter(keys), d + "/*.jsonl.gz"
        json.dump(spec, open(c.path(mode + "sets.json"), "w"))
        po.analysed(c, mode, ["aa", "bb"], sets, c.path(mode + "sets.json"), c.path("result"))


def many_lines(c):
    """Long files and long lines."""
    rng = c.rng
    folder = c.path("in")
    os.makedirs(folder)
    n = rng.choice([2, 3, 7])
    lines = ["l%d" % i for i in range(3 * PAST + rng.choice([0, 1, 2]))]
    for i in range(5):
        lines.insert(rng.randrange(len(lines)), "x" * rng.choice([70000, 1 << 20, 3000000]))
    open(os.path.join(folder, "f.jsonl.gz"), "wb").write(gzip.compress("".join(l + "\n" for l in lines).encode(), 1))
    run = script(c, "utils/file_split.py", "--in_folder", folder, "--n", n).ok("file_split.py")
    got = [gzip.open(os.path.join(folder, "f_%d.json.gz" % i), "rb").read().decode() for i in range(n)]
    if "".join(got) != "".join(l + "\n" for l in lines):
        raise Violation("the %d parts of a long file are not its lines: %d of %d" % (n, sum(g.count("\n") for g in got), len(lines)), argv=run.argv)
    base = long_text(rng, 1 << 20)
    recs = [{"text": "t %d" % i, "n": i} for i in range(PAST + 2000)]
    # long texts that differ late must not share an id, nor need they share an output
    for i in range(40):
        recs.insert(rng.randrange(len(recs)), {"text": base[:rng.choice([70000, 1 << 20])] + str(i), "n": 10 ** 6 + i})
    write_plain(c.path("src/g.jsonl.gz"), recs)
    run = script(c, "utils/split_files.py", "--in_file", "g.jsonl.gz", "--out_prefix", c.path("out"), cwd=c.path("src")).ok("split_files.py")
    found = {k: iter(po.read_jsonl(c.path("out/g.%s.jsonl.gz" % k), run)) for k in ("train", "valid", "test")}
    nxt, ids, used = {k: next(i, None) for k, i in found.items()}, set(), collections.Counter()
    for r in recs:
        hit = [k for k, x in nxt.items() if x is not None and x.get("n") == r["n"]]
        if len(hit) != 1:
            raise Violation("record %d is in %d of the outputs at its place" % (r["n"], len(hit)), argv=run.argv)
        x = dict(nxt[hit[0]])
        i = x.pop("id", None)
        if x != r or i in ids:
            raise Violation("record %d is changed or has the id of another text" % r["n"], argv=run.argv, id=i)
        ids.add(i)
        used[hit[0]] += 1
        nxt[hit[0]] = next(found[hit[0]], None)
    if any(x is not None for x in nxt.values()):
        raise Violation("an output holds additional records", argv=run.argv, rows=list(nxt.values()))
    for k in ("valid", "test"):
        # about 0.05 % of them: 33 of 68000, and further off than this is no accident
        if not len(recs) / 8500 <= used[k] <= len(recs) / 750:
            raise Violation("%d of %d distinct texts are put into %s, which gets about 0.05 %%" % (used[k], len(recs), k), argv=run.argv)
    c.count("lines", len(lines) + len(recs))
    for k, v in used.items():
        c.count("records to " + k, v)
    c.key("many", n, tuple(sorted(used.items())))


# ---------------------------------------------------------------------------------- search server

def big_index(rng, n):
    return {"shards": 1, "replicas": 0, "docs": {"d%d" % i: {"text": rng.choice(["legal terms", "legal", "winter use", "the license of legal use"]), "date": "2020-%02d-%02d" % (rng.randint(1, 12), rng.randint(1, 28)), "n": rng.randint(0, 3), "subset": rng.choice(["en", "en", "de"])} for i in range(n)}}


def asked(c, calls, indices, cap=10000):
    rs = pe.drive(c, {"indices": indices, "shared": {}, "calls": calls, "track_cap": cap})
    for call, r in zip(calls, rs):
        if r.get("log"):
            r["log"] = r["log"][-2:] if call["fn"] != "count_documents_for_each_phrase" else r["log"]
        got, fail = pe.answer(dict(call, kwargs={k: v for k, v in call["kwargs"].items() if k != "phrases"}), dict(r, log=r["log"][-1:]), {})
        yield call, r, got, fail


def many_matches(c):
    """More matching documents than one request returns or counts by default, and many phrases."""
    rng = c.rng
    ix = {"laion": big_index(rng, 12000)}
    words = ["zz%d" % i for i in range(60)]
    calls = []
    for kw in ({"phrases": "legal"}, {"phrases": ["legal", "use"], "all_phrases": True}, {"phrases": words + ["winter"]}, {"phrases": ["LEG.*"], "is_regexp": True}):
        calls.append({"fn": "count_documents_containing_phrases", "kwargs": dict(kw, index="laion")})
        calls.append({"fn": "get_documents_containing_phrases", "kwargs": dict(kw, index="laion", num_documents=rng.choice([1500, 5000, 10000])), "listed": True})
    for call, r, got, fail in asked(c, calls, ix):
        kw = call["kwargs"]
        want = pe.wanted(kw, ix, {})
        if "num_documents" not in kw:
            if got != len(want):
                fail("%r documents are counted, %d match" % (got, len(want)))
        else:
            ids = {h["_id"] for h in got}
            if len(ids) != len(got) or not ids <= want or len(ids) != min(len(want), kw["num_documents"]):
                fail("%d of %d matching documents returned, up to %d asked for" % (len(got), len(want), kw["num_documents"]))
        c.count("documents matched", len(want))
    c.key("many", len(calls))


def many_hits(c):
    """Iterations past the 10000 hits of one request, and over very many pages."""
    rng = c.rng
    for n, size, field in ((12300, rng.choice([1000, 2500, 5000]), rng.choice(["n", "date"])), (1300, None, rng.choice(["n", None])), (10001, 10000, None), (20000, 10000, "n")):
        ix = {"laion": big_index(rng, n)}
        kw = {"index": "laion", "phrases": ["legal", "winter", "use"], "return_all_hits": True}
        kw.update({"num_documents": size} if size else {}, **({"sort_field": field} if field else {}))
        for call, r, got, fail in asked(c, [{"fn": "get_documents_containing_phrases", "kwargs": kw, "listed": True}], ix):
            ids = [h["_id"] for h in got]
            keys = [ix["laion"]["docs"][i][field or "date"] for i in ids]
            if len(set(ids)) != len(ids) or len(ids) != n:
                fail("%d distinct of %d yielded documents, %d match" % (len(set(ids)), len(ids), n))
            if keys != sorted(keys):
                fail("the documents are not in the order of %s" % field)
            if r["pits"]:
                fail("a point in time is left open after the iteration")
        c.count("hits", n)
        c.key("many", n, size, field)


def many_phrases(c):
    """More phrases than any batch, with the default batch size too."""
    rng = c.rng
    ix = {"laion": pe.make_index(rng, 30)}
    pool = pe.WORDS + ["legal license", "zzz", "terms of use"]
    calls = []
    for n, bs in ((1201, None), (1000, None), (999, 100), (501, None), (130, 60)):
        for all_ in (False, True):
            ph = [[rng.choice(pool) for _ in range(rng.choice([1, 2]))] if all_ else rng.choice(pool) for _ in range(n)]
            kw = {"index": "laion", "phrases": ph}
            kw.update({"all_phrases": True} if all_ else {}, **({"batch_size": bs} if bs else {}))
            calls.append({"fn": "count_documents_for_each_phrase", "kwargs": kw})
    docs, memo = ix["laion"]["docs"].values(), {}
    for call, r, got, fail in asked(c, calls, ix):
        kw = call["kwargs"]
        want = []
        for p in kw["phrases"]:
            p = p if isinstance(p, list) else [p]
            if tuple(p) not in memo:
                memo[tuple(p)] = sum(pe.holds(s, p, True, False, 0) for s in docs)
            want.append(memo[tuple(p)])
        if got != want:
            fail("counts of %d phrases: %d are returned, the first wrong one at %s" % (len(want), len(got), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)))
        sent = [len(e["searches"]) // 2 for e in r["log"] if e["op"] == "msearch"]
        if max(sent) > kw.get("batch_size", 500) or sum(sent) != len(want):
            fail("requests of %r queries for %d phrases with a batch size of %d" % (sent[:20], len(want), kw.get("batch_size", 500)))
        c.count("phrases", len(want))
        c.count("requests", len(sent))
    c.key("many", len(calls))


def many_shards(c):
    """Indices with many shards, and many unigrams."""
    import zlib
    rng = c.rng
    for shards in (11, 24, 101):
        ix = {"laion": dict(pe.make_index(rng, 60), shards=shards, replicas=rng.choice([0, 1]))}
        for i in range(4 * shards):
            ix["laion"]["docs"]["x%d" % i] = {"text": " ".join(rng.choice(pe.WORDS) for _ in range(rng.choice([3, 9]))), "date": "2020-01-01", "n": 1}
        us = list(dict.fromkeys(rng.sample(pe.WORDS, 8) + ["zz%d" % i for i in range(20)]))
        for call, r, got, fail in asked(c, [{"fn": "count_total_occurrences_of_unigrams", "kwargs": {"index": "laion", "unigrams": us}}], ix):
            want = {u: sum(pe.analyze(d["text"]).count(u) for d in ix["laion"]["docs"].values()) for u in us}
            if got != want:
                fail("totals over %d shards: %r, expected %r" % (shards, got, want))
        c.count("unigrams", len(us))
        c.key("many", shards)


def many_examples(c):
    """The default batch size, and more batches than have one digit."""
    rng = c.rng
    d = c.path("datasets")
    os.makedirs(d)
    data = {"train": [{"id": i, "text": "t%d" % i} for i in range(20000 + rng.choice([1, 9999, 10000]))], "dev": [{"id": i, "text": long_text(rng, 70000) if i == 3 else "d"} for i in range(rng.choice([9999, 10000, 10001]))]}
    json.dump(data, open(os.path.join(d, "web.json"), "w"))
    for args, bs in (([], 10000), (["--batch-size", "97"], 97)):
        out = c.path("out%d" % bs)
        run = script(c, "indexing/huggingface.py", "--dataset", "web", "--output-dir", out, *args, env={"FAKE_DATASETS": d}).ok()
        got = pe.batches(out)
        for s, want in data.items():
            if sorted(got.get(s, {})) != list(range((len(want) + bs - 1) // bs)):
                raise Violation("split %s of %d examples in batches of %d has %d files" % (s, len(want), bs, len(got.get(s, {}))), **run.info())
            for i in got[s]:
                rows = [json.loads(l) for l in gzip.open(got[s][i], "rt", encoding="utf-8", newline="").read().split("\n") if l]
                if rows != want[i * bs:(i + 1) * bs]:
                    raise Violation("batch %s_%d does not hold its %d examples but %d" % (s, i, len(want[i * bs:(i + 1) * bs]), len(rows)), **run.info())
        c.count("batches", sum(map(len, got.values())))
    c.key("many", len(data["train"]), len(data["dev"]))


def many_documents(c):
    """More documents than a default bulk request holds, and long texts."""
    rng = c.rng
    docs = [{"text": "doc %d" % i if i % 11 else rng.choice([None, ""]), "mark": i} for i in range(2600)]
    docs[5]["text"], docs[1999]["text"] = long_text(rng, 1 << 20), long_text(rng, 70000)
    p = write_plain(c.path("in/a.jsonl.gz"), docs)
    q = write_plain(c.path("in/b.jsonl.gz"), docs[:40])
    st, cfg, lst, h5 = c.path("server.json"), c.path("es.yml"), c.path("files.txt"), c.path("ids.h5")
    open(cfg, "w").write("cloud_id: c\napi_key: k\n")
    json.dump({"indices": {"other": {"shards": 1, "replicas": 0, "docs": {}}}, "log": []}, open(st, "w"))
    open(lst, "w").write("%s\n%s\n" % (p, q))
    want = {"%s-%d" % (f, i): d for f, ds in ((p, docs), (q, docs[:40])) for i, d in enumerate(ds) if d["text"]}
    for k in range(2):
        run = script(c, "indexing/index_json_files.py", "--index", "web", "--filenames-path", lst, "--es-config", cfg, "--save-ids-file", h5, env={"FAKE_ES": st}).ok("indexing")
        got = pe.server(st)["indices"]["web"]["docs"]
        if got != want:
            raise Violation("%d documents are indexed instead of %d" % (len(got), len(want)), missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4], run_number=k, argv=run.argv)
        saved = json.load(open(h5))["ids"]["data"]
        if sorted(saved) != sorted(want):
            raise Violation("%d ids are saved for %d documents" % (len(saved), len(want)), argv=run.argv)
    c.count("documents indexed", len(want))
    c.key("many", len(want))


# ---------------------------------------------------------------------------------- preparation

def many_records(c):
    """A file with more records than 16 bits count, a very long text, and more files than a language usually has."""
    rng = c.rng
    root = c.path("gcs")
    want, d = {}, os.path.join(root, "ib/in")
    os.makedirs(d)
    os.makedirs(os.path.join(root, "ob"))
    for k in range(40):
        recs = [{"text": "t%d" % i, "timestamp": "2019", "url": "http://x/%d" % i} for i in range(PAST + 2 if k == 7 else 2)]
        if k == 9:
            recs[0]["text"] = long_text(rng, 1 << 20).replace("\n", " ").strip()
        open(os.path.join(d, "c4-en.tfrecord-%05d-of-00040" % k), "wb").write(pp.tf_data.encode_records([pp.tf_stub.encode_example({f: v.encode() for f, v in r.items()}) for r in recs]))
        want["c4-en.%05d.json.gz" % k] = [("c4-en.%05d-%d" % (k, i), pp.ftfy_stub.fix_text(r["text"]), r["url"]) for i, r in enumerate(recs)]
    run = PyRun(c, [os.path.join(BIN, "python"), os.path.join(pp.PREP, "mc4/mc4.py"), "gs://ib/in/", "gs://ob/out"], env={"FAKE_GCS": root}).ok("the conversion")
    got = pp.tree(os.path.join(root, "ob/out"))
    if set(got) != set(want):
        raise Violation("%d outputs for %d inputs" % (len(got), len(want)), **run.info())
    for nm, recs in want.items():
        rows = [json.loads(l) for l in gzip.decompress(got[nm]).decode().split("\n")[:-1]]
        if [(r["id"], r["text"], r["metadata"]["url"]) for r in rows] != recs:
            raise Violation("%s holds %d rows for %d records, or other ones" % (nm, len(rows), len(recs)), **run.info())
    c.count("records", sum(map(len, want.values())))
    c.key("many", len(want))


def many_stack_files(c):
    """A language of very many files, and a table of more rows than 16 bits count with a long text in it."""
    rng = c.rng
    n = rng.choice([101, 145, 206])
    want = []
    pp.put(c, pp.HF + "v1.1/programming-languages.json", json.dumps({"C": [], "Java": [], "XML": []}))
    for l, k in (("c", 1), ("java", n), ("xml", 12)):
        for i in range(k):
            want.append("%sv1.1/data/%s/train-%05d-of-%05d.parquet" % (pp.HF, l, i, k))
            pp.put(c, want[-1], "x")
    out = c.path("urls.txt")
    run = PyRun(c, [os.path.join(BIN, "python"), os.path.join(pp.PREP, "stack/get_urls.py"), "--output-file", out], env=pp.stack_env(c)).ok("listing")
    if open(out).read().split("\n") != want + [""]:
        raise Violation("the list is not that of the %d files" % len(want), **run.info())
    rows = PAST + rng.choice([1, 4000])
    t = {"hexsha": ["%040x" % i for i in range(rows)], "lang": ["Java"] * rows, "content": ["c%d" % i for i in range(rows)], "size": list(range(rows))}
    t["content"][rows // 2] = long_text(rng, 3 << 20)
    pp.put(c, want[5], json.dumps(t))
    run = PyRun(c, [os.path.join(BIN, "python"), os.path.join(pp.PREP, "stack/download_url.py"), want[5], c.path("out")], env=pp.stack_env(c)).ok("the download")
    got = po.read_jsonl(os.path.join(c.path("out"), "java", want[5].split("/")[-1][:-8] + ".jsonl.gz"), run)
    for r in got:
        r.pop("added", None)
    if got != pp.stack_rows(t):
        raise Violation("%d rows for %d, or other ones" % (len(got), rows), **run.info())
    c.count("urls listed", len(want))
    c.count("rows", rows)
    c.key("many", n, rows)


def many_merges(c):
    """A language with hundreds of files, whose numbers grow by a digit."""
    rng = c.rng
    root = c.path("gcs")
    os.makedirs(os.path.join(root, "ib/in"))
    os.makedirs(os.path.join(root, "ob"))
    blobs = {}
    for pre, n in (("en", rng.choice([1001, 1026])), ("zz", rng.choice([257, 300]))):
        for k in range(n):
            blobs["%s.%05d.json.gz" % (pre, k)] = gzip.compress(b"%s %d\n" % (pre.encode(), k), mtime=0)
    for nm, data in blobs.items():
        open(os.path.join(root, "ib/in", nm), "wb").write(data)
    run = PyRun(c, [os.path.join(BIN, "python"), os.path.join(pp.PREP, "mc4/combine_adjacent_files.py"), "gs://ib/in/", "gs://ob/out"], env={"FAKE_GCS": root}).ok("the run")
    want = []
    for pre in ("en", "zz"):
        ns = sorted(n for n in blobs if n.startswith(pre))
        want += [b"".join(blobs[n] for n in ns[i:i + 4]) for i in range(0, len(ns), 4)]
    got = pp.tree(os.path.join(root, "ob/out"))
    if sorted(got.values()) != sorted(want):
        raise Violation("%d outputs instead of %d, or other ones" % (len(got), len(want)), **run.info())
    c.count("inputs", len(blobs))
    c.key("many", len(blobs))
