"""P24-P26, P35: deduplication, overlap analysis, splitting and consolidation, run as processes on generated shards."""
import collections, gzip, hashlib, itertools, json, os, random, re, shutil, zlib
from core import Check, Violation, Inconclusive
import pyscale
from pyrun import *
from py_counts import rand_text, rand_url, JOBS

HS = "text_and_url_overlaps/helper_scripts/"


def md5(t):
    return hashlib.md5(t.encode()).hexdigest()


def read_jsonl(path, run):
    try:
        with gzip.open(path, "rt", encoding="utf-8", newline="") as f:
            data = f.read()
    except FileNotFoundError:
        raise Violation("no output file %s" % os.path.basename(path), **run.info())
    except (OSError, EOFError, zlib.error, UnicodeDecodeError) as e:
        raise Violation("the output file %s is damaged: %s" % (os.path.basename(path), e), **run.info())
    try:
        return [json.loads(l) for l in data.split("\n")[:-1]] if data else []
    except ValueError as e:
        raise Violation("the output file %s holds a line that is not JSON" % os.path.basename(path), **run.info())


def noise(c):
    if c.chance(0.35):
        return {}
    c.count("runs with injected delays")
    return {"PYNOISE": "%d %s %d" % (c.rng.randrange(10 ** 6), c.rng.choice([0.02, 0.1, 0.3]), c.rng.choice([200, 1000])), "PYNOISE_ROOT": W}


# ------------------------------------------------------------------ P24

def dedup_corpus(c, attributes):
    rng = c.rng
    texts = list(dict.fromkeys(rng.choice(["", " ", "a", "A", "a ", "é", "e\u0301", "x\ny", rand_text(rng, 8), rand_text(rng, 3)]) + rng.choice(["", "", str(rng.randint(0, 9))]) for _ in range(rng.choice([1, 2, 5, 20]))))
    n = rng.choice([0, 1, 3, 10, 40, 120])
    docs = []
    for i in range(n):
        r = {"text": rng.choice(texts)}
        if attributes or rng.random() < 0.7:
            r["id"] = "d%d" % i
        if attributes or rng.random() < 0.5:
            r["source"] = rng.choice(["cc", "wiki", "s 2"])
        if rng.random() < 0.3:
            r["metadata"] = {"k": [1, None, "é"], "text": "x"}
        if rng.random() < 0.04:
            r["text"] = None
        r["n"] = i
        docs.append(r)
    paths, parts = shard(c, docs, most=6, suffix=rng.choice([".jsonl.gz", ".json.gz"]))
    for p in paths:
        q = p.replace(" ", "_")
        if q != p:
            os.rename(p, q)
    return texts, [p.replace(" ", "_") for p in paths], parts


def check_dedup(c, run, texts, paths, parts, listed, keep_first, attributes, out, dups_total=True):
    kept = collections.Counter()
    removed_of = {}
    by_source = collections.Counter()
    for p, docs in zip(paths, parts):
        docs = [d for d in docs if d["text"] is not None]
        rows = read_jsonl(os.path.join(out, os.path.basename(p)), run)
        removed = 0
        if attributes:
            if [(r.get("id"), r.get("source")) for r in rows] != [(d["id"], d["source"]) for d in docs] or any(set(r) != {"id", "source", "contaminated"} or not isinstance(r["contaminated"], bool) for r in rows):
                raise Violation("attribute rows do not correspond to the documents of %s" % os.path.basename(p), expected=[d["id"] for d in docs], got=rows, **run.info())
            flags = [r["contaminated"] for r in rows]
        else:
            flags, it = [], 0
            for d in docs:
                if it < len(rows) and rows[it] == d and rows[it]["n"] == d["n"]:
                    flags.append(False)
                    it += 1
                else:
                    flags.append(True)
            if it != len(rows):
                raise Violation("%s holds documents that are changed, out of order or not in its input" % os.path.basename(p), rows=rows[it:it + 3], **run.info())
        for d, f in zip(docs, flags):
            if f:
                removed += 1
                by_source[d.get("source", "no_source")] += 1
                if md5(d["text"]) not in listed:
                    raise Violation("a document whose text is not listed is removed", doc=d, file=os.path.basename(p), **run.info())
            else:
                kept[d["text"]] += 1
        removed_of[p] = removed
    present = {d["text"] for docs in parts for d in docs if d["text"] is not None}
    for t in present:
        if md5(t) in listed:
            want = 1 if keep_first else 0
            if kept[t] != want:
                raise Violation("a listed text is kept %d times instead of %d" % (kept[t], want), text=t, **run.info())
    if dups_total:
        said = dict()
        for m in re.finditer(r"(?m)^(\d+) documents matched in (.*)$", run.out):
            said[m.group(2)] = said.get(m.group(2), 0) + int(m.group(1))
        if said != removed_of:
            raise Violation("printed numbers of matched documents per shard: %r, in the files: %r" % (said, removed_of), **run.info())
        m = re.search(r"(?m)^A total of (\d+) documents were matched$", run.out)
        if not m or int(m.group(1)) != sum(removed_of.values()):
            raise Violation("printed total of matched documents is not the %d of the files" % sum(removed_of.values()), **run.info())
        src = {m.group(2): int(m.group(1)) for m in re.finditer(r"(?m)^(\d+) documents were matched from (.*)$", run.out)}
        if src != {k: v for k, v in by_source.items() if v}:
            raise Violation("printed numbers of matched documents per source: %r, in the files: %r" % (src, dict(by_source)), **run.info())
    c.count("documents", sum(map(len, parts)))
    c.count("documents removed", sum(removed_of.values()))
    return sum(removed_of.values())


def leftovers(c, name, args, out):
    """What an earlier run left: the same names, other blocklists; sometimes an interrupted one."""
    rng = c.rng
    block = args[args.index("--blocklist") + 1]
    lines = open(block).read()
    how = rng.choice(["same", "fewer", "torn", "longer"])
    if how == "fewer":
        keep = lines.split("\n")[:-1][:rng.randint(0, 3)]
        open(block, "w").write("".join(l + "\n" for l in keep))
    script(c, name, *args, env={}).ok("an earlier run")
    open(block, "w").write(lines)
    for f in sorted(os.listdir(out)) if how in ("torn", "longer") else []:
        q = os.path.join(out, f)
        data = open(q, "rb").read()
        with open(q, "wb") as o:
            o.write(data[:rng.randint(0, len(data))] if how == "torn" else data * 3 + b"junk" * 50)
    c.count("runs over the files of an earlier run: " + how)


def p24_by_hash(c):
    rng = c.rng
    attributes, keep_first = c.chance(0.35), c.chance(0.65)
    texts, paths, parts = dedup_corpus(c, attributes)
    count = collections.Counter(d["text"] for p in parts for d in p if d["text"] is not None)
    if keep_first and c.chance(0.7):
        listed = [md5(t) for t, n in count.items() if n > 1]
    else:
        listed = [md5(t) for t in texts if rng.random() < rng.choice([0.1, 0.5, 1])]
    if rng.random() < 0.15:
        listed = []
    lines = listed + [md5("not there %d" % i) for i in range(rng.choice([0, 0, 3]))]
    lines += [rng.choice(lines) for _ in range(rng.choice([0, 0, 5])) if lines]
    rng.shuffle(lines)
    with open(c.path("block.txt"), "w") as f:
        f.write("".join(l + "\n" for l in lines))
    os.makedirs(c.path("out"))
    args = ["--shards"] + paths + ["--blocklist", c.path("block.txt"), "--outpath", c.path("out")]
    if keep_first:
        args.append("--keep_first_occurrence")
    if attributes:
        args.append("--just_write_attributes")
    if rng.random() < 0.8:
        args += ["--num_processes", str(rng.choice([1, 2, 3, 4, 8]))]
    if c.chance(0.35):
        leftovers(c, HS + "deduplicate_by_hash.py", args, c.path("out"))
    run = script(c, HS + "deduplicate_by_hash.py", *args, env=noise(c)).ok("deduplication")
    n = check_dedup(c, run, texts, paths, parts, set(listed), keep_first, attributes, c.path("out"))
    if sum(map(len, parts)) > 1:
        c.key("dedup", keep_first, attributes, len(lines), n, tuple(len(p) for p in parts), tuple(sorted(count.values())))
        c.sample(documents=sum(map(len, parts)), shards=len(parts), listed=len(set(listed)), removed=n, keep_first=keep_first)


def p24_contention(c):
    """Many copies of few texts in shards worked on at the same time: the deciding step is contended."""
    rng = c.rng
    texts = ["t%d" % i for i in range(rng.choice([1, 3, 10, 30]))]
    n = rng.choice([2, 4, 8])
    d = c.path("in")
    paths, parts = [], []
    for i in range(n):
        docs = [{"text": t, "n": i * 1000 + k, "id": "%d-%d" % (i, k), "source": "s"} for k, t in enumerate(texts * rng.choice([1, 2]))]
        if rng.random() < 0.3:
            rng.shuffle(docs)
        parts.append(docs)
        paths.append(os.path.join(d, "s%d.jsonl.gz" % i))
        write_gz(paths[-1], docs, rng)
    with open(c.path("block.txt"), "w") as f:
        f.write("".join(md5(t) + "\n" for t in texts))
    os.makedirs(c.path("out"))
    att = c.chance(0.3)
    run = script(c, HS + "deduplicate_by_hash.py", "--shards", *paths, "--blocklist", c.path("block.txt"), "--outpath", c.path("out"), "--keep_first_occurrence", "--num_processes", str(n),
                 *(["--just_write_attributes"] if att else []),
                 env={"PYNOISE": "%d %s %d" % (rng.randrange(10 ** 6), rng.choice([0.2, 0.5]), rng.choice([500, 2000])), "PYNOISE_ROOT": W}).ok("deduplication")
    check_dedup(c, run, texts, paths, parts, {md5(t) for t in texts}, True, att, c.path("out"))
    c.count("contended runs")
    c.key("contention", n, len(texts), att, tuple(len(p) for p in parts))


def p24_drivers(c):
    """deduplicate.py and decontaminate.py from end to end (they write attribute files), in one run or with a list of its own."""
    rng = c.rng
    texts, paths, parts = dedup_corpus(c, True)
    out = c.path("out")
    os.makedirs(out)
    os.makedirs(c.path("tmp"))
    staged = c.chance(0.4)
    if c.chance(0.5):
        count = collections.Counter(d["text"] for p in parts for d in p if d["text"] is not None)
        listed = {md5(t) for t, n in count.items() if n > 1}
        keep, name, block = True, "deduplicate.py", c.path("tmp/duplicates_hashes.txt")
        source = use = ["--in_files"] + paths
    else:
        eval_docs = [{"text": rng.choice(texts)} for _ in range(rng.randint(1, 6))] + [{"text": "elsewhere %d" % i} for i in range(3)]
        ep, _ = shard(c, eval_docs, most=3)
        for p in ep:
            os.rename(p, p.replace(" ", "_")) if " " in p else None
        listed, keep = {md5(d["text"]) for d in eval_docs}, False
        name, block = "decontaminate.py", c.path("tmp/blocklist.txt")
        source, use = ["--in_files1"] + [p.replace(" ", "_") for p in ep], ["--in_files2"] + paths
    name = "text_and_url_overlaps/" + name
    dirs = ["--out_dir", out, "--tmp_dir", c.path("tmp")]
    if staged:
        c.count("lists built on their own")
        run = script(c, name, *source, *(use if source is not use and c.chance(0.5) else []), *dirs, "--build_blocklist_only", env=noise(c)).ok("building the list only")
        if os.listdir(out):
            raise Violation("building only the list leaves %r among the results" % os.listdir(out), **run.info())
    else:
        run = script(c, name, *source, *(use if source is not use else []), *dirs, env=noise(c)).ok(name)
    lines = open(block).read().split("\n")[:-1]
    lines = [l for l in lines if l != "None"]
    if sorted(lines) != sorted(listed):
        raise Violation("the list of hashes: expected %r, got %r" % (sorted(listed)[:5], sorted(lines)[:5]), **run.info())
    if staged:
        if source is not use and c.chance(0.3):
            bad = script(c, name, *use, *dirs, *(source + ["--blocklist", block] if c.chance(0.5) else []))
            if bad.rc == 0 or os.listdir(out):
                raise Violation("a request with both a list and documents to make one of, or with neither, is not refused", **bad.info())
            c.count("contradictory requests")
        if listed and c.chance(0.7):       # the list that is given counts, not the one that could be made
            listed -= set(rng.sample(sorted(listed), rng.randint(1, (len(listed) + 1) // 2)))
            block = c.path("tmp/given.txt")
            with open(block, "w") as f:
                f.write("".join(h + "\n" for h in sorted(listed)))
        run = script(c, name, *use, "--blocklist", block, *dirs[:2 if c.chance(0.3) else 4], env=noise(c)).ok("a run with a given list")
    n = check_dedup(c, run, texts, paths, parts, listed, keep, True, out)
    c.key("driver", keep, staged, n, tuple(len(p) for p in parts))


# ------------------------------------------------------------------ P25

def overlap_data(c, mode, names=None, where="data"):
    rng = c.rng
    names = names or rng.sample(["c4", "re_pile", "pile", "oscar-2", "a", "b.c", "z9"], rng.choice([1, 2, 2, 3, 3, 4]))
    pool = [rand_text(rng, 5, 0.02) for _ in range(rng.choice([1, 5, 30, 80]))] if mode == "text" else \
           [u for u in (rand_url(rng) + rng.choice(["", "?%d" % rng.randint(0, 40), "/with space", "/ü"]) for _ in range(rng.choice([2, 5, 30, 80]))) if u and u.strip() == u]
    if not pool:
        pool = ["http://x.org/"]
    sets, spec = {}, {}
    loc = {}
    for nm in names:
        n = rng.choice([0, 1, 5, 30, 150]) if rng.random() < 0.9 else 0
        sub = rng.sample(pool, rng.randint(1, len(pool)))
        nulls = rng.random() < 0.3
        keys = [None if nulls and i and rng.random() < 0.2 else rng.choice(sub) if rng.random() < 0.8 else sub[0] for i in range(n)]
        meta = mode == "url" and rng.random() < 0.4
        recs = [({"text": k} if mode == "text" else {"metadata": {"url": k}, "text": "t"} if meta else {"url": k, "text": "t", "metadata": {"url": "http://wrong.org"}}) for k in keys]
        d = c.path(where + "-" + nm)
        os.makedirs(d)
        k = rng.randint(1, 4)
        parts = [[] for _ in range(k)]
        for r in recs:
            rng.choice(parts).append(r)
        parts.sort(key=lambda p: not p)        # where the url is looked for is decided by the first line of the first file
        if mode == "url" and recs:
            first = next((p for p in parts if recs[0] in p))
            parts.remove(first)
            first.remove(recs[0])
            parts.insert(0, [recs[0]] + first)
        for i, p in enumerate(parts):
            write_gz(os.path.join(d, "s%d.jsonl.gz" % i), p, rng)
        sets[nm] = collections.Counter(keys)
        spec[nm] = d + "/*.jsonl.gz"
    with open(c.path(where + "sets.json"), "w") as f:
        json.dump(spec, f, indent=rng.choice([None, 2]))
    return names, sets, spec


def keyfile(path, run):
    try:
        data = open(path, encoding="utf-8", newline="").read()
    except FileNotFoundError:
        raise Violation("no file %s" % os.path.basename(path), **run.info())
    return data.split("\n")[:-1]


def p25_analysis(c):
    rng = c.rng
    mode = rng.choice(["text", "url"])
    names, sets, spec = overlap_data(c, mode)
    out = c.path("result")
    if c.chance(0.3):
        overlap_data(c, mode, names, "old")
        script(c, "text_and_url_overlaps/run_analysis.sh", c.path("oldsets.json"), out, mode).ok("an earlier analysis")
        c.count("analyses over the files of an earlier one")
    analysed(c, mode, names, sets, c.path("datasets.json"), out)


def analysed(c, mode, names, sets, datasets, out, **kw):
    """Run the analysis over the listed datasets and compare all it leaves."""
    run = script(c, "text_and_url_overlaps/run_analysis.sh", datasets, out, mode, **kw).ok("run_analysis.sh")
    base = os.path.join(out, mode + "_overlaps")
    keys = {}
    for nm in names:
        if mode == "text":
            keys[nm] = collections.Counter({text_key(t): n for t, n in sets[nm].items()})
        else:
            keys[nm] = collections.Counter()
            for k, n in sets[nm].items():
                keys[nm]["null" if k is None else k] += n
        c.count("null keys", sets[nm][None])
    for nm in names:
        rows = [re.match(r" *(\d+) (.*)$", l, re.S) for l in keyfile(os.path.join(base, "sorted_uniq_counts", nm + ".txt"), run)]
        got = [(m.group(2), int(m.group(1))) for m in rows if m]
        want = sorted(keys[nm].items(), key=lambda x: x[0].encode())
        if got != want or None in rows:
            raise Violation("keys and multiplicities of %s: expected %r, got %r" % (nm, few(want, got), few(got, want) or "another order"), **run.info())
        dk = script(c, HS + "get_duplicate_keys.sh", stdin=open(os.path.join(base, "sorted_uniq_counts", nm + ".txt"), "rb").read()).ok("get_duplicate_keys.sh")
        if dk.lines() != [k for k, n in want if n > 1]:
            raise Violation("duplicate keys of %s: expected %r, got %r" % (nm, [k for k, n in want if n > 1][:5], dk.lines()[:5]), **dk.info())
    numbers = {}
    for r in range(1, len(names) + 1):
        for combo in itertools.combinations(sorted(names), r):
            want = sorted(set.intersection(*[set(keys[n]) for n in combo]), key=lambda s: s.encode())
            got = keyfile(os.path.join(base, "sorted_uniq", "_and_".join(combo) + ".txt"), run)
            c.count("intersections")
            if got != want:
                raise Violation("overlap of %r: expected %d keys, got %d" % (combo, len(want), len(got)), missing=few(want, got), extra=few(got, want), **run.info())
            numbers["_and_".join(combo)] = len(want)
    listed = [l.strip().split(" ", 1) for l in keyfile(os.path.join(base, "overlap_numbers.txt"), run)]
    listed = sorted((os.path.basename(l[1])[:-len(".txt")], int(l[0])) for l in listed)
    if listed != sorted(numbers.items()):
        raise Violation("overlap_numbers.txt: expected %r, got %r" % (sorted(numbers.items()), listed), **run.info())
    dup = json.load(open(os.path.join(base, "duplicate_counts.json")))
    want = {nm: {"duplicates": sum(v for v in keys[nm].values() if v > 1), "total": sum(keys[nm].values()), "uniq_duplicates": sum(v > 1 for v in keys[nm].values()), "uniq_total": len(keys[nm])} for nm in names}
    if dup != want:
        raise Violation("numbers of duplicates: expected %r, got %r" % (want, dup), **run.info())
    for nm in names:
        rows = [json.loads(l) for l in keyfile(os.path.join(base, "top_examples", nm + ".jsonl"), run)]
        check_examples(rows, keys[nm], 30, run, nm, mode == "text")
    c.count("datasets", len(names))
    c.count("entries", sum(sum(k.values()) for k in keys.values()))
    c.count("mode:" + mode)
    if any(keys.values()):
        c.key("analysis", mode, tuple(sorted((n, tuple(sorted(k.values()))) for n, k in keys.items())))
        c.sample(mode=mode, datasets=len(names), entries=sum(sum(k.values()) for k in keys.values()))


def few(xs, others):
    others = set(others)
    return [x for x in xs if x not in others][:4]


def text_key(t):
    return "None" if t is None else md5(t)


def check_examples(rows, keys, k, run, nm, texts, listed=None):
    counts = []
    seen = set()
    for r in rows:
        key = r.get("hash") if texts else r.get("text")
        if key not in keys or key in seen:
            raise Violation("examples of %s: %r is listed twice or does not occur" % (nm, key), **run.info())
        seen.add(key)
        if texts and (not isinstance(r.get("text"), str) or (r["text"] if key == "None" else md5(r["text"])) != key):
            raise Violation("examples of %s: the text shown for %s has another hash" % (nm, key), row=r, **run.info())
        if "count" in r:
            if int(r["count"]) != keys[key]:
                raise Violation("examples of %s: count %r instead of %d" % (nm, r["count"], keys[key]), row=r, **run.info())
            counts.append(int(r["count"]))
    if counts != sorted(counts, reverse=True):
        raise Violation("examples of %s are not ordered by count" % nm, rows=rows[:10], **run.info())
    if listed is None:
        if counts != sorted(keys.values(), reverse=True)[:k]:
            raise Violation("examples of %s: counts %r instead of the %d largest %r" % (nm, counts, k, sorted(keys.values(), reverse=True)[:k]), **run.info())
    elif k < len(listed):
        if len(seen) != k or not seen <= set(listed):
            raise Violation("examples of %s: %d asked for, %d shown" % (nm, k, len(seen)), **run.info())
    elif seen != set(listed):
        raise Violation("examples of %s: %d listed keys, %d shown" % (nm, len(listed), len(seen)), missing=list(set(listed) - seen)[:3], **run.info())


def p25_examples(c):
    """get_examples.py with explicit key files."""
    rng = c.rng
    docs = [{"text": rand_text(rng, 4)} for _ in range(rng.choice([1, 5, 20]))]
    docs += [dict(rng.choice(docs)) for _ in range(rng.choice([0, 10]))]
    docs += [{"text": None} for _ in range(rng.choice([0, 0, 1, 3]))]
    rng.shuffle(docs)
    cnt = collections.Counter(text_key(d["text"]) for d in docs)
    paths, parts = shard(c, docs, most=3)
    listed = rng.sample(sorted(cnt), rng.randint(0, len(cnt)))
    with_counts = c.chance(0.6)
    with open(c.path("keys.txt"), "w") as f:
        f.write("".join(("%7d %s\n" % (cnt[k], k)) if with_counts else k + "\n" for k in listed))
    k = max(1, len(listed) + rng.choice([0, 5, 100, -1, -2, -5]))
    args = ["--data_shards"] + paths + ["--count_hash_file" if with_counts else "--hash_file", c.path("keys.txt"), "--outfile", c.path("ex.jsonl")]
    if c.chance(0.15):
        k = max(30, len(docs))             # every occurrence counts as an example
        args += ["--with_repeats", "--k", str(k)]
    elif c.chance(0.15) and len(listed) != 30:
        k = 30                             # the default
    else:
        args += ["--k", str(k)]
    run = script(c, HS + "get_examples.py", *args).ok("get_examples.py")
    rows = [json.loads(l) for l in keyfile(c.path("ex.jsonl"), run)]
    check_examples(rows, cnt, k, run, "keys.txt", True, listed)
    c.count("examples", len(rows))
    if listed:
        c.key("examples", with_counts, tuple(sorted(cnt[k] for k in listed)), len(parts))


def p25_url_examples(c):
    """get_examples.py on counted urls, in any order, with every kind of padding."""
    rng = c.rng
    urls = list({u for u in (rand_url(rng) + rng.choice(["", "?%d" % rng.randint(0, 40), "/with space", "/ü", "/two  blanks", "%20"]) for _ in range(rng.choice([1, 5, 40, 200]))) if u and u.strip() == u})
    cnt = {u: rng.choice([1, 2, 3, 9, 10, 11, 99, 100, 1000, 10 ** 6, 10 ** 7, rng.randint(1, 5000)]) for u in urls}
    with open(c.path("urls.txt"), "w") as f:
        f.write("".join(rng.choice(["%7d %s\n", "%d %s\n", "%12d %s\n"]) % (n, u) for u, n in cnt.items()))
    args = ["--count_url_file", c.path("urls.txt"), "--outfile", c.path("ex.jsonl")] + (["--data_shards", c.path("none.gz")] if c.chance(0.5) else [])
    run = script(c, HS + "get_examples.py", *args).ok("get_examples.py")
    rows = [json.loads(l) for l in keyfile(c.path("ex.jsonl"), run)]
    check_examples(rows, collections.Counter(cnt), len(cnt), run, "urls.txt", False)
    c.count("examples", len(rows))
    if len(cnt) > 1:
        c.key("url examples", tuple(sorted(cnt.values())))


def p25_combinations(c):
    """run_combinations.py on prepared sorted lists, up to five datasets, empty ones included."""
    rng = c.rng
    names = rng.sample(["aa", "bb", "a-b", "c.d", "x_y", "zz"], rng.randint(2, 5))
    pool = sorted({md5(str(i)) if rng.random() < 0.7 else "k%d" % i for i in range(rng.choice([3, 20, 200]))})
    d = c.path("sets")
    os.makedirs(d)
    keys = {}
    for nm in names:
        keys[nm] = sorted(x for x in pool if rng.random() < rng.choice([0.1, 0.6, 0.95])) if rng.random() < 0.9 else []
        with open(os.path.join(d, nm + ".txt"), "w") as f:
            f.write("".join(k + "\n" for k in keys[nm]))
    run = script(c, HS + "run_combinations.py", "--sorted_uniq_dir", d, "--datasets", *names).ok("run_combinations.py")
    for r in range(2, len(names) + 1):
        for combo in itertools.combinations(names, r):
            want = sorted(set.intersection(*[set(keys[n]) for n in combo]))
            got = keyfile(os.path.join(d, "_and_".join(combo) + ".txt"), run)
            c.count("intersections")
            if got != want:
                raise Violation("overlap of %r: expected %d keys, got %d" % (combo, len(want), len(got)), missing=few(want, got), extra=few(got, want), **run.info())
    for nm in names:
        if keyfile(os.path.join(d, nm + ".txt"), run) != keys[nm]:
            raise Violation("the list of %s was changed" % nm, **run.info())
    c.key("combinations", tuple(sorted(len(k) for k in keys.values())), len(pool))


# ------------------------------------------------------------------ P26

def raw_lines(rng, n):
    out = []
    for i in range(n):
        out.append(rng.choice(['{"text": "l%d"}' % i, '{"text": "ünï %d \u2028 \x85"}' % i, "", "not json %d" % i, " lead %d " % i, '{"text":"' + "x" * rng.choice([1, 500]) + '"}', "same", "\x0c%d" % i, "\x1c"]))
    return out


def p26_parts(c):
    rng = c.rng
    folder = c.path(rng.choice(["in", "in.jsonl.gz.d", "my.data", "a.jsonl", "v1.0/x.y", "with space", "data[1]", "q?", "*star"]))
    os.makedirs(folder)
    names = rng.sample(["a", "b", "a.b", "a.c", "a.b.c", "a_0", "a_1", "x.jsonl", "x.gz", "x", "c4-train.00000-of-01024", "c4-train.00001-of-01024", "v1.json", "x.jsonl.gz", "sp ace", "é"], rng.randint(1, 6))
    files = {}
    for nm in names:
        lines = raw_lines(rng, rng.choice([0, 1, 2, 3, 7, 50]))
        data = "\n".join(lines) + ("\n" if lines and rng.random() < 0.8 else "")
        files[nm] = data
        with open(os.path.join(folder, nm + ".jsonl.gz"), "wb") as f:
            f.write(gz(data.encode(), rng))
    other = os.path.join(folder, "keep.txt")
    open(other, "w").write("k")
    n = rng.choice([None, 1, 2, 3, 5, 8])
    run = script(c, "utils/file_split.py", "--in_folder", folder + rng.choice(["", "", "/"]), *([] if n is None else ["--n", str(n)])).ok("file_split.py")
    n = n or 5
    want = {nm + ".jsonl.gz" for nm in names} | {"keep.txt"} | {"%s_%d.json.gz" % (nm, i) for nm in names for i in range(n)}
    have = set(os.listdir(folder))
    if len([x for x in have - {nm + ".jsonl.gz" for nm in names} - {"keep.txt"}]) != n * len(names):
        raise Violation("%d files into %d parts each gives %d parts" % (len(names), n, len(have) - len(names) - 1), have=sorted(have), **run.info())
    for nm in names:
        got = ""
        for i in range(n):
            q = os.path.join(folder, "%s_%d.json.gz" % (nm, i))
            if not os.path.exists(q):
                raise Violation("no part %d of %s" % (i, nm), have=sorted(have), **run.info())
            try:
                part = gzip.open(q, "rb").read().decode()
                if got and part and not got.endswith("\n"):
                    raise Violation("part %d of %s begins within a line" % (i, nm), line=got.rsplit("\n", 1)[-1], part=part[:200], **run.info())
                got += part
            except (OSError, EOFError, zlib.error, UnicodeDecodeError) as e:
                raise Violation("part %d of %s is damaged: %s" % (i, nm, e), **run.info())
        if got.split("\n") != files[nm].split("\n"):
            raise Violation("the parts of %s in order are not its lines" % nm, expected=files[nm], got=got, n=n, **run.info())
        if gzip.open(os.path.join(folder, nm + ".jsonl.gz"), "rb").read().decode() != files[nm]:
            raise Violation("the input %s was changed" % nm, **run.info())
    c.count("files split", len(names))
    c.count("lines", sum(x.count("\n") for x in files.values()))
    c.key("parts", n, tuple(sorted(names)), tuple(sorted(x.count("\n") for x in files.values())))


_special = {}


def special_text(rng):
    """A text that falls into the test or valid split (content hash with a rare prefix)."""
    k = rng.randrange(24)
    if k not in _special:
        r = random.Random(k)
        while True:
            t = "special %d %s" % (r.randrange(10 ** 9), r.choice(["é", "x", "\n"]))
            if hashlib.sha1(t.encode()).hexdigest()[:3] in ("fff", "ffe", "ffd", "ffc"):
                break
        _special[k] = t
    return _special[k]


def p26_split(c):
    rng = c.rng
    src = c.path("src")
    outp = c.path(rng.choice(["out", "out/deep", "o.jsonl.d", "o.gz", "x y"]))
    seen = {}
    used = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rel = rng.choice(["", "sub/", "a.b/c/", "./"]) + rng.choice(["f", "f.g", "part.00000", "f.jsonl", "f.gz", "é"]) + rng.choice([".jsonl.gz", ".jsonl.gz", ".json.gz", ".gz"])
        stem = os.path.normpath(rel)
        stem = stem[:-3] if stem.endswith(".gz") else stem
        stem = stem[:-6] if stem.endswith(".jsonl") else stem
        if stem in used:
            continue
        used.append(stem)
        recs = []
        for i in range(rng.choice([0, 1, 5, 60])):
            t = special_text(rng) if rng.random() < 0.4 else None if rng.random() < 0.05 else rand_text(rng, 5)
            r = {"text": t, "n": i, "metadata": {"id": "m", "é": [1.5, None]}}
            items = list(r.items())
            rng.shuffle(items)
            recs.append(dict(items))
        write_gz(os.path.join(src, rel), recs, rng)
        run = script(c, "utils/split_files.py", "--in_file", rel, "--out_prefix", outp, cwd=src).ok("split_files.py")
        found = {}
        for kind in ("train", "valid", "test"):
            q = os.path.join(outp, stem + "." + kind + ".jsonl.gz")
            found[kind] = read_jsonl(q, run)
        # every record once, in order
        pos = {k: 0 for k in found}
        for r in recs:
            hit = [k for k in found if pos[k] < len(found[k]) and found[k][pos[k]].get("n") == r["n"]]
            if len(hit) != 1:
                raise Violation("record %d is in %d of the outputs at its place" % (r["n"], len(hit)), record=r, **run.info())
            k = hit[0]
            row = dict(found[k][pos[k]])
            pos[k] += 1
            i = row.pop("id", None)
            if not isinstance(i, str) or row != r:
                raise Violation("a record is changed or has no id", record=r, got=found[k][pos[k] - 1], **run.info())
            key = r["text"] or ""
            if seen.setdefault(key, (k, i)) != (k, i):
                raise Violation("the same text is put into %s with id %s and %s with id %s" % (seen[key] + (k, i)), record=r, **run.info())
            c.count("records to " + k)
        for k in found:
            if pos[k] != len(found[k]):
                raise Violation("%s holds additional or reordered records" % k, got=found[k][pos[k]], **run.info())
    ids = [i for _, i in seen.values()]
    if len(set(ids)) != len(ids):
        raise Violation("different texts have the same id")
    # earlier outputs must still be there when other files were split into the same place
    if len(used) > 1:
        total = 0
        for d, _, fs in os.walk(outp):
            total += len(fs)
        if total != 3 * len(used):
            raise Violation("%d inputs gave %d outputs" % (len(used), total), used=used)
    if seen:
        c.key("split", tuple(sorted(seen.values()))[:40], tuple(used))
        c.sample(inputs=len(used), texts=len(seen), kinds=dict(collections.Counter(k for k, _ in seen.values())))


def p26_existing_id(c):
    rng = c.rng
    recs = [{"text": rand_text(rng, 3), "n": i} for i in range(rng.randint(1, 20))]
    rng.choice(recs)["id"] = rng.choice(["x", None, 0, "", 5])
    write_gz(c.path("src/f.jsonl.gz"), recs, rng)
    run = script(c, "utils/split_files.py", "--in_file", "f.jsonl.gz", "--out_prefix", c.path("out"), cwd=c.path("src"))
    if run.rc == 0:
        raise Violation("a record that already has an id is accepted", **run.info(records=recs))
    c.count("refused")
    c.key("existing id", len(recs), [i for i, r in enumerate(recs) if "id" in r], repr([r.get("id") for r in recs]))


# ------------------------------------------------------------------ P35

def p35_combine(c):
    rng = c.rng
    root = c.path("gcs")
    inp, outp = rng.choice([("", "o"), ("in/", "out"), ("c4/raw", "c4/merged/"), ("a.b/", "a.b-out/"), ("raw/", ""), ("", "deep/er"), ("C4/Raw/", "C4/Docs")])
    ib, ob = ("bk", "bk") if inp and outp and rng.random() < 0.4 else ("ib", "ob")
    blobs = {}
    for pre in rng.sample(["af", "en", "en-x", "c4-de", "zh", "e"], rng.randint(1, 4)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 9, 17])
        start, width = rng.choice([0, 7, 95, 99990]), rng.choice([5, 5, 5, 3])
        nums = list(range(start, start + n))
        if rng.random() < 0.2:
            nums = sorted(rng.sample(range(start, start + 3 * n), n))
        for k in nums:
            blobs["%s.%0*d.json.gz" % (pre, width, k)] = gzip.compress(b"%s %d\n" % (pre.encode(), k), mtime=0)
    place = {}
    nested = rng.random() < 0.25
    for nm, data in blobs.items():
        place[nm] = p = os.path.join(root, ib, inp + ("/" if inp and not inp.endswith("/") else ""), rng.choice(["", "z/", "a/", "b/c/"]) if nested else "", nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(data)
    if inp:                       # other objects of the bucket are none of its business
        for nm in rng.sample(sorted(blobs), rng.randint(0, min(3, len(blobs)))):
            q = os.path.join(root, ib, rng.choice(["elsewhere", inp.rstrip("/") + "2"]) if inp.endswith("/") else "elsewhere", nm if rng.random() < 0.5 else "q" + nm)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(gzip.compress(b"elsewhere 1\n"))
    stray = os.path.join(root, ib, inp + ("/" if inp and not inp.endswith("/") else ""), "README.txt")
    open(stray, "w").write("x")
    os.makedirs(os.path.join(root, ob), exist_ok=True)
    groups = collections.defaultdict(list)
    for nm in sorted(blobs):
        groups[nm.split(".")[0]].append(nm)
    want = []
    for pre, ns in groups.items():
        want += [tuple(ns[i:i + 4]) for i in range(0, len(ns), 4)]
    argv = [os.path.join(BIN, "python"), os.path.join(REPO, "preparation/mc4/combine_adjacent_files.py"), "gs://%s/%s" % (ib, inp), "gs://%s/%s" % (ob, outp)]
    base = os.path.join(root, ob, outp)
    if ib != ob and rng.random() < 0.4:      # nor is another consolidation's output in a folder further down
        for g in rng.sample(want, rng.randint(0, min(2, len(want)))):
            nm = g[0].split(".")[0] + "." + "-".join("%05d" % int(x.split(".")[1]) for x in g) + ".json.gz"
            q = os.path.join(base, rng.choice(["v1", "old/c4"]), nm)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(gzip.compress(b"deeper 1\n"))

    def state():
        return {f: open(os.path.join(base, f), "rb").read() for f in sorted(os.listdir(base)) if os.path.isfile(os.path.join(base, f))} if os.path.isdir(base) else {}

    before, interruptions, logs = {}, 0, 0
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        crash = "%d%s" % (rng.randint(1, max(1, len(want) - len(before))), rng.choice(["", ":after"]))
        run = PyRun(c, argv, env={"FAKE_GCS": root, "FAKE_GCS_CRASH": crash})
        if run.rc not in (0, 77):
            raise Violation("the run failed on valid input (exit status %d)" % run.rc, **run.info())
        now = state()
        if any(now.get(k) != v for k, v in before.items()):
            raise Violation("a resumed run changes existing outputs", **run.info())
        before, interruptions = now, interruptions + (run.rc == 77)
    for i in range(rng.choice([1, 1, 2])):
        run = PyRun(c, argv, env={"FAKE_GCS": root}).ok("the run")
    log = [json.loads(l) for l in open(os.path.join(root, "log.jsonl"))] if os.path.exists(os.path.join(root, "log.jsonl")) else []
    if any(l["existed"] for l in log):
        raise Violation("an existing output was written again: %r" % [l for l in log if l["existed"]][:2], **run.info())
    got = state()
    if sorted(got.values()) != sorted(b"".join(blobs[n] for n in g) for g in want):
        parts = collections.Counter()
        for v in got.values():
            for m in re.finditer(rb"(\S+) (\d+)\n", gzip.decompress(v)):
                parts[m.groups()] += 1
        raise Violation("the outputs are not the inputs in groups of four: %d outputs instead of %d" % (len(got), len(want)),
                        outputs=[gzip.decompress(v) for v in got.values()][:5], lost=len(blobs) - len(parts), repeated=[k for k, v in parts.items() if v > 1][:5], **run.info())
    for nm, data in got.items():
        if not nm.endswith(".json.gz") or not nm.startswith(gzip.decompress(data).split(b" ")[0].decode()):
            raise Violation("an output is named %s" % nm, **run.info())
    for nm, data in blobs.items():
        if open(place[nm], "rb").read() != data:
            raise Violation("an input was changed", **run.info())
    c.count("inputs", len(blobs))
    c.count("outputs", len(want))
    c.count("interruptions", interruptions)
    c.key("combine", tuple(sorted(len(g) for g in groups.values())), interruptions, inp, ib == ob)
    c.sample(inputs=len(blobs), outputs=len(want), interruptions=interruptions)


P24 = Check("P24", "exploration", [(p24_by_hash, 4), (p24_contention, 2), (p24_drivers, 2)], once=[pyscale.many_hashes], rule="a run over at least two documents with its list, mode and sharding", quick=25, thorough=240,
            assumptions=["documents whose text is null are outside the property"])
P25 = Check("P25", "exploration", [(p25_analysis, 4), (p25_examples, 2), (p25_url_examples, 1), (p25_combinations, 2)], once=[pyscale.many_keys], rule="datasets with at least one entry, with their multiplicities", quick=25, thorough=240, assumptions=[JOBS, "C collation (the only locales here are C, C.UTF-8 and POSIX)"])
P26 = Check("P26", "exploration", [(p26_parts, 3), (p26_split, 3), (p26_existing_id, 1)], once=[pyscale.many_lines], rule="a set of files with names, lines and number of parts; texts with their assigned split", quick=20, thorough=200)
P35 = Check("P35", "fault_enumeration", [(p35_combine, 1)], once=[pyscale.many_merges], rule="a set of inputs with prefixes, interruptions and places", quick=15, thorough=150, assumptions=["a stand-in for Google Storage that lists objects in name order and composes them atomically"])
