"""P01 topk exact, P02 topk one-sided, P03 botk, P07 unique."""
import collections, json, math, os, re
import bursts, cli, corpus, scale
from core import Check, Violation

CLI = ("plain", "noise", "oracle")
U32 = 2 ** 32 - 1


def token_lists(c, cor, lim, flim):
    texts = [d.text for _, _, d in cor.docs(lim, flim) if d.text is not None]
    return corpus.oracle(c).tokens(texts)


def common(c, cmd, n, k, size, hashes, extra):
    args = [cmd, "-n", n, "--size", size, "-h", hashes] + extra
    if k is not None:
        args += ["-k", k]
    return [str(a) for a in args]


def check_rows_shape(rows, run, n):
    seen = set()
    for i, r in enumerate(rows):
        if set(r) != {"tokens", "string", "count", "rank"}:
            raise Violation("row has keys %s" % sorted(r), **run.info())
        if r["rank"] != i + 1:
            raise Violation("row %d has rank %r" % (i + 1, r["rank"]), **run.info())
        t = tuple(r["tokens"])
        if len(t) != n:
            raise Violation("n-gram of %d tokens for n=%d: %r" % (len(t), n, t), **run.info())
        if r["string"] != " ".join(t):
            raise Violation("string %r for tokens %r" % (r["string"], t), **run.info())
        if t in seen:
            raise Violation("n-gram reported twice: %r" % (t,), **run.info())
        seen.add(t)
    return [(tuple(r["tokens"]), r["count"]) for r in rows]


HUMAN = re.compile(r'\[(\d+)/(\d+)\] (".*") \(count (?:≤|=) (\d+)\)$')


def human_rows(run):
    """The rows of the plain output: [(rank, of, debug string, count)]"""
    if run.rc != 0:
        raise Violation("run failed on valid input", **run.info())
    out = []
    for line in run.stdout.decode("utf-8").split("\n"):
        if not line:
            continue
        m = HUMAN.match(line)
        if not m:
            raise Violation("unexpected output line %r" % line, **run.info())
        out.append((int(m.group(1)), int(m.group(2)), m.group(3), int(m.group(4))))
    return out


def rust_debug(s):
    """How Rust's {:?} shows a string, or None if unsure."""
    if all(32 <= ord(ch) < 127 and ch not in "\"\\" for ch in s):
        return '"' + s + '"'
    return None


def check_exact(rows, counts, k, ok, run, ascending, c):
    """rows: [(ngram, count)]; exactly the best k of `counts` that satisfy `ok`."""
    qualifying = {g: v for g, v in counts.items() if ok(v)}
    want = sorted(qualifying.values(), reverse=not ascending)[:k]
    got, shown = [v for _, v in rows], dict(rows)
    for g, v in rows:
        if counts.get(g, 0) != v:
            raise Violation("%r reported with count %d, true count %d" % (g, v, counts.get(g, 0)), want=want[:30], got=got[:30], **run.info())
    if got != want:
        missing = [g for g in qualifying if g not in shown]
        missing.sort(key=lambda g: qualifying[g], reverse=not ascending)
        raise Violation("reported counts %s, expected %s; first missing %s" % (got[:20], want[:20], [(g, qualifying[g]) for g in missing[:3]]), **run.info())
    if len(want) < len(qualifying):
        c.count("cut_by_k")
    if any(v == want[-1] for g, v in qualifying.items() if g not in shown) if want else False:
        c.count("tie_at_boundary")


def safe_hashes(h, distinct, slots):
    """At least h hash functions, so many that a wrong count anywhere has a chance below 1e-9."""
    while h < 64 and distinct * min(1.0, distinct * h / slots) ** h > 1e-9:
        h += 1
    return h


def gen(c, **kw):
    big = c.tier == "thorough" and c.chance(0.1)
    r = c.rng.random()
    if r < 0.45:
        cor = corpus.random_corpus(c.rng, cap_tokens=20000 if big else 4000, **kw)
    elif r < 0.8:
        # many tiny files ending together: the moment at which workers hand over their results
        nf = c.rng.choice([2, 4, 8, 8, 16, 24])
        vocab = corpus.ALPHA[: c.rng.randint(2, 8)]
        files = []
        for _ in range(nf):
            docs = [corpus.make_doc(c.rng, " ".join(c.rng.choice(vocab) for _ in range(c.rng.randint(0, 12)))) for _ in range(c.rng.choice([0, 1, 1, 2, 3]))]
            files.append(corpus.File(docs, c.chance(0.8)))
        cor = corpus.Corpus(files)
    else:
        # the same hot n-grams in all files at once: contended counters
        vocab = corpus.ALPHA[: c.rng.randint(1, 4)]
        files = []
        for _ in range(c.rng.choice([4, 8, 8])):
            t = " ".join(c.rng.choice(vocab) for _ in range(c.rng.choice([50, 300])))
            files.append(corpus.File([corpus.make_doc(c.rng, t) for _ in range(c.rng.randint(1, 4))]))
        cor = corpus.Corpus(files)
    return cor


def pick_n(c, small):
    """n-gram sizes, now and then far larger than the usual ones"""
    return c.rng.choice(small) if c.chance(0.8) else c.rng.choice([6, 7, 8, 9, 11, 12, 13, 16, 17, 20, 32, 33, 50, 64, 100])


def gen_for(c, n):
    """A corpus with n-grams of n tokens; for long ones mostly of documents that differ in few tokens, at any place."""
    if n <= 5 or c.chance(0.2):
        return gen(c)
    base = [[c.rng.choice(corpus.ALPHA) for _ in range(n + c.rng.choice([0, 0, 1, 5, n]))] for _ in range(c.rng.choice([1, 1, 2]))]
    variants = []
    for _ in range(c.rng.randint(1, 12)):
        t = list(c.rng.choice(base))
        for _ in range(c.rng.choice([0, 1, 1, 1, 2])):
            # often the very last or first token of an n-gram
            i = c.rng.choice([0, n - 1, len(t) - 1, c.rng.randrange(len(t)), c.rng.randrange(len(t))])
            t[i] = c.rng.choice(corpus.ALPHA + ["odd%d" % c.rng.randrange(50)])
        if c.chance(0.15):
            i = c.rng.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        variants.append(" ".join(t))
    files = [corpus.File([corpus.make_doc(c.rng, c.rng.choice(variants)) for _ in range(c.rng.choice([0, 1, 2, 5, 10]))]) for _ in range(c.rng.choice([1, 2, 4, 8]))]
    c.count("long_ngram_corpora")
    return corpus.Corpus(files)


def describe(c, cor, **kw):
    c.sample(files=len(cor.files), docs=sum(len(f.docs) for f in cor.files), first=cor.files[0].docs[0].raw[:80].decode("utf-8", "replace") if cor.files[0].docs else "", **kw)


# ------------------------------------------------------------------------------------------- P01

def topk_exact(c):
    n = pick_n(c, [1, 1, 2, 2, 3, 5, 10])
    cor = gen_for(c, n)
    paths = cor.write(c.path("in"), c.rng)
    k = c.rng.choice([1, 2, 3, 5, 10, 20, 100, 1000])
    h = c.rng.choice([2, 3, 4, 5, 5, 5, 8, 12])
    largs, lim, flim = cli.limit_args(c)
    lists = token_lists(c, cor, lim, flim)
    counts = corpus.ngram_counts(lists, n)
    h = safe_hashes(h, len(counts), 1 << 22)
    top = max(counts.values(), default=0)
    thr = None if c.chance(0.4) else c.rng.choice([0, 0, 1, 2, 3, max(0, top - 1), top, top + 1])
    extra = largs + cli.workers_args(c) + cli.quietness(c)
    if thr is not None:
        extra += ["--threshold", thr]
    if c.chance(0.5):
        extra += ["--seed", c.rng.choice([0, 1, 42, 2 ** 32, 2 ** 64 - 1, c.rng.randrange(2 ** 64)])]
    size = "16MiB"
    if c.chance(0.3):
        extra += ["--u64"]
        size = "32MiB"
    human = c.chance(0.12)
    argv = common(c, "topk", n, k, size, h, extra + ([] if human else ["--json"])) + paths
    t = 1 if thr is None else thr
    for _ in range(c.rng.choice([1, 1, 2, 4])):
        run = cli.Run(c, argv)
        if human:
            want = sorted([v for v in counts.values() if v > t], reverse=True)[:k]
            got = human_rows(run)
            strings = collections.defaultdict(list)
            for g, v in counts.items():
                strings[rust_debug(" ".join(g))].append(v)
            if [x[3] for x in got] != want or [x[0] for x in got] != list(range(1, len(want) + 1)) or any(x[1] != len(want) for x in got):
                raise Violation("printed %s, expected counts %s" % (got[:10], want[:10]), **run.info())
            for x in got:
                if None not in strings and x[3] not in strings[x[2]]:
                    raise Violation("printed %s, no such n-gram with that count" % (x,), **run.info())
            c.count("human_runs")
        else:
            rows = check_rows_shape(run.rows(), run, n)
            check_exact(rows, counts, k, lambda v: v > t, run, False, c)
            c.count("rows", len(rows))
    c.count("ngrams_counted", sum(counts.values()))
    if counts and top > t:
        c.key("topk", tuple(sorted(counts.items()))[:50], len(cor.files), k, t, n)
    describe(c, cor, argv=" ".join(argv[:14]), distinct_ngrams=len(counts), top_count=top)


P01 = Check("P01", "exploration", [(topk_exact, 1)], once=[bursts.burst_topk, scale.many_topk], needs=CLI + ("lag",), quick=22, thorough=300,
            rule="one random corpus (1-24 gzip files, empty/tiny/contended/unicode ones, multi-member streams) and option set per case, 1-4 runs of the plain or noise-perturbed binary each; compared with a naive count over reference tokens; "
                 "non-trivial: at least one n-gram qualifies; distinct by n-gram counts, number of files, n, k and threshold",
            assumptions=["word segmentation reference: unicode-segmentation crate called directly", "tables of 4M slots and so many hash functions that the chance of a wrong count is below 1e-9 per run"])


# ------------------------------------------------------------------------------------------- P02

def check_one_sided(rows, counts, k, t, h, run, c):
    total = sum(counts.values()) * h
    m = dict(rows)
    prev = None
    for g, v in rows:
        true = counts.get(g, 0)
        if true == 0:
            raise Violation("%r is reported but does not occur" % (g,), **run.info())
        if v < true:
            raise Violation("%r reported with count %d below its true count %d" % (g, v, true), **run.info())
        if v > total:
            raise Violation("%r reported with count %d, although the n-grams read times hash functions are only %d" % (g, v, total), **run.info())
        if v > true:
            c.count("overestimates")
        if prev is not None and v > prev:
            raise Violation("rows are not in descending order of count", **run.info())
        prev = v
    if len(rows) > k:
        raise Violation("%d rows for k=%d" % (len(rows), k), **run.info())
    low = min(m.values(), default=0)
    for g, v in counts.items():
        if v > t and g not in m:
            if len(rows) < k:
                raise Violation("%r occurs %d times (> %d) but is missing, although only %d of %d rows are used" % (g, v, t, len(rows), k), **run.info())
            if v > low:
                raise Violation("%r occurs %d times but is missing, while a reported n-gram has count %d" % (g, v, low), **run.info())


def topk_crowded(c):
    n = pick_n(c, [1, 2, 3, 4])
    cor = gen_for(c, n)
    paths = cor.write(c.path("in"), c.rng)
    k = c.rng.choice([1, 2, 3, 5, 10, 50])
    h = c.rng.choice([1, 1, 2, 3, 5, 20, 255])
    u64 = c.chance(0.3)
    slots = c.rng.choice([1, 2, 3, 5, 10, 50, 100, 1000, 5000])
    size = "%dB" % (slots * (8 if u64 else 4) + c.rng.choice([0, 0, 1, 3]))
    largs, lim, flim = cli.limit_args(c)
    counts = corpus.ngram_counts(token_lists(c, cor, lim, flim), n)
    top = max(counts.values(), default=0)
    thr = c.rng.choice([None, 0, 1, 2, top, max(0, top - 1)])
    extra = largs + cli.workers_args(c) + cli.quietness(c) + ["--json"] + (["--u64"] if u64 else []) + ([] if thr is None else ["--threshold", thr])
    if c.chance(0.5):
        extra += ["--seed", c.rng.randrange(1000)]
    argv = common(c, "topk", n, k, size, h, extra) + paths
    for _ in range(c.rng.choice([1, 2, 3])):
        run = cli.Run(c, argv)
        rows = check_rows_shape(run.rows(), run, n)
        check_one_sided(rows, counts, k, 1 if thr is None else thr, h, run, c)
        c.count("rows", len(rows))
        c.count("rows_with_slots_le_ngrams" if slots <= len(counts) else "rows_roomy", len(rows))
    if counts and top > (1 if thr is None else thr):
        c.key(slots, h, n, k, thr, tuple(sorted(counts.values())), len(cor.files))
    describe(c, cor, slots=slots, hashes=h, n=n, k=k, threshold=thr, distinct_ngrams=len(counts))


def estimates(c, cmd):
    """With one worker (or for botk any number) the estimates are fixed by the seed: shorter lists and thresholds have to select from the full list."""
    n = pick_n(c, [1, 1, 2, 3])
    cor = gen_for(c, n)
    paths = cor.write(c.path("in"), c.rng)
    u64 = cmd == "topk" and c.chance(0.3)
    slots = c.rng.choice([1, 2, 3, 5, 10, 50, 100, 1000, 5000])
    size = "%dB" % (slots * (8 if u64 else 4))
    h = c.rng.choice([1, 2, 3, 5, 20])
    largs, lim, flim = cli.limit_args(c)
    counts = corpus.ngram_counts(token_lists(c, cor, lim, flim), n)
    base = largs + ["--seed", c.rng.choice([0, 1, c.rng.randrange(1 << 64)]), "--json"] + (["--u64"] if u64 else [])
    jobs = lambda: ["-j", "1"] if cmd == "topk" else cli.workers_args(c)
    run = cli.Run(c, common(c, cmd, n, len(counts) + 1, size, h, base + jobs() + ["-q"] + (["--threshold", 0] if cmd == "topk" else [])) + paths)
    rows = check_rows_shape(run.rows(), run, n)
    est = dict(rows)
    if len(rows) != len(est) or set(est) != set(counts):
        raise Violation("%d n-grams occur but %d are listed, although the list has room for all" % (len(counts), len(rows)), **run.info())
    for g, v in est.items():
        if not counts[g] <= v <= h * sum(counts.values()):
            raise Violation("%r is listed with %d, true count %d of %d" % (g, v, counts[g], sum(counts.values())), **run.info())
    vals = sorted(set(est.values())) or [1]
    for _ in range(c.rng.choice([1, 2, 3])):
        k = c.rng.choice([1, 2, 3, 5, 10, 50, max(1, len(est) // 2), len(est) + 5])
        thr = c.rng.choice([None, 0, 1, c.rng.choice(vals), max(0, c.rng.choice(vals) - 1), c.rng.choice(vals) + 1])
        run = cli.Run(c, common(c, cmd, n, k, size, h, base + jobs() + cli.quietness(c) + ([] if thr is None else ["--threshold", thr])) + paths)
        t = (1 if cmd == "topk" else U32) if thr is None else thr
        check_exact(check_rows_shape(run.rows(), run, n), est, k, (lambda v: v > t) if cmd == "topk" else (lambda v: v < t), run, cmd == "botk", c)
        c.count("selections_from_estimates")
    over = sum(est[g] > counts[g] for g in est)
    c.count("overestimated", over)
    if over:
        c.key("estimates", cmd, n, h, slots, tuple(sorted(est.values())))
    describe(c, cor, estimates=len(est), overestimated=over)


def topk_estimates(c):
    estimates(c, "topk")


def botk_estimates(c):
    estimates(c, "botk")


P02 = Check("P02", "exploration", [(topk_crowded, 3), (topk_estimates, 1)], needs=CLI, quick=20, thorough=240,
            rule="as P01, but with tables of 1 to 5000 slots and 1 to 255 hash functions, so that most runs have collisions; the one-sided-error oracle needs true counts only; non-trivial: some n-gram exceeds the threshold; "
                 "distinct by table, options and multiset of true counts", assumptions=["word segmentation reference: unicode-segmentation crate called directly"])


# ------------------------------------------------------------------------------------------- P03

def botk(c):
    n = pick_n(c, [1, 1, 2, 3, 5])
    cor = gen_for(c, n)
    paths = cor.write(c.path("in"), c.rng)
    k = c.rng.choice([1, 2, 3, 5, 20, 100])
    roomy = c.chance(0.6)
    h = c.rng.choice([3, 5, 5, 8]) if roomy else c.rng.choice([1, 2, 3, 5, 50])
    slots = None if roomy else c.rng.choice([1, 2, 5, 20, 100, 1000])
    size = "16MiB" if roomy else "%dB" % (4 * slots + c.rng.choice([0, 1, 3]))
    largs, lim, flim = cli.limit_args(c)
    counts = corpus.ngram_counts(token_lists(c, cor, lim, flim), n)
    if roomy:
        h = safe_hashes(h, len(counts), 1 << 22)
    vals = sorted(set(counts.values())) or [1]
    thr = None if c.chance(0.35) else c.rng.choice([0, 1, 2, 3, c.rng.choice(vals), c.rng.choice(vals) + 1, U32, U32 - 1])
    t = U32 if thr is None else thr
    p = None if c.chance(0.65) else c.rng.choice(["1", "1.0", "0.5", "0.1", "0.9", "0.001"])
    extra = largs + cli.workers_args(c) + cli.quietness(c) + ([] if thr is None else ["--threshold", thr]) + ([] if p is None else ["--p-keep", p])
    if c.chance(0.5):
        extra += ["--seed", c.rng.randrange(1000)]
    human = c.chance(0.1) and roomy and p is None
    argv = common(c, "botk", n, k, size, h, extra + ([] if human else ["--json"])) + paths
    for _ in range(c.rng.choice([1, 1, 2, 3])):
        run = cli.Run(c, argv)
        if human:
            want = sorted(v for v in counts.values() if v < t)[:k]
            got = human_rows(run)
            if [x[3] for x in got] != want or [x[0] for x in got] != list(range(1, len(want) + 1)) or any(x[1] != len(want) for x in got):
                raise Violation("printed %s, expected counts %s" % (got[:10], want[:10]), **run.info())
            c.count("human_runs")
            continue
        rows = check_rows_shape(run.rows(), run, n)
        c.count("rows", len(rows))
        if len(rows) > k:
            raise Violation("%d rows for k=%d" % (len(rows), k), **run.info())
        prev = None
        for g, v in rows:
            true = counts.get(g, 0)
            if true == 0:
                raise Violation("%r is reported but does not occur" % (g,), **run.info())
            if v < true:
                raise Violation("%r reported with count %d below its true count %d" % (g, v, true), **run.info())
            if v > h * sum(counts.values()):
                raise Violation("%r reported with count %d, only %d n-grams were read" % (g, v, sum(counts.values())), **run.info())
            if v >= t:
                raise Violation("%r reported with count %d, not below the threshold %d" % (g, v, t), **run.info())
            if prev is not None and v < prev:
                raise Violation("rows are not in ascending order of count", **run.info())
            prev = v
            if roomy and v != true:
                raise Violation("%r reported with count %d, true count %d" % (g, v, true), **run.info())
        if roomy and (p is None or float(p) == 1.0):
            check_exact(rows, counts, k, lambda v: v < t, run, True, c)
            c.count("exact_comparisons")
        elif not roomy and (p is None or float(p) == 1.0) and t == U32 and len(rows) < min(k, len(counts)):
            raise Violation("only %d rows although %d n-grams occur and k=%d" % (len(rows), len(counts), k), **run.info())
    if counts and min(counts.values()) < t:
        c.key(roomy, n, k, t, p, tuple(sorted(counts.values())), len(cor.files))
    describe(c, cor, argv=" ".join(argv[:14]), distinct_ngrams=len(counts))


def botk_keep_statistics(c):
    """p-keep keeps about a fraction p of n-grams that occur once."""
    words = ["u%d" % i for i in range(1500)]
    c.rng.shuffle(words)
    files = [corpus.File([corpus.Doc(" ".join(words[i:i + 50]), json.dumps({"text": " ".join(words[i:i + 50])}).encode()) for i in range(s, s + 500, 50)]) for s in (0, 500, 1000)]
    paths = corpus.Corpus(files).write(c.path("in"), c.rng)
    p = c.rng.choice([0.2, 0.5, 0.8])
    run = cli.Run(c, ["botk", "-n", "1", "-k", "1500", "--size", "16MiB", "-h", "5", "--json", "-q", "--p-keep", str(p)] + paths)
    rows = check_rows_shape(run.rows(), run, 1)
    sd = math.sqrt(1500 * p * (1 - p))
    if abs(len(rows) - 1500 * p) > 8 * sd:
        raise Violation("kept %d of 1500 singletons with p=%s" % (len(rows), p), **run.info())
    if any(v != 1 for _, v in rows):
        raise Violation("a count other than 1", **run.info())
    c.key("keep", p, len(rows))
    c.sample(p=p, kept=len(rows), of=1500)


P03 = Check("P03", "exploration", [(botk, 20), (botk_estimates, 5), (botk_keep_statistics, 1)], once=[bursts.burst_botk, scale.many_botk], needs=CLI + ("lag",), quick=22, thorough=240,
            rule="as P01 for botk, with roomy (exact oracle) and crowded tables (one-sided oracle), thresholds around the occurring counts, and keep probabilities; non-trivial: some n-gram is below the threshold; distinct by options and true counts",
            assumptions=["word segmentation reference: unicode-segmentation crate called directly"])


# ------------------------------------------------------------------------------------------- P07

def unique_estimate(run, human):
    if human:
        if run.rc != 0:
            raise Violation("run failed on valid input", **run.info())
        m = re.match(r"Estimated number of unique ngrams: (\d+)\n$", run.stdout.decode())
        if not m:
            raise Violation("unexpected output", **run.info())
        return int(m.group(1))
    rows = run.rows()
    if len(rows) != 1 or set(rows[0]) != {"unique_count"} or not isinstance(rows[0]["unique_count"], int):
        raise Violation("unexpected output", **run.info())
    return rows[0]["unique_count"]


def unique(c):
    n = pick_n(c, [1, 2, 3, 5])
    cor = gen_for(c, n) if n > 5 or c.chance(0.5) else corpus.random_corpus(c.rng, style="zipf", vocab=["v%d" % i for i in range(c.rng.choice([10, 500, 3000]))], cap_tokens=40000, mean=c.rng.choice([5, 50]))
    paths = cor.write(c.path("in"), c.rng)
    h = c.rng.choice([1, 2, 3, 5, 5, 7, 10, 20])
    largs, lim, flim = cli.limit_args(c)
    lists = token_lists(c, cor, lim, flim)
    distinct = len(corpus.ngram_counts(lists, n))
    # a table of which at most 2 % (often far less) gets used
    slots = max(1000, int(distinct * h * c.rng.choice([50, 100, 1000])))
    slots = min(slots, 4 << 20)
    argv = common(c, "unique", n, None, "%dB" % slots, h, largs + cli.workers_args(c) + cli.quietness(c)) + (["--seed", str(c.rng.randrange(10 ** 6))] if c.chance(0.5) else [])
    human = c.chance(0.15)
    run = cli.Run(c, argv + ([] if human else ["--json"]) + paths)
    est = unique_estimate(run, human)
    if distinct == 0:
        if est != 0:
            raise Violation("estimate %d for an input without n-grams" % est, **run.info())
        c.count("empty_inputs")
    else:
        # spread of the number of used slots: collisions are rare, so a few per cent plus a small absolute slack
        slack = max(2.0, 0.03 * distinct + 3 * math.sqrt(distinct * h * distinct * h / (2.0 * slots)) / h)
        if abs(est - distinct) > slack:
            raise Violation("estimate %d for %d distinct n-grams (%d hash functions, %d slots)" % (est, distinct, h, slots), **run.info())
        c.key(n, h, distinct, slots)
    c.count("distinct_ngrams", distinct)
    describe(c, cor, n=n, hashes=h, slots=slots, distinct=distinct, estimate=est)


def unique_single(c):
    """One n-gram, however often, makes an estimate of 1 in a table of any size."""
    n = c.rng.choice([1, 1, 2, 3])
    t = " ".join(["w"] * (n + c.rng.choice([0, 0, 1, 300]))) if c.chance(0.5) else " ".join("t%d" % c.rng.randrange(10 ** 6) for _ in range(n))
    cor = corpus.Corpus([corpus.File([corpus.Doc(t, json.dumps({"text": t}).encode()) for _ in range(c.rng.choice([1, 1, 2, 9]))]) for _ in range(c.rng.choice([1, 1, 3]))])
    paths = cor.write(c.path("in"), c.rng)
    slots = c.rng.choice([c.rng.randint(50, 200), c.rng.randint(50, 5000)])
    run = cli.Run(c, ["unique", "-n", str(n), "-h", "1", "--size", "%dB" % slots, "--json"] + cli.quietness(c) + cli.workers_args(c) + paths)
    est = unique_estimate(run, False)
    if est != 1:
        raise Violation("estimate %d for one distinct n-gram (%d slots)" % (est, slots), text=t[:200], **run.info())
    c.key("single", n, slots)
    c.count("single_ngrams")


def unique_metamorphic(c):
    """Repeating documents changes nothing, adding documents never lowers the estimate (same seed and table)."""
    n, h = pick_n(c, [1, 2, 3]), c.rng.choice([1, 2, 5])
    cor = gen_for(c, n)
    slots = c.rng.choice([1, 7, 50, 500, 5000, 100000])
    base = ["unique", "-n", str(n), "-h", str(h), "--size", "%dB" % slots, "--seed", str(c.rng.randrange(1000)), "-q", "--json"]
    p1 = cor.write(c.path("a"), c.rng)
    e1 = unique_estimate(cli.Run(c, base + cli.workers_args(c) + p1), False)
    p2 = cor.write(c.path("b"), c.rng)
    r2 = cli.Run(c, base + cli.workers_args(c) + p1 + p2 + (p2 if False else []))
    e2 = unique_estimate(r2, False)
    if e1 != e2:
        raise Violation("estimate %d, but %d when every document is given twice" % (e1, e2), **r2.info())
    more = corpus.random_corpus(c.rng, max_files=3, cap_tokens=2000)
    p3 = more.write(c.path("c"), c.rng)
    r3 = cli.Run(c, base + cli.workers_args(c) + p1 + p3)
    e3 = unique_estimate(r3, False)
    if e3 < e1:
        raise Violation("estimate fell from %d to %d when documents were added" % (e1, e3), **r3.info())
    if e1:
        c.key("meta", n, h, slots, e1, e3)
    c.count("metamorphic_groups")
    c.sample(n=n, h=h, slots=slots, estimates=[e1, e2, e3])


P07 = Check("P07", "exploration", [(unique, 3), (unique_metamorphic, 1), (unique_single, 2)], once=[scale.many_unique], needs=CLI, quick=22, thorough=240,
            rule="random corpora; the estimate is compared with the exact number of distinct n-grams for 1-20 hash functions and tables of which at most 2% is used, and metamorphically (repetition, growth) for tables of any size; "
                 "non-trivial: at least one n-gram; distinct by n, hash functions, table and number of n-grams",
            assumptions=["tolerance 3% plus three standard deviations of the number of collisions plus 2"])
