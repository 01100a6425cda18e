"""Inputs with more of something (lines, files, n-grams, matches, equal extremes, search terms) than 16 bits or a
common fixed-size buffer hold. They run once per check, with the plain build."""
import collections, importlib, json, os
import cli, corpus
from core import Violation


class Later:
    """A module that itself imports this one."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, attr):
        return getattr(importlib.import_module(self.name), attr)


ex, ng = Later("exact_cmds"), Later("ngram_cmds")

PAST = 65536


def doc(t):
    return corpus.Doc(t, json.dumps({"text": t}, ensure_ascii=False).encode())


def run(c, argv):
    # as many descriptors as processes usually may have
    r = cli.Run(c, argv, fl="plain", patience=90, cpu_limit=300, prefix=["/bin/sh", "-c", 'ulimit -n 1024; exec "$@"', "sh"])
    if r.crashed():
        raise Violation("crashed", **r.info())
    return r


def write(c, cor, name="in"):
    """level-1 single-member files: the sizes matter here, not the framing"""
    d = c.path(name)
    os.makedirs(d)
    cor.paths = []
    for i, f in enumerate(cor.files):
        p = os.path.join(d, "f%04d.json.gz" % i)
        open(p, "wb").write(corpus.gz(f.data(), None, 1, 1))
        cor.paths.append(p)
    return cor.paths


def long_file(c, words, extra=(), lines=None):
    """A file with more lines than 16 bits count; the last lines hold what no earlier line does."""
    lines = lines or PAST + c.rng.choice([1, 2, 300, 5000])
    docs = []
    for i in range(lines):
        docs.append(doc(" ".join(c.rng.choice(words) for _ in range(c.rng.choice([1, 2, 2, 3])))))
    for t in extra:
        docs.append(doc(t))
    c.count("long_lines", len(docs))
    return corpus.File(docs, c.chance(0.7))


def shortened(r):
    i = r.info()
    return dict(i, argv=i["argv"][:12], stdout=i["stdout"][:300])


# ---------------------------------------------------------------------------------- n-grams

def many_ngrams(c, name):
    """More n-grams than 16 bits count; some occur more often than that; a list as long."""
    hot = ["h%d" % i for i in range(3)]
    files, j = [], 0
    for i in range(6):
        docs = []
        # the first file alone holds all of them
        for _ in range(1350 if i == 0 else 100):
            t = []
            for _ in range(60):
                t.append("r%x" % (j % 80000))
                j += 1
            docs.append(doc(" ".join(t + c.rng.choices(hot, weights=[5, 3, 1], k=c.rng.randint(70, 90)))))
        files.append(corpus.File(docs))
    cor = corpus.Corpus(files)
    paths = write(c, cor)
    counts = corpus.ngram_counts(ng.token_lists(c, cor, None, None), 1)
    k = c.rng.choice([66000, 70000, 90000])
    base = [name, "-n", "1", "-h", "9", "--size", "256MiB", "-q", "--json"]
    # in the first run, every one of them qualifies
    for j, kk, thr in (("1", k, 0 if name == "topk" else None), ("8", k, None), ("4", k, PAST + c.rng.choice([0, 1000])), (c.rng.choice("148"), 5, PAST - 1)):
        r = run(c, base + ["-j", j, "-k", str(kk)] + ([] if thr is None else ["--threshold", str(thr)]) + paths)
        t = (1 if name == "topk" else ng.U32) if thr is None else thr
        rows = [(tuple(x["tokens"]), x["count"]) for x in r.rows()]
        if [x["rank"] for x in r.rows()] != list(range(1, len(rows) + 1)):
            raise Violation("ranks are not 1, 2, 3, …", argv=r.argv[:14])
        if len(set(g for g, _ in rows)) != len(rows):
            raise Violation("an n-gram is reported twice", argv=r.argv[:14])
        ng.check_exact(rows, counts, kk, (lambda v: v > t) if name == "topk" else (lambda v: v < t), Short(r), name == "botk", c)
        c.count("rows", len(rows))
    c.count("counts_past_16_bits", sum(v > 65535 for v in counts.values()))
    c.count("ngrams_past_16_bits", len(counts))
    c.key("scale", name, k)


class Short:
    """A run whose description leaves out long lists."""

    def __init__(self, r):
        self.r = r

    def info(self):
        return shortened(self.r)


def many_topk(c):
    many_ngrams(c, "topk")


def many_botk(c):
    many_ngrams(c, "botk")


def many_unique(c):
    """Hundreds of thousands of n-grams, more uses of slots than any 16-bit number."""
    total, files = c.rng.choice([70000, 150000, 300000]), []
    for i in range(5):
        files.append(corpus.File([doc(" ".join("u%x" % x for x in range(s, min(s + 500, (i + 1) * total // 5)))) for s in range(i * total // 5, (i + 1) * total // 5, 500)]))
    cor = corpus.Corpus(files)
    paths = write(c, cor)
    h = c.rng.choice([1, 3, 5])
    for n in (1, 2):
        distinct = len(corpus.ngram_counts(ng.token_lists(c, cor, None, None), n))
        r = run(c, ["unique", "-n", str(n), "-h", str(h), "--size", "256MiB", "-q", "--json"] + paths + (paths if c.chance(0.5) else []))
        est = ng.unique_estimate(r, False)
        if abs(est - distinct) > 0.03 * distinct:
            raise Violation("estimate %d for %d distinct n-grams" % (est, distinct), **shortened(r))
        c.key("scale", n, h, distinct)
        c.count("distinct_ngrams", distinct)


# ---------------------------------------------------------------------------------- count, search

def many_counts(c):
    """Far down a file, more occurrences than 16 bits count, and more search strings than bits in a word."""
    words = ["a", "b", "c", "d"]
    tail = ["late one", "late two late", "a late b"]
    cor = corpus.Corpus([corpus.File([doc("t%d t%d" % (i, i + 1)) for i in range(400)]), long_file(c, words, tail)])
    paths = write(c, cor)
    lists = ng.token_lists(c, cor, None, None)
    strs = ["a", "a b", "late", "late two", "b a b", "nowhere"]
    for m in (0, c.rng.choice([70, 130, 300])):
        more = ["t%d" % i if i % 3 else "t%d t%d" % (i, i + 1) for i in range(m)]
        c.rng.shuffle(more)
        seqs = [tuple(t) for t in corpus.oracle(c).tokens(strs + more)]
        want = dict.fromkeys(seqs, 0)
        sizes = sorted({len(s) for s in seqs})
        for l in lists:
            for n in sizes:
                for i in range(len(l) - n + 1):
                    g = tuple(l[i:i + n])
                    if g in want:
                        want[g] += 1
        argv = ["count", "--json", "-q"] + paths
        for s in strs + more:
            argv += ["-s", s]
        r = run(c, argv)
        got = {tuple(x["tokens"]): x["count"] for x in r.rows()}
        if got != want or len(r.rows()) != len(want):
            raise Violation("(reported, true) counts differ: %s" % list({s: (got.get(s), want.get(s)) for s in set(got) | set(want) if got.get(s) != want.get(s)}.items())[:5], **shortened(r))
        c.count("rows", len(want))
        c.count("occurrences", sum(want.values()))
        c.key("scale", m)


def true_matches(want, p):
    return collections.Counter({(path, n, t, s, e): 1 for (path, n, t), ms in want[p].items() for s, e in ms})


def judge_search(c, cor, paths, pats, L, args=()):
    want = ex.expected_matches(c, cor, paths, pats, None, None)
    argv = ["search", "--json", "-q"] + list(args) + paths
    for p in pats:
        argv += ["-p", p]
    locations = L != "none"
    if locations:
        argv += ["--with-locations"] + ([] if L is None else ["--locations-limit", str(L)])
    r = run(c, argv)
    rows = ex.search_rows(r, locations)
    if set(rows) != set(pats):
        raise Violation("rows for other patterns than asked for", **shortened(r))
    for p in pats:
        true = true_matches(want, p)
        if rows[p]["count"] != sum(true.values()):
            raise Violation("pattern %r: count %d, true count %d" % (p, rows[p]["count"], sum(true.values())), **shortened(r))
        c.count("matches", sum(true.values()))
        if not locations:
            continue
        got = ex.flatten(rows[p]["matches"], Short(r))
        wrong = [g for g in got if g not in true or got[g] > 1]
        if wrong:
            raise Violation("pattern %r: located %s, which is not a match or is located twice" % (p, str(wrong[0])[:300]), **shortened(r))
        expect = sum(true.values()) if L is None else min(L, sum(true.values()))
        if len(got) != expect:
            raise Violation("pattern %r: %d matches located, expected %d" % (p, len(got), expect), missing=str([g for g in true if g not in got][:2])[:500], **shortened(r))
        c.count("locations", len(got))
    c.key("scale", len(pats), L, len(paths), len(want[pats[0]]))


def many_lines_searched(c):
    """Matches beyond line 65536, and more of them."""
    cor = corpus.Corpus([long_file(c, ["a", "b", "cc"], ["late é", "a late b late"]), corpus.File([doc("a late")])])
    paths = write(c, cor)
    for L in (None, c.rng.choice([65535, 65536, 65537, 66000]), "none"):
        judge_search(c, cor, paths, ["a", "late", "nowhere"], L)


def many_patterns(c):
    """More patterns than bits in a word, and more than 8 bits count."""
    cor = corpus.Corpus([corpus.File([doc(" ".join("p%d" % c.rng.randrange(400) for _ in range(10))) for _ in range(12)]) for _ in range(3)])
    paths = write(c, cor)
    pats = [r"p%d\b" % i for i in range(c.rng.choice([100, 300, 400]))] + [r"p\d", "nowhere"]
    c.rng.shuffle(pats)
    for L in (None, 1, "none"):
        judge_search(c, cor, paths, pats, L)


def many_submatches(c):
    """A single text with thousands of matches, at columns beyond 16 bits."""
    n = c.rng.choice([5000, 40000])
    long = " ".join(c.rng.choice(["a", "b", "é"]) for _ in range(n)) + " end"
    cor = corpus.Corpus([corpus.File([doc("a b"), doc(long), doc("b a end")]), corpus.File([doc("x" * 70000 + " a end")])])
    paths = write(c, cor)
    for L in (None, c.rng.choice([1000, 1025, 3000]), "none"):
        judge_search(c, cor, paths, ["a", "end", r"\w"], L)


# ---------------------------------------------------------------------------------- stats

def many_pointers(c):
    """Extreme lengths attained by thousands of documents, and beyond line 65536."""
    mode = c.rng.choice(["both", "equal"])
    a = long_file(c, ["a b", "a b c d"] if mode == "both" else ["w"])
    if mode == "equal":
        a.docs = [doc("w w") for _ in a.docs]
    else:
        for d in a.docs:
            d.text = "a b" if c.chance(0.3) else "a b c d e" if c.chance(0.5) else "a b c"
            d.raw = json.dumps({"text": d.text}).encode()
    cor = corpus.Corpus([a] + [corpus.File([doc(d.text) for d in c.rng.sample(a.docs, 3000)]) for _ in range(3)])
    paths = write(c, cor)
    want = ex.expected_stats(c, cor, paths, None, None)
    for j in ("1", "8"):
        r = run(c, ["stats", "--json", "-q", "-j", j] + paths)
        rows = r.rows()
        if len(rows) != 1:
            raise Violation("%d rows" % len(rows), **shortened(r))
        ex.check_stats(rows[0], want, Short(r))
    c.count("pointers", sum(want["max_token_documents"].values()) + sum(want["min_token_documents"].values()))
    c.count("documents", want["total_documents"])
    c.key("scale", mode, want["total_documents"])


# ---------------------------------------------------------------------------------- limits, many files

def judge_any(c, cor, paths, args, argpaths, lim=None, flim=None):
    """stats, count and search over the same input."""
    docs = [d for _, _, d in cor.docs(lim, flim)]
    texts = [d.text for d in docs]
    toks = corpus.oracle(c).tokens(texts)
    r = run(c, ["stats", "--json"] + args + argpaths)
    ex.check_stats(r.rows()[0], ex.expected_stats(c, cor, paths, lim, flim), Short(r))
    r = run(c, ["count", "-s", "a", "--json"] + args + argpaths)
    got, want = [x["count"] for x in r.rows()], sum(t.count("a") for t in toks)
    if got != [want]:
        raise Violation("counts %s, expected %d" % (got, want), **shortened(r))
    r = run(c, ["search", "-p", "b", "--json"] + args + argpaths)
    got, want = [x["count"] for x in r.rows()], sum(t.count("b") for t in texts)
    if got != [want]:
        raise Violation("matches %s, expected %d" % (got, want), **shortened(r))
    counts = corpus.ngram_counts(toks, 1)
    for name in ("topk", "botk"):
        r = run(c, [name, "-n", "1", "-k", "3", "-h", "8", "--size", "16MiB", "--json"] + args + argpaths)
        rows = [(tuple(x["tokens"]), x["count"]) for x in r.rows()]
        ng.check_exact(rows, counts, 3, (lambda v: v > 1) if name == "topk" else (lambda v: v < ng.U32), Short(r), name == "botk", c)
    r = run(c, ["unique", "-n", "1", "-h", "3", "--size", "1MiB", "--json"] + args + argpaths)
    if abs(ng.unique_estimate(r, False) - len(counts)) > 2:
        raise Violation("estimate %d for %d n-grams" % (ng.unique_estimate(r, False), len(counts)), **shortened(r))
    c.count("documents", len(docs))


def large_limits(c):
    """Line limits beyond 16 bits, and files longer than that without one; shown and hidden progress."""
    cor = corpus.Corpus([long_file(c, ["a", "b", "d"]), corpus.File([doc("a b")])])
    n = len(cor.files[0].docs)
    paths = write(c, cor)
    for lim in (None, c.rng.choice([65535, 65536, 65537, n - 1, n, n + 1, 2 ** 32 + 1, 2 ** 32 + n - 1])):
        for q in ([], ["-q"]):
            judge_any(c, cor, paths, q + ([] if lim is None else ["-l", str(lim)]), paths, lim)
            c.key("scale_limit", lim, n, bool(q))


def many_files(c):
    """More input files than descriptors a process may open by default, given by name or in a directory."""
    nf = c.rng.choice([1025, 1100, 1500, 2100])
    cor = corpus.Corpus([corpus.File([doc("a b f%d" % (i % 50)) for _ in range(1 + i % 3)]) for i in range(nf)])
    # the first file keeps a worker busy while the others wait
    cor.files[0].docs += [doc("a b f%d" % (i % 50)) for i in range(120000)]
    paths = write(c, cor)
    # above 32 workers no progress is shown for files, above 64 there are none by default
    many = lambda: str(c.rng.choice([33, 34, 50, 64, 65, 128, 300]))
    for args, flim, where in ((["-j", c.rng.choice("18")], None, [c.path("in")]), (["-j", "1", "-q"], None, [c.path("in")]), ([], c.rng.choice([1000, 1024, 1025, nf - 1, nf, 70000]), paths), (["-q", "-l", "2"], None, paths),
                               (["-j", many()], None, [c.path("in")]), (["-j", many(), "-l", "2"], None, paths), (["-j", many(), "-l", "1"], c.rng.choice([33, 65, 200]), paths)):
        lim = int(args[args.index("-l") + 1]) if "-l" in args else None
        judge_any(c, cor, paths, args + ([] if flim is None else ["--file-limit", str(flim)]), where, lim, flim)
        c.key("scale_files", nf, flim, len(where))
    c.count("files", nf)


# ---------------------------------------------------------------------------------- damage far down

def damage_far_down(c):
    """The only bad line lies beyond line 65536: the run fails; before the limit it counts, behind it does not."""
    f = long_file(c, ["a", "b", "d"])
    n = len(f.docs)
    bad = c.rng.choice([n - 1, c.rng.randrange(PAST, n)])
    d = c.rng.choice([b"{", b"[]", b'{"text": 5}', b'{"text": "\xff"}', b"null", b""])
    f.docs[bad] = corpus.Doc("a", d)
    f.final_newline = True
    p = c.path("bad.json.gz")
    open(p, "wb").write(corpus.gz(f.data(), None, 1, 1))
    for name, opts in (("stats", []), ("count", ["-s", "a"]), ("search", ["-p", "a"]), ("topk", ["-n", "1", "-k", "3", "--size", "1MiB"]), ("botk", ["-n", "1", "-k", "3", "--size", "1MiB"]), ("unique", ["-n", "1", "--size", "1MiB"])):
        r = run(c, [name, "--json", "-q"] + opts + [p])
        r.must_fail("%r in line %d" % (d, bad + 1))
        if r.stdout.strip():
            raise Violation("%r in line %d: results all the same" % (d, bad + 1), **shortened(r))
        r = run(c, [name, "--json", "-q", "-l", str(bad)] + opts + [p])
        if r.rc != 0:
            raise Violation("fails on line %d, which is behind the limit" % (bad + 1), **shortened(r))
    cut = corpus.gz(f.data().replace(d + b"\n", b'{"text": "a"}\n', 1) if d else b"", None, 1, 1)
    if d:
        p = c.path("cut.json.gz")
        open(p, "wb").write(cut[:-c.rng.choice([1, 8, 9, 2000])])
        r = run(c, ["stats", "--json", "-q", p])
        r.must_fail("a long file that is cut short")
    c.count("far_failures", 7)
    c.key("far", d, bad - n)
