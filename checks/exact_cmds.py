"""P04 count, P05 search, P06 stats."""
import collections, json, os, re
import bursts, cli, corpus, scale
from core import Check, Violation
from ngram_cmds import CLI, gen, gen_for, describe, token_lists, rust_debug


# ------------------------------------------------------------------------------------------- P04

HUMAN_COUNT = re.compile(r'\[(\d+)/(\d+)\] (".*") \(count = (\d+)\)$')


def count_rows(run):
    out = {}
    for r in run.rows():
        if set(r) != {"tokens", "string", "count"}:
            raise Violation("row has keys %s" % sorted(r), **run.info())
        t = tuple(r["tokens"])
        if r["string"] != " ".join(t):
            raise Violation("string %r for tokens %r" % (r["string"], t), **run.info())
        if t in out:
            raise Violation("two rows for %r" % (t,), **run.info())
        out[t] = r["count"]
    return out


def search_strings(c, cor, lists):
    """Strings that occur, nearly occur, overlap themselves, or have different lengths."""
    rng, out = c.rng, []
    pool = [l for l in lists if l]
    for _ in range(rng.choice([1, 1, 2, 4, 8])):
        r = rng.random()
        if pool and r < 0.6:
            l = rng.choice(pool)
            n = rng.choice([1, 1, 2, 3, 5, 5, 12, 20, 40])
            i = rng.randrange(max(1, len(l) - n + 1))
            s = rng.choice([" ", "  ", "\n"]).join(l[i:i + n])
        elif pool and r < 0.65:
            # nearly a passage: one token is different
            l = list(rng.choice(pool))[: rng.choice([2, 3, 8, 20])]
            l[rng.choice([0, -1, rng.randrange(len(l))])] = rng.choice(corpus.ALPHA)
            s = " ".join(l)
        elif pool and r < 0.7:
            w = rng.choice(rng.choice(pool))
            s = " ".join([w] * rng.choice([2, 3, 4]))
        elif pool and r < 0.8:
            l = rng.choice(pool)
            s = " ".join(l[-3:] + rng.choice(pool)[:2])       # across the end of a document
        elif pool and r < 0.87:
            s = rng.choice(rng.choice(pool)).swapcase()
        else:
            s = " ".join(rng.choice(corpus.WORDS) for _ in range(rng.choice([1, 2, 20])))
        s = s.replace("\0", "")
        if s.strip() and len(s) < 30000 and corpus.oracle(c).tokens([s])[0]:
            out.append(s)
    return out or ["the"]


def count(c):
    cor = gen_for(c, c.rng.choice([1, 1, 1, 12, 20]))
    paths = cor.write(c.path("in"), c.rng)
    largs, lim, flim = cli.limit_args(c)
    lists = token_lists(c, cor, lim, flim)
    strs = search_strings(c, cor, lists)
    if c.chance(0.2):
        strs.append(" " + strs[0] + "  ")       # the same token sequence twice
    human = c.chance(0.12)
    argv = ["count"] + largs + cli.workers_args(c) + ([] if human else ["--json"] + cli.quietness(c)) + paths
    for s in strs:
        argv += cli.valued("search", s, c)
    seqs = [tuple(t) for t in corpus.oracle(c).tokens(strs)]
    want = {s: sum(corpus.positions(l, list(s)) for l in lists) for s in set(seqs)}
    for _ in range(c.rng.choice([1, 1, 2])):
        run = cli.Run(c, argv)
        if human:
            if run.rc != 0:
                raise Violation("run failed on valid input", **run.info())
            got = []
            for line in run.stdout.decode().split("\n")[:-1]:
                m = HUMAN_COUNT.match(line)
                if not m:
                    raise Violation("unexpected output line %r" % line, **run.info())
                got.append((m.group(3), int(m.group(4))))
            if sorted(v for _, v in got) != sorted(want.values()):
                raise Violation("printed %s, expected %s" % (got, want), **run.info())
            for s, v in want.items():
                d = rust_debug(" ".join(s))
                if d is not None and (d, v) not in got:
                    raise Violation("printed %s, expected %s for %s" % (got, v, d), **run.info())
            c.count("human_runs")
        else:
            got = count_rows(run)
            if got != want:
                diff = {s: (got.get(s), want.get(s)) for s in set(got) | set(want) if got.get(s) != want.get(s)}
                raise Violation("(reported, true) counts differ: %s" % diff, strings=strs, **run.info())
        c.count("rows", len(want))
    c.count("occurrences", sum(want.values()))
    if any(want.values()):
        c.key(tuple(sorted(want.items())), len(cor.files))
    describe(c, cor, strings=strs[:3], counts=[want[s] for s in seqs[:3]])


P04 = Check("P04", "exploration", [(count, 1)], once=[scale.many_counts], needs=CLI, quick=20, thorough=240,
            rule="random corpora and 1-8 search strings taken from documents, across document borders, self-overlapping, case-swapped, of different lengths, or absent; compared with a naive count over reference tokens; "
                 "non-trivial: at least one string occurs; distinct by the true counts and number of files",
            assumptions=["word segmentation reference: unicode-segmentation crate called directly"])


# ------------------------------------------------------------------------------------------- P05

PATTERNS = ["a", "b", "the", "(?i)the", "a b", r"\w+", r"\d+", r"a+", r"a*", "", r"^", r"$", r"(?m)^", r"(?m)$", r"\b", r"\s", r"[^\s]+", r"a|ab", r"ab|a", r"(a)(b)?", r".", r"(?s).", r"\.", r"é", r"\p{L}+",
            r"\p{Han}", r"[a-c]{2}", r"a.{0,3}b", r"x*?", r"(?:a b ){2}", r"(?i)ÉCOLE|é", r"👍", r"\n", r"h$", r"^a", r"w\d", r"zzz_never", "aa", "abab", r"[[:punct:]]", r"\x{200b}", r"b(?-u:.)?" if False else r"b.?"]


def expected_matches(c, cor, paths, pats, lim, flim):
    docs = [(i, n, d.text) for i, n, d in cor.docs(lim, flim) if d.text is not None]
    texts = [t for _, _, t in docs]
    res = corpus.oracle(c).ask(op="re", patterns=pats, texts=texts)
    out = {}
    for p, per_text in zip(pats, res):
        if per_text is None:
            raise AssertionError("invalid pattern " + p)
        out[p] = {(paths[i], n, t): [tuple(x) for x in m] for (i, n, t), m in zip(docs, per_text) if m}
    return out


def search_rows(run, with_locations):
    out = {}
    for r in run.rows():
        if set(r) != ({"pattern", "count", "matches"} if with_locations else {"pattern", "count"}):
            raise Violation("row has keys %s" % sorted(r), **run.info())
        if r["pattern"] in out:
            raise Violation("two rows for %r" % r["pattern"], **run.info())
        out[r["pattern"]] = r
    return out


def flatten(matches, run):
    """-> Counter of (path, line, text, start, end)"""
    got = collections.Counter()
    for path, locs in matches.items():
        lines = set()
        for l in locs:
            if set(l) != {"text", "line_num", "submatches"}:
                raise Violation("location has keys %s" % sorted(l), **run.info())
            if not l["submatches"]:
                raise Violation("location without matches", **run.info())
            if l["line_num"] in lines:
                raise Violation("line %d of %s is located twice" % (l["line_num"], path), **run.info())
            lines.add(l["line_num"])
            for s in l["submatches"]:
                got[(path, l["line_num"], l["text"], s["start_col"], s["end_col"])] += 1
    return got


ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def unquote(s):
    return re.sub(r"\\(?:u\{([0-9a-f]+)\}|(.))", lambda m: chr(int(m.group(1), 16)) if m.group(1) else ESC.get(m.group(2), "?"), s[1:-1])


def human_search(run, pats, want, mode, L):
    """The printed form: one heading with the count per pattern, followed by its locations."""
    out = run.stdout.decode("utf-8", "backslashreplace")
    blocks = re.split(r"^\[\d+/%d\] (\".*\") \(count = (\d+)\)$" % len(pats), out, flags=re.M)[1:]
    got = {unquote(p): (int(n), b) for p, n, b in zip(blocks[::3], blocks[1::3], blocks[2::3])}
    if set(got) != set(pats) or len(blocks) != 3 * len(pats):
        raise Violation("headings for %s, expected %s" % (sorted(got), sorted(pats)), **run.info())
    for p in pats:
        true = {k: len(ms) for k, ms in want[p].items()}
        total = sum(true.values())
        n, block = got[p]
        if n != total:
            raise Violation("pattern %r: printed count %d, true count %d" % (p, n, total), **run.info())
        locs = re.findall(r"^ \S+ \[(.*), line (\d+), (\d+) match(?:es)?\] (\".*\")$", block, flags=re.M)
        if len(locs) != len(block.strip("\n").split("\n")) - (not block.strip("\n")):
            raise Violation("pattern %r: unexpected lines in the printed locations" % p, block=block[:300], **run.info())
        seen = collections.Counter()
        for path, line, m, text in locs:
            k = (path, int(line), unquote(text))
            if k in seen or int(m) < 1 or int(m) > true.get(k, 0):
                raise Violation("pattern %r: printed location %r with %s matches" % (p, k, m), **run.info())
            seen[k] = int(m)
        expect = 0 if mode == "plain" else total if L is None else min(L, total)
        if sum(seen.values()) != expect:
            raise Violation("pattern %r: %d matches in the printed locations, expected %d" % (p, sum(seen.values()), expect), **run.info())


def search(c):
    cor = gen(c)
    paths = cor.write(c.path("in"), c.rng)
    largs, lim, flim = cli.limit_args(c)
    pats = c.rng.sample(PATTERNS, c.rng.choice([1, 1, 2, 3, 6]))
    texts = [d.text for _, _, d in cor.docs(lim, flim) if d.text]
    if texts and c.chance(0.6):
        t = c.rng.choice(texts)
        i = c.rng.randrange(len(t))
        sub = t[i:i + c.rng.randint(1, 6)]
        if "\0" not in sub:
            pats.append(re.sub(r"[^\w\s]", lambda m: "\\x{%x}" % ord(m.group()), sub).replace("\n", "\\n"))
    pats = list(dict.fromkeys(pats))
    pats = [p for p, r in zip(pats, corpus.oracle(c).ask(op="re", patterns=pats, texts=[])) if r is not None] or ["a"]
    want = expected_matches(c, cor, paths, pats, lim, flim)
    mode = c.rng.choice(["plain", "locations", "locations", "limited", "limited"])
    L = c.rng.choice([0, 1, 1, 2, 3, 5, 20, 10 ** 6]) if mode == "limited" else None
    human = c.chance(0.15) and (mode == "plain" or not any("\n" in p for p in paths))
    argv = ["search"] + largs + cli.workers_args(c) + ([] if human else ["--json"] + cli.quietness(c)) + paths
    for p in pats:
        argv += cli.valued("pattern", p, c)
    if c.chance(0.15):
        argv += cli.valued("pattern", pats[0], c)        # the same pattern given twice is one pattern
    if mode != "plain":
        argv += ["--with-locations"] + ([] if L is None else ["--locations-limit", str(L)])
    for _ in range(c.rng.choice([1, 1, 2])):
        run = cli.Run(c, argv)
        if human:
            if run.rc != 0:
                raise Violation("run failed on valid input", **run.info())
            human_search(run, pats, want, mode, L)
            c.count("human_runs")
            continue
        rows = search_rows(run, mode != "plain")
        if set(rows) != set(pats):
            raise Violation("rows for %s, expected %s" % (sorted(rows), sorted(pats)), **run.info())
        for p in pats:
            true = collections.Counter({(path, n, t, s, e): 1 for (path, n, t), ms in want[p].items() for s, e in ms})
            total = sum(true.values())
            if rows[p]["count"] != total:
                raise Violation("pattern %r: count %d, true count %d" % (p, rows[p]["count"], total), **run.info())
            c.count("matches", total)
            if mode == "plain":
                continue
            got = flatten(rows[p]["matches"], run)
            dup = [g for g, k in got.items() if k > 1]
            if dup:
                raise Violation("pattern %r: match located twice: %r" % (p, dup[0]), **run.info())
            wrong = [g for g in got if g not in true]
            if wrong:
                raise Violation("pattern %r: located %r, which is not a match" % (p, wrong[0]), **run.info())
            expect = total if L is None else min(L, total)
            if len(got) != expect:
                raise Violation("pattern %r: %d matches located, expected %d" % (p, len(got), expect), missing=[g for g in true if g not in got][:2], **run.info())
            c.count("locations", len(got))
    if any(want[p] for p in pats):
        c.key(tuple((p, sum(map(len, want[p].values()))) for p in pats), mode, L, len(cor.files))
    describe(c, cor, patterns=pats[:4], mode=mode, limit=L)


P05 = Check("P05", "exploration", [(search, 1)], once=[bursts.burst_locations, scale.many_lines_searched, scale.many_patterns, scale.many_submatches], needs=CLI + ("lag",), quick=20, thorough=240,
            rule="random corpora and 1-6 patterns (anchors, empty matches, alternations, Unicode classes, fragments of documents), without locations, with all of them, or with a limit; compared with the regex crate applied directly to every text; "
                 "non-trivial: at least one match; distinct by patterns, counts, mode, limit and number of files", assumptions=["regular-expression reference: regex crate called directly"])


# ------------------------------------------------------------------------------------------- P06

def expected_stats(c, cor, paths, lim, flim, toks=None):
    docs = list(cor.docs(lim, flim))
    texts = [d.text for _, _, d in docs if d.text is not None]
    lens = iter([len(t) for t in (toks or corpus.oracle(c).tokens)(texts)])
    with_len = [(paths[i], n, next(lens)) for i, n, d in docs if d.text is not None]
    files = cor.files if flim is None else cor.files[:flim]
    mx = max((l for _, _, l in with_len), default=0)
    mn = min((l for _, _, l in with_len), default=cli.UMAX)
    return {"total_tokens": sum(l for _, _, l in with_len), "total_documents": len(docs), "total_bytes": sum(f.head_bytes(lim) for f in files),
            "document_max_tokens": mx, "document_min_tokens": mn,
            "max_token_documents": collections.Counter(x for x in with_len if x[2] == mx), "min_token_documents": collections.Counter(x for x in with_len if x[2] == mn)}


def check_stats(row, want, run):
    if set(row) != set(want):
        raise Violation("keys %s" % sorted(row), **run.info())
    for k, w in want.items():
        g = row[k]
        if k.endswith("_documents") and k != "total_documents":
            try:
                g = collections.Counter((d["path"], d["line"], d["num_tokens"]) for d in g)
            except (KeyError, TypeError):
                raise Violation("malformed %s" % k, **run.info())
            if g != w:
                raise Violation("%s: reported but wrong %s, missing %s" % (k, list((g - w).elements())[:3], list((w - g).elements())[:3]), **run.info())
        elif k == "document_min_tokens" and w == cli.UMAX:
            continue    # no document has a text: there is no smallest count
        elif g != w:
            raise Violation("%s is %r, expected %r" % (k, g, w), **run.info())


def stats_corpus(c):
    r = c.rng.random()
    if r < 0.5:
        return gen(c)
    # lengths in which extremes are attained late, in many files, or several times
    nf, files = c.rng.choice([2, 4, 8, 8, 16]), []
    mode = c.rng.choice(["rising", "falling", "equal", "few"])
    for i in range(nf):
        lens = []
        for j in range(c.rng.choice([1, 1, 2, 5])):
            lens.append({"rising": i + j, "falling": nf - i + j, "equal": 3, "few": c.rng.choice([1, 2, 3])}[mode])
        if c.chance(0.5):
            lens = [c.rng.choice(lens)] * len(lens)
        files.append(corpus.File([corpus.make_doc(c.rng, " ".join(c.rng.choice(corpus.ALPHA) for _ in range(l))) for l in lens], c.chance(0.8)))
    return corpus.Corpus(files)


def stats(c):
    cor = stats_corpus(c)
    paths = cor.write(c.path("in"), c.rng)
    largs, lim, flim = cli.limit_args(c)
    want = expected_stats(c, cor, paths, lim, flim)
    argv = ["stats", "--json"] + largs + cli.workers_args(c) + cli.quietness(c) + paths
    for _ in range(c.rng.choice([2, 3, 4])):
        if c.chance(0.1):
            run = cli.Run(c, [a for a in argv if a not in ("--json", "-q")])
            human_stats(run, want)
            c.count("human_runs")
            continue
        run = cli.Run(c, argv)
        rows = run.rows()
        if len(rows) != 1:
            raise Violation("%d rows" % len(rows), **run.info())
        check_stats(rows[0], want, run)
    c.count("documents", want["total_documents"])
    c.count("tokens", want["total_tokens"])
    c.count("pointers", sum(want["max_token_documents"].values()) + sum(want["min_token_documents"].values()))
    if want["max_token_documents"]:
        c.key(tuple((k, v) for k, v in want.items() if not isinstance(v, dict)), len(cor.files))
    describe(c, cor, expected={k: v for k, v in want.items() if not isinstance(v, dict)})


def human_stats(run, want):
    if run.rc != 0:
        raise Violation("run failed on valid input", **run.info())
    out = run.stdout.decode()
    for name, key in (("total tokens", "total_tokens"), ("total documents", "total_documents"), ("total bytes", "total_bytes"), ("max tokens per document", "document_max_tokens"), ("min tokens per document", "document_min_tokens")):
        m = re.search(r"^%s: ([\d,]+)$" % name, out, re.M)
        if not m:
            raise Violation("no line for %s" % name, **run.info())
        if int(m.group(1).replace(",", "")) != want[key]:
            raise Violation("%s: printed %s, expected %s" % (name, m.group(1), want[key]), **run.info())
    n = len(re.findall(r"^  - path: ", out, re.M))
    if n != sum(want["max_token_documents"].values()) + sum(want["min_token_documents"].values()):
        raise Violation("%d document pointers printed" % n, **run.info())


P06 = Check("P06", "exploration", [(stats, 1)], once=[scale.many_pointers], needs=CLI, quick=20, thorough=240,
            rule="random corpora, half of them with document lengths whose extremes are attained late, in many files at once or repeatedly; 2-4 runs each of the plain or noise-perturbed binary; compared with totals, extremes and pointer multisets computed from the files; "
                 "non-trivial: some document has a text; distinct by the expected totals and number of files",
            assumptions=["word segmentation reference: unicode-segmentation crate called directly", "the smallest count is not checked if no document has a text"])
