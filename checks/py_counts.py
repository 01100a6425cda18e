"""P21-P23, P33, P34, P36, P37: the map/reduce pipelines, run as processes on generated shards and compared with naive counts."""
import collections, itertools, json, math, os, re, random
from urllib.parse import urlparse
from core import Check, Violation, Inconclusive
import pyscale
from pyrun import *
import tldextract, pycld2
from uniseg.wordbreak import words as uni_words
from spacy.lang import en as spacy_en
import profanity_check

HOSTS = ["example.com", "www.example.com", "a.b.example.co.uk", "localhost", "127.0.0.1", "127.0.0.1:8080", "user:pw@host.org", "user@h.net:99", "[::1]:8", "EXAMPLE.com", "bücher.de", "例え.jp",
         "x-y.io", "under_score.net", "a.com.au", "sub.domain.ac.uk", "1.2.3.4", "xn--bcher-kva.de", "host.", "info.info", "h%20h.org", "co.uk", "t.edu"]
SCHEMES = ["http", "https", "HTTP", "ftp", "s3", "gopher", "svn+ssh"]
PATHS = ["", "/", "/index.html", "/a/b.JPG", "/a.b/c", "/pic.png", "/pic.jpeg?x=1.png", "/x.jpg#frag.png", "/.jpg", "/a.jpg/", "/a..png", "/photo.JPEG", "/x;y.png", "/a%20b.jpg", "/été.png", "/a.gif",
         "?q=http://other.org/", "#top", "/p.pngx", "/n.png.txt", "/dir.jpg/file", "/jpg", "/x.Jpg"]


def rand_url(rng, odd=True):
    r = rng.random()
    if odd and r < 0.06:
        return rng.choice(["", "mailto:a@b.org", "/relative/x.png", "no-scheme.org/a.jpg", "//slashes.org/x", "data:text/plain,hi", "urn:isbn:1", "javascript:void(0)", "http:///nohost.png", "file:///etc/x.jpg"])
    return rng.choice(SCHEMES) + "://" + rng.choice(HOSTS) + rng.choice(PATHS)


TEXTW = ["the", "quick", "Fox", "ünïcode", "日本語", "don't", "3.14", "...", "!?", "--", "a_b", "x1", "\u00a0", "e\u0301", "👍🏽", "", "<b>", "$5", "\x85", "\u2028", "\x0b", "#", "нет"]


def rand_text(rng, mean=12, blank=0.06):
    r = rng.random()
    if r < blank:
        return rng.choice(["", " ", "\n", "\t\n ", "\u00a0", "\u3000 "])
    s = ""
    for _ in range(max(1, int(rng.expovariate(1 / mean)))):
        s += rng.choice(TEXTW) + rng.choice([" ", " ", " ", "  ", "\n", "\t", "\r\n", "", ". ", " \n "])
    return rng.choice(["", "", " ", "\n"]) + s


def some(rng, f, most=60):
    n = rng.choice([0, 1, 2, 5, 20, most, most])
    pool = [f() for _ in range(max(1, n // rng.choice([1, 2, 5])))]
    return [dict(rng.choice(pool)) if rng.random() < 0.6 else f() for _ in range(n)]


def again(rng, recs):
    """Some of the records once more, next to the first or anywhere"""
    if recs and rng.random() < 0.5:
        recs = list(recs)
        for _ in range(rng.choice([1, 1, 3, len(recs)])):
            r = rng.choice(recs)
            recs.insert(recs.index(r) if rng.random() < 0.5 else rng.randint(0, len(recs)), dict(r))
    return recs


def extras(rng, rec):
    if rng.random() < 0.3:
        more = {"metadata": {"url": "http://meta.org/x.png", "text": "meta text"}, "id": rng.randint(0, 9), "count": 3, "timestamp2": "1999"}
        items = list(rec.items()) + [(k, more[k]) for k in rng.sample(list(more), rng.randint(1, 3)) if k not in rec]
        rng.shuffle(items)
        return dict(items)
    return rec


# ------------------------------------------------------------------ P21

def p21_urls(c):
    rng = c.rng
    which = rng.choice(["url_counts", "scheme_counts", "extension_counts"])
    recs = some(rng, lambda: extras(rng, {"url": rand_url(rng), "text": "t"}))
    paths, parts = shard(c, recs)
    run = map_reduce(c, which, paths)
    want = collections.Counter()
    for r in recs:
        u = urlparse(r["url"])
        if which == "url_counts":
            want[u.netloc] += 1
        elif which == "scheme_counts":
            want[u.scheme] += 1
        else:
            name = u.path.rsplit("/", 1)[-1]
            stem, dot, ext = name.rpartition(".")
            ext = ext if dot and stem.strip(".") else ""      # a name that only starts with dots has no extension
            want[ext if ext.lower() in ("jpg", "png", "jpeg") else "other"] += 1
    if which == "scheme_counts":
        got = {}
        for r in run.rows():
            for k, v in r.items():
                if k in got:
                    raise Violation("two rows for %r" % k, **run.info())
                got[k] = v
    else:
        got = table(run, "url" if which == "url_counts" else "ext")
    compare(run, got, dict(want), which, shards=[len(p) for p in parts])
    c.count("records", len(recs))
    c.count("pipeline:" + which)
    if len(recs) > 1:
        c.key(which, tuple(sorted(want.items())), tuple(len(p) for p in parts))
        c.sample(pipeline=which, records=len(recs), shards=len(parts), keys=len(want))


MONTHS = ["Jan", "February", "March", "Apr", "May", "June", "July", "August", "Sep", "October", "November", "Dec"]


def rand_date(rng):
    y, m, d = rng.randint(1970, 2030), rng.randint(1, 12), rng.randint(1, 28)
    s = rng.choice(["%04d-%02d-%02dT12:57:54Z" % (y, m, d), "%04d-%02d-%02d" % (y, m, d), "%d %s %04d" % (d, MONTHS[m - 1], y), "%s %d, %04d 10:00 PM" % (MONTHS[m - 1], d, y),
                    "%04d/%02d/%02d 01:02:03" % (y, m, d), "%02d/%02d/%04d" % (m, d, y), "%04d" % y, "%s %04d" % (MONTHS[m - 1], y), "%04d-%02d-%02dT23:59:59.999999-11:30" % (y, m, d), "%04d%02d%02d" % (y, m, d)])
    return y, s


def p21_dates(c):
    rng = c.rng
    want = collections.Counter()
    recs = []
    for _ in range(rng.choice([0, 1, 3, 10, 80])):
        y, s = rand_date(rng)
        r = {"text": "t"}
        if rng.random() < 0.12:
            y = None
            if rng.random() < 0.5:
                r["modified"] = s
        else:
            for k in rng.sample(["date", "timestamp", "created"], rng.choice([1, 1, 1, 2, 3])):
                r[k] = s
        recs.append(r)
        want[str(y)] += 1
    paths, parts = shard(c, recs)
    run = map_reduce(c, "utterance_dates", paths)
    compare(run, table(run, "year"), dict(want), "years", shards=[len(p) for p in parts])
    c.count("records", len(recs))
    c.count("pipeline:utterance_dates")
    if len(recs) > 1:
        c.key("dates", tuple(sorted(want.items())), len(parts))


def wordpunct(text):
    n, prev = 0, None
    for ch in text:
        kind = "s" if ch.isspace() else "w" if (ch.isalnum() or ch == "_" or re.match(r"\w", ch)) else "p"
        if kind != "s" and kind != prev:
            n += 1
        prev = kind
    return n


def length_records(rng):
    out = []
    for _ in range(rng.choice([0, 1, 3, 10, 60])):
        t = None if rng.random() < 0.1 else rand_text(rng, rng.choice([1, 5, 20]))
        out.append(extras(rng, {"text": t}))
    return again(rng, out)


def length_counts(recs):
    want = collections.Counter()
    for r in recs:
        if r["text"] is None:
            want["text is None"] += 1
        else:
            want["chars %d" % len(r["text"])] += 1
            want["tokens %d" % wordpunct(r["text"])] += 1
    return want


def p21_lengths(c):
    recs = length_records(c.rng)
    paths, parts = shard(c, recs)
    run = map_reduce(c, "sentence_lengths", paths)
    want = length_counts(recs)
    compare(run, table(run, "key"), dict(want), "lengths", shards=[len(p) for p in parts])
    c.count("records", len(recs))
    c.count("pipeline:sentence_lengths")
    if len(recs) > 1:
        c.key("lengths", tuple(sorted(want.items())), len(parts))


def p21_reducers(c):
    """The reducers on mapper output in any order: one row per key, counts that sum to the lines read."""
    rng = c.rng
    which, key = rng.choice([("url_counts", "url"), ("extension_counts", "ext"), ("utterance_dates", "year"), ("sentence_lengths", "key"), ("scheme_counts", None)])
    pool = [rng.choice(["", "a.org", "A.org", "b", "chars 1", "tokens 1", "text is None", "x y", "été", "None", "2020", "1" * 30, "\"q\"", "\\", "a:80", "é", "true", "0"]) for _ in range(rng.randint(1, 12))]
    lines = [rng.choice(pool) for _ in range(rng.choice([0, 1, 10, 1000, 20000]))]
    data = "".join(l + "\n" for l in lines).encode()
    if lines and rng.random() < 0.2 and lines[-1]:
        data = data[:-1]
    run = script(c, which + "/reduce_count.py", stdin=data).ok("the reducer")
    want = dict(collections.Counter(lines))
    got = table(run, key) if key else {k: v for r in run.rows() for k, v in r.items()}
    if key is None and len(run.rows()) != len(got):
        raise Violation("two rows for one key", **run.info())
    compare(run, got, want, which + " reducer")
    c.count("lines reduced", len(lines))
    if lines:
        c.key("reduce", which, tuple(sorted(want.items())))


# ------------------------------------------------------------------ P22

def p22_url_tokens(c):
    rng = c.rng
    recs = again(rng, [extras(rng, {"url": rand_url(rng), "text": rand_text(rng)}) for _ in range(rng.choice([0, 1, 3, 10, 60]))])
    paths, parts = shard(c, recs)
    run = map_reduce(c, "url_per_tok_counts", paths)
    want = collections.Counter()
    for r in recs:
        host = urlparse(r["url"]).netloc
        if host:
            want[host] += sum(1 for w in uni_words(r["text"]) if w != " ")
    got = table(run, "url")
    compare(run, {k: v for k, v in got.items() if v}, {k: v for k, v in want.items() if v}, "tokens per domain", shards=[len(p) for p in parts])
    c.count("records", len(recs))
    c.count("pipeline:url_per_tok_counts")
    if len(recs) > 1:
        c.key("url_per_tok", tuple(sorted(want.items())), len(parts))
        c.sample(records=len(recs), shards=len(parts), tokens=sum(want.values()))


def p22_suffixes(c):
    rng = c.rng
    recs = [{"url": rng.choice(HOSTS[:-1] + ["x%d.%s" % (rng.randint(0, 5), rng.choice(sorted(tldextract.SUFFIXES)))]), "count": rng.choice([1, 2, 7, 10 ** 6, 2 ** 40, 0])} for _ in range(rng.choice([0, 1, 3, 10, 80]))]
    recs = again(rng, recs)
    d = c.path("in")
    os.makedirs(d)
    n = rng.randint(1, 4)
    parts = [[] for _ in range(n)]
    for r in recs:
        rng.choice(parts).append(r)
    paths = []
    for i, p in enumerate(parts):
        paths.append(os.path.join(d, "urls%d.jsonl" % i))
        with open(paths[-1], "w") as f:
            f.write("".join(json.dumps(r, ensure_ascii=rng.random() < 0.5) + "\n" for r in p))
    run = map_reduce(c, "high_level_domain_counts", paths)
    want = collections.Counter()
    for r in recs:
        s = tldextract.extract(r["url"]).suffix
        if s:
            want[s] += r["count"]
    compare(run, {k: v for k, v in table(run, "high_level_domain").items() if v}, {k: v for k, v in want.items() if v}, "counts per public suffix")
    c.count("records", len(recs))
    c.count("pipeline:high_level_domain_counts")
    if len(recs) > 1:
        c.key("suffixes", tuple(sorted(want.items())), n)


def model_docs(rng, text):
    """Records around the limits of the batched, model-based pipelines."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 8, 30, 30])):
        r = rng.random()
        t = rng.choice(["", " ", "\n\t", None, "\u3000"]) if r < 0.15 else text()
        out.append(extras(rng, {"text": t}))
    out = again(rng, out)
    if out and rng.random() < 0.06:
        # more than a default batch
        out = out + [dict(rng.choice(out[-5:])) for _ in range(rng.choice([100, 970, 1000, 2000]))]
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.2 else 0):
        n = rng.choice([99999, 100000, 100000, 99998, 100001, 250000])
        body = text() or "x"
        rng_t = (body.strip() + " ") * (n // len(body.strip() + " ") + 1) if body.strip() else "x" * n
        out.insert(rng.randint(0, len(out)), {"text": (rng_t[:n - 1] + "x")})
    return out


def batch_args(rng, n):
    if rng.random() < 0.2:
        return []
    return ["--bs", str(rng.choice([1, 1, 2, 3, 4, 5, 8, max(1, n - 1), max(1, n), n + 1, 1000]))]


def p22_language(c):
    rng = c.rng
    recs = model_docs(rng, lambda: rand_text(rng, 6, 0) + ("\x01" if rng.random() < 0.04 else ""))
    paths, parts = shard(c, recs, most=4)
    bs = batch_args(rng, len(recs))
    run = map_reduce(c, "language", paths, *bs)
    want, undetectable = collections.Counter(), 0
    for r in recs:
        t = r["text"]
        if not t or not t.strip():
            continue
        if len(t) > 99999:
            want["long"] += 1
            continue
        try:
            ok, _, det = pycld2.detect(t)
            want[det[0][1] if ok else "un"] += 1
        except pycld2.error:
            undetectable += 1
    got = table(run, "language")
    over = sum(got.values()) - sum(want.values())
    if any(got.get(k, 0) < v for k, v in want.items()) or not 0 <= over <= undetectable:
        raise Violation("documents per language: expected %r (and at most %d that the detector refuses), got %r" % (dict(want), undetectable, got), **run.info(batch=bs, shards=[len(p) for p in parts]))
    c.count("records", len(recs))
    c.count("pipeline:language")
    if len(recs) > 1:
        c.key("language", tuple(sorted(want.items())), tuple(bs), tuple(len(p) for p in parts))


def p22_reducers(c):
    """Reducers that add numbers, on any mixture of mapper output."""
    rng = c.rng
    which, key = rng.choice([("url_per_tok_counts", "url"), ("high_level_domain_counts", "high_level_domain"), ("language", "language"), ("profanity", "profanity")])
    pool = ["en", "de", "un", "long", "zh-Hant", "a.org", "b.org:80", "co.uk", "é.de"] + (["not profane", "profane", "offensive-not-minority", "a b c"] if which in ("language", "profanity") else [])
    pool = rng.sample(pool, rng.randint(1, len(pool)))
    pairs = [(rng.choice(pool), rng.choice([0, 1, 1, 2, 17, 10 ** 9, 2 ** 53 + 1])) for _ in range(rng.choice([0, 1, 5, 100, 3000]))]
    run = script(c, which + "/reduce_count.py", stdin="".join("%s %d\n" % p for p in pairs).encode()).ok("the reducer")
    want = collections.Counter()
    for k, v in pairs:
        want[k] += v
    compare(run, {k: v for k, v in table(run, key).items() if v}, {k: v for k, v in want.items() if v}, which + " reducer")
    c.count("lines reduced", len(pairs))
    if pairs:
        c.key("reduce", which, tuple(sorted(want.items())))


# ------------------------------------------------------------------ P23

EMAIL = re.compile(r"[.\s@,?!;:)(]*([^\s@]+@[^\s@,?!;:)(]+?)[.\s@,?!;:)(]?[\s\n\r]")
PHONE = re.compile(r"\s+\(?(\d{3})\)?[-\. ]*(\d{3})[-. ]?(\d{4})")
IP = re.compile(r"(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)")
URLRE = re.compile(r"(https?:\/\/(?:www\.|(?!www))[a-zA-Z0-9][a-zA-Z0-9-]+[a-zA-Z0-9]\.[^\s]{2,}|www\.[a-zA-Z0-9][a-zA-Z0-9-]+[a-zA-Z0-9]\.[^\s]{2,}|https?:\/\/(?:www\.|(?!www))[a-zA-Z0-9]+\.[^\s]{2,}|www\.[a-zA-Z0-9]+\.[^\s]{2,})")
JUNK = [("." * 45, 1), ("." * 11, 51), ("!" * 99, 1), ("# # # # # # #", 1), ("???????", 1), ("/ / / / /", 51), ("," * 76, 1), (":)" * 52, 1), ("%", 1001), (";" * 121, 1)]


def pii_of(text, w):
    """Matches with verdicts for a context window of w characters; -> list of (type, kept)"""
    low, out = text.lower(), []
    for m in EMAIL.finditer(low):
        who, dom = m.group(1).split("@")[:2]
        out.append(("email", not (who.strip() == "(" or "." not in dom)))
    for kind, pat in (("phone_numbers", PHONE), ("IP_addresses", IP)):
        for m in pat.finditer(low):
            a, b = (m.start(1), m.end(3)) if kind == "phone_numbers" else m.span()
            ctx = low[max(0, a - w): b + w]
            bad = any(x in ctx for x in ("isbn", "doi", "#")) or (kind == "phone_numbers" and bool(URLRE.findall(ctx)))
            out.append((kind, not bad))
    return out


def junk(text):
    return len(text) > 500000 or any(text.count(s) >= n for s, n in JUNK)


FILL = ["lorem", "ipsum", "dolor", "sit", "amet", "zz", "Q", "per", "call", "me", "at", "x,", "y."]


def filler(rng, n):
    s = ""
    while len(s) < n:
        s += rng.choice(FILL) + " "
    return s[:n] if n else ""


def pii_item(rng, pool):
    r = rng.random()
    if pool and r < 0.25:
        return rng.choice(pool)           # the same value again, perhaps in another context
    r = rng.random()
    if r < 0.4:
        a, b, d = "%03d" % rng.randint(0, 999), "%03d" % rng.randint(0, 999), "%04d" % rng.randint(0, 9999)
        return rng.choice(["%s-%s-%s", "(%s) %s-%s", "%s.%s.%s", "%s %s %s", "%s%s%s", "(%s)%s%s", "%s - %s-%s", "(%s %s %s"]) % (a, b, d)
    if r < 0.65:
        ip = ".".join(str(rng.choice([0, 1, 10, 127, 192, 255, rng.randint(0, 255)])) for _ in range(4))
        return rng.choice([ip, ip, ip + ".", "(" + ip + ")", ip + ":80", "256." + ip, ip + ".7", "v" + ip])
    who = rng.choice(["john", "John.Doe", "a+b", "x_y", "(", "first.last99", "é", "(me", "A", "%"])
    dom = rng.choice(["example.com", "mail.example.co.uk", "localhost", "EXAMPLE.org", "x.y", "b", "host.", "dom-ain.net"])
    return rng.choice(["%s@%s", "<%s@%s>", "%s@%s,", "(%s@%s)", "%s@%s.", "%s@%s;", "%s@@%s", "to:%s@%s"]) % (who, dom)


TRIGGERS = ["ISBN", "isbn", "doi", "DOI:", "#", "Isbn-13", "doing", "# "]
URLS = ["http://ab.org/xy ", "https://www.example.com/page ", "www.example.com ", "HTTP://AB.ORG/xy "]


def pii_text(rng):
    """Matches with triggers placed around them, well inside or well outside the window."""
    s, pool = rng.choice(["", " ", filler(rng, rng.randint(0, 80))]), []
    for _ in range(rng.choice([1, 1, 2, 3, 6, 12])):
        item = pii_item(rng, pool)
        pool.append(item)
        r = rng.random()
        before = after = ""
        if r < 0.6:
            trig = rng.choice(TRIGGERS if rng.random() < 0.75 else URLS)
            d = rng.choice([1, 5, 20, 38, 42, 44, 45, 46, 53, 54, 55, 57, 60, 70, 90, 110])
            if trig in URLS and 25 < d < 60:
                d = rng.choice([5, 15, 70])
            if rng.random() < 0.5:
                before = trig + filler(rng, d)
            else:
                after = filler(rng, max(0, d)) + trig
        s += before + rng.choice([" ", " ", " ", "\n", "  ", "\t", "\u2028", "\x85", "\x0b", "\x1c"]) + item + rng.choice([" ", " ", "\n", ", ", "", "\u2029", "\x0c"]) + after + filler(rng, rng.choice([0, 3, 60, 120]))
    return s + rng.choice(["", " ", "\n"])


def p23_pii(c):
    rng = c.rng
    recs, want, seen, skipped = [], collections.Counter(), collections.Counter(), 0
    for _ in range(rng.choice([1, 5, 20, 60])):
        r = rng.random()
        if r < 0.05:
            t = rng.choice(["", " ", "\n", None, "\u3000"])
        else:
            t = pii_text(rng)
            if r < 0.12:
                s, n = rng.choice(JUNK)
                n = rng.choice([n, n, max(1, n - 1)])
                k = rng.randint(0, len(t))
                gap = "" if n == 1 else "z "
                body = (s + gap) * n if n > 1 else s[: len(s) - rng.choice([0, 0, 1])]
                t = t[:k] + " " + body + " " + t[k:]
                if rng.random() < 0.2:
                    t = t * 2
            elif r < 0.125:
                t = t + " " + "x y " * 125000
                t = t[:rng.choice([500000, 500001, 499999])]
        if t and t.strip():
            v = [pii_of(t, w) for w in (47, 48, 50, 52, 53)]
            if any(x != v[2] for x in v):
                continue                     # the verdict hinges on how the window is measured: not decided by the statement
            if junk(t):
                skipped += 1
            else:
                for k, keep in v[2]:
                    seen[k, keep] += 1
                    want[k] += keep
        recs.append(extras(rng, {"text": t}))
    paths, parts = shard(c, recs, most=4)
    run = map_reduce(c, "pii", paths, *(["--bs", str(rng.choice([1, 3, 100])), "--classifier", "regex"] if rng.random() < 0.3 else []))
    want = {k: v for k, v in want.items() if v}
    got = table(run, "pii")
    if got != want:
        for r in recs:       # find a single document that already disagrees
            p = c.path("one.json.gz")
            write_gz(p, [r], rng)
            o = script(c, "pii/map_count.py", "--in_file", p)
            one = collections.Counter(o.lines())
            exp = collections.Counter() if not r["text"] or not r["text"].strip() or junk(r["text"]) else collections.Counter(k for k, keep in pii_of(r["text"], 50) if keep)
            if +one != +exp:
                raise Violation("PII counts of one document: expected %r, got %r" % (dict(exp), dict(one)), text=r["text"], **run.info())
        compare(run, got, want, "PII counts")
    c.count("documents", len(recs))
    c.count("documents skipped as junk", skipped)
    for (k, keep), n in seen.items():
        c.count("%s %s" % (k, "kept" if keep else "dropped"), n)
    if seen:
        c.key("pii", tuple(sorted(want.items())), tuple(sorted(map(repr, recs)))[:5])
        c.sample(documents=len(recs), matches=sum(seen.values()), kept=sum(want.values()))


# ------------------------------------------------------------------ P33

def tail_ok(k, n, p, eps=1e-11):
    """Is k successes in n trials of probability p not in a tail of probability eps (Chernoff bound)?"""
    if p <= 0 or p >= 1:
        return k == (0 if p <= 0 else n)
    if n == 0:
        return k == 0
    q = k / n
    kl = (q * math.log(q / p) if q > 0 else 0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
    return 2 * math.exp(-n * kl) > eps


def sample_records(rng, n, key):
    recs, want = [], []
    for i in range(n):
        v = rng.choice(["u%d" % i, "http://x.org/%d" % i, i, None, ["l", i], {"a": i}, "", "  pad%d " % i, "é\n%d" % i, "0", False])
        r = rng.random()
        if r < 0.5:
            rec, w = {key: v, "text": "t"}, v
            if rng.random() < 0.3:
                rec["metadata"] = {key: "not this"}
        elif r < 0.8:
            rec, w = {"text": "t", "metadata": {key: v, "z": 1}}, v
        elif r < 0.9:
            rec, w = {"text": "t", "metadata": {}}, ""
        else:
            rec, w = {"text": "t"}, ""
        recs.append(rec)
        want.append(w)
    return recs, want


def parse_samples(run, key):
    rows = run.rows()
    for r in rows:
        if not isinstance(r, dict) or list(r) != [key]:
            raise Violation("a sample is not of the form {%s: value}: %r" % (key, r), **run.info())
    return [r[key] for r in rows]


def p33_extremes(c):
    """Fractions 0 and 1, and order and values for every fraction."""
    rng = c.rng
    key = rng.choice(["url", "id", "kéy", "text2", "with space"])
    recs, want = sample_records(rng, rng.choice([0, 1, 5, 50]), key)
    p = c.path("in.json.gz")
    write_gz(p, recs, rng)
    frac = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.01, 0.99, None])
    run = script(c, "random_sample/map_count.py", "--in_file", p, "--key_to_sample", key, *([] if frac is None else ["--sample_fraction", str(frac)])).ok("the mapper")
    got = parse_samples(run, key)
    if frac in (0, 1) and got != (want if frac else []):
        raise Violation("fraction %s selects %d of %d records" % (frac, len(got), len(want)), expected=want, got=got, **run.info())
    it = iter(want)
    if not all(any(json.dumps(g) == json.dumps(w) for w in it) for g in got):
        raise Violation("the samples are not values of input records in order, each at most once", expected=want, got=got, **run.info())
    out = run.stdout
    red = script(c, "random_sample/reduce_count.py", stdin=out).ok("the reducer")
    if parse_samples(red, key) != got:
        raise Violation("the reducer changes the samples", **red.info())
    c.count("records", len(recs))
    if recs:
        c.key("extremes", frac, key, len(recs), len(got))


def p33_distribution(c):
    """How many and which records are selected, over two shards with equal content and two runs."""
    rng = c.rng
    n = 3000 if c.tier == "quick" else 12000
    frac = rng.choice([0.5, 0.3, 0.1, 0.05, 0.7, 0.9])
    # unique values make the selected records known; length and content vary with the record
    recs = [{"url": "u%d" % i, "text": "short" if i % 2 else "long " * 50, "source": "ab"[i % 3 == 0]} for i in range(n)]
    paths = [c.path("s%d.json.gz" % i) for i in range(2)]
    for q in paths:
        write_gz(q, recs, rng)
    runs = [script(c, "random_sample/map_count.py", "--in_file", q, "--sample_fraction", str(frac)).ok("the mapper") for q in (paths[0], paths[1], paths[0])]
    sets = []
    for r in runs:
        s = [int(v[1:]) for v in parse_samples(r, "url")]
        if s != sorted(set(s)):
            raise Violation("samples out of order or repeated", **r.info())
        sets.append(set(s))

    def test(k, m, p, what):
        if not tail_ok(k, m, p):
            raise Violation("%s: %d of %d selected with fraction %s" % (what, k, m, p), fraction=frac)

    for s in sets:
        test(len(s), n, frac, "all records")
        for name, f in {"first quarter": lambda i: i < n // 4, "last quarter": lambda i: i >= 3 * n // 4, "odd": lambda i: i % 2, "even": lambda i: i % 2 == 0, "source a": lambda i: i % 3, "source b": lambda i: i % 3 == 0,
                        "last digit 0": lambda i: i % 10 == 0}.items():
            sub = [i for i in range(n) if f(i)]
            test(sum(i in s for i in sub), len(sub), frac, name)
        test(sum(i in s and i + 1 in s for i in range(0, n - 1, 2)), n // 2, frac * frac, "both of two neighbours")
        test(sum(i in s and i + 1 in s for i in range(1, n - 1, 2)), len(range(1, n - 1, 2)), frac * frac, "both of two neighbours")
    for a, b in itertools.combinations(sets, 2):
        test(len(a & b), n, frac * frac, "selected in two runs")
    c.count("records", 3 * n)
    c.count("statistical tests", 3 * 10 + 3)
    c.key("distribution", frac, sorted(sets[0])[:20])
    c.sample(records=n, fraction=frac, selected=[len(s) for s in sets])


def p33_shell(c):
    """The pipeline as a whole: run.sh over shards; every line an input value, none twice."""
    rng = c.rng
    recs = [{"url": "http://h/%d" % i} for i in range(rng.choice([200, 1500]))]
    paths, parts = shard(c, recs, most=3)
    run = script(c, "random_sample/run.sh", *paths).ok("run.sh")
    got = parse_samples(run, "url")
    where = {r["url"]: (k, i) for k, p in enumerate(parts) for i, r in enumerate(p)}
    if len(set(got)) != len(got) or any(g not in where for g in got):
        raise Violation("a sample is repeated or not an input value", **run.info())
    for k in range(len(parts)):
        seq = [where[g][1] for g in got if where[g][0] == k]
        if seq != sorted(seq):
            raise Violation("samples of one file are out of order", **run.info())
    if not tail_ok(len(got), len(recs), 0.01):
        raise Violation("%d of %d records selected with the default fraction 0.01" % (len(got), len(recs)), **run.info())
    c.count("records", len(recs))
    c.key("shell", len(recs), len(got), len(parts))


# ------------------------------------------------------------------ P34

CATS = ["harmless-minority", "offensive-minority-reference", "offensive-not-minority"]
STEMS = ["blorb", "snark", "gleep", "zonk", "frotz", "wibble", "quux", "norf", "plugh", "ytter", "vexo", "mump", "drib", "klaxo", "jibb"]
TAILS = ["spang", "tinder", "yoke"]


def taxonomy(rng):
    """A term list of disjoint words: plain, several words, and small patterns; at least one term in every category."""
    stems = rng.sample(STEMS, len(STEMS))
    terms = {k: [] for k in CATS}
    n = rng.randint(3, len(stems))
    for i, s in enumerate(stems[:n]):
        k = CATS[i] if i < 3 else rng.choice(CATS)
        r = rng.random()
        if r < 0.55:
            terms[k].append((s, [s]))
        elif r < 0.7:
            terms[k].append((s + "s?", [s, s + "s"]))
        elif r < 0.8:
            terms[k].append((s + "[a-z]*", [s, s + "ish", s + "x"]))
        else:
            t = rng.choice(TAILS)
            terms[k].append((s + " " + t, [s + " " + t]))
            if r > 0.93:
                terms[k].append((s, [s]))
    return terms


def p34_taxonomy(c):
    rng = c.rng
    terms = taxonomy(rng)
    os.makedirs(c.path("resources"))
    rows = [(t, k) for k in CATS for t, _ in terms[k]]
    rng.shuffle(rows)
    with open(c.path("resources/word_based_bias_list.csv"), "w") as f:
        f.write("word,in list of Naughty/Bad Words,sexual / body,slur,notes,categorization\n")
        for t, k in rows:
            f.write("%s,%s,%s,,%s,%s\n" % (t, rng.choice(["1", "0", ""]), rng.choice(["1", ""]), rng.choice(["", '"a, b"', "note?"]), k))
    for t in rng.sample(["zzz", "ignored word"], 1):
        with open(c.path("resources/word_based_bias_list.csv"), "a") as f:
            f.write("%s,1,,,,\n" % t)
    inst = [(x, k) for k in CATS for _, xs in terms[k] for x in xs]
    near = [x + "q" if not any(t.endswith("*") and re.fullmatch(t, x + "q") for k in CATS for t, _ in terms[k]) else "a" + x for x, _ in inst] + ["pre" + x for x, _ in inst] + [x.split()[0][:-1] for x, _ in inst] + TAILS

    def doc():
        ws = []
        for _ in range(rng.choice([1, 2, 5, 15])):
            r = rng.random()
            w = rng.choice(inst)[0] if r < 0.4 else rng.choice(near) if r < 0.6 else rng.choice(["the", "cat", "sat", "9", "é", "zzz", "ignored word"])
            w = rng.choice([w, w, w.upper(), w.title(), w.swapcase()])
            edge = rng.choice(["é", "ñ", "日", "_", "1", "\u0301", "ß", "я"])
            ws.append(rng.choice(["", "", "", "(", '"', "-", edge]) + w + rng.choice(["", "", "", ".", ",", "!", ")", "-", "'s", edge]))
        return rng.choice([" ", " ", "\n", "  ", ", "]).join(ws)

    recs = model_docs(rng, doc)
    paths, parts = shard(c, recs, most=4)
    bs = batch_args(rng, len(recs))
    outs = [script(c, "profanity/map_count.py", "--in_file", p, "--model", "taxonomy", *bs).ok("the mapper").stdout for p in paths]
    run = reduce_lines(c, "profanity", outs).ok("the reducer")
    want = collections.Counter()
    for r in recs:
        t = r["text"]
        if not t or not t.strip():
            continue
        if len(t) > 99999:
            want["long"] += 1
            continue
        hits = collections.Counter()
        for k in CATS:
            spans = set()
            for term, _ in terms[k]:
                # whole words, judged by hand: no word character touches the occurrence
                for m in re.finditer("(?=(%s))" % term, t, re.I):
                    a, b = m.start(1), m.end(1)
                    for e in range(b, a, -1):
                        if re.fullmatch(term, t[a:e], re.I) and not (a and re.match(r"\w", t[a - 1])) and not (e < len(t) and re.match(r"\w", t[e])):
                            spans.add((a, e))
                            break
            last = -1
            for a, e in sorted(spans, key=lambda s: (s[0], -s[1])):
                if a >= last:
                    hits[k] += 1
                    last = e
        want["profane" if hits[CATS[1]] or hits[CATS[2]] else "not profane"] += 1
        want.update({k: v for k, v in hits.items()})
    compare(run, {k: v for k, v in table(run, "profanity").items() if v}, {k: v for k, v in want.items() if v}, "taxonomy labels", terms=rows, batch=bs, shards=[len(p) for p in parts])
    c.count("documents", len(recs))
    c.count("term occurrences", sum(want[k] for k in CATS))
    if len(recs) > 1:
        c.key("taxonomy", tuple(sorted(want.items())), tuple(bs), len(parts))
        c.sample(documents=len(recs), labels=dict(want), batch=bs)


def p34_real_list(c):
    """The term list that ships with the repository: every entry is found in its own category."""
    import csv
    rng = c.rng
    with open(os.path.join(REPO, "resources/word_based_bias_list.csv"), newline="", encoding="utf-8") as f:
        entries = [(r["word"], r["categorization"]) for r in csv.DictReader(f)]
    plain = [(re.sub(r"(\[[^]]*\]|\\w|[a-z+-])[*?]", "", w), w, k) for w, k in entries]
    plain = [(re.sub(r"\[([a-z])[^]]*\]", r"\1", i), k) for i, w, k in plain]
    plain = [(i, k) for i, k in plain if k in CATS and re.fullmatch(r"[A-Za-z]+", i)]
    os.makedirs(c.path("resources"))
    with open(os.path.join(REPO, "resources/word_based_bias_list.csv"), "rb") as f, open(c.path("resources/word_based_bias_list.csv"), "wb") as g:
        g.write(f.read())
    res = {k: [(w, re.compile(w, re.I)) for w, kk in entries if kk == k] for k in CATS}
    pick = rng.sample(plain, 30)
    for k in CATS:
        pick += [[x for x in plain if x[1] == k][0], [x for x in plain if x[1] == k][-1]]
    recs, want = [], collections.Counter()
    for w, k in pick:
        cats = [kk for kk in CATS if any(rx.fullmatch(w) for _, rx in res[kk])]
        recs.append({"text": "word: %s!" % rng.choice([w, w.upper(), w.title()])})
        want["profane" if set(cats) & set(CATS[1:]) else "not profane"] += 1
        for kk in cats:
            want[kk] += 1
    p = c.path("in.json.gz")
    write_gz(p, recs, rng)
    run = script(c, "profanity/map_count.py", "--in_file", p, "--model", "taxonomy", *batch_args(rng, len(recs))).ok("the mapper")
    run = reduce_lines(c, "profanity", [run.stdout]).ok("the reducer")
    compare(run, {k: v for k, v in table(run, "profanity").items() if v}, dict(want), "labels for entries of the shipped list", words=pick)
    c.count("documents", len(recs))
    c.key("shipped", tuple(sorted(map(str, pick))))


def p34_model(c):
    rng = c.rng
    bad = sorted(profanity_check.BAD)

    def doc():
        return rng.choice(["", "", "\n", " "]) + " ".join(rng.choice(["hello", "world", "fine day", "It is.", "So! ", "really?", "no", "a.b", "\n"] + bad[:1] * (rng.random() < 0.3) + bad * (rng.random() < 0.1)) for _ in range(rng.randint(1, 12))) + rng.choice([".", "", "!", " x"])

    recs = model_docs(rng, doc)
    paths, parts = shard(c, recs, most=4)
    bs = batch_args(rng, len(recs))
    per = rng.choice([True, True, False])
    if not bs and per and rng.random() < 0.5:
        run = script(c, "profanity/run.sh", *paths).ok("run.sh")
    else:
        outs = [script(c, "profanity/map_count.py", "--in_file", p, "--model", "model", *(bs + (["--per_sentence"] if per else []))).ok("the mapper").stdout for p in paths]
        run = reduce_lines(c, "profanity", outs).ok("the reducer")
    want = collections.Counter()
    for r in recs:
        t = r["text"]
        if not t or not t.strip():
            continue
        if len(t) > 99999:
            want["long"] += 1
        else:
            want["profane" if profanity_check.BAD & set(re.findall(r"\w+", t.lower())) else "not profane"] += 1
    compare(run, {k: v for k, v in table(run, "profanity").items() if v}, dict(want), "model labels", batch=bs, per_sentence=per, shards=[len(p) for p in parts])
    c.count("documents", len(recs))
    if len(recs) > 1:
        c.key("model", tuple(sorted(want.items())), tuple(bs), per, len(parts))


def p34_many(c):
    """More documents than the sentence splitter is kept for, some of them blank, in few batches or many."""
    rng = c.rng
    bad = sorted(profanity_check.BAD)
    n = 50000 + rng.choice([0, 1, 2, 3, 500])
    recs = [{"text": "fine %d." % i} for i in range(n)]
    for i in rng.sample(range(n), 300) + [49999, n - 1]:
        recs[i] = {"text": rng.choice(["", " ", None, "so %s it is. Yes." % rng.choice(bad)])}
    p = c.path("in.jsonl.gz")
    write_gz(p, recs, rng)
    bs = rng.choice([[], ["--bs", "7"], ["--bs", "50000"], ["--bs", "49999"], ["--bs", "100000"]])
    out = script(c, "profanity/map_count.py", "--in_file", p, "--model", "model", *bs, *rng.choice([[], ["--per_sentence"]])).ok("the mapper").stdout
    run = reduce_lines(c, "profanity", [out]).ok("the reducer")
    want = collections.Counter()
    for r in recs:
        if r["text"] and r["text"].strip():
            want["profane" if profanity_check.BAD & set(re.findall(r"\w+", r["text"].lower())) else "not profane"] += 1
    compare(run, {k: v for k, v in table(run, "profanity").items() if v}, dict(want), "model labels of many documents", batch=bs)
    c.count("documents", n)
    c.key("many", tuple(sorted(want.items())), tuple(bs))


# ------------------------------------------------------------------ P36

MALE, FEMALE = ["he", "him", "his", "himself"], ["she", "her", "hers", "herself"]
REL = ["muslim", "christian", "athiest", "buddhist", "hindu", "jew"]
RACE1, RACE2, PERSON = ["asian", "hispanic", "latino"], ["white", "black"], ["boy", "girl", "people", "women"]


def p36_sentiment(c):
    rng = c.rng
    lex = sorted(spacy_en.LEXICON)

    def sentence():
        ws = [rng.choice(lex + ["day", "thing", "went", "there", "theme", "sheep", "white", "boy"]) if rng.random() < 0.6 else
              rng.choice([rng.choice(MALE), rng.choice(FEMALE), rng.choice(REL), rng.choice(REL) + "s", rng.choice(REL) + rng.choice(["es", "ss", "ity", "like", "x", "_s"]), rng.choice(["s", "non", "x"]) + rng.choice(REL), rng.choice(MALE + FEMALE) + rng.choice(["s", "x", "self"]), rng.choice(RACE1), rng.choice(RACE2) + " " + rng.choice(PERSON)]) for _ in range(rng.randint(1, 9))]
        ws = [w if rng.random() < 0.85 else rng.choice([w.upper(), w.title(), w.lower(), w.capitalize()]) for w in ws]
        return " ".join(ws)

    recs = model_docs(rng, lambda: "".join(sentence() + rng.choice([".", "!", "?", "..."]) + " " for _ in range(rng.choice([1, 1, 2, 5]))) + rng.choice(["", sentence()]))
    recs.append({"text": "he is good. " + sentence()})
    s, n = collections.Counter(), collections.Counter()
    for r in recs:
        t = r["text"]
        if not t or not t.strip() or len(t) > 99999:
            continue
        for sent in spacy_en.sentences(t):
            pol, toks = spacy_en.polarity(sent), set(re.findall(r"\w+", sent))
            ment = ["male"] * sum(x in toks for x in MALE) + ["female"] * sum(x in toks for x in FEMALE) + [x for x in REL if x in toks or x + "s" in toks]
            ment += [x for x in RACE1 if x in sent] + [a for a in RACE2 for b in PERSON if a + " " + b in sent]
            for x in ment:
                s[x] += pol
                n[x] += 1
    paths, parts = shard(c, recs, most=4)
    bs = batch_args(rng, len(recs))
    run = map_reduce(c, "sentiment_coocurrence", paths, *bs)
    rows = run.rows()
    if len(rows) != 1 or not isinstance(rows[0], dict):
        raise Violation("expected one row with the means", **run.info())
    got = rows[0]
    want = {k: s[k] / n[k] for k in n}
    if set(got) != set(want) or any(not isinstance(got[k], (int, float)) or abs(got[k] - want[k]) > 1e-9 * (1 + n[k]) for k in want):
        raise Violation("mean sentiments: expected %r, got %r" % (want, got), **run.info(batch=bs, shards=[len(p) for p in parts], mentions=dict(n)))
    c.count("documents", len(recs))
    c.count("mentions", sum(n.values()))
    if len(n) > 1:
        c.key("sentiment", tuple(sorted(want.items())), tuple(bs), len(parts))
        c.sample(documents=len(recs), mentions=sum(n.values()), means=want)


# ------------------------------------------------------------------ P37

def p37_summarize(c):
    """The summaries of the counts of several datasets, made by the length pipeline or written at random."""
    rng = c.rng
    root = c.path("home")
    for d in ("lengths_data", "lengths_tok_summary", "lengths_char_summary"):
        os.makedirs(os.path.join(root, d))
    want, none = {}, 0
    for i in range(rng.randint(1, 3)):
        name = rng.choice(["c4", "re_pile", "x-y", "laion2B"]) + str(i)
        if rng.random() < 0.4:
            recs = [{"text": "a b"}] + length_records(rng)
            paths, _ = shard(c, recs, most=2)
            data = map_reduce(c, "sentence_lengths", paths).stdout
            cnt = length_counts(recs)
        else:
            cnt = collections.Counter()
            for kind in ("chars", "tokens"):
                for _ in range(rng.choice([1, 2, 10, 200])):
                    cnt["%s %d" % (kind, rng.choice([0, 1, 2, 3, 7, 50, 51, rng.randint(0, 10 ** 6)]))] += rng.choice([1, 2, 5, 1000, 10 ** 9])
            if rng.random() < 0.6:
                cnt["text is None"] = rng.choice([1, 5, 10 ** 6])
            rows = list(cnt.items())
            rng.shuffle(rows)
            data = "".join(json.dumps({"key": k, "count": v}) + "\n" for k, v in rows).encode()
        none += "text is None" in cnt
        with open(os.path.join(root, "lengths_data", name + rng.choice([".jsonl", "", ".lengths.json"])), "wb") as f:
            f.write(data)
        for kind, d, pre in (("tokens", "lengths_tok_summary", "toks_"), ("chars", "lengths_char_summary", "chars_")):
            sub = {k.split()[1]: v for k, v in cnt.items() if k.startswith(kind + " ")}
            tot = sum(sub.values())
            want[d + "/" + pre + name + ".json"] = {k: v / tot for k, v in sub.items()}
    run = PyRun(c, [os.path.join(BIN, "python"), os.path.join(os.path.dirname(STUBS), "lib", "redirected.py"), os.path.join(W, "sentence_lengths/summarize.py"), "/home/alanes/wimbd", root]).ok("summarize.py")
    got = {}
    for d in ("lengths_tok_summary", "lengths_char_summary"):
        for x in os.listdir(os.path.join(root, d)):
            got[d + "/" + x] = json.load(open(os.path.join(root, d, x)))
    if set(got) != set(want):
        raise Violation("summary files: expected %r, got %r" % (sorted(want), sorted(got)), **run.info())
    for k in want:
        if set(got[k]) != set(want[k]) or any(abs(got[k][x] - want[k][x]) > 1e-12 + 1e-9 * want[k][x] for x in want[k]):
            raise Violation("distribution in %s: expected %s, got %s" % (k, sorted(want[k].items())[:8], sorted(got[k].items())[:8]), **run.info())
        if abs(sum(got[k].values()) - 1) > 1e-9:
            raise Violation("shares in %s do not sum to one" % k, **run.info())
    c.count("datasets", len(want) // 2)
    c.count("lengths", sum(map(len, want.values())))
    c.count("datasets with missing texts", none)
    c.key("summary", tuple(sorted((k, tuple(sorted(v.items())[:5])) for k, v in want.items())))
    c.sample(datasets=len(want) // 2, lengths=sum(map(len, want.values())))


STANDINS = "the language, profanity, sentiment, tokenizer and public-suffix packages behave like deterministic functions of one text (stand-ins are used, the real ones are not installed)"
JOBS = "a stand-in for GNU parallel runs the jobs concurrently and prints each job's output as a block, in any order"

P21 = Check("P21", "exploration", [(p21_urls, 5), (p21_dates, 2), (p21_lengths, 2), (p21_reducers, 2)], once=[pyscale.long_lengths, pyscale.many_urls], rule="a run over at least two records, or a reducer run over at least one line, with its table of counts and its sharding", quick=25, thorough=240, assumptions=[JOBS])
P22 = Check("P22", "exploration", [(p22_url_tokens, 3), (p22_suffixes, 2), (p22_language, 3), (p22_reducers, 2)], once=[pyscale.long_domains], rule="a run over at least two records, or a reducer run, with its table, batch size and sharding", quick=25, thorough=240, assumptions=[JOBS, STANDINS])
P23 = Check("P23", "exploration", [(p23_pii, 1)], once=[pyscale.long_pii], rule="a set of documents with at least one match of a PII pattern", quick=25, thorough=240, assumptions=[JOBS, "documents whose verdict depends on how the 50 characters are measured exactly (47 to 53) are left out"])
P33 = Check("P33", "exploration", [(p33_extremes, 4), (p33_distribution, 2), (p33_shell, 1)], once=[pyscale.many_samples], rule="a run over at least one record", quick=20, thorough=240, assumptions=["statistical tests: an error probability of at most 1e-11 per test", JOBS])
P34 = Check("P34", "exploration", [(p34_taxonomy, 4), (p34_model, 3), (p34_real_list, 1), (p34_many, 0.05)], "a run over at least two documents, with its labels, batch size and sharding", quick=25, thorough=240, assumptions=[STANDINS, JOBS])
P36 = Check("P36", "exploration", [(p36_sentiment, 1)], once=[pyscale.many_sums], rule="documents mentioning at least two terms", quick=20, thorough=240, assumptions=[STANDINS, JOBS])
P37 = Check("P37", "exploration", [(p37_summarize, 1)], "a set of length files with its distributions", quick=15, thorough=150, assumptions=["the paths fixed in the script are redirected to a scratch directory"])
