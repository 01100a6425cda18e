"""Random corpora of gzip JSON-lines files, and naive answers about them."""
import collections, gzip, io, json, os, subprocess, zlib
from core import Inconclusive

WORDS = ["a", "b", "c", "the", "The", "of", "x1", "2.0", "don't", "foo_bar", "e-mail", "U.S.A", "café", "naïve", "łódź", "ПРИВЕТ", "привет",
         "東京", "日本語", "ひらがな", "カタカナ", "한국어", "สวัสดี", "हिन्दी", "👍", "👨‍👩‍👧", "🇩🇪", "é", "ﬁ", "ß", "İ", "!", "?", ".", ",", "--", "...", "(", ")",
         "http://x.org/a?b=c", "a@b.co", "1,234.56", "$5", "'", '"', "\\", "/", "\u200b", "\u00ad", "\x7f", "\x01", "שלום", "مرحبا", "a\u0308\u0323", "\U0001d54f"]
SPACES = [" ", " ", " ", " ", "  ", "\n", "\t", "\r\n", "\u00a0", "\u3000", "\u2028", ""]
ALPHA = ["a", "b", "c", "d", "e", "f", "g", "h"]


def gz(data, rng=None, level=None, members=None):
    """gzip-compresses `data`, possibly as several members and with header fields."""
    rng_choice = (lambda x: x[0]) if rng is None else rng.choice
    level = rng_choice([6, 1, 9, 0, 3]) if level is None else level
    n = members or (1 if rng is None or rng.random() < 0.7 else rng.randint(2, 4))
    cuts = sorted(rng.randint(0, len(data)) for _ in range(n - 1)) if n > 1 else []
    parts, last = [], 0
    for c in cuts + [len(data)]:
        parts.append(data[last:c])
        last = c
    out = b""
    for p in parts:
        bio = io.BytesIO()
        with gzip.GzipFile(filename="x.json" if rng is not None and rng.random() < 0.3 else "", mode="wb", fileobj=bio, compresslevel=level, mtime=0) as f:
            f.write(p)
        out += bio.getvalue()
    return out


LOOKALIKE = ["content", "Text", "TEXT", "body", "raw_text", "raw_content", "contents", "document", "doc", "text_", "_text", " text", "txt", "data", "value", "abstract", "title", "message", "code", "caption"]


class Doc:
    """One record: the raw line (without terminator) and what it means."""

    def __init__(self, text, raw, has_text=True):
        self.text, self.raw, self.has_text = text, raw, has_text


def make_text(rng, style, vocab, mean):
    n = 0 if rng.random() < 0.04 else max(0, int(rng.expovariate(1.0 / mean)))
    if style == "alpha":
        return " ".join(rng.choice(vocab) for _ in range(n))
    if style == "zipf":
        return " ".join(vocab[min(len(vocab) - 1, int(rng.paretovariate(0.8)) - 1)] for _ in range(n))
    if style == "cycle":
        start = rng.randrange(len(vocab))
        return " ".join(vocab[(start + i) % len(vocab)] for i in range(n))
    s = ""
    for _ in range(n):
        s += rng.choice(vocab) + rng.choice(SPACES)
    if rng.random() < 0.1:
        s = rng.choice(SPACES) + s
    return s


def make_doc(rng, text):
    r = rng.random()
    asc = rng.random() < 0.5
    sep = rng.choice([None, (",", ":"), (" , ", " : ")])
    if r < 0.04:
        obj, t, has = {"text": None, "url": "u"}, None, False
    elif r < 0.08:
        obj, t, has = {"url": "u", "meta": {"text": "hidden", "n": [1, {"text": "x"}]}}, None, False
        if rng.random() < 0.6:
            # what only looks like the text
            obj[rng.choice(LOOKALIKE)] = text
    else:
        obj, t, has = {"text": text}, text, True
        if rng.random() < 0.3:
            if rng.random() < 0.3:
                obj[rng.choice(LOOKALIKE)] = "w1 w2 other"
            extra = {**obj, "id": rng.randint(0, 99), "url": "http://e.org/" + str(rng.randint(0, 9)), "metadata": {"text": "not this", "k": None}, "f": 1.5e300, "l": [[], {}]}
            items = list(extra.items()) + [("text", text)]
            rng.shuffle(items)
            obj = dict(items)
    raw = json.dumps(obj, ensure_ascii=asc, separators=sep)
    if rng.random() < 0.1:
        raw = " \t" + raw + rng.choice(["  ", "\r", "\t"])
    return Doc(t, raw.encode("utf-8", "surrogatepass"), has)


HUGE = [2047, 2048, 2049, 4096, 8191, 8192, 8193, 32768, 65535, 65536, 65537, 131072, (1 << 20) - 30, 1 << 20, (1 << 20) + 30, 5 << 20]


def huge_doc(rng, vocab):
    """A record around the sizes of common buffers: by a long field, a long token, or many tokens."""
    size, kind = rng.choice(HUGE), rng.random()
    if kind < 0.6:
        t = " ".join(rng.choice(vocab) for _ in range(rng.randint(1, 5)))
        items = [("x", rng.choice("zé€") * size), ("text", t)]
        return Doc(t, json.dumps(dict(items if rng.random() < 0.5 else items[::-1]), ensure_ascii=False).encode())
    if kind < 0.85:
        t = rng.choice(["", "a "]) + rng.choice("zé") * min(size, 1 << 20) + rng.choice(["", " b"])
    elif kind < 0.9:
        # more tokens than 16 bits count
        v = rng.sample(vocab, min(3, len(vocab)))
        t = " ".join(rng.choice(v) for _ in range(rng.choice([65535, 65536, 65537, 70000])))
        t = t[:280000]
    else:
        v = rng.sample(vocab, min(3, len(vocab)))
        n = min(size, 70000) // 2
        t = " ".join(rng.choice(v) for _ in range(n))[: 70000]
    return Doc(t, json.dumps({"text": t}, ensure_ascii=False).encode())


class File:
    def __init__(self, docs, final_newline=True):
        self.docs, self.final_newline = docs, final_newline

    def data(self):
        b = b"".join(d.raw + b"\n" for d in self.docs)
        if b and not self.final_newline:
            b = b[:-1]
        return b

    def head(self, limit):
        return self.docs if limit is None else self.docs[:limit]

    def head_bytes(self, limit):
        lines = self.data().splitlines(True) if False else [l for l in self.data().split(b"\n")]
        # split on '\n' only
        out, data = 0, self.data()
        n, pos = 0, 0
        while pos < len(data) and (limit is None or n < limit):
            e = data.find(b"\n", pos)
            e = len(data) if e < 0 else e + 1
            out += e - pos
            pos, n = e, n + 1
        return out


class Corpus:
    def __init__(self, files):
        self.files = files
        self.paths = []

    def write(self, directory, rng, names=None):
        os.makedirs(directory, exist_ok=True)
        self.paths = []
        for i, f in enumerate(self.files):
            p = os.path.join(directory, names[i] if names else "f%03d.json.gz" % i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(gz(f.data(), rng))
            self.paths.append(p)
        return self.paths

    def docs(self, limit=None, file_limit=None):
        """yields (path index, line number, Doc)"""
        for i, f in enumerate(self.files if file_limit is None else self.files[:file_limit]):
            for n, d in enumerate(f.head(limit)):
                yield i, n + 1, d


def random_corpus(rng, max_files=10, max_docs=25, style=None, mean=None, min_files=1, vocab=None, cap_tokens=6000, need_text=False, huge=0.05):
    style = style or rng.choice(["alpha", "alpha", "zipf", "cycle", "mixed", "mixed"])
    if vocab is None:
        if style == "mixed":
            vocab = rng.sample(WORDS, rng.randint(2, len(WORDS)))
        else:
            vocab = ["w%d" % i for i in range(rng.choice([2, 5, 30, 200]))] if rng.random() < 0.5 else ALPHA[: rng.randint(1, 8)]
    mean = mean or rng.choice([2, 6, 20, 60])
    nfiles = rng.choice([1, 2, 3, rng.randint(min_files, max_files)])
    nfiles = max(min_files, min(nfiles, max_files))
    files, total = [], 0
    for _ in range(nfiles):
        nd = 0 if rng.random() < 0.08 else rng.randint(1, max_docs)
        docs = []
        for _ in range(nd):
            t = make_text(rng, style, vocab, mean)
            total += len(t) // 2
            if total > cap_tokens:
                t = t[:20]
            docs.append(make_doc(rng, t))
        files.append(File(docs, rng.random() < 0.85))
    if rng.random() < huge:
        f = rng.choice(files)
        f.docs.insert(rng.randint(0, len(f.docs)), huge_doc(rng, vocab))
    if need_text and not any(d.has_text for f in files for d in f.docs):
        files[0].docs.append(Doc("a b c", b'{"text": "a b c"}'))
    return Corpus(files)


class Oracle:
    """The reference server (harness/oracle)."""

    def __init__(self, binary):
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, **req):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b""
        if not line.endswith(b"\n"):
            self.p.kill()
            self.p.wait()
            raise Inconclusive("the reference server ended")
        return json.loads(line)["out"]

    def tokens(self, texts):
        uniq = list(dict.fromkeys(texts))
        m = dict(zip(uniq, self.ask(op="tok", texts=uniq))) if uniq else {}
        return [m[t] for t in texts]

    def hf(self, path, texts):
        uniq = list(dict.fromkeys(texts))
        m = dict(zip(uniq, self.ask(op="hf", path=path, texts=uniq))) if uniq else {}
        return [m[t] for t in texts]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_oracle = {}


def oracle(case):
    """One oracle process per worker process."""
    o = _oracle.get(os.getpid())
    if o is None or o.p.poll() is not None:
        o = _oracle[os.getpid()] = Oracle(case.env["oracle"])
    return o


def ngram_counts(token_lists, n):
    c = collections.Counter()
    for toks in token_lists:
        for i in range(len(toks) - n + 1):
            c[tuple(toks[i:i + n])] += 1
    return c


def positions(toks, seq):
    k = len(seq)
    return sum(1 for i in range(len(toks) - k + 1) if toks[i:i + k] == seq)
