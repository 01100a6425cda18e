"""A randomly chosen command with its options, and what it has to answer for a given set of documents."""
import collections, math, os
import cli, corpus
from core import Violation
import ngram_cmds as ng
import exact_cmds as ex

COMMANDS = ["topk", "botk", "count", "search", "stats", "unique"]


class Tok:
    """Default tokenizer, or a pretrained one given by the path of its tokenizer.json."""

    def __init__(self, c, path=None):
        self.c, self.path = c, path

    def __call__(self, texts):
        o = corpus.oracle(self.c)
        return o.tokens(texts) if self.path is None else o.hf(self.path, texts)

    def strings(self, seqs):
        """How n-grams are printed."""
        seqs = [list(s) for s in seqs]
        if self.path is None:
            return [" ".join(s) for s in seqs]
        return corpus.oracle(self.c).ask(op="hfdecode", path=self.path, seqs=seqs) if seqs else []


class Spec:
    """args: options without paths, limits and workers; check(run, docs, ...) judges an answer."""

    def __init__(self, c, name=None, tok=None, texts=(), k=None, thr=None):
        rng = c.rng
        self.c, self.tok = c, tok or Tok(c)
        self.name = name or rng.choice(COMMANDS)
        self.args = [self.name]
        if self.name in ("topk", "botk", "unique"):
            self.n, self.h = rng.choice([1, 1, 2, 3]), rng.choice([5, 6])
            self.args += ["-n", str(self.n), "-h", str(self.h), "--size", "1MiB" if self.name == "unique" else "16MiB"]
        if self.name in ("topk", "botk"):
            self.k = k or rng.choice([1, 3, 10, 100])
            self.thr = (rng.choice([0, 1]) if thr is None else thr) if self.name == "topk" else ng.U32
            self.args += ["-k", str(self.k)] + (["--threshold", str(self.thr)] if self.name == "topk" else [])
        if self.name == "count":
            lists = [l for l in self.tok(list(texts)) if l]
            strs = []
            for _ in range(rng.choice([1, 2, 4])):
                if lists and rng.random() < 0.8:
                    t = rng.choice([t for t in texts if t] or ["a"])
                    i = rng.randrange(len(t))
                    w = t[i:i + rng.choice([1, 3, 8])].replace("\0", "")
                    if rng.random() < 0.6:
                        w = rng.choice(t.split() or ["a"])
                    strs.append(w)
                else:
                    strs.append(rng.choice(["a", "b", "the", "a b", "zzz"]))
            strs = [s.replace("\0", "") for s in strs]
            self.strs = [s for s in strs if s.strip() and self.tok([s])[0]] or ["a"]
            for s in self.strs:
                self.args += cli.valued("search", s, c)
        if self.name == "search":
            self.pats = rng.sample(["a", "b", r"\w+", "the", "w1", r"\s", "é", "(?i)[a-c] b?", "zzz"], rng.choice([1, 2, 3]))
            for p in self.pats:
                self.args += cli.valued("pattern", p, c)
            self.locations = rng.random() < 0.5
            if self.locations:
                self.args += ["--with-locations"]

    def check(self, run, cor, paths, lim=None, flim=None, rows=None, norm=lambda p: p):
        """cor.files and paths belong together; raises Violation unless the answer is right. -> number of facts"""
        c = self.c
        rows = run.rows() if rows is None else rows
        texts = [d.text for _, _, d in cor.docs(lim, flim) if d.text is not None]
        if self.name in ("topk", "botk"):
            counts = corpus.ngram_counts(self.tok(texts), self.n)
            self.shape(rows, run)
            got = [(tuple(r["tokens"]), r["count"]) for r in rows]
            ng.check_exact(got, counts, self.k, (lambda v: v > self.thr) if self.name == "topk" else (lambda v: v < self.thr), run, self.name == "botk", c)
            return len(got)
        if self.name == "unique":
            if len(rows) != 1 or set(rows[0]) != {"unique_count"}:
                raise Violation("unexpected output", **run.info())
            d, e = len(corpus.ngram_counts(self.tok(texts), self.n)), rows[0]["unique_count"]
            if abs(e - d) > (max(2.0, 0.03 * d) if d else 0):
                raise Violation("estimate %d for %d distinct n-grams" % (e, d), **run.info())
            return d
        if self.name == "count":
            lists = self.tok(texts)
            seqs = [tuple(s) for s in self.tok(self.strs)]
            want = {s: sum(corpus.positions(l, list(s)) for l in lists) for s in set(seqs)}
            got = {}
            for r in rows:
                t = tuple(r["tokens"])
                if t in got or set(r) != {"tokens", "string", "count"}:
                    raise Violation("bad or repeated row %r" % (r,), **run.info())
                got[t] = r["count"]
            self.printed(rows, run)
            if got != want:
                raise Violation("(reported, true) counts differ: %s" % {s: (got.get(s), want.get(s)) for s in set(got) | set(want) if got.get(s) != want.get(s)}, **run.info())
            return sum(want.values())
        if self.name == "search":
            want = ex.expected_matches(c, cor, [norm(p) for p in paths], self.pats, lim, flim)
            got = {}
            for r in rows:
                if r["pattern"] in got:
                    raise Violation("two rows for %r" % r["pattern"], **run.info())
                got[r["pattern"]] = r
            if set(got) != set(self.pats):
                raise Violation("rows for %s, expected %s" % (sorted(got), sorted(self.pats)), **run.info())
            total = 0
            for p in self.pats:
                true = collections.Counter({(path, n, t, s, e): 1 for (path, n, t), ms in want[p].items() for s, e in ms})
                if got[p]["count"] != sum(true.values()):
                    raise Violation("pattern %r: count %d, true count %d" % (p, got[p]["count"], sum(true.values())), **run.info())
                if self.locations:
                    m = {}
                    for path, locs in got[p]["matches"].items():
                        if norm(path) in m:
                            raise Violation("path %s listed twice" % path, **run.info())
                        m[norm(path)] = locs
                    if ex.flatten(m, run) != true:
                        raise Violation("pattern %r: locations differ from the matches" % p, **run.info())
                total += sum(true.values())
            return total
        if self.name == "stats":
            if len(rows) != 1:
                raise Violation("%d rows" % len(rows), **run.info())
            want = ex.expected_stats(c, cor, [norm(p) for p in paths], lim, flim, toks=self.tok)
            row = dict(rows[0])
            for k in ("max_token_documents", "min_token_documents"):
                row[k] = [dict(d, path=norm(d["path"])) for d in row.get(k, [])]
            ex.check_stats(row, want, run)
            return want["total_documents"]

    def shape(self, rows, run):
        seen = set()
        for i, r in enumerate(rows):
            if set(r) != {"tokens", "string", "count", "rank"}:
                raise Violation("row has keys %s" % sorted(r), **run.info())
            t = tuple(r["tokens"])
            if r["rank"] != i + 1 or len(t) != self.n or t in seen:
                raise Violation("bad row %r at place %d" % (r, i + 1), **run.info())
            seen.add(t)
        self.printed(rows, run)

    def printed(self, rows, run):
        for r, s in zip(rows, self.tok.strings([r["tokens"] for r in rows])):
            if r["string"] != s:
                raise Violation("string %r for tokens %r, expected %r" % (r["string"], r["tokens"], s), **run.info())

    def canon(self, rows, run):
        """The part of the answer that must not depend on scheduling and sharding."""
        if self.name in ("topk", "botk"):
            vals = [r["count"] for r in rows]
            # which of several equally frequent n-grams come last is free
            firm = {tuple(r["tokens"]): r["count"] for r in rows if len(rows) < self.k or r["count"] != vals[-1]}
            return (vals, firm)
        if self.name == "unique":
            return rows
        if self.name == "count":
            return {tuple(r["tokens"]): (r["count"], r["string"]) for r in rows}
        if self.name == "search":
            out = {}
            for r in rows:
                locs = collections.Counter()
                for ls in (r.get("matches") or {}).values():
                    for l in ls:
                        for s in l["submatches"]:
                            locs[(l["text"], s["start_col"], s["end_col"])] += 1
                out[r["pattern"]] = (r["count"], locs)
            return out
        r = rows[0]
        return ({k: v for k, v in r.items() if not isinstance(v, list)}, collections.Counter(d["num_tokens"] for d in r["max_token_documents"]), collections.Counter(d["num_tokens"] for d in r["min_token_documents"]))
