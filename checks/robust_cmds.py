"""P13 fail-stop, P14 transient read failures, P18 clean termination, P20 refusals."""
import collections, gzip, json, os, re, zlib
import answers, bursts, cli, corpus, scale
import ngram_cmds as ng
import exact_cmds as ex
from core import Check, Violation

CLI = ("plain", "noise", "oracle")

# ------------------------------------------------------------------------------------------- faulty inputs

BAD_LINES = [b"not json", b'{"text": "a', b"", b"   ", b'{"text": 5}', b'{"text": ["a"]}', b'"text"', b"5", b"null", b"true", b'{"text": "a"} x', b'{"text": "a"}{"text": "b"}', b'{"text": "\\ud800"}',
             b'{"text": {"a": 1}}', b"{'text': 'a'}", b'{"text": "a",}', b"{text: 1}", b'{"text": false}', b"\xef\xbb\xbf{}", b'{"text": "a\x00b"}', b'{"text": 1.5, "x": "y"}', b"}", b'{"a": 1, "text": [null]}', b'{"text": "a\tb"}',
             b'["a"]', b'[null]', b' ["a b"] ', b"[]", b'["a", 1]']
BAD_UTF8 = [b'{"text": "a\xff"}', b'{"text": "\xc3("}', b"\x80", b'{"text": "\xed\xa0\x80"}', b'{"x": "\xf5\x80\x80\x80", "text": "a"}', b'{"text": "\xe2\x82']


def bad_gz(c, data):
    """-> (kind, bytes) of a damaged gzip file whose decompressed content would have been `data`"""
    rng = c.rng
    z = corpus.gz(data, rng, members=1)
    kind = rng.choice(["truncated", "truncated", "no_trailer", "crc", "length", "flip", "plain", "empty", "garbage_after", "second_truncated", "bz2ish"])
    if kind == "truncated":
        return kind, z[: rng.randrange(1, len(z) - 8)] if len(z) > 9 else z[:5]
    if kind == "no_trailer":
        return kind, z[: -rng.randint(1, 8)]
    if kind == "crc":
        i = len(z) - 8 + rng.randrange(4)
        return kind, z[:i] + bytes([z[i] ^ (1 << rng.randrange(8))]) + z[i + 1:]
    if kind == "length":
        i = len(z) - 4 + rng.randrange(4)
        return kind, z[:i] + bytes([z[i] ^ (1 << rng.randrange(8))]) + z[i + 1:]
    if kind == "flip":
        # a flipped bit in the compressed data that makes the decoder or the checksum fail
        for _ in range(50):
            i = rng.randrange(10, len(z)) if len(z) > 18 else 3
            y = z[:i] + bytes([z[i] ^ (1 << rng.randrange(8))]) + z[i + 1:]
            try:
                if gzip.decompress(y) == data:
                    continue
            except Exception:
                return kind, y
        return "no_trailer", z[:-1]
    if kind == "plain":
        return kind, data or b"{}\n"
    if kind == "empty":
        return kind, b""
    if kind == "garbage_after":
        return kind, z + b"garbage" * rng.randint(2, 20)
    if kind == "second_truncated":
        y = corpus.gz(data + b"{}\n", rng, members=1)
        return kind, z + y[: rng.randrange(4, len(y))]
    return kind, b"BZh91AY" + z


def spoil(c, cor, paths, i, lim):
    """Damages file i within the limits -> description, or None if it cannot be."""
    rng, f = c.rng, cor.files[i]
    r = rng.random()
    if r < 0.12:
        os.unlink(paths[i])
        return "missing"
    if r < 0.15:
        os.unlink(paths[i])
        os.symlink("/nonexistent/x", paths[i])
        return "dangling"
    if r < 0.5 and lim is None:
        kind, b = bad_gz(c, f.data())
        with open(paths[i], "wb") as fh:
            fh.write(b)
        return "gzip:" + kind
    bad = rng.choice(BAD_LINES if rng.random() < 0.75 else BAD_UTF8)
    lines = [d.raw for d in f.docs]
    at = rng.randint(0, len(lines) if lim is None else min(len(lines), lim - 1))
    lines.insert(at, bad)
    data = b"\n".join(lines) + (b"\n" if bad in (b"", b"   ") or f.final_newline else b"")
    with open(paths[i], "wb") as fh:
        fh.write(corpus.gz(data, rng))
    return "line:%r" % bad


def failed_cleanly(c, run, out, what, before=None):
    if run.rc == 0:
        raise Violation("%s, but the exit status is 0" % what, **run.info())
    if run.stdout.strip():
        raise Violation("%s, but results were printed" % what, **run.info())
    if out and os.path.exists(out):
        b = open(out, "rb").read()
        if before is not None and b == before:
            return
        if b.strip():
            raise Violation("%s, but %d bytes were written to the output file" % (what, len(b)), content=b[:300], **run.info())


def small_corpus(c, **kw):
    r = c.rng.random()
    if r < 0.5:
        return corpus.random_corpus(c.rng, max_files=8, max_docs=10, cap_tokens=1500, **kw)
    nf = c.rng.choice([1, 2, 4, 8, 16])
    vocab = corpus.ALPHA[: c.rng.randint(2, 8)]
    return corpus.Corpus([corpus.File([corpus.make_doc(c.rng, " ".join(c.rng.choice(vocab) for _ in range(c.rng.randint(0, 12)))) for _ in range(c.rng.choice([0, 1, 1, 2, 3, 30]))], c.chance(0.8)) for _ in range(nf)])


def spec_for(c, cor, **kw):
    return answers.Spec(c, texts=[d.text for _, _, d in cor.docs() if d.text], **kw)


def out_args(c, spec, p=0.5):
    if spec.name == "unique" or not c.chance(p):
        return [], None
    out = c.path("result.jsonl")
    return ["-o", out], out


def fail_stop(c):
    cor = small_corpus(c)
    spec = spec_for(c, cor)
    paths = cor.write(c.path("in"), c.rng)
    largs, lim = [], None
    if c.chance(0.2):
        lim = c.rng.choice([1, 2, 5, 1000])
        largs = ["-l", str(lim)]
    bad = set(c.rng.sample(range(len(paths)), min(len(paths), c.rng.choice([1, 1, 1, 2, len(paths)]))))
    kinds = [spoil(c, cor, paths, i, lim) for i in sorted(bad)]
    oargs, out = out_args(c, spec)
    argv = spec.args + largs + oargs + cli.workers_args(c) + cli.quietness(c) + (["--json"] if c.chance(0.7) else []) + paths
    for _ in range(c.rng.choice([1, 2])):
        run = cli.Run(c, argv)
        failed_cleanly(c, run, out, "bad input (%s)" % ", ".join(kinds))
        if run.crashed():
            raise Violation("crashed on bad input (%s)" % ", ".join(kinds), **run.info())
        if out and os.path.exists(out):
            os.unlink(out)
    for k in kinds:
        c.count("defect:" + k[:40])
        c.key(spec.name, k, len(paths), sorted(bad)[0], lim)
    c.count("command:" + spec.name)
    c.sample(command=spec.name, defects=kinds, files=len(paths), limit=lim)


def beyond_limits(c):
    """Defects beyond the limits are not inspected."""
    cor = small_corpus(c)
    spec = spec_for(c, cor)
    lim = c.rng.choice([0, 1, 2, 5])
    flim = c.rng.choice([None, 1, 2])
    good = corpus.Corpus([corpus.File(list(f.docs), True) for f in cor.files])
    dirty = corpus.Corpus([corpus.File(f.docs[:lim] + [corpus.Doc(None, c.rng.choice([b for b in BAD_LINES])) for _ in range(c.rng.randint(0, 2))] if len(f.docs) >= lim else list(f.docs), True) for f in cor.files])
    paths = dirty.write(c.path("in"), c.rng)
    dirty.files = [corpus.File(f.docs[:lim], True) for f in dirty.files]
    args = ["-l", str(lim)]
    if flim is not None:
        args += ["--file-limit", str(flim)]
        for p in paths[flim:]:
            if c.chance(0.5):
                os.unlink(p)
            elif c.chance(0.5):
                open(p, "wb").write(b"junk")
    run = cli.Run(c, spec.args + args + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths)
    facts = spec.check(run, dirty, paths, None, flim)
    c.count("defects_beyond_limits")
    if facts:
        c.key("beyond", spec.name, lim, flim, facts)
    del good


def absent_texts(c):
    """Records without text are valid and contribute nothing."""
    rows = [corpus.Doc(None, c.rng.choice([b"{}", b'{"text": null}', b'{"Text": "a b"}', b'{"x": {"text": "a"}}', b' { "text" : null , "y" : [ ] } ']), False) for _ in range(c.rng.randint(1, 8))]
    cor = corpus.Corpus([corpus.File(c.rng.sample(rows, c.rng.randint(0, len(rows))) + [corpus.make_doc(c.rng, "a b the w1 a b") for _ in range(c.rng.randint(0, 2))]) for _ in range(c.rng.randint(1, 4))])
    paths = cor.write(c.path("in"), c.rng)
    spec = spec_for(c, cor)
    run = cli.Run(c, spec.args + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths)
    facts = spec.check(run, cor, paths)
    c.key("absent", spec.name, facts, len(paths))


P13 = Check("P13", "exploration", [(fail_stop, 12), (beyond_limits, 2), (absent_texts, 1)], once=[scale.damage_far_down], needs=CLI, quick=20, thorough=240,
            rule="random corpora in which 1..all files are damaged within the limits (missing, dangling link, truncated / bit-flipped / wrong-checksum / trailing-garbage gzip, plain text, malformed or mistyped lines, bad UTF-8) under every command; the run has to fail without rows on stdout or in the "
                 "output file; conversely defects beyond the limits and absent texts must not matter; distinct by command, defect, place, number of files and limit",
            assumptions=["only damage inside the configured limits is judged; with a line limit only whole-line defects are planted"])


# ------------------------------------------------------------------------------------------- P14

ERRNOS = [5, 5, 5, 24, 116, 110, 13, 104]     # EIO, EMFILE, ESTALE, ETIMEDOUT, EACCES, ECONNRESET


def fault_rules(c, cor, paths, limited, most):
    rules, planned = [], {}
    for i in c.rng.sample(range(len(paths)), c.rng.randint(1, len(paths))):
        times = c.rng.choice([1, 1, 2, 2, 3, 4, 7] if most is None else [x for x in (1, 2, 3, 5) if x <= most])
        size = os.path.getsize(paths[i])
        for t in range(1):
            kind = c.rng.choice(["open", "read", "read", "read"] + ([] if limited else ["alt"]))
            if kind == "open":
                rules.append("%s\t%d\topen\t%d" % (paths[i], times, c.rng.choice(ERRNOS)))
            elif kind == "read":
                off = c.rng.choice([0, 1, size - 1, size, c.rng.randrange(size + 1), c.rng.randrange(size + 1)])
                rules.append("%s\t%d\tread\t%d\t%d" % (paths[i], times, c.rng.choice(ERRNOS), off))
            else:
                data = cor.files[i].data()
                bad = paths[i] + ".damaged"
                z = corpus.gz(data, c.rng, members=1)
                cut = c.rng.choice([len(z) - 1, len(z) - 8, c.rng.randrange(1, len(z))])
                b = z[:cut]
                if c.chance(0.3):
                    b = corpus.gz(data + b'{"text": ', c.rng)          # every record readable, then a broken line
                open(bad, "wb").write(b)
                rules.append("%s\t%d\talt\t%s" % (paths[i], times, bad))
        planned[paths[i]] = times
    for p in paths:
        if c.chance(0.2):
            rules.append("%s\t-1\tshort\t%d" % (p, c.rng.choice([1, 7, 100])))
        if c.chance(0.2):
            rules.append("%s\t-1\tslow\t%d" % (p, c.rng.choice([100, 3000])))
    return rules


def shim_env(c, rules):
    rf, log = c.path("rules"), c.path("shimlog")
    with open(rf, "w") as f:
        f.write("\n".join(rules) + "\n")
    if os.path.exists(log):
        os.unlink(log)
    return {"LD_PRELOAD": c.env["shim"], "SHIM_RULES": rf, "SHIM_LOG": log, "SHIM_SEED": str(c.rng.randrange(1 << 30))}


def fired(c):
    n = collections.Counter()
    for l in open(c.path("shimlog"), encoding="utf-8", errors="replace") if os.path.exists(c.path("shimlog")) else []:
        kind, p = l.rstrip("\n").split("\t", 1)
        if kind != "opened":
            n[p] += 1
    return n


def stats_faults(c):
    cor = ex.stats_corpus(c)
    cor.files = cor.files[:10]
    paths = cor.write(c.path("in"), c.rng)
    lim = c.rng.choice([None, None, None, 1, 2, 5])
    rules = fault_rules(c, cor, paths, lim is not None, 2 if c.chance(0.6) else None)
    out = c.path("o.jsonl") if c.chance(0.3) else None
    argv = ["stats", "--json"] + ([] if lim is None else ["-l", str(lim)]) + ([] if out is None else ["-o", out]) + cli.workers_args(c) + cli.quietness(c) + paths
    want = ex.expected_stats(c, cor, paths, lim, None)
    run = cli.Run(c, argv, env=shim_env(c, rules))
    n = fired(c)
    worst = max(n.values(), default=0)
    c.count("faults_fired", sum(n.values()))
    c.count("worst_%d" % min(worst, 4))
    if worst >= 3:
        failed_cleanly(c, run, out, "reading failed %d times for a file" % worst)
    else:
        if run.rc != 0:
            raise Violation("every file failed at most twice, but the run failed", faults=dict(n), rules=rules, **run.info())
        rows = run.rows()
        if len(rows) != 1:
            raise Violation("%d rows" % len(rows), faults=dict(n), **run.info())
        try:
            ex.check_stats(rows[0], want, run)
        except Violation as v:
            raise Violation(v.msg, faults=dict(n), rules=rules, **v.info)
    if run.crashed():
        raise Violation("crashed after read failures", rules=rules, **run.info())
    if n:
        c.key(tuple(sorted((os.path.basename(p), k) for p, k in n.items())), want["total_tokens"], lim, [r.split("\t")[2] for r in rules])
    c.sample(files=len(paths), faults={os.path.basename(p): k for p, k in n.items()}, failed=run.rc != 0)


def other_faults(c):
    cor = small_corpus(c)
    paths = cor.write(c.path("in"), c.rng)
    spec = spec_for(c, cor, name=c.rng.choice(["topk", "botk", "count", "search", "unique"]))
    rules = fault_rules(c, cor, paths, False, None)
    oargs, out = out_args(c, spec)
    run = cli.Run(c, spec.args + oargs + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths, env=shim_env(c, rules))
    n = fired(c)
    c.count("faults_fired", sum(n.values()))
    if n:
        failed_cleanly(c, run, out, "%s: a read failure" % spec.name)
        c.key(spec.name, tuple(sorted(n.values())), [r.split("\t")[2] for r in rules])
    else:
        spec.check(run, cor, paths)
        c.count("no_fault_fired")
    if run.crashed():
        raise Violation("crashed after read failures", rules=rules, **run.info())


P14 = Check("P14", "exploration", [(stats_faults, 4), (other_faults, 1)], needs=CLI + ("shim",), quick=20, thorough=240,
            rule="random corpora read through an LD_PRELOAD layer that fails opens, fails reads at chosen byte offsets, substitutes damaged content, and shortens and delays reads, 1-7 times per file; the layer logs the faults that fired and the oracle uses those: at most two per file -> exact statistics, "
                 "three -> failure without results, any other command -> failure; non-trivial: at least one fault fired; distinct by faults per file and totals",
            assumptions=["read failures are those a libc open/read can report (EIO, EMFILE, ESTALE, ...) or damaged content", "word segmentation reference: unicode-segmentation crate called directly"])


# ------------------------------------------------------------------------------------------- P18

SAN = re.compile(r"ThreadSanitizer|AddressSanitizer|UndefinedBehavior|panicked at|attempt to \w+ with overflow|SUMMARY: ")


def clean(c, run, expect=None, what=""):
    if run.rc < 0 or run.rc in (66, 101, 134, 139) or SAN.search(run.stderr) or SAN.search(run.stdout.decode("utf-8", "replace")):
        raise Violation("%srun did not end cleanly" % what, **run.info())
    if expect == "ok" and run.rc != 0:
        raise Violation("%svalid run failed" % what, **run.info())
    if expect == "fail" and run.rc == 0:
        raise Violation("%sinvalid run succeeded" % what, **run.info())


def any_flavour(c):
    fl = [f for f in ("plain", "noise", "tsan", "tsan", "tsan", "asan") if f in c.env]
    return c.rng.choice(fl)


SAN_ENV = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_signal_unsafe=0", "ASAN_OPTIONS": "detect_leaks=0"}


def wild_options(c, name):
    rng, a = c.rng, [name]
    if name in ("topk", "botk", "unique"):
        u64 = name == "topk" and rng.random() < 0.3
        slots = rng.choice([1, 2, 3, 7, 100, 65537])
        a += ["-n", str(rng.choice([1, 2, 3, 7, 50, 1000])), "-h", str(rng.choice([1, 2, 5, 64, 255])), "--size", "%dB" % (slots * (1 if name == "unique" else 8 if u64 else 4))]
        if u64:
            a += ["--u64"]
        if rng.random() < 0.6:
            a += ["--seed", str(rng.choice([0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 255, 2 ** 32 - 1]))]
    if name in ("topk", "botk"):
        a += ["-k", str(rng.choice([1, 2, 5, 1000, 100000]))]
        if rng.random() < 0.5:
            a += ["--threshold", str(rng.choice([0, 1, 2, 2 ** 32 - 1]))]
        if name == "botk" and rng.random() < 0.4:
            a += ["--p-keep", rng.choice(["1", "0.5", "1e-9", "0.999999"])]
    if name == "count":
        for _ in range(rng.choice([1, 3, 40])):
            a += cli.valued("search", " ".join(rng.choice(corpus.WORDS[:30]) for _ in range(rng.choice([1, 2, 30]))).replace("\0", "") + "x", c)
    if name == "search":
        for _ in range(rng.choice([1, 3, 10])):
            a += cli.valued("pattern", rng.choice([p for p in ex.PATTERNS]), c)
        if rng.random() < 0.6:
            a += ["--with-locations"] + (["--locations-limit", str(rng.choice([0, 1, 2, 100, 2 ** 64 - 1]))] if rng.random() < 0.5 else [])
    if rng.random() < 0.2:
        a += ["-l", str(rng.choice([0, 1, 3, 2 ** 64 - 1]))]
    if rng.random() < 0.2:
        a += ["--file-limit", str(rng.choice([1, 2, 2 ** 63]))]
    return a


ODD = ["f", "f", "{msg}", "{wide_bar}", "sp ace", "é" * 60, "line\nbreak", "tab\t", "caf\udce9", "\udcff\udcfe", "x" * 230, "-", "%s%n", "\x1b[31m", "\u202e", "👩‍👩‍👧" * 9, "."]


def wild(c):
    cor = small_corpus(c)
    if c.chance(0.1):
        cor.files.append(corpus.File([corpus.make_doc(c.rng, "a b " * c.rng.choice([1000, 8000]))]))
    names = None
    if c.chance(0.3):
        names = ["%s%d%s" % (c.rng.choice(ODD), i, c.rng.choice([".json.gz", ".json.gz", "", ".gz", "\udce9.json.gz"])) for i in range(len(cor.files))]
    paths = cor.write(c.path("in"), c.rng, names)
    raw = any("\udc80" <= ch <= "\udcff" for p in paths for ch in p)
    name = c.rng.choice(answers.COMMANDS)
    argv = wild_options(c, name)
    if "-n" in argv:
        # hashing is slow under the sanitizers
        n, h = argv.index("-n") + 1, argv.index("-h") + 1
        tokens = sum(len(d.text or "") for _, _, d in cor.docs()) // 2
        while int(argv[n]) * int(argv[h]) * tokens > 2 * 10 ** 7 and (int(argv[n]) > 1 or int(argv[h]) > 1):
            i = n if int(argv[n]) > int(argv[h]) else h
            argv[i] = str(int(argv[i]) // 2)
    bad = c.chance(0.35)
    if bad:
        for i in c.rng.sample(range(len(paths)), c.rng.choice([1, 1, min(2, len(paths))])):
            kind = spoil(c, cor, paths, i, None)
        argv = [a for a in argv]
    oargs = ["-o", c.path("o/p/result.jsonl")] if name != "unique" and c.chance(0.3) else []
    fl = any_flavour(c)
    env = dict(SAN_ENV)
    if fl == "plain" and names is None and c.chance(0.3):
        env.update(shim_env(c, ["%s\t-1\tslow\t%d" % (p, c.rng.choice([50, 2000, 20000])) for p in paths if c.chance(0.5)] + ["%s\t-1\tshort\t%d" % (p, c.rng.choice([1, 5, 300])) for p in paths if c.chance(0.3)]))
    jargs = ["-j", str(c.rng.choice([0, 1, 2, 3, 8, 16, 64, 300]))] if c.chance(0.85) else []
    argv = argv + oargs + jargs + (["-q"] if c.chance(0.3 if names else 0.7) else []) + (["--json"] if c.chance(0.7) else []) + paths
    limited = "-l" in argv or "--file-limit" in argv
    run = cli.Run(c, argv, fl=fl, env=env, patience=60)
    # paths that cannot be written as JSON are refused, at the latest when they have to be named
    unnameable = raw and (name == "stats" or "--with-locations" in argv)
    c.count("names_not_utf8", 1 if raw else 0)
    clean(c, run, None if bad and limited or unnameable and not bad else "fail" if bad else "ok", ("bad input (%s): " % kind) if bad else "")
    c.count("command:" + name)
    c.count("ended_ok" if run.rc == 0 else "ended_with_error")
    c.key(name, fl, bad, argv[1:16], len(paths))
    c.sample(command=name, flavour=fl, bad_input=bad, argv=" ".join(a for a in argv if "/" not in a)[:150])


def invalid_options(c):
    name, kind, args = c.rng.choice(INVALID)
    cor = small_corpus(c)
    paths = cor.write(c.path("in"), c.rng)
    run = cli.Run(c, [name] + args + ["-q"] + paths, fl=any_flavour(c), env=SAN_ENV)
    clean(c, run, "fail", kind + ": ")
    c.key("invalid", name, kind, tuple(args))


def contended(c):
    """All workers hammer the same n-grams and end together."""
    vocab = corpus.ALPHA[: c.rng.randint(1, 3)]
    nf = c.rng.choice([4, 8, 8, 16])
    t = " ".join(c.rng.choice(vocab) for _ in range(c.rng.choice([50, 400])))
    cor = corpus.Corpus([corpus.File([corpus.Doc(t, json.dumps({"text": t}).encode())] * c.rng.randint(1, 3)) for _ in range(nf)])
    paths = cor.write(c.path("in"), c.rng)
    fl = any_flavour(c)
    spec = spec_for(c, cor, name=c.rng.choice(answers.COMMANDS))
    run = cli.Run(c, spec.args + ["-j", str(c.rng.choice([4, 8, 16])), "-q", "--json"] + paths, fl=fl, env=SAN_ENV, patience=60)
    clean(c, run, "ok")
    if fl != "tsan":
        spec.check(run, cor, paths)
    c.key("contended", spec.name, fl, nf, len(t))


# ------------------------------------------------------------------------------------------- P20

S, P = ["-s", "a"], ["-p", "a"]
T = ["--size", "1KiB"]
INVALID = []
for cmd in ("topk", "botk"):
    INVALID += [(cmd, "k=0", T + ["-k", "0"]), (cmd, "k=-1", T + ["-k=-1"]), (cmd, "k=x", T + ["-k", "x"])]
for cmd in ("topk", "botk", "unique"):
    INVALID += [(cmd, "n=0", T + ["-n", "0"]), (cmd, "h=0", T + ["-h", "0"]), (cmd, "h=256", T + ["-h", "256"]), (cmd, "size=0", ["--size", "0"]), (cmd, "size=0B", ["--size", "0B"]), (cmd, "size=0GiB", ["--size", "0GiB"]),
                (cmd, "size=abc", ["--size", "abc"]), (cmd, "size=5XB", ["--size", "5XB"]), (cmd, "size=empty", ["--size="]), (cmd, "size=-1", ["--size=-1"]), (cmd, "size=B", ["--size", "GiB"]), (cmd, "seed=-1", T + ["--seed=-1"]), (cmd, "n=-1", T + ["-n=-1"])]
INVALID += [("topk", "size=3B", ["--size", "3B"]), ("topk", "size=7B u64", ["--size", "7B", "--u64"]), ("botk", "size=3B", ["--size", "3B"])]
INVALID += [("botk", "p=%s" % p, T + ["--p-keep=%s" % p]) for p in ("0", "0.0", "-0.5", "1.5", "1.0000001", "nan", "inf", "-inf", "NaN", "x", "-0.0")]
INVALID += [("topk", "threshold", T + ["--threshold=-1"]), ("topk", "threshold", T + ["--threshold", "4294967296"])]
INVALID += [("count", "no search", []), ("search", "no pattern", [])]
INVALID += [("search", "regex %s" % p, ["-p", p]) for p in ("(", "[a", "a{2,1}", "*a", "(?P<n", "\\", "(?z)a", "a(?=b)", "[z-a]", "\\1", "(?<n>a)(?<n>b)")] + [("search", "second regex", ["-p", "a", "-p", "("])]
INVALID += [("search", "limit without locations", P + ["--locations-limit", "3"]), ("search", "limit 0 without locations", P + ["--locations-limit", "0"])]
INVALID += [("count", "file limit 0", S + ["--file-limit", "0"]), ("search", "file limit 0", P + ["--file-limit", "0"])]
BASE = {"topk": T, "botk": T, "unique": T, "count": S, "search": P, "stats": []}


def snapshot(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.join(root, n)] = None
        for n in fs:
            p = os.path.join(root, n)
            out[p] = open(p, "rb").read() if not os.path.islink(p) else os.readlink(p)
    return out


def refusals(c):
    cor = small_corpus(c)
    paths = cor.write(c.path("work/in"), c.rng)
    if c.chance(0.12):
        name = c.rng.choice(answers.COMMANDS)
        kind, args, paths = "no path", list(BASE[name]), []
    else:
        name, kind, args = c.rng.choice(INVALID)
    oargs = []
    if name != "unique" and c.chance(0.8):
        mode = c.rng.choice(["new", "new_dir", "existing", "existing", "force", "force", "force"])
        out = c.path("work/deep/er/o.jsonl") if mode == "new_dir" else c.path("work/o.jsonl")
        if mode in ("existing", "force"):
            open(out, "wb").write(b'{"old": "content"}\n' * c.rng.randint(0, 50))
        if mode == "force":
            oargs = ["-f"]
        if mode == "new_dir" and name in ("topk", "botk") and c.chance(0.5):
            out = c.path("work/dir")
        oargs += ["-o", out]
    before = snapshot(c.path("work"))
    argv = [name] + args + oargs + cli.workers_args(c) + cli.quietness(c) + (["--json"] if c.chance(0.5) else []) + paths
    run = cli.Run(c, argv, cwd=c.path("work"))
    if run.rc == 0:
        raise Violation("%s %s was accepted" % (name, kind), **run.info())
    if run.stdout.strip():
        raise Violation("%s %s printed results" % (name, kind), **run.info())
    if run.crashed():
        raise Violation("%s %s crashed" % (name, kind), **run.info())
    after = snapshot(c.path("work"))
    if after != before:
        diff = sorted(set(after) ^ set(before)) or [p for p in after if after[p] != before.get(p)]
        raise Violation("%s %s changed files: %s" % (name, kind, diff), **run.info())
    c.key(name, kind, tuple(oargs[:1]), len(paths) > 1)
    c.count("refused")
    c.sample(command=name, kind=kind, out=oargs[:1])


def sizes(c):
    """A size with a unit means that unit, without one GiB: seen from the behaviour of crowded tables with a fixed seed."""
    words = ["u%d" % i for i in range(3000)]
    t = " ".join(words)
    p = c.path("x.json.gz")
    open(p, "wb").write(corpus.gz(json.dumps({"text": t}).encode() + b"\n", c.rng))
    base = ["unique", "-n", "1", "-h", str(c.rng.choice([1, 2])), "--seed", str(c.rng.randrange(1000)), "-q", "--json", "-j", "1"]

    def est(s):
        return cli.Run(c, base + ["--size", s, p]).rows()[0]["unique_count"]
    k = c.rng.choice([2, 3, 4])
    form, nbytes = c.rng.choice([("%dKiB" % k, k * 1024), ("%dkib" % k, k * 1024), ("%d KiB" % k, k * 1024), ("%dKB" % k, k * 1000), ("0.00%dMiB" % k, int(k * 0.001 * (1 << 20))), ("0.00%dMB" % k, k * 1000), ("%dB" % (k * 1111), k * 1111),
                                 ("0.00000%d" % k, int(k * 1e-6 * (1 << 30))), ("0.00000%d" % k, int(k * 1e-6 * (1 << 30))), ("0.00000%dGiB" % k, int(k * 1e-6 * (1 << 30))), ("0.00000%dGB" % k, int(k * 1e-6 * 10 ** 9))])
    got = est(form)
    near = {est("%dB" % (nbytes + d)) for d in (0, -1, 1)}
    if got not in near:
        raise Violation("--size %r behaves unlike a table of %d bytes: estimate %s, expected %s" % (form, nbytes, got, near))
    c.key("size", form, nbytes, got)
    c.count("size_forms")


P18 = Check("P18", "exploration", [(wild, 10), (contended, 3), (invalid_options, 2)], once=[bursts.burst_topk, bursts.burst_botk, bursts.burst_locations], needs=("plain", "noise", "tsan", "oracle", "shim", "lag"), quick=45, thorough=400,
            rule="random valid and invalid option sets, corpora (some damaged), worker counts (0-300) and slow or fragmented reads, run with the plain build (overflow checks on), the schedule-perturbed build and a ThreadSanitizer build with instrumented std; plus runs with more results in flight than the queues hold; "
                 "a run that dies, panics, reports a race, or whose threads all sleep for 10 s is a violation; distinct by command, build, options and number of files",
            assumptions=["running out of memory or disk, closed stdout, and table sizes beyond memory are not driven"])

P20 = Check("P20", "exploration", [(refusals, 12), (sizes, 1)], needs=("plain", "oracle"), quick=12, thorough=120,
            rule="every kind of invalid request (%d forms) with all sorts of output paths, existing files and --force; exit status, stdout and a byte-for-byte snapshot of the directory are compared; sizes are compared through the behaviour of crowded tables with a fixed seed; distinct by command, kind and output mode" % (len(INVALID) + 6),
            assumptions=["sizes are judged up to one byte of rounding"])
