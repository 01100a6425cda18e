"""P15 output files, P16 directories and limits, P17 independence of scheduling and sharding, P19 pretrained tokenizers."""
import collections, fnmatch, gzip, json, os, re, shutil
import answers, cli, corpus, hftok, scale
from core import Check, Violation
from robust_cmds import small_corpus, spec_for, snapshot, bad_gz

CLI = ("plain", "noise", "oracle")


# ------------------------------------------------------------------------------------------- P15

def file_rows(path, run):
    b = open(path, "rb").read()
    if b and not b.endswith(b"\n"):
        raise Violation("the output file does not end with a line break", content=b[-200:], **run.info())
    rows = []
    for l in b.decode("utf-8", "replace").split("\n")[:-1]:
        try:
            rows.append(json.loads(l))
        except ValueError:
            raise Violation("line %r of the output file is not JSON" % l, **run.info())
    return rows


def output_files(c):
    cor = small_corpus(c)
    paths = cor.write(c.path("in"), c.rng)
    name = c.rng.choice(["topk", "botk", "count", "search", "stats"])
    spec = spec_for(c, cor, name=name)
    if name in ("topk", "botk") and c.chance(0.3):
        spec.args += ["--seed", str(c.rng.randrange(100))]
    work = c.path("work")
    os.makedirs(work)
    dirs = name in ("topk", "botk")
    mode = c.rng.choice(["new", "new", "deep", "existing", "existing", "force", "force", "force", "relative", "link", "full", "parent_is_file"] + (["dir", "dir", "noext", "dir_again", "dir_force"] if dirs else ["dir_refused", "noext_file"]))
    old = c.rng.choice([b"", b"old\n", b'{"tokens": ["old"], "count": 1}\n' * c.rng.randint(1, 400), os.urandom(5000), os.urandom(5000)])
    if c.chance(0.05):
        old = os.urandom(1000) * c.rng.choice([70, 1100, 2200])
    out, extra, cwd, target = os.path.join(work, c.rng.choice(["o.jsonl", "o.json", "r e s.txt", "ö.x", ".hidden.jsonl", "o.", "v1.5-results", "o.jsonl.gz", "-o.json"])), [], None, None
    if mode == "deep":
        out = os.path.join(work, c.rng.choice(["a/b b/c", "n", "n/.m", "1/2/3/4/5/6"]), "o.jsonl")
    elif mode in ("existing", "force"):
        open(out, "wb").write(old)
    elif mode == "relative":
        out, cwd = c.rng.choice(["rel.jsonl", "./rel.jsonl", "sub/rel.jsonl", "../work/rel.jsonl", "sub/./rel.jsonl"]), work
        target = os.path.normpath(os.path.join(work, out))
    elif mode == "link":
        if c.chance(0.8):
            open(os.path.join(work, "t.jsonl"), "wb").write(old)
        else:
            # to where there is nothing yet
            mode, target = "dangling", os.path.join(work, "t.jsonl")
        out = os.path.join(work, "l.jsonl")
        os.symlink("t.jsonl", out)
    elif mode == "full":
        out = os.path.join(work, "full.jsonl")
        os.symlink("/dev/full", out)
    elif mode == "parent_is_file":
        open(os.path.join(work, "p.txt"), "wb").write(old)
        out = os.path.join(work, "p.txt/o.jsonl")
    elif mode in ("dir", "dir_again", "dir_force", "dir_refused"):
        out = os.path.join(work, c.rng.choice(["d", "d.x", "results.jsonl"]))
        os.makedirs(out)
        open(os.path.join(out, "other.jsonl"), "wb").write(old)
    elif mode in ("noext", "noext_file"):
        out = os.path.join(work, "sub/plainname")
    if mode in ("force", "dir_force") or c.chance(0.1) and mode in ("new", "deep"):
        extra = ["-f"] if c.chance(0.5) else ["--force"]
    show = c.rng.choice([["--json"], ["--json"], ["--json", "-q"], ["-q"], []])
    argv = spec.args + cli.workers_args(c) + show + extra + [c.rng.choice(["-o", "--out"]), out] + paths
    before = snapshot(work)
    run = cli.Run(c, argv, cwd=cwd)
    after = snapshot(work)
    c.count("mode:" + mode)
    c.sample(command=name, mode=mode, old_bytes=len(old))

    def unchanged(what):
        if run.rc == 0:
            raise Violation("%s, but the run succeeded" % what, **run.info())
        if after != before:
            raise Violation("%s, but files changed: %s" % (what, [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]), **run.info())
        if run.stdout.strip():
            raise Violation("%s, but results were printed" % what, **run.info())
        if run.crashed():
            raise Violation("%s: crashed" % what, **run.info())

    def good(p, olds):
        if run.rc != 0:
            raise Violation("run with output file failed", mode=mode, **run.info())
        if p not in after:
            raise Violation("no output file %s" % p, files=sorted(after), **run.info())
        rows = file_rows(p, run)
        for q in olds:
            if after.get(q) != before.get(q):
                raise Violation("another file (%s) was changed" % q, **run.info())
        extra_files = [q for q, v in after.items() if v is not None and q not in before and q != p]
        if extra_files:
            raise Violation("files nobody asked for: %s" % extra_files, **run.info())
        facts = spec.check(run, cor, paths, rows=rows)
        if "--json" in show:
            printed = run.stdout
            if printed and printed != open(p, "rb").read():
                raise Violation("the file and the printed rows differ", file=open(p, "rb").read()[:1000], **run.info())
        c.key(name, mode, len(rows), facts, len(old), tuple(show))
        return rows

    if mode in ("existing", "link"):
        unchanged("the output file exists")
        c.key(name, mode, len(old), tuple(show))
    elif mode in ("parent_is_file", "dir_refused"):
        unchanged("the output path is impossible")
        c.key(name, mode, tuple(show))
    elif mode == "full":
        clean = cli.Run(c, spec.args + ["--json", "-q"] + paths)
        if clean.rows() and run.rc == 0:
            raise Violation("rows could not be written, but the run succeeded", **run.info())
        if run.crashed():
            raise Violation("crashed when rows could not be written", **run.info())
        c.key(name, mode, len(clean.rows()))
    elif mode in ("dir", "noext", "dir_again", "dir_force"):
        new = [p for p, v in after.items() if v is not None and p not in before]
        if run.rc != 0 or len(new) != 1 or os.path.dirname(new[0]) != out:
            raise Violation("expected one new file in %s, got %s" % (out, new), **run.info())
        rows = good(new[0], [p for p, v in before.items() if v is not None])
        if mode in ("dir_again", "dir_force"):
            with open(new[0], "ab") as f:
                f.write(b"old tail\n" * c.rng.choice([1, 300]))
            before = snapshot(work)
            run = cli.Run(c, argv)
            after = snapshot(work)
            if mode == "dir_again":
                unchanged("the generated output file exists")
            else:
                good(new[0], [p for p, v in before.items() if v is not None and p != new[0]])
        del rows
    else:
        t = target or out
        if before.get(t) is not None and mode != "force":
            raise AssertionError(mode)
        good(t, [p for p, v in before.items() if v is not None and p != t])


P15 = Check("P15", "exploration", [(output_files, 1)], needs=CLI, quick=15, thorough=180,
            rule="all commands with -o in 17 situations (new, nested, existing, forced over longer or shorter content, symbolic links, directories, generated names, repeated runs, impossible parents, a device without room); the whole directory is compared byte for byte before and after, and the rows in the file are judged "
                 "by the oracles of P01-P06; distinct by command, situation, rows and printing mode", assumptions=["the process may write everywhere (it runs as root), so permission errors are not driven"])


# ------------------------------------------------------------------------------------------- P16

NAMES = ["a.json.gz", "b.jsonl.gz", ".json.gz", "x.json.001.gz", "c4.00000-of-01024.json.gz", ".hidden.json.gz", "ü.json.gz", "sp ace.json.gz", "[x].json.gz", "q?.json.gz", "s*r.json.gz", "{a,b}.json.gz", "z!.jsonx.gz", "-dash.json.gz", "a.json.json.gz", "0.json.gz", "B.json.gz", "new.json.gz.json.gz"]
RAW = ["caf\udce9.json.gz", "\udcff.jsonl.gz", "x.json\udc80.gz"]          # names that are not valid UTF-8
OTHERS = ["a.json", "b.gz", "xjson.gz", "c.json.gz.bak", "d.JSON.gz", "e.json.zst", "README", "f.json.GZ", "json.gz", "g.jsn.gz", "h.json.gz~", "i.json.agz", "j.jsongz", "k.json_gz", "l.json.gzip", "json", ".gz"]
DIRS = ["d1", "d2", "[ab]", "a*", "q?", "{x}", "!n", "in ner", "é", ".hid", "x.json.gz", "deep.json.gz.d", "**", "[!z]", "d\\b", "a]b[", "-d"]


def matches(name):
    return fnmatch.fnmatchcase(name, "*.json*.gz")


def tree(c, root, depth=0, raw=False):
    """-> list of (path, File or None) of everything below root, in name order of the walk"""
    rng, out = c.rng, []
    os.makedirs(root, exist_ok=True)
    for n in rng.sample(NAMES, rng.randint(0 if depth else 1, 5)) + ([rng.choice(RAW)] if raw and rng.random() < 0.6 else []):
        out.append((os.path.join(root, n), True))
    for n in rng.sample(OTHERS, rng.randint(0, 3)):
        out.append((os.path.join(root, n), False))
    for n in rng.sample(DIRS + (["d\udce9"] * 6 if raw else []), rng.choice([0, 1, 2]) if depth < 3 else 0):
        p = os.path.join(root, n)
        if os.path.lexists(p) or p in dict(out):
            continue
        out += tree(c, p, depth + 1, raw)
    return out


def small_file(c):
    return corpus.File([corpus.make_doc(c.rng, " ".join(c.rng.choice(corpus.ALPHA) for _ in range(c.rng.randint(0, 9)))) for _ in range(c.rng.choice([0, 1, 2, 6]))], c.chance(0.8))


def directories(c):
    """What a directory stands for, mixed with plain files."""
    args, files, paths, raw, starts = [], [], [], c.chance(0.25), []
    for i in range(c.rng.choice([1, 1, 2, 3])):
        starts.append((len(args), len(files)))
        if c.chance(0.75):
            d = os.path.join(c.path("w%d" % i), c.rng.choice(DIRS))
            if c.chance(0.1):                              # far down
                d0, d = d, os.path.join(d, *["l%d" % k for k in range(c.rng.choice([10, 30, 60]))])
                entries = tree(c, d, raw=raw)
                d = d0 if c.chance(0.7) else d
                c.count("deep_directories")
            else:
                entries = tree(c, d, raw=raw)
            if not any(m for _, m in entries):
                continue
            if c.chance(0.1):                              # by a link to the directory
                l = os.path.join(c.path("w%d" % i), "to-" + os.path.basename(d))
                os.symlink(d, l)
                entries = [(l + p[len(d):], m) for p, m in entries]
                d = l
                c.count("linked_directories")
            for p, m in entries:
                f = small_file(c)
                if m:
                    real = p
                    if c.chance(0.1):
                        real = os.path.join(c.path("linked"), "%d.bin" % len(files))
                        os.makedirs(c.path("linked"), exist_ok=True)
                        os.symlink(real, p)
                    open(real, "wb").write(corpus.gz(f.data(), c.rng))
                    files.append(f)
                    paths.append(p)
                else:
                    open(p, "wb").write(c.rng.choice([b"not gzip", corpus.gz(b'{"text": "a a a a a a"}\n' * 3)]))
            args.append(d + c.rng.choice(["", "", "/"]))
        else:
            f = small_file(c)
            p = os.path.join(c.path("w%d" % i), c.rng.choice(["plain", "x.txt", "y.json.gz", "[z].gz", "w*.json"]))
            os.makedirs(os.path.dirname(p))
            open(p, "wb").write(corpus.gz(f.data(), c.rng))
            files.append(f)
            paths.append(p)
            args.append(p)
    if not args:
        return
    again = c.chance(0.25)
    if again:                                              # an argument given again, or a file inside a directory that is given as well
        n, m = c.rng.choice([x for x in starts if x[0] < len(args)])
        end = min([y for x, y in starts if x > n] + [len(files)])
        if c.chance(0.3):
            m = c.rng.randrange(m, end)
            end = m + 1
            args.append(paths[m])
        else:
            args.append(args[n])
        files, paths = files + files[m:end], paths + paths[m:end]
        c.count("repeated_arguments")
    cor = corpus.Corpus(files)
    raw = any("\udc80" <= ch <= "\udcff" for p in paths for ch in p)
    if raw:
        c.count("names_not_utf8")          # such paths cannot be printed as JSON, so take commands that do not name them
    spec = spec_for(c, cor, name=c.rng.choice(["topk", "botk", "count", "unique"]) if raw or again else None)
    largs, lim = [], None
    if c.chance(0.4):
        lim = c.rng.choice([0, 1, 2, 3, 100])
        largs = ["-l", str(lim)]
    cwd = None
    if len(args) == 1 and c.chance(0.3):
        cwd = os.path.dirname(args[0].rstrip("/"))
        base = os.path.basename(args[0].rstrip("/"))
        args = [base if not base.startswith("-") else "./" + base]
        form = c.rng.randrange(6)
        if form == 0:
            args = ["./" + base]
        elif form == 1 and os.path.isdir(os.path.join(cwd, base)):
            args = ["./" + base + "/"]
        elif form in (2, 3) and os.path.isdir(os.path.join(cwd, base)):
            cwd = os.path.join(cwd, base)
            args = [c.rng.choice([".", "./", "./.", "../" + base, "../" + base + "//"])]
        c.count("relative_arguments")
    run = cli.Run(c, spec.args + largs + cli.workers_args(c) + cli.quietness(c) + ["--json"] + args, cwd=cwd)
    norm = lambda p: os.path.normpath(os.path.join(cwd or "/", p))
    facts = spec.check(run, cor, paths, lim, None, norm=norm)
    c.count("files_found", len(paths))
    c.key(spec.name, tuple(sorted(os.path.basename(p) for p in paths)), facts, lim)
    c.sample(command=spec.name, argument=os.path.basename(args[0]), files=[os.path.relpath(p, c.dir) for p in paths[:4]], limit=lim)


def file_limits(c):
    """The first F of the expanded list: plain files in the given order, a flat directory in name order."""
    files, paths, args = [], [], []
    for i in range(c.rng.choice([1, 2, 3])):
        if c.chance(0.6):
            d = c.path("d%d" % i)
            os.makedirs(d)
            names = sorted(c.rng.sample(NAMES + ["n%02d.json.gz" % k for k in range(12)], c.rng.randint(1, 8)), key=lambda s: s.encode())
            for n in c.rng.sample(names, len(names)):
                open(os.path.join(d, n), "wb").write(b"")
            for n in names:
                f = small_file(c)
                open(os.path.join(d, n), "wb").write(corpus.gz(f.data(), c.rng))
                files.append(f)
                paths.append(os.path.join(d, n))
            args.append(d)
        else:
            p = c.path("p%d-%d.json.gz" % (c.rng.randint(0, 99), i))
            f = small_file(c)
            open(p, "wb").write(corpus.gz(f.data(), c.rng))
            files.append(f)
            paths.append(p)
            args.append(p)
    cor = corpus.Corpus(files)
    flim = c.rng.choice([1, 1, 2, 3, len(files), len(files) + 1, 1000])
    lim = c.rng.choice([None, None, 1, 2])
    spec = spec_for(c, cor)
    run = cli.Run(c, spec.args + ["--file-limit", str(flim)] + ([] if lim is None else ["-l", str(lim)]) + cli.workers_args(c) + cli.quietness(c) + ["--json"] + args)
    facts = spec.check(run, cor, paths, lim, flim)
    c.key("file_limit", spec.name, len(files), flim, lim, facts)
    c.count("file_limits")


def line_limits(c):
    cor = small_corpus(c)
    paths = cor.write(c.path("in"), c.rng)
    spec = spec_for(c, cor)
    lim = c.rng.choice([0, 1, 1, 2, 3, 5, 10, 100, 2 ** 64 - 1])
    run = cli.Run(c, spec.args + [c.rng.choice(["-l", "--limit"]), str(lim)] + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths)
    facts = spec.check(run, cor, paths, lim)
    c.key("line_limit", spec.name, lim, facts, len(paths))
    c.count("line_limits")


def empty_directory(c):
    d = os.path.join(c.path("e"), c.rng.choice(DIRS))
    os.makedirs(os.path.join(d, "sub"))
    for n in c.rng.sample(OTHERS, c.rng.randint(0, 4)):
        open(os.path.join(d, c.rng.choice(["", "sub"]), n), "wb").write(corpus.gz(b'{"text": "a b"}\n'))
    if c.chance(0.3):
        os.makedirs(os.path.join(d, "x.json.gz"))
    cor = small_corpus(c)
    paths = cor.write(c.path("in"), c.rng) if c.chance(0.5) else []
    spec = spec_for(c, cor)
    run = cli.Run(c, spec.args + cli.quietness(c) + ["--json"] + c.rng.sample([d] + paths, len(paths) + 1))
    run.must_fail("a directory without input files")
    if run.stdout.strip() or run.crashed():
        raise Violation("a directory without input files: results or a crash", **run.info())
    c.key("empty", spec.name, os.path.basename(d), len(paths))
    c.count("empty_directories")


P16 = Check("P16", "exploration", [(directories, 5), (file_limits, 3), (line_limits, 2), (empty_directory, 1)], once=[scale.large_limits, scale.many_files], needs=CLI, quick=18, thorough=200,
            rule="random directory trees up to 4 levels (glob metacharacters, hidden and non-ASCII names, directories named like files, near-miss names) mixed with plain files, and line and file limits around the actual sizes, under every command; judged by the oracles of P01-P07 applied to the documented selection; "
                 "distinct by command, selected names, limits and facts", assumptions=["symbolic links to directories are not driven", "the file limit is only judged where name order is unambiguous (flat directories)"])


# ------------------------------------------------------------------------------------------- P17

def arrange(c, docs, where):
    """The same documents in another arrangement of files."""
    docs = list(docs)
    if c.chance(0.8):
        c.rng.shuffle(docs)
    nf = c.rng.choice([1, 2, 3, 8, max(1, len(docs) // 2)])
    if c.chance(0.2):
        nf = len(docs) + 3          # one document per file and some empty files
        nf = min(nf, 60)
    files = [[] for _ in range(nf)]
    for i, d in enumerate(docs):
        files[c.rng.randrange(nf) if c.chance(0.8) else i * nf // max(1, len(docs))].append(d)
    cor = corpus.Corpus([corpus.File(f) for f in files])
    paths = cor.write(where, c.rng, names=["%s%d.json.gz" % (c.rng.choice("abc"), i) for i in range(nf)])
    c.rng.shuffle(paths)
    return paths


def sharding(c):
    cor = small_corpus(c)
    docs = [d for _, _, d in cor.docs()]
    spec = spec_for(c, cor)
    crowded = spec.name in ("unique", "botk") and c.chance(0.7)
    if crowded:
        i = spec.args.index("--size")
        spec.args[i + 1] = "%dB" % (c.rng.choice([1, 2, 10, 50, 200, 1000, 5000]) * (1 if spec.name == "unique" else 4))
    if spec.name == "unique" or crowded or c.chance(0.3) and spec.name in ("topk", "botk"):
        spec.args += ["--seed", str(c.rng.randrange(2 ** 64))]
    if spec.name == "search" and c.chance(0.2):
        spec.args = [a for a in spec.args]
    first, info = None, None
    arrangements = []
    for i in range(c.rng.choice([2, 3, 4])):
        if i and c.chance(0.25):
            paths = arrangements[-1]            # the same files again
        else:
            paths = arrange(c, docs, c.path("a%d" % i))
        arrangements.append(paths)
        run = cli.Run(c, spec.args + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths)
        ans = spec.canon(run.rows(), run)
        if first is None:
            first, info = ans, run.info()
        elif ans != first:
            raise Violation("another arrangement of the same documents gives another answer", first_run=info["argv"], first_stdout=info["stdout"], first_answer=first, second_answer=ans, **run.info())
    c.count("arrangements", len(arrangements))
    if docs:
        c.key(spec.name, crowded, len(docs), repr(first)[:300])
    c.sample(command=spec.name, documents=len(docs), files=[len(p) for p in arrangements], crowded=crowded)


P17 = Check("P17", "exploration", [(sharding, 1)], needs=CLI, quick=18, thorough=200,
            rule="groups of 2-4 runs over the same documents in different orders, files, compression levels, members, worker counts, builds and schedules have to agree (n-grams tied at the end of a top-k list excepted; `unique` also in crowded tables with a fixed seed); distinct by command, documents and answer",
            assumptions=["all lines end with a line break, so that total_bytes does not depend on the arrangement"])


# ------------------------------------------------------------------------------------------- P19

TOKS = {"wl": hftok.word_level, "wp": hftok.word_piece}


def pretrained(c):
    vocab = c.rng.sample(corpus.WORDS[:10] + ["hello", "world", "re", "token", "##x", "[CLS]", "[UNK]", "[SEP]", "playing", "w1", "w12"], 8)
    kind = c.rng.choice(["wl", "wp", "bpe"])
    special = c.chance(0.7)
    tok = hftok.byte_bpe(special) if kind == "bpe" else TOKS[kind](vocab + list("abc"), special)
    name = c.rng.choice(["my-tok", "org/tok_1", "T.5/x"])
    path = hftok.install(c.dir, name, tok)
    cor = corpus.random_corpus(c.rng, max_files=5, max_docs=8, style="mixed", vocab=vocab + c.rng.sample(corpus.WORDS, 6), cap_tokens=1200, huge=0)
    spec = answers.Spec(c, tok=answers.Tok(c, path), texts=[d.text for _, _, d in cor.docs() if d.text], name=c.rng.choice(["topk", "botk", "count", "stats", "unique"]))
    paths = cor.write(c.path("in"), c.rng)
    out = c.path("o.jsonl") if spec.name != "unique" and c.chance(0.3) else None
    args = spec.args + [c.rng.choice(["-t", "--tokenizer"]), name] + ([] if out is None else ["-o", out])
    largs, lim, flim = cli.limit_args(c, 0.1)
    run = cli.Run(c, args + largs + cli.workers_args(c) + cli.quietness(c) + ["--json"] + paths)
    facts = spec.check(run, cor, paths, lim, flim)
    if out is not None:
        spec.check(run, cor, paths, lim, flim, rows=file_rows(out, run))
    c.count("tokenizer:" + kind)
    if facts:
        c.key(spec.name, kind, special, facts, tuple(sorted(vocab)))
    c.sample(command=spec.name, tokenizer=kind, special=special, facts=facts)


def unknown_tokenizer(c):
    kind = c.rng.choice(["broken", "broken2", "invalid name", "unknown", "empty"])
    name = {"broken": "b", "broken2": "b", "invalid name": "in valid", "unknown": "no/such-tok", "empty": "b"}[kind]
    if name == "b":
        hftok.install(c.dir, "b", None, {"broken": '{"version": ', "broken2": '{"version": "1.0", "model": {"type": "Nope"}}', "empty": ""}[kind])
    cor = small_corpus(c)
    paths = cor.write(c.path("work/in"), c.rng)
    cmd = c.rng.choice(["topk", "botk", "count", "stats", "unique"])
    args = [cmd, "-t", name] + {"topk": ["--size", "1KiB"], "botk": ["--size", "1KiB"], "unique": ["--size", "1KiB"], "count": ["-s", "a"], "stats": []}[cmd]
    if cmd != "unique" and c.chance(0.7):
        out = c.path("work/o.jsonl") if c.chance(0.7) else c.path("work/x/y/o.jsonl")
        args += ["-o", out]
        if c.chance(0.5) and out.endswith("work/o.jsonl"):
            open(out, "wb").write(b"old\n")
            args += ["-f"]
    before = snapshot(c.path("work"))
    run = cli.Run(c, args + cli.quietness(c) + ["--json"] + paths)
    run.must_fail("unusable tokenizer (%s)" % kind)
    if run.stdout.strip() or run.crashed():
        raise Violation("unusable tokenizer (%s): results or a crash" % kind, **run.info())
    if snapshot(c.path("work")) != before:
        raise Violation("unusable tokenizer (%s), but files were written" % kind, **run.info())
    c.key("unusable", cmd, kind, "-f" in args)
    c.count("unusable")


P19 = Check("P19", "exploration", [(pretrained, 6), (unknown_tokenizer, 1)], needs=CLI, quick=18, thorough=200,
            rule="generated word-level, word-piece and byte-pair tokenizers (mostly with a post-processor that would add special tokens), found through the local model cache, under all five commands; judged by the oracles of P01-P07 over the tokens the tokenizers crate gives; distinct by command, tokenizer, vocabulary and facts",
            assumptions=["reference: tokenizers crate called directly without special tokens", "without network an uncached tokenizer is an unknown one"])
