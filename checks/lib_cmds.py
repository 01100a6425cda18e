"""P08-P12: the library, driven in-process by harness/libmon."""
import json, os
import answers, build, cli, core, corpus
import ngram_cmds as ng
from core import Check, Deadlock, Inconclusive, Violation
from robust_cmds import SAN, small_corpus


def run_libmon(c, argv, mode, seed, ms, fl, small=False, env=None):
    """Runs one batch of scenarios and takes over what it observed."""
    args = [mode, str(seed), str(ms), c.dir] + (["small"] if small else [])
    e = {"PATH": os.environ.get("PATH", ""), "HOME": os.environ.get("HOME", "/root"), "TSAN_OPTIONS": "halt_on_error=0 exitcode=66"}
    if fl == "noise":
        e.update(cli.noise_env(c))
    e.update(env or {})
    try:
        r = core.run(argv + args, env=e, cwd=(env or {}).get("WORK") or c.dir, patience=120)
    except Deadlock as d:
        raise Violation("the library hangs: %s" % d, mode=mode, seed=seed, flavour=fl)
    c.count("batches:" + fl)
    lines = [l for l in r.out.split("\n") if l.startswith('{"counts"')]
    if r.rc != 0 or not lines:
        if SAN.search(r.err) or r.rc in (66, 101) or r.rc < 0 or "Undefined Behavior" in r.err:
            raise Violation("the library crashed, raced or panicked", mode=mode, seed=seed, flavour=fl, stderr=core.shorten(r.err, 3000))
        raise RuntimeError("libmon: %r" % r)
    res = json.loads(lines[0])
    for k, v in res["counts"].items():
        c.count(k, v)
    for k in res["keys"]:
        c.keys.add(str(k))
    if res["sample"]:
        c.sample(scenario=res["sample"], flavour=fl)
    if res["violation"]:
        raise Violation(res["violation"]["message"], mode=mode, scenario=res["violation"]["scenario"], flavour=fl)


def batch(mode, flavours):
    def fn(c):
        fl = c.rng.choice([f for f in flavours if "libmon-" + f in c.env])
        run_libmon(c, [c.env["libmon-" + fl]], mode, c.rng.randrange(1 << 40), 400, fl)
    fn.__name__ = mode
    fn.__module__ = __name__
    globals()[mode] = fn
    return fn


def under_miri(mode, ms=20000):
    def fn(c):
        env = build.base_env()
        for i in range(3):
            e = dict(env, CARGO_TARGET_DIR=os.path.join(build.BUILD, "t-miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d" % c.rng.randrange(1 << 30), WORK=c.env["miri"])
            run_libmon(c, ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--"], mode, c.rng.randrange(1 << 40), ms, "miri", small=True, env=e)
    fn.__name__ = "miri_" + mode
    fn.__module__ = __name__
    globals()[fn.__name__] = fn
    return fn


def window_sums(c):
    """The occurrences counted over a corpus are all its windows."""
    n = ng.pick_n(c, [1, 2, 3, 5, 10])
    cor = ng.gen_for(c, n)
    paths = cor.write(c.path("in"), c.rng)
    largs, lim, flim = cli.limit_args(c)
    lens = [len(t) for t in ng.token_lists(c, cor, lim, flim)]
    want = sum(max(0, l - n + 1) for l in lens)
    name = c.rng.choice(["topk", "botk"])
    run = cli.Run(c, [name, "-n", str(n), "-k", "50000", "-h", "8", "--size", "16MiB", "-q", "--json"] + (["--threshold", "0"] if name == "topk" else []) + largs + cli.workers_args(c) + paths)
    got = sum(r["count"] for r in run.rows())
    if got != want:
        raise Violation("%s counted %d occurrences of %d-grams, the documents have %d windows" % (name, got, n, want), **run.info())
    c.count("windows_counted_by_commands", want)
    if want:
        c.key("sum", name, n, want, len(lens))


def same_tokens(c):
    """Every command works on the same tokens."""
    cor = corpus.random_corpus(c.rng, style="mixed", max_files=5, cap_tokens=1500)
    paths = cor.write(c.path("in"), c.rng)
    toks = [t for l in ng.token_lists(c, cor, None, None) for t in l]
    spec = answers.Spec(c, texts=[d.text for _, _, d in cor.docs() if d.text], name=c.rng.choice(["stats", "count", "topk", "botk", "unique"]))
    run = cli.Run(c, spec.args + ["-q", "--json"] + cli.workers_args(c) + paths)
    facts = spec.check(run, cor, paths)
    if facts:
        c.key("tokens", spec.name, facts, len(toks))
    c.count("tokens_seen_by_commands", len(toks))


CLI = ("plain", "oracle")
P08 = Check("P08", "exploration", [(batch("counter", ["plain", "noise", "noise", "tsan"]), 1)], needs=("libmon-plain", "libmon-noise", "libmon-tsan"), quick=25, thorough=240, thorough_needs=("miri",), thorough_once=(under_miri("counter"),),
            rule="random histories of 2-8 threads x 1-60 increments or decrements and queries on 1-5 n-grams, all four counter widths, 1-8 hash functions, values near the bounds, tables with and without shared slots; every operation is recorded with a logical begin and end time, and the history is checked afterwards against the "
                 "sums of completed and begun operations; run plain, with perturbed schedules, under ThreadSanitizer and (thorough) under Miri; distinct by configuration and order in which operations began",
            assumptions=["tables without shared slots are recognised by a second counter with the same seed", "per-operation bounds, not full linearizability, are checked (as stated)"])
P09 = Check("P09", "exploration", [(batch("topk", ["plain"]), 1)], needs=("libmon-plain",), quick=12, thorough=120, thorough_needs=("miri",), thorough_once=(under_miri("topk"),),
            rule="random insertion sequences (rising, falling, counting, arbitrary; 1-600 insertions, k 1-50, now and then up to 70000, three counter widths), several rounds per collection; the published minimum is checked after each insertion and the drained content against a map of the best offers; distinct by the sequence", assumptions=["offers are at least 1"])
P10 = Check("P10", "exploration", [(batch("windows", ["plain"]), 1), (window_sums, 3)], needs=("libmon-plain",) + CLI, quick=14, thorough=120, thorough_needs=("miri",), thorough_once=(under_miri("windows"),),
            rule="the iterator and the text helper over random token sequences (length 0-300, now and then over 65536, n from 1 to beyond the length, four kinds of sources), compared with slices; and sums of the counts topk/botk report over corpora; distinct by length, n, source and vocabulary, or corpus")
P11 = Check("P11", "exploration", [(batch("segments", ["plain"]), 1), (same_tokens, 2)], needs=("libmon-plain",) + CLI, quick=14, thorough=120,
            rule="random strings (ASCII, arbitrary code points, segmentation edge cases, all kinds of white space) compared with the segmentation crate, with the text itself, and for ASCII with the rules written down independently; and commands over such corpora; distinct by string",
            assumptions=["outside ASCII the unicode-segmentation crate is the reference for the rules"])
P12 = Check("P12", "exploration", [(batch("gzlines", ["plain"]), 1)], needs=("libmon-plain",), quick=14, thorough=150, thorough_needs=("miri",), thorough_once=(under_miri("gzlines"),),
            rule="files of 1-6 (now and then hundreds of) members, 0-100 (now and then over 65536) lines of 0-70000 bytes around buffer sizes, header fields, flushes; lines kept by the caller are compared again at the end; truncation at every kind of place, flipped bits, wrong trailers, trailing garbage, invalid UTF-8 have to end in an error after a true prefix; distinct by sizes, members, damage",
            assumptions=["flipped bits in the compressed data may produce altered lines as long as an error follows", "truncation between members cannot be told from a complete file"])
