"""More results from the workers at the same time than their queue holds, while the main thread lags behind."""
import gzip, json, os
import cli
from core import Violation


def lagging(c, argv):
    log = c.path("lag.log")
    run = cli.Run(c, argv, fl="plain", env={"LD_PRELOAD": c.env["lag"], "LAG_MS": str(c.rng.choice([200, 400, 800])), "LAG_LOG": log}, patience=120, cpu_limit=None)
    if run.crashed():
        raise Violation("crashed while the main thread lagged behind", **run.info())
    c.count("main_thread_pauses", int(open(log).read()) if os.path.exists(log) else 0)
    return run


def ngrams(c, name):
    nf, k, rare = 8, 150000, 450000              # every rare n-gram occurs once more or less often than the k planted ones
    twice, once = (k, rare) if name == "topk" else (rare, k)
    d = c.path(name)
    os.makedirs(d)
    bags = [[] for _ in range(nf)]
    for i in range(once):
        bags[i % nf].append("w%x" % i)
    for i in range(twice):
        bags[i % nf].append("v%x" % i)
        bags[(i + 1 + i // nf % (nf - 1)) % nf].append("v%x" % i)
    paths = []
    for i, bag in enumerate(bags):
        c.rng.shuffle(bag)
        p = os.path.join(d, "%02d.json.gz" % i)
        open(p, "wb").write(gzip.compress(json.dumps({"text": " ".join(bag)}).encode() + b"\n", 1))
        paths.append(p)
    args = ["topk", "--threshold", "0"] if name == "topk" else ["botk"]
    run = lagging(c, args + ["-n", "1", "-k", str(k), "-h", "5", "--size", "256MiB", "-j", "8", "-q", "--json"] + paths)
    rows = run.rows()
    if len(rows) != k:
        raise Violation("%d rows for k=%d and %d distinct n-grams" % (len(rows), k, twice + once), argv=run.argv)
    best = "v" if name == "topk" else "w"
    good = sum(r["tokens"][0][0] == best and r["count"] == (2 if name == "topk" else 1) for r in rows)
    if good < k - 20:                            # 5 hash functions in 64M slots: far less than one collision is expected
        raise Violation("%s: only %d of the %d planted n-grams were reported" % (name, good, k), argv=run.argv)
    c.count("results_in_flight", sum(map(len, bags)))
    c.key("queue", name)


def burst_topk(c):
    ngrams(c, "topk")


def burst_botk(c):
    ngrams(c, "botk")


def burst_locations(c):
    """More batches of locations than the queue holds."""
    nf, np = 1100, 500
    d = c.path("in")
    os.makedirs(d)
    z = gzip.compress(b'{"text": "w1 w2"}\n')
    for i in range(nf):
        open(os.path.join(d, "%04d.json.gz" % i), "wb").write(z)
    args = []
    for i in range(np):
        args += ["-p", "w%d" % (i + 1)]
    run = lagging(c, ["search", "--with-locations", "-j", "8", "-q", "--json"] + args + [d])
    got = {r["pattern"]: (r["count"], len(r["matches"])) for r in run.rows()}
    if got.get("w1") != (nf, nf) or got.get("w2") != (nf, nf) or got.get("w3") != (0, 0) or len(got) != np:
        raise Violation("wrong counts or locations: %s" % {p: got.get(p) for p in ("w1", "w2", "w3")}, argv=run.argv)
    c.count("results_in_flight", nf * np)
    c.key("queue", "search")
