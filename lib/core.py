"""The frame of every check: seeded cases run in worker processes, verdicts, replays, evidence.

A case either holds, is a violation (raises Violation), or is inconclusive (raises Inconclusive:
time-outs, kills by the out-of-memory killer, harness trouble).  Only a violation makes a check fail.
"""
import collections, concurrent.futures as cf, gzip, hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info

for _f in (sys.stdout, sys.stderr):
    _f.reconfigure(errors="backslashreplace")


class Inconclusive(Exception):
    pass


class Case:
    """What one case function gets: randomness, a scratch directory, and places to record facts."""

    def __init__(self, prop, seed, tier, scratch, env):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.dir = scratch
        self.env = env              # products of the builds: flavour -> path
        self.counters = collections.Counter()
        self.keys = set()
        self.samples = []
        self.files_for_replay = []
        self.ran = None             # the program that ran last

    def count(self, name, n=1):
        self.counters[name] += n

    def key(self, *parts):
        """Registers a distinct, non-trivial case; `parts` say what made it distinct."""
        self.keys.add(hashlib.sha1(repr(parts).encode("utf-8", "surrogatepass")).hexdigest()[:16])

    def sample(self, **kw):
        self.samples.append(kw)

    def path(self, name):
        return os.path.join(self.dir, name)

    def chance(self, p):
        return self.rng.random() < p


def shorten(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


_worker = {}
# What reading damaged or misshapen results leads to, once the code under test has run
UNREADABLE = (ValueError, LookupError, TypeError, AttributeError, EOFError, zlib.error, gzip.BadGzipFile, FileNotFoundError)


def _init_worker(env, root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _worker["env"], _worker["root"] = env, root


def _run_case(prop, fn_module, fn_name, seed, tier, keep):
    mod = sys.modules.get(fn_module) or __import__(fn_module, fromlist=["x"])
    fn = getattr(mod, fn_name)
    scratch = tempfile.mkdtemp(prefix="c-", dir=_worker["root"])
    c = Case(prop, seed, tier, scratch, _worker["env"])
    out = {"seed": seed, "fn": fn_name, "verdict": "held", "t": time.time()}
    try:
        fn(c)
    except Violation as v:
        out.update(verdict="violation", msg=v.msg, info=v.info)
        if keep:
            try:
                shutil.copytree(scratch, keep + "-" + str(seed), symlinks=True, ignore_dangling_symlinks=True, dirs_exist_ok=True)
            except Exception as e:
                out["copy_error"] = str(e)
    except Inconclusive as e:
        out.update(verdict="inconclusive", msg=str(e))
    except Exception as e:
        if c.ran and isinstance(e, UNREADABLE):
            out.update(verdict="violation", msg="the results of %s do not have the form they must have, reading them failed: %r" % (os.path.basename(str(c.ran)), e), info={"where": traceback.format_exc()})
        else:
            out.update(verdict="error", msg=traceback.format_exc())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(counters=dict(c.counters), keys=list(c.keys), samples=c.samples[:2], t=time.time() - out["t"])
    return out


class Check:
    def __init__(self, prop, level, cases, rule, needs=(), quick=25.0, thorough=240.0, min_cases=8, max_cases=10 ** 9, assumptions=(), once=(), workers=None, thorough_needs=(), thorough_once=()):
        """cases: list of (function, weight); once: functions run a single time, first."""
        self.prop, self.level, self.rule, self.needs = prop, level, rule, needs
        self.cases, self.once = cases, once
        self.quick, self.thorough, self.min_cases, self.max_cases = quick, thorough, min_cases, max_cases
        self.assumptions = list(assumptions)
        self.thorough_needs, self.thorough_once = thorough_needs, thorough_once
        self.workers = workers or min(8, os.cpu_count() or 2)


def jsonable(x):
    """Details of a violation in a form that JSON can hold, whatever they are."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    return x if x is None or isinstance(x, (bool, int, float, str)) else repr(x)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(check, build_env, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the case function of this name")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env = build_env(check.needs)
    t_build = time.time() - t0
    root = tempfile.mkdtemp(prefix="vcheck-%s-" % check.prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(check.prop + "-") and not a.replay:
            p = os.path.join(rdir, old)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    keep = os.path.join(rdir, check.prop)
    budget = a.seconds or (check.quick if a.tier == "quick" else check.thorough)
    counters, keys, samples, violations, inconclusive, errors = collections.Counter(), set(), [], [], [], []
    slowest = (0, '', '')
    evals, per_fn = 0, collections.Counter()
    rng = random.Random("plan/%s/%d/%s" % (check.prop, seed, a.tier))
    cases = [(f, w) for f, w in check.cases if not a.only or f.__name__ == a.only]
    once = [f for f in check.once if not a.only or f.__name__ == a.only]
    if a.only:
        cases = cases or [(f, 1) for f in once]
    fns, weights = [f for f, _ in cases], [w for _, w in cases]

    def plan():
        for f in once:
            yield f, "%d-once-%s" % (seed, f.__name__)
        i = 0
        while fns:
            if i < 2 * len(fns):
                f = fns[i % len(fns)]       # every kind of case at least twice
            else:
                f = rng.choices(fns, weights)[0]
            yield f, "%d-%s-%d" % (seed, a.tier[0], i)
            i += 1

    if a.replay:
        rep = json.load(open(a.replay))
        fn = [f for f in fns + list(once) if f.__name__ == rep["fn"]][0]
        def plan():
            for i in range(a.cases or 20):
                yield fn, rep["case_seed"]

    try:
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(check.workers, mp_context=ctx, initializer=_init_worker, initargs=(env, root)) as ex:
            t1 = time.time()
            gen, pending, submitted, stop = plan(), set(), 0, False
            limit = a.cases or check.max_cases
            while True:
                while not stop and len(pending) < check.workers + 2 and submitted < limit:
                    over = time.time() - t1 > budget
                    if over and submitted >= check.min_cases + len(once):
                        stop = True
                        break
                    try:
                        f, s = next(gen)
                    except StopIteration:
                        stop = True
                        break
                    pending.add(ex.submit(_run_case, check.prop, f.__module__, f.__name__, s, a.tier, keep))
                    submitted += 1
                if not pending:
                    break
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED, timeout=60)
                for d in done:
                    r = d.result()
                    evals += 1
                    per_fn[r["fn"]] += 1
                    counters.update(r["counters"])
                    slowest = max(slowest, (round(r["t"], 1), r["fn"], r["seed"]))
                    if r["verdict"] == "held":
                        keys.update(r["keys"])
                        if len(samples) < 6 and (r["samples"] and (len(samples) < 2 or per_fn[r["fn"]] <= 2)):
                            samples += [dict(s, case=r["fn"], seed=r["seed"]) for s in r["samples"][:1]]
                    elif r["verdict"] == "violation":
                        violations.append(r)
                        if len(violations) >= 3 and not a.keep_going:
                            stop = True
                    elif r["verdict"] == "inconclusive":
                        inconclusive.append(r)
                    else:
                        errors.append(r)
                        if len(errors) > 20:
                            stop = True
    finally:
        shutil.rmtree(root, ignore_errors=True)

    known = known_findings(check.prop)
    fresh, seen_known = [], {}
    for v in violations:
        sig = v["info"].get("signature")
        hit = [d for k, d in known if sig is not None and k == sig]
        if hit:
            seen_known[sig] = hit[0]
        else:
            fresh.append(v)
    for sig, d in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (check.prop, d))
    for v in fresh[:3]:
        path = os.path.join(rdir, "%s-%s.json" % (check.prop, v["seed"]))
        with open(path, "w") as f:
            json.dump({"property": check.prop, "fn": v["fn"], "case_seed": v["seed"], "tier": a.tier, "message": v["msg"], "details": jsonable(v["info"]),
                       "how": "./check %s --replay %s   (input files, if any, in %s-%s/)" % (check.prop, path, keep, v["seed"])}, f, indent=1, default=repr)
        print("  %s [%s %s]: %s" % (check.prop, v["fn"], v["seed"], shorten(v["msg"], 1500)))
        for k, x in v["info"].items():
            print("    %s: %s" % (k, shorten(x, 500)))
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
    for e in errors[:3]:
        print("  harness error in %s [%s]:\n%s" % (e["fn"], e["seed"], e["msg"]), file=sys.stderr)
    for e in inconclusive[:5]:
        print("  inconclusive %s [%s]: %s" % (e["fn"], e["seed"], shorten(e["msg"])), file=sys.stderr)

    cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": check.rule, "samples": samples or ["none"],
           "cases_by_kind": dict(per_fn), "observed": dict(counters), "inconclusive": len(inconclusive), "harness_errors": len(errors),
           "slowest_case": list(slowest), "build_seconds": round(t_build, 1)}
    ev = {"property": check.prop, "tier": a.tier, "seed": seed, "level": check.level, "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("%s: %d cases, %d distinct, %d inconclusive, %d errors, %d violations, build %.1f s, total %.1f s, slowest %s; %s" % (
        check.prop, evals, len(keys), len(inconclusive), len(errors), len(fresh), t_build, time.time() - t0, slowest, dict(counters)), flush=True)
    if fresh:
        return 1
    if errors and len(errors) * 10 > evals:
        print("too many harness errors", file=sys.stderr)
        return 2
    if evals == 0 or (evals == len(inconclusive)) or not keys:
        print("nothing was observed", file=sys.stderr)
        return 2
    return 0


# ---------------------------------------------------------------- running programs

class Result:
    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv

    def __repr__(self):
        return "rc=%s out=%s err=%s" % (self.rc, shorten(self.out), shorten(self.err))


def _threads(pid):
    """-> (all threads sleeping?, total cpu ticks) of a child of ours"""
    ticks, sleeping = 0, True
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            s = open("/proc/%d/task/%s/stat" % (pid, t)).read()
            f = s[s.rindex(")") + 2:].split()
            ticks += int(f[11]) + int(f[12])
            if f[0] not in "S":
                sleeping = False
    except OSError:
        return False, -1
    return sleeping, ticks


class Deadlock(Exception):
    pass


def _cpu(pid):
    """Processor seconds used by a child of ours, ended threads included."""
    try:
        s = open("/proc/%d/stat" % pid).read()
        f = s[s.rindex(")") + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0


ERR_LIMIT = 48 << 20


def run(argv, env=None, cwd=None, stdin=None, patience=40.0, max_wait=150.0, text=True, cpu_limit=None):
    """Runs a program.  A run that does not end is a hang only if for a long time none of its threads could run
    and none used any processor time, or if it has used far more processor time than its input can need
    (cpu_limit), or floods stderr; otherwise it is inconclusive."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(argv, env=env, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True)
        try:
            if stdin is not None:
                try:
                    p.stdin.write(stdin)
                    p.stdin.close()
                except BrokenPipeError:
                    pass
            t, still, last = time.time(), 0, None
            while True:
                waited = time.time() - t
                try:
                    p.wait(min(2.0, max(0.01, patience - waited)) if waited < patience else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if os.fstat(fe.fileno()).st_size > ERR_LIMIT:
                    fe.seek(0)
                    raise Deadlock("%s does not end and floods stderr: %r" % (shorten(" ".join(map(str, argv))), fe.read(600)))
                if cpu_limit and _cpu(p.pid) > cpu_limit:
                    raise Deadlock("%s does not end: %d s of processor time used, where a few at most are usual" % (shorten(" ".join(map(str, argv))), _cpu(p.pid)))
                if waited > patience:
                    sl, ticks = _threads(p.pid)
                    still = still + 1 if sl and ticks == last else 0
                    last = ticks
                    if still >= 20:
                        raise Deadlock("all threads of %s asleep and no processor time used for 10 s" % shorten(" ".join(map(str, argv))))
                if waited > patience + max_wait:
                    raise Inconclusive("timeout: %s" % shorten(" ".join(map(str, argv))))
        finally:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        fo.seek(0)
        fe.seek(0)
        o, e = fo.read(), fe.read()
        if p.returncode == -9:
            raise Inconclusive("killed: %s" % shorten(" ".join(map(str, argv))))
        if text:
            return Result(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), argv)
        return Result(p.returncode, o, e, argv)
