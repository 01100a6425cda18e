"""Running the Python and shell pipelines of wimbd in a scratch directory."""
import json, os, subprocess, sys
import core
from core import Violation, Inconclusive, Deadlock
from corpus import gz

REPO = core.REPO
W = os.path.join(REPO, "wimbd")
STUBS = os.path.join(core.VERIF, "pystubs")
BIN = os.path.join(core.VERIF, "pybin")
if STUBS not in sys.path:
    sys.path.append(STUBS)        # the oracles share the deterministic stand-ins for models and tokenizers
MARK = "VERIF-STUB-LIMIT"


def env_for(case, extra=None):
    e = {"PATH": BIN + ":/usr/local/bin:/usr/bin:/bin", "HOME": case.dir, "PYTHONPATH": "%s:%s" % (REPO, STUBS), "PYTHONDONTWRITEBYTECODE": "1",
         "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "PYTHONHASHSEED": str(case.rng.randrange(1, 10 ** 6)), "PARALLEL_SEED": str(case.rng.randrange(10 ** 6)),
         "PARALLEL_JOBS": str(case.rng.choice([1, 2, 3, 4])), "TMPDIR": case.dir, "VERIF_STUB_LIMITS": os.path.join(case.dir, "stub-limits"),
         "TEXT_AND_URL_OVERLAPS": os.path.join(W, "text_and_url_overlaps"), "PYTHONWARNINGS": "ignore", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    e.update(extra or {})
    return e


class PyRun:
    """One finished process; `out` is its standard output as text (undecodable bytes escaped)."""

    def __init__(self, case, argv, cwd=None, env=None, stdin=None, patience=60.0, what=None):
        self.argv = [str(a) for a in argv]
        try:
            r = core.run(self.argv, env=env_for(case, env), cwd=cwd or case.dir, stdin=stdin, text=False, patience=patience, max_wait=120.0, cpu_limit=120)
        except Deadlock as d:
            raise Violation("the run hangs: " + str(d), argv=self.argv)
        except FileNotFoundError as e:
            raise Inconclusive("cannot start %r: %s" % (self.argv, e))
        self.rc, self.stdout = r.rc, r.out
        self.out, self.err = r.out.decode("utf-8", "backslashreplace"), r.err.decode("utf-8", "backslashreplace")
        case.count("processes")
        case.ran = next((a for a in self.argv if a.endswith((".py", ".sh"))), self.argv[0])
        lim = os.path.join(case.dir, "stub-limits")
        if MARK in self.err or os.path.exists(lim):
            raise Inconclusive("something the stand-ins do not model was used: " + core.shorten(open(lim).read() if os.path.exists(lim) else self.err))
        for m in ("MemoryError", "Cannot allocate memory", "No space left on device", "Resource temporarily unavailable"):
            if m in self.err:
                raise Inconclusive(m)

    def info(self, **kw):
        d = {"argv": self.argv, "rc": self.rc, "stdout": core.shorten(self.out, 1500), "stderr": core.shorten(self.err, 1500)}
        d.update(kw)
        return d

    def ok(self, what="the run"):
        if self.rc != 0:
            raise Violation("%s failed on valid input (exit status %d)" % (what, self.rc), **self.info())
        return self

    def lines(self):
        t = self.out
        return (t[:-1] if t.endswith("\n") else t).split("\n") if t else []

    def rows(self):
        out = []
        for l in self.lines():
            try:
                out.append(json.loads(l))
            except ValueError:
                raise Violation("output line is not JSON: %r" % l, **self.info())
        return out


def script(case, path, *args, **kw):
    """Runs a script of the repository (path relative to wimbd/)."""
    p = os.path.join(W, path)
    return PyRun(case, [("bash" if p.endswith(".sh") else os.path.join(BIN, "python")), p] + list(args), **kw)


def write_gz(path, records, rng, ascii_=None, final_newline=True, members=True):
    asc = rng.random() < 0.5 if ascii_ is None else ascii_
    lines = [json.dumps(r, ensure_ascii=asc) for r in records]
    data = ("\n".join(lines) + ("\n" if final_newline or not lines else "")).encode("utf-8") if lines else b""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(gz(data, rng) if members else gz(data))
    return data


def shard(case, records, most=6, suffix=".jsonl.gz", empty=True):
    """Distributes records over files at random (keeping their order within a file); -> paths, lists of records"""
    rng = case.rng
    n = rng.randint(1, most)
    parts = [[] for _ in range(n)]
    for r in records:
        rng.choice(parts).append(r)
    if not empty:
        parts = [p for p in parts if p] or [records]
    d = case.path("in%d" % rng.randrange(10 ** 6))
    names = ["part-%02d%s" % (i, suffix) for i in range(len(parts))]
    if rng.random() < 0.3:
        names = ["a b %d.x%s" % (i, suffix) for i in range(len(parts))]
    paths = [os.path.join(d, x) for x in names]
    for p, recs in zip(paths, parts):
        write_gz(p, recs, rng, final_newline=rng.random() < 0.8)
    return paths, parts


def reduce_lines(case, pipeline, outputs, mix=True):
    """Feeds the mappers' outputs to the reducer, in any order of the mappers."""
    outs = list(outputs)
    case.rng.shuffle(outs)
    data = b""
    for o in outs:
        if o and not o.endswith(b"\n"):
            o += b"\n"
        data += o
    if mix and case.chance(0.3):
        ls = data.split(b"\n")[:-1]
        case.rng.shuffle(ls)
        data = b"".join(l + b"\n" for l in ls)
    return script(case, pipeline + "/reduce_count.py", stdin=data)


def map_reduce(case, pipeline, paths, *mapargs, mapper="map_count.py", via_shell=None):
    """The pipeline over `paths`: through its run.sh (which takes no mapper options) or mapper by mapper."""
    if via_shell is None:
        via_shell = not mapargs and mapper == "map_count.py" and case.chance(0.5)
    if via_shell:
        case.count("via run.sh")
        return script(case, pipeline + "/run.sh", *paths).ok(pipeline + "/run.sh")
    outs = [script(case, pipeline + "/" + mapper, "--in_file", p, *mapargs).ok("the mapper").stdout for p in paths]
    return reduce_lines(case, pipeline, outs).ok("the reducer")


def table(run, key, val="count"):
    """Rows {key: k, val: v} as a dict; a key in two rows is a violation."""
    out = {}
    for r in run.rows():
        if not isinstance(r, dict) or set(r) != {key, val}:
            raise Violation("a row is not of the form {%s, %s}: %r" % (key, val, r), **run.info())
        if r[key] in out:
            raise Violation("two rows for %r" % (r[key],), **run.info())
        out[r[key]] = r[val]
    return out


def compare(run, got, want, what, **kw):
    if got != want:
        miss = {k: v for k, v in want.items() if got.get(k) != v}
        extra = {k: v for k, v in got.items() if want.get(k) != v}
        raise Violation("%s: expected %s, got %s" % (what, core.shorten(repr(miss), 400), core.shorten(repr(extra), 400)), **run.info(**kw))
