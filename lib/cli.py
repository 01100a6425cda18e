"""Running the wimbd command line and reading what it prints."""
import gzip, json, os
import core
from core import Violation, Inconclusive, Deadlock

UMAX = 2 ** 64 - 1
NOISES = [(300, 100, 2000), (1000, 30, 500), (3000, 0, 0), (100, 300, 300), (50, 20, 5000), (0, 0, 0)]


def flavour(case):
    """Plain and noisy builds in turn, as far as they were built."""
    fl = [f for f in ("plain", "noise") if f in case.env]
    return case.rng.choice(fl)


def noise_env(case):
    y, s, us = case.rng.choice(NOISES)
    return {"NOISE_SEED": str(case.rng.randrange(1 << 30)), "NOISE_YIELD": str(y), "NOISE_SLEEP": str(s), "NOISE_US": str(us), "NOISE_LOG": os.path.join(case.dir, "noise.log")}


def env_for(case, fl, extra=None):
    e = {"PATH": "/usr/bin:/bin", "HOME": case.dir, "RUST_BACKTRACE": "0", "NO_COLOR": "1", "TERM": "dumb"}
    if fl == "noise":
        e.update(noise_env(case))
    e.update(extra or {})
    return e


def work(argv, cwd):
    """How many tokens are hashed at most."""
    def option(short, default):
        for a, b in zip(argv, argv[1:]):
            if a == short and b.isdigit():
                return int(b)
        return default
    size = 0
    for a in argv[1:]:
        p = os.path.join(cwd, a)
        for q in [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs] if os.path.isdir(p) else [p]:
            try:
                size += len(gzip.decompress(open(q, "rb").read()))
            except Exception:
                pass
    return size / 2 * option("-n", 5) * option("-h", 20)


class Run:
    def __init__(self, case, argv, fl=None, env=None, cwd=None, patience=40.0, cpu_limit=120.0, prefix=()):
        self.fl = fl or flavour(case)
        binary = case.env[self.fl]
        e = env_for(case, self.fl, env)
        self.argv = [str(a) for a in argv]
        try:
            r = core.run(list(prefix) + [binary] + self.argv, env=e, cwd=cwd or case.dir, text=False, patience=patience, cpu_limit=cpu_limit)
        except Deadlock as d:
            if "processor time used" in str(d) and work(self.argv, cwd or case.dir) > 1e8:
                raise Inconclusive("an input that takes long: " + str(d))
            raise Violation("the run hangs: " + str(d), argv=self.argv, flavour=self.fl)
        self.rc, self.stdout, self.stderr = r.rc, r.out, r.err.decode("utf-8", "replace")
        case.count("runs")
        case.ran = "wimbd " + self.argv[0] if self.argv else "wimbd"
        case.count("runs:" + self.fl)
        if self.fl == "noise":
            log = os.path.join(case.dir, "noise.log")
            if os.path.exists(log):
                ops, noise, threads = map(int, open(log).read().split())
                case.count("noise:sync_ops", ops)
                case.count("noise:perturbations", noise)
                os.unlink(log)

    def info(self):
        return {"argv": self.argv, "flavour": self.fl, "rc": self.rc, "stdout": core.shorten(self.stdout.decode("utf-8", "replace"), 1500), "stderr": core.shorten(self.stderr, 1500)}

    def crashed(self):
        return self.rc < 0 or self.rc in (101, 134, 139) or "panicked at" in self.stderr or "ThreadSanitizer" in self.stderr or "AddressSanitizer" in self.stderr

    def rows(self):
        """The JSON rows on stdout; the run must have succeeded."""
        if self.rc != 0:
            raise Violation("run failed on valid input (exit status %d)" % self.rc, **self.info())
        return parse_rows(self.stdout, self)

    def must_fail(self, what):
        if self.rc == 0:
            raise Violation("%s: exit status 0" % what, **self.info())


def parse_rows(data, run):
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        raise Violation("output is not UTF-8", **run.info())
    rows = []
    for line in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        if line == "" and not rows and text == "":
            continue
        try:
            rows.append(json.loads(line))
        except ValueError:
            raise Violation("output line is not JSON: %r" % line, **run.info())
    return rows


def workers_args(case):
    r = case.rng.random()
    if r < 0.15:
        return []
    return ["-j", str(case.rng.choice([1, 2, 2, 3, 4, 4, 8, 8, 16, 40]))]


def limit_args(case, p=0.15):
    """-> (arguments, limit, file limit)"""
    args, lim, flim = [], None, None
    if case.chance(p):
        lim = case.rng.choice([0, 1, 2, 5, 1000])
        args += ["-l", str(lim)]
    if case.chance(p):
        flim = case.rng.choice([1, 2, 3, 50])
        args += ["--file-limit", str(flim)]
    return args, lim, flim


def quietness(case):
    return ["-q"] if case.chance(0.8) else []


def valued(name, value, case):
    """An option with a value, in a form that the argument parser takes as it is."""
    if value.startswith("-") or value == "":
        return ["--%s=%s" % (name, value)]
    if value.startswith("=") or case.chance(0.7):
        return [case.rng.choice(["-" + name[0], "--" + name]), value]
    return ["--%s=%s" % (name, value)]
