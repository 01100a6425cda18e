"""Builds of /repo and of the harness, all offline and outside /repo.

Every build takes /repo's working tree as it is now.  Cargo's freshness test looks at modification
times, which copies of a tree may not keep, so a digest of the contents decides whether the wimbd
crate has to be recompiled.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TARGET = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "NOISE_", "SHIM_", "TSAN", "ASAN", "MIRI", "LD_"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"          # faster runs; debug assertions and overflow checks stay on
    e["RUSTC_WRAPPER"] = ""
    if "RUSTUP_HOME" in os.environ:
        e["RUSTUP_HOME"] = os.environ["RUSTUP_HOME"]
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    return e


def digest(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                h.update(b"!")
            h.update(b"\1")
    return h.hexdigest()


def repo_digest():
    return digest(*[os.path.join(REPO, p) for p in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo") if os.path.exists(os.path.join(REPO, p))])


def run(cmd, env, cwd, what, timeout=800):
    t = time.time()
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout.decode(errors="replace")[-4000:]))
    log("%s: %.1f s" % (what, time.time() - t))
    return p.stdout


def noise_lib():
    gen = os.path.join(VERIF, "harness/noise/gen.py")
    d = os.path.join(BUILD, "noise-" + digest(gen)[:8])
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(d, "libnoise.a")
    stamp = os.path.join(d, "stamp")
    dg = digest(gen)
    if not (os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == dg):
        env = base_env()
        run([sys.executable, gen, os.path.join(d, "noise.c")], env, d, "noise.c")
        run(["gcc", "-O2", "-fPIC", "-w", "-c", "noise.c", "-o", "noise.o"], env, d, "noise.o")
        if os.path.exists(lib):
            os.unlink(lib)
        run(["ar", "rcs", "libnoise.a", "noise.o"], env, d, "libnoise.a")
        open(stamp, "w").write(dg)
    return lib


def shim_lib(name="shim"):
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, "harness/shim/%s.c" % name)
    lib = os.path.join(d, name + ".so")
    with Lock(name):
        stamp = os.path.join(d, "stamp")
        dg = digest(src)
        if not (os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == dg):
            run(["gcc", "-O2", "-fPIC", "-shared", "-w", src, "-o", lib, "-ldl", "-lpthread"], base_env(), d, name + ".so")
            open(stamp, "w").write(dg)
    return lib


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".flock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def flavour_env(flavour):
    """-> (environment, toolchain, extra arguments, sub-directory with the products)"""
    e = base_env()
    if flavour == "plain":
        return e, "stable", [], "debug"
    if flavour == "noise":
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=" + noise_lib()
        return e, "nightly", ["--target", TARGET], TARGET + "/debug"
    if flavour in ("tsan", "asan"):
        e["RUSTFLAGS"] = "-Zsanitizer=" + {"tsan": "thread", "asan": "address"}[flavour]
        return e, "nightly", ["-Zbuild-std", "--target", TARGET], TARGET + "/debug"
    raise ValueError(flavour)


def cargo_build(flavour, manifest_dir, select, binary):
    with Lock(flavour):
        env, tc, extra, sub = flavour_env(flavour)
        tdir = os.path.join(BUILD, "t-" + flavour)
        env["CARGO_TARGET_DIR"] = tdir
        ldir = os.path.join(BUILD, "lock-" + flavour + "-" + binary)
        os.makedirs(ldir, exist_ok=True)
        lock = os.path.join(ldir, "Cargo.lock")
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), lock)
        cfg = ["--offline", "--config", 'resolver.lockfile-path="%s"' % lock] + (["-Zlockfile-path"] if False else [])
        cargo = ["cargo", "+" + tc]
        stamp = os.path.join(BUILD, "stamp-%s-%s" % (flavour, binary))
        dg = digest(manifest_dir) if manifest_dir != REPO else ""
        dg += repo_digest()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != dg:
            # Modification times prove nothing: force the crates whose contents changed.
            for pkg in {"wimbd", binary}:
                subprocess.run(cargo + ["clean", "-p", pkg] + cfg + (["--target", TARGET] if flavour != "plain" else []), env=env, cwd=manifest_dir,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
        run(cargo + ["build"] + select + cfg + extra, env, manifest_dir, "cargo build (%s, %s)" % (flavour, binary))
        open(stamp, "w").write(dg)
        out = os.path.join(tdir, sub, binary)
        if not os.path.exists(out):
            raise BuildError("no " + out)
        return out


def wimbd(flavour):
    return cargo_build(flavour, REPO, ["--bin", "wimbd"], "wimbd")


def oracle():
    return cargo_build("plain", os.path.join(VERIF, "harness/oracle"), [], "oracle")


def libmon_src():
    """The harness crate with its dependency on the tree under test."""
    src, dst = os.path.join(VERIF, "harness/libmon"), os.path.join(BUILD, "libmon-src")
    with Lock("libmon-src"):
        for d, ds, fs in os.walk(src):
            ds[:] = [x for x in ds if x != "target"]
            for f in fs:
                a = os.path.join(d, f)
                b = os.path.join(dst, os.path.relpath(a, src))
                data = open(a).read().replace('path = "/repo"', 'path = "%s"' % REPO)
                os.makedirs(os.path.dirname(b), exist_ok=True)
                if not (os.path.exists(b) and open(b).read() == data):
                    open(b, "w").write(data)
    return dst


def libmon(flavour):
    return cargo_build(flavour, libmon_src(), [], "libmon")


def miri():
    """-> a function that runs the harness under Miri; built into its own target directory."""
    src = libmon_src()
    with Lock("miri"):
        env = base_env()
        tdir = os.path.join(BUILD, "t-miri")
        work = os.path.join(BUILD, "miri-src")
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(src, work)
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(work, "Cargo.lock"))
        env.update(CARGO_TARGET_DIR=tdir, MIRIFLAGS="-Zmiri-disable-isolation")
        stamp, dg = os.path.join(BUILD, "stamp-miri"), digest(src) + repo_digest()
        if os.path.exists(stamp) and open(stamp).read() != dg:
            for pkg in ("wimbd", "libmon"):
                subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", pkg], env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        run(["cargo", "+nightly", "miri", "run", "--offline", "--", "windows", "1", "1", "/tmp", "small"], env, work, "miri build")
        open(stamp, "w").write(dg)
    return work
