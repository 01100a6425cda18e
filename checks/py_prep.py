"""P38-P41: conversion of mC4, download of The Stack, link checks, prompt templates."""
import collections, gzip, http.server, json, os, re, socket, socketserver, struct, sys, threading, time, zlib
from core import Check, Violation, Inconclusive
import pyscale
from pyrun import *
from py_counts import rand_text, rand_url, JOBS
from py_overlap import read_jsonl
import ftfy as ftfy_stub
import tensorflow as tf_stub
from tensorflow.python import data as tf_data

PREP = os.path.join(REPO, "preparation")


def tree(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith("~"):      # of the stand-in for the storage
                continue
            out[os.path.relpath(p, base)] = open(p, "rb").read()
    return out


# ------------------------------------------------------------------ P38

ODD = ["â€™", "Ã©", "\r\n", "\x00", "é", "漢字", "\u2028", "\u0085", "😀", '"', "\\", "\n", "\t"]


def mc4_text(rng):
    return "".join(rng.choice([rand_text(rng, 4), rng.choice(ODD), " "]) for _ in range(rng.choice([0, 1, 2, 6])))


def p38_mc4(c):
    rng = c.rng
    root = c.path("gcs")
    inp, outp = rng.choice([("", "o"), ("in/", "out"), ("c4/multilingual/3.0.1/c4-", "mc4/docs/"), ("a.b/", "a.b-out/"), ("raw/", ""), ("in/", "out/"), ("", "two/levels"), ("C4/Raw/", "C4/Docs")])
    ib, ob = ("bk", "bk") if inp and outp and rng.random() < 0.3 else ("ib", "ob")
    where = inp if inp.endswith("/") or not inp else os.path.dirname(inp) + "/"
    want, blobs = {}, {}
    for lang in rng.sample(["af", "en", "zh", "und", "iw", "de", "en-validation", "af-validation", "bg-Latn", "zh-Latn", "hi-Latn-validation"], rng.randint(1, 4)):
        n, of = rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 64, 1024, 11264])
        for k in rng.sample(range(max(n, of)), n):
            recs = [{"text": mc4_text(rng), "timestamp": "20%02d-01-0%dT00:00:00Z" % (rng.randint(10, 20), rng.randint(1, 9)), "url": rand_url(rng)} for _ in range(rng.choice([0, 1, 2, 5, 30]))]
            name = "c4-%s.tfrecord-%05d-of-%05d" % (lang, k, of)
            out = "c4-%s.%05d" % (lang, k)
            if out in want:
                continue
            blobs[name] = tf_data.encode_records([tf_stub.encode_example({f: r[f].encode() for f in rng.sample(sorted(r), 3)} | {"content-length": b"5", "content-type": b"text/plain"}) for r in recs])
            want[out] = [{"source": "mc4", "id": "%s-%d" % (out, i), "text": ftfy_stub.fix_text(r["text"]), "timestamp": r["timestamp"], "metadata": {"url": r["url"]}, "lang": {lang.split("-")[0]: 1.0}} for i, r in enumerate(recs)]
    os.makedirs(os.path.join(root, ib, where), exist_ok=True)
    os.makedirs(os.path.join(root, ob), exist_ok=True)
    for nm, data in list(blobs.items()) + [("dataset_info.json", b"{}")] + [(x, b"zz") for x in rng.sample(["c4-en.tfrecord.index", "c4-af.tfrecords", "c4-en.tfrecord-dir/README", "c4-notes.txt", "c4-en.json"], rng.randint(0, 5))]:
        os.makedirs(os.path.dirname(os.path.join(root, ib, where, nm)), exist_ok=True)
        open(os.path.join(root, ib, where, nm), "wb").write(data)
    if inp and rng.random() < 0.5:           # other objects of the buckets are none of its business
        for nm, data in rng.sample(sorted(blobs.items()), rng.randint(0, min(3, len(blobs)))):
            q = os.path.join(root, ib, rng.choice(["elsewhere", inp.rstrip("/") + "2"]) if inp.endswith("/") else "elsewhere", nm if rng.random() < 0.5 else nm.replace("c4-", "c4-q"))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(data)
    if outp and rng.random() < 0.5:
        for nm in rng.sample(sorted(want), rng.randint(0, min(3, len(want)))):
            q = os.path.join(root, ob, rng.choice(["elsewhere", outp.rstrip("/") + "2"]), nm + ".json.gz")
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(b"elsewhere")
    outdir = outp + ("/" if outp and not outp.endswith("/") else "")
    deeper = []
    if ib != ob and rng.random() < 0.4:      # nor is another conversion's output in a folder further down
        for nm in rng.sample(sorted(want), rng.randint(0, min(2, len(want)))):
            deeper.append(outdir + rng.choice(["v1/", "old/c4/"]) + nm + ".json.gz")
            q = os.path.join(root, ob, deeper[-1])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(b"deeper")
    inputs = tree(os.path.join(root, ib))
    argv = [os.path.join(BIN, "python"), os.path.join(PREP, "mc4/mc4.py"), "gs://%s/%s" % (ib, inp), "gs://%s/%s" % (ob, outp)]

    def state():
        return {k[len(outdir):]: v for k, v in tree(os.path.join(root, ob)).items() if k.startswith(outdir) and k not in deeper and not (ib == ob and k in inputs)}

    # outputs that are there already are left alone
    before, interruptions = {}, 0
    if want and rng.random() < 0.3:
        nm = rng.choice(sorted(want))
        p = os.path.join(root, ob, outdir, nm + ".json.gz")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(gzip.compress(b"kept\n"))
        want[nm] = None
        before = state()
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        crash = "%d%s" % (rng.randint(1, max(1, len(want) - len(before))), rng.choice(["", ":after"]))
        run = PyRun(c, argv, env={"FAKE_GCS": root, "FAKE_GCS_CRASH": crash})
        if run.rc not in (0, 77):
            raise Violation("the run failed on valid input (exit status %d)" % run.rc, **run.info())
        now = state()
        if any(now.get(k) != v for k, v in before.items()):
            raise Violation("a resumed run changes existing outputs", **run.info())
        before, interruptions = now, interruptions + (run.rc == 77)
    for i in range(rng.choice([1, 1, 2])):
        run = PyRun(c, argv, env={"FAKE_GCS": root}).ok("the conversion")
    log = [json.loads(l) for l in open(os.path.join(root, "log.jsonl"))] if os.path.exists(os.path.join(root, "log.jsonl")) else []
    if any(l["existed"] for l in log):
        raise Violation("an existing output was written again: %r" % [l for l in log if l["existed"]][:2], **run.info())
    if any(open(os.path.join(root, ob, q), "rb").read() != b"deeper" for q in deeper):
        raise Violation("an object in a deeper folder was changed", **run.info())
    got = state()
    if set(got) != {k + ".json.gz" for k in want}:
        raise Violation("outputs %s instead of %s" % (sorted(got)[:8], sorted(want)[:8]), **run.info())
    n = 0
    for nm, recs in want.items():
        if recs is None:
            continue
        try:
            rows = [json.loads(l) for l in gzip.decompress(got[nm + ".json.gz"]).decode().split("\n")[:-1]]
        except (OSError, EOFError, zlib.error, ValueError) as e:
            raise Violation("output %s is damaged: %s" % (nm, e), **run.info())
        for r in rows:
            if not isinstance(r.pop("added", None), str):
                raise Violation("a row without the time it was added: %r" % r, **run.info())
            if isinstance(r.get("lang"), dict):      # whether the script belongs to the language's name is left open
                r["lang"] = {k[:-len("-Latn")] if k.endswith("-Latn") else k: v for k, v in r["lang"].items()}
        if rows != recs:
            bad = [(a, b) for a, b in zip(rows, recs) if a != b][:1]
            raise Violation("output %s has %d rows for %d records; first difference (written, expected): %r" % (nm, len(rows), len(recs), bad), **run.info())
        n += len(rows)
    if ib != ob and tree(os.path.join(root, ib)) != inputs:
        raise Violation("the inputs were changed", **run.info())
    c.count("records", n)
    c.count("files", len(want))
    c.count("interruptions", interruptions)
    if n:
        c.key("mc4", tuple(sorted((k, len(v) if v is not None else -1) for k, v in want.items())), interruptions, inp, ib == ob)
    c.sample(files=len(want), records=n, interruptions=interruptions)


# ------------------------------------------------------------------ P39

HF = "https://huggingface.co/datasets/bigcode/the-stack/resolve/"
LANGS = ["ABAP", "C", "C#", "C++", "Common Lisp", "F#", "Jupyter Notebook", "AGS Script", "Python", "Go", "XML", "Emacs Lisp", "1C Enterprise", "HTML+ERB"]


def folder(lang):
    return lang.lower().replace(" ", "-").replace("#", "-sharp")


def stack_env(c, **kw):
    return {"FAKE_HF": c.path("hf"), "HF_TOKEN": "secret", **kw}


def put(c, url, data):
    p = os.path.join(c.path("hf"), url[len("https://"):])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(data)


def p39_list(c):
    rng = c.rng
    langs = rng.sample(LANGS, rng.choice([1, 1, 2, 4, 8]))
    version = rng.choice(["v1.1", "v1.2", None])
    v = version or "v1.1"
    put(c, HF + v + "/programming-languages.json", json.dumps({l: [".x"] for l in langs}))
    want = []
    for l in langs:
        n = rng.choice([1, 1, 2, 3, 12])
        for i in range(n):
            want.append("%s%s/data/%s/train-%05d-of-%05d.parquet" % (HF, v, folder(l), i, n))
            put(c, want[-1], "x")
    # files of another version are not meant
    put(c, HF + "v0/data/%s/train-00000-of-00001.parquet" % folder(langs[0]), "x")
    out = c.path("urls.txt")
    args = ["--output-file", out] + (["--version", version] if version else [])
    argv = [os.path.join(BIN, "python"), os.path.join(PREP, "stack/get_urls.py")] + args
    stops = 0
    held = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        kind = rng.choice(["int", "int", "err"])
        run = PyRun(c, argv, env=stack_env(c, FAKE_HF_MOST=str(50 * len(want) + 2000), FAKE_HF_STOP="%d:%s" % (rng.randint(2, 2 * len(want) + 2), kind)))
        now = open(out).read().split("\n")[:-1] if os.path.exists(out) else []
        if now != want[:len(now)] or len(now) < len(held):
            raise Violation("after an interruption the list holds %s" % now[-3:], want=want, **run.info())
        if len({u.split("/")[-2] for u in now}) != len({u.split("/")[-2] for u in want[:len(now) + 1]}) - (len(now) < len(want)):
            raise Violation("after an interruption the list ends within a language: %s" % now[-2:], want=want, **run.info())
        held = now
        stops += len(now) < len(want)
    for _ in range(rng.choice([1, 1, 2])):
        run = PyRun(c, argv, env=stack_env(c, FAKE_HF_MOST=str(50 * len(want) + 2000))).ok("listing")
        got = open(out).read().split("\n")
        if got != want + [""]:
            raise Violation("the list holds %d urls instead of %d, first difference %r" % (len(got) - 1, len(want), [(a, b) for a, b in zip(got, want + [""]) if a != b][:1]), **run.info())
    c.count("urls listed", len(want))
    c.count("interruptions", stops)
    c.key("list", tuple(want), stops)
    c.sample(languages=len(langs), urls=len(want), interruptions=stops)


def stack_table(rng):
    n = rng.choice([1, 1, 2, 5, 20, 300])
    long = rng.random() < 0.3
    cols = {"hexsha": ["%040x" % rng.getrandbits(160) for _ in range(n)], "size": [rng.randrange(10 ** 6) for _ in range(n)], "ext": [rng.choice(["py", "c", "x/y"]) for _ in range(n)],
            "lang": [rng.choice(["Common Lisp", "C", "C++", "Jupyter Notebook"])] * n,
            "content": ["%x" % rng.getrandbits(4000) if long else rng.choice(["", "x = 1\n", "é\u2028\"\\/", rand_text(rng, 5)]) for _ in range(n)],
            "max_stars_repo_licenses": [rng.choice([[], ["MIT"], ["a", "b"]]) for _ in range(n)], "max_stars_count": [rng.choice([None, 1, 5]) for _ in range(n)]}
    keys = list(cols)
    rng.shuffle(keys)
    return {k: cols[k] for k in keys}


def stack_rows(t):
    rest = [k for k in t if k not in ("hexsha", "content", "lang")]
    return [{"id": t["hexsha"][i], "text": t["content"][i], "lang": t["lang"][i].lower().replace(" ", "-"), "metadata": {k: t[k][i] for k in rest}, "timestamp": "2023-03-16T00:00:00", "source": "stack-v1.2"} for i in range(len(t["hexsha"]))]


def p39_download(c):
    rng = c.rng
    tables = {}
    for l in rng.sample(LANGS, rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 1, 2, 3])
        for i in range(n):
            u = "%sv1.2/data/%s/train-%05d-of-%05d.parquet" % (HF, folder(l), i, n)
            tables[u] = stack_table(rng)
            put(c, u, json.dumps(tables[u]))
    out, lst = c.path("out"), c.path("urls.txt")
    with open(lst, "w") as f:
        f.write("".join(u + "\n" for u in tables))
    target = {u: "%s/%s.jsonl.gz" % (u.split("/")[-2], u.split("/")[-1][:-8]) for u in tables}
    shell = rng.random() < 0.6
    stack = os.path.join(PREP, "stack")

    def go(env):
        if shell:
            return [PyRun(c, ["bash", "./download.sh", lst, out], cwd=stack, env=env)]
        return [PyRun(c, [os.path.join(BIN, "python"), os.path.join(stack, "download_url.py"), u, out], env=env) for u in tables]

    stops = 0
    passes = rng.choice([0, 1, 1, 2])
    if passes:
        probe = PyRun(c, [os.path.join(BIN, "python"), os.path.join(stack, "download_url.py"), rng.choice(sorted(tables)), c.path("probe")], env=stack_env(c, PYCRASH="-1", PYCRASH_OUT=c.path("lines"), PYNOISE_ROOT=stack)).ok("the download")
        lines = int(open(c.path("lines")).read())
    for _ in range(passes):
        if rng.random() < 0.2:
            env = stack_env(c, FAKE_HF_STOP="1:err")
        else:
            env = stack_env(c, PYCRASH=str(rng.choice([rng.randint(1, lines), rng.randint(max(1, lines - 60), lines)])), PYNOISE_ROOT=stack)
        stops += any(r.rc for r in go(env))
    if rng.random() < 0.2:
        # an empty file, as left behind by a download that failed, counts as missing
        p = os.path.join(out, target[rng.choice(sorted(target))])
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
    first = {}
    for i in range(rng.choice([1, 2])):
        slow = {}
        if rng.random() < 0.5:
            slow = {"PYNOISE": "%d %s %d" % (rng.randrange(10 ** 6), rng.choice([0.2, 0.6]), rng.choice([2000, 20000])), "PYNOISE_ROOT": stack}
            c.count("delayed passes")
        runs = go(stack_env(c, **slow))
        for r in runs:
            r.ok("the download")
        now = tree(out) if os.path.isdir(out) else {}
        if i and now != first:
            raise Violation("repeating the download changes files that were complete", **runs[0].info())
        first = now
    run = runs[0]
    n = 0
    for u, t in tables.items():
        rows = read_jsonl(os.path.join(out, target[u]), run)
        for r in rows:
            if not isinstance(r.pop("added", None), str):
                raise Violation("a row without the time it was added", **run.info())
        want = stack_rows(t)
        if rows != want:
            raise Violation("%s holds %d rows instead of %d, first difference (written, expected): %s" % (target[u], len(rows), len(want), repr([(a, b) for a, b in zip(rows, want) if a != b][:1])[:800]), **run.info())
        n += len(rows)
    c.count("rows", n)
    c.count("tables", len(tables))
    c.count("interrupted or failed passes", stops)
    c.key("download", tuple((u[-60:], len(t["hexsha"])) for u, t in tables.items()), stops, shell)
    c.sample(tables=len(tables), rows=n, interrupted=stops, shell=shell)
    if set(now) - set(target.values()):
        c.count("left-over files", len(set(now) - set(target.values())))


# ------------------------------------------------------------------ P40

class Site(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def do_GET(self):
        p = self.path.split("?")[0]
        self.server.seen.append(p)
        m = re.match(r"/status/(\d+)", p)
        if m:
            self.send_response(int(m.group(1)))
            body = b"" if m.group(1) in ("204", "304") else b"hello"
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)
            return
        if p.startswith("/exact/"):
            self.send_response(200 if p == "/exact/a/b" else 404)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        m = re.match(r"/hop/(\d+)/(30\d)(/.*)", p)
        if m:
            self.send_response(int(m.group(2)))
            n = int(m.group(1)) - 1
            self.send_header("Location", ("/hop/%d/%s%s" % (n, m.group(2), m.group(3))) if n > 0 else m.group(3))
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if p == "/loop":
            self.send_response(302)
            self.send_header("Location", "/loop")
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if p == "/reset":
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.close_connection = True
            self.connection.close()
            return
        if p == "/close":
            self.close_connection = True
            return
        if p == "/garbage":
            self.wfile.write(b"this is not http\r\n\r\n")
            self.close_connection = True
            return
        if p == "/big":          # the body never comes completely
            self.send_response(200)
            self.send_header("Content-Length", "1000000")
            self.end_headers()
            self.wfile.write(b"x" * 10)
            self.close_connection = True
            return

    def do_HEAD(self):           # a server that does not answer HEAD requests properly
        self.send_response(405)
        self.send_header("Content-Length", "0")
        self.end_headers()

    def log_message(self, *a):
        pass

    def finish(self):
        try:
            super().finish()
        except (OSError, ValueError):
            pass


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 128

    def handle_error(self, *a):
        pass


def p40_links(c):
    rng = c.rng
    srv = Server(("127.0.0.1", 0), Site)
    srv.seen = []
    th = threading.Thread(target=srv.serve_forever, args=(0.05,), daemon=True)
    th.start()
    closed = socket.socket()
    closed.bind(("127.0.0.1", 0))
    base, dead = "http://127.0.0.1:%d" % srv.server_address[1], "http://127.0.0.1:%d" % closed.getsockname()[1]
    kinds = {True: ["/status/200", "/status/201", "/status/204", "/status/206", "/status/304", "/hop/1/301/status/200", "/hop/3/302/status/200", "/hop/1/307/status/204", "/hop/2/308/status/200", "/hop/%d/%d/status/200" % (rng.randint(4, 29), rng.choice([301, 302, 303, 307, 308])), "/hop/%d/302/status/204" % rng.choice([9, 10, 11, 19, 20, 21, 28, 29]), "/big", "/status/200?a=b c&d=é", "/exact/a/b"],
             False: ["/status/400", "/status/401", "/status/403", "/status/404", "/status/410", "/status/418", "/status/429", "/status/500", "/status/503", "/hop/1/301/status/404", "/hop/2/302/status/500", "/reset", "/close", "/garbage", "/loop", "/exact/a/b ", "/exact/a/b/", "/exact/A/b", "/exact/a", "/exact/a/b%2F", "/exact//a/b"]}
    recs, want = [], collections.Counter()
    for _ in range(rng.choice([0, 1, 3, 10, 25])):
        r = rng.random()
        alive = rng.random() < 0.5
        url = base + rng.choice(kinds[alive])
        if r < 0.1:
            url, alive = dead + "/", False
        elif r < 0.25:
            url, alive = rng.choice(["", "example", "http://", "//127.0.0.1/x", "ftp://127.0.0.1/x", "http://[::1", "http://127.0.0.1:99999/", "mailto:a@b.c", "http://*.a/", "http://.x/", "javascript:void(0)", "about:blank"]), False
        want[str(alive)] += 1
        recs.append({"url": url, "text": "x"})
    paths, parts = shard(c, recs)
    try:
        env = {"NO_PROXY": "*", "no_proxy": "*"}
        if rng.random() < 0.5:
            run = script(c, "link_exists/run.sh", *paths, env=env).ok("link_exists/run.sh")
        else:
            run = reduce_lines(c, "link_exists", [script(c, "link_exists/map_count.py", "--in_file", p, env=env).ok("the mapper").stdout for p in paths]).ok("the reducer")
    finally:
        srv.shutdown()
        srv.server_close()
        closed.close()
    compare(run, table(run, "alive"), {k: v for k, v in want.items()}, "numbers of working and dead links", records=[r["url"] for r in recs], served=len(srv.seen))
    c.count("links", len(recs))
    c.count("requests served", len(srv.seen))
    if recs:
        c.key("links", tuple(sorted(re.sub(r":\d+", "", r["url"]) for r in recs)), len(parts))
    c.sample(links=len(recs), alive=want["True"])


# ------------------------------------------------------------------ P41

DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "templates_driver.py")
FIELDS = ["premise", "hypothesis", "sentence1", "question", "label", "answer_choices", "ctx_a", "q-2", "x1"]


def rand_jinja(rng):
    """A template and the fields that it shows directly."""
    out, fields = "", []
    for _ in range(rng.choice([0, 1, 2, 4])):
        f = rng.choice(FIELDS)
        r = rng.random()
        if r < 0.6:
            out += rng.choice(["{{%s}}", "{{ %s }}", "{{ %s}}", "{{  %s  }}"]) % f
            fields.append(f)
        elif r < 0.7:
            out += "{{ answer_choices[%s] }}" % f
        elif r < 0.8:
            out += "{{ %s | lower }}" % f
        elif r < 0.9:
            out += "{%% if %s == 1 %%} yes {%% endif %%}" % f
        else:
            out += "{{ choice([%s]) }}" % f
        out += rng.choice([" ", "\n", "? ", " ||| ", ": é", "  '", " \" # "])
    return out, fields


def p41_store(c):
    rng = c.rng
    base = c.path(rng.choice(["t", "templates", "a b", "x[1]"]))
    os.makedirs(base)
    os.makedirs(os.path.join(base, ".git"))
    model, names = {}, ["n%d" % i for i in range(6)] + ["with blank", "é: [x]", "yes", "1"]
    ops = []
    sets = [("anli", None), ("glue", None), ("glue", "mrpc"), ("glue", "rte"), ("super_glue", "cb"), ("Zaid/coqa", None), ("craffel/x", None), ("solo", None)]
    rng.shuffle(sets)
    nested = rng.random() < 0.25
    # a set without subset whose folder holds those of the subsets, and many removals
    sets = [("glue", None), ("glue", "mrpc"), ("glue", "rte")] if nested else sets[:rng.choice([1, 2, 4])]
    for _ in range(rng.choice([1, 3, 8, 20])):
        ds = rng.choice(sets)
        cur = model.setdefault(ds, {})
        r = rng.random() if not nested or not cur else rng.uniform(0.3, 1)
        jin, fields = rand_jinja(rng)
        val = {"jinja": jin, "reference": rng.choice(["", "ref", "a: b\n"]), "answer_choices": rng.choice([None, "yes ||| no"]), "original_task": rng.choice([None, True, False]),
               "choices_in_prompt": rng.choice([None, True]), "metrics": rng.choice([None, [], ["Accuracy", "BLEU"]]), "languages": rng.choice([None, ["en"]])}
        if r < 0.55 or not cur:
            free = [n for n in names if n not in cur]
            if not free:
                continue
            n = rng.choice(free)
            ops.append({"op": "add", "ds": ds, "name": n, **val})
            cur[n] = dict(val, _order=len(ops), _fields=fields)
        elif r < 0.75:
            n = rng.choice(sorted(cur))
            new = rng.choice([n] + [x for x in names if x not in cur])
            ops.append({"op": "update", "ds": ds, "name": n, "new": new, **val})
            old = cur.pop(n)
            cur[new] = dict(val, _order=old["_order"], _fields=fields)
        elif r < 0.95:
            n = rng.choice(sorted(cur))
            ops.append({"op": "remove", "ds": ds, "name": n})
            del cur[n]
        else:
            ops.append({"op": "remove", "ds": ds, "name": "absent", "fails": True})
        if rng.random() < 0.3:
            ops.append({"op": "reopen"})
        if not cur:
            model.pop(ds)
    with open(c.path("ops.json"), "w") as f:
        json.dump({"base": base, "ops": ops}, f)
    run = PyRun(c, [os.path.join(BIN, "python"), DRIVER, c.path("ops.json")]).ok("the sequence of changes")
    res = json.loads(run.lines()[-1])
    if res["errors"]:
        raise Violation("an operation went wrong: %s" % res["errors"][:2], ops=ops, **run.info())
    want = {json.dumps(k): {n: {f: x for f, x in v.items() if f[0] != "_"} for n, v in t.items()} for k, t in model.items()}
    for which in ("memory", "disk"):
        if {k: v for k, v in res[which].items() if v} != want:
            raise Violation("the templates in %s are not those that were stored" % which, want=want, got=res[which], ops=ops, **run.info())
    counts = collections.Counter()
    for k, t in model.items():
        counts[k[0]] += len(t)
    if res["counts"] != dict(counts) or res["length"] != len(model) or any(a != sorted(a) for a in res["names"].values()):
        raise Violation("counts %r for %d templates in %d sets" % (res["counts"], sum(counts.values()), len(model)), want=dict(counts), ops=ops, **run.info())
    ids = [i for v in res["ids"].values() for i in v]
    if len(set(ids)) != len(ids):
        raise Violation("two templates share an id", **run.info())
    folders = sorted(d for d, _, fs in os.walk(base) if not fs and d != base and not os.listdir(d) and not d.endswith(".git"))
    if folders and not any("Zaid" in d or "craffel" in d for d in folders):
        raise Violation("empty folders are left behind: %s" % folders, ops=ops, **run.info())
    c.count("changes", len(ops))
    c.count("templates", sum(counts.values()))
    if ops:
        c.key("store", json.dumps(ops)[:3000])
    c.sample(ops=len(ops), sets=len(model))


def p41_parse(c):
    rng = c.rng
    base = c.path("/".join(rng.choice(["t", "templates", "a b", "x[1]", "d"]) for _ in range(rng.choice([1, 2, 7]))))
    want = []
    sets = [("anli", None), ("ag_news", None), ("glue", "mrpc"), ("glue", "rte"), ("super_glue", "cb"), ("Zaid", "coqa"), ("craffel", "x"), ("hans", None)]
    for name, sub in rng.sample(sets, rng.choice([1, 2, 4])):
        text = "dataset: %s\n%stemplates:\n" % (name, "subset: %s\n" % sub if sub else "")
        first = None
        for i in range(rng.choice([1, 2, 5])):
            jin, fields = rand_jinja(rng)
            uid = "%08x-5115-47f4-b3ac-d74a2b6b9dcf" % rng.getrandbits(32)
            text += ("  %s: !Template\n    answer_choices: %s\n    id: %s\n    jinja: %s\n    metadata: !TemplateMetadata\n      choices_in_prompt: null\n      metrics:\n      - Accuracy\n      original_task: true\n"
                     "    name: %s\n    reference: ''\n" % (uid, rng.choice(["null", "Yes ||| No"]), uid, json.dumps(jin), json.dumps("name %d" % i)))
            first = first if first is not None else fields
        d = os.path.join(base, name, sub or "")
        os.makedirs(d)
        with open(os.path.join(d, "templates.yaml"), "w") as f:
            f.write(text)
        want.append([name, sub or "", first])
    arg = base + rng.choice(["", "", "/"]) if rng.random() < 0.7 else os.path.relpath(base, c.dir)
    run = script(c, "contamination/promptsource_parse.py", "--path", arg, "--out_file", c.path("out.tsv")).ok("parsing")
    got = [l.split("\t") for l in open(c.path("out.tsv"), newline="").read().split("\n")[:-1]]
    exp = sorted([a, b, str(f)] for a, b, f in want)
    if sorted(got) != exp:
        raise Violation("listed %s, expected %s" % (sorted(got)[:5], exp[:5]), **run.info())
    # and the run that uses the list has to understand it
    c.count("sets of templates listed", len(want))
    c.key("parse", repr(exp))
    c.sample(sets=len(want), listed=exp[:2])


# ------------------------------------------------------------------ P42

CHAR_LENGTHS = {'c4': [192, 515, 434, 499, 322, 86],
                'mc4': [73257, 219, 186, 16629, 568, 331, 519, 2024, 526, 524, 489, 160, 4114, 697, 17189],
                'oscar': [101, 367, 108, 150, 126, 24827, 132, 106, 136, 266, 110, 141, 105, 180, 120, 138, 116, 103, 197, 182, 543, 162, 124, 154, 763, 225, 24847, 145, 114, 520, 122, 501],
                'pile': [8194, 201, 35, 100000, 71, 73],
                's2orc0': [160, 327],
                'redpajama': [126, 133, 134, 118]}
TOK_LENGTHS = {'mc4': [99, 42, 6214, 236, 37, 71, 35, 92],
               'oscar': [64, 27, 18, 22, 4962, 74, 56, 31, 20, 105, 25, 34, 157, 248, 35, 4966, 99, 425],
               'pile': [9, 18, 20, 36],
               'redpajama': [23, 19, 54, 52, 30, 95, 32, 98, 96, 64, 66],
               'stack': [20, 33, 23, 17, 36, 10, 26, 4004, 13, 99, 39, 29, 8, 61, 454]}
STACK_CHARS = [172, 243, 182, 189, 154, 458, 192, 155, 2082, 263, 180, 1964, 158, 230, 178, 95, 2148, 84, 2058, 20000, 214, 1935, 550, 147, 1568, 109, 285, 232, 188, 3962, 88, 107, 1477, 393, 2114, 54, 4043, 2053, 208,
               2116, 138, 200, 32, 197, 2153, 38, 175, 2603, 204, 2029, 60, 211, 1098, 254]
CHAR_LENGTHS['stack'] = STACK_CHARS


def sized_text(rng, toks, chars):
    """A text of about `toks` tokens or `chars` characters."""
    if toks is not None:
        s = "".join(rng.choice(["a", "bc", "é", "12", "漢字"]) + rng.choice([" ", " ", "\n", "  "]) for _ in range(toks)).strip()
        return rng.choice(["", " ", "\n"]) + s + rng.choice(["", " "])
    s = "".join(rng.choice("ab é\n.漢") for _ in range(chars))
    return s


def both_text(rng, toks, chars):
    """A text of exactly so many tokens and characters, if that is possible."""
    if chars < 2 * toks - 1:
        return None
    n = chars - (2 * toks - 1)
    word = "é" + "b" * n
    return " ".join([word] + [rng.choice("xy7漢") for _ in range(toks - 1)])


def p42_every(c):
    """Every conspicuous length of every dataset, its neighbours, and texts conspicuous in both ways."""
    rng = c.rng
    for ds in sorted(set(CHAR_LENGTHS) | set(TOK_LENGTHS)):
        cl, tl = CHAR_LENGTHS.get(ds, []), TOK_LENGTHS.get(ds, [])
        recs = [{"text": sized_text(rng, None, n + d)} for n in cl for d in (-1, 0, 1)]
        recs += [{"text": sized_text(rng, n + d, None)} for n in tl for d in (-1, 0, 1)]
        for n in tl:
            for m in rng.sample(cl, min(len(cl), 3)):
                t = both_text(rng, n, m)
                if t:
                    recs.append({"text": t})
                    c.count("conspicuous in both ways")
        rng.shuffle(recs)
        shown(c, ds, recs)


def p42_shown(c):
    rng = c.rng
    ds = rng.choice(sorted(set(CHAR_LENGTHS) | set(TOK_LENGTHS)))
    cl, tl = CHAR_LENGTHS.get(ds, []), TOK_LENGTHS.get(ds, [])
    recs = []
    for _ in range(rng.choice([0, 1, 5, 20])):
        r = rng.random()
        small = [x for x in cl if x < 600] if rng.random() < 0.9 else cl
        if r < 0.35 and small:
            t = sized_text(rng, None, max(0, rng.choice(small) + rng.choice([0, 0, 0, -1, 1])))
        elif r < 0.75 and tl:
            t = sized_text(rng, max(1, rng.choice([x for x in tl if x < 500]) + rng.choice([0, 0, 0, -1, 1])), None)
        elif r < 0.85:
            t = None
        else:
            t = rand_text(rng).replace("\r", "")
        recs.append({"text": t, "id": "x"})
        if rng.random() < 0.2:
            recs.append(dict(recs[-1]))
    shown(c, ds, recs)


def shown(c, ds, recs):
    rng = c.rng
    cl, tl = CHAR_LENGTHS.get(ds, []), TOK_LENGTHS.get(ds, [])
    want = collections.Counter()
    for r in recs:
        if r["text"] is None:
            continue
        show, n = r["text"].replace("\n", "(newline)"), len(re.findall(r"\w+|[^\w\s]+", r["text"].strip()))
        if n in tl:
            want["%d tok / %s" % (n, show)] += 1
        if len(r["text"]) in cl:
            want["%d char / %s" % (len(r["text"]), show)] += 1
    paths, parts = shard(c, recs)
    if rng.random() < 0.5:
        got = collections.Counter()
        for p in paths:
            run = script(c, "sentence_lengths/map_unique_lengths.py", "--in_file", p, "--dataset", ds).ok("the mapper")
            got.update(run.out.split("\n")[:-1])
    else:
        run = script(c, "sentence_lengths/run_uniq.sh", ds, *paths).ok("run_uniq.sh")
        head, _, rest = run.out.partition("\n")
        got = collections.Counter()
        for l in rest.split("\n")[:-1]:
            r = json.loads(l)
            if r["key"] in got:
                raise Violation("two rows for %r" % r["key"], **run.info())
            got[r["key"]] = r["count"]
        strip = collections.Counter()
        for k, v in want.items():
            strip[k.strip()] += v
        want = strip
    compare(run, dict(got), dict(want), "documents shown for %s" % ds)
    c.count("documents", len(recs))
    c.count("shown", sum(want.values()))
    if want:
        c.key("shown", ds, sorted(want.items()))
    c.sample(dataset=ds, documents=len(recs), shown=sum(want.values()))


P38 = Check("P38", "fault_enumeration", [(p38_mc4, 1)], once=[pyscale.many_records], rule="a set of input files with records, interruptions and places", quick=20, thorough=150,
            assumptions=["stand-ins for Google Storage (atomic uploads, objects listed in name order), TensorFlow's record files, ftfy and bettermap"])
P39 = Check("P39", "fault_enumeration", [(p39_list, 1), (p39_download, 2)], once=[pyscale.many_stack_files], rule="a set of languages and tables with interruptions", quick=25, thorough=180,
            assumptions=["stand-ins for fsspec, pandas and GNU parallel; parquet files are read through the stand-in"])
P40 = Check("P40", "exploration", [(p40_links, 1)], "a set of links over shards, with at least one link", quick=20, thorough=150, assumptions=[JOBS, "a local server answers with every kind of status, redirect and broken connection"])
P41 = Check("P41", "exploration", [(p41_store, 3), (p41_parse, 2)], "a sequence of at least one change to template sets", quick=15, thorough=120, assumptions=["rendering of templates (Jinja) is not installed here and not checked"])
P42 = Check("P42", "exploration", [(p42_shown, 1)], "a dataset with shards of which at least one document is shown", quick=12, thorough=100, once=[p42_every], assumptions=[JOBS, "token counts by a stand-in for NLTK's WordPunct tokenizer; texts without carriage returns"])
