"""Buckets as directories below $FAKE_GCS; objects are files. Every write is logged; $FAKE_GCS_CRASH=n[:after] ends
the process at the n-th write, before (or after) it takes effect."""
import os, sys, json, zlib
from _stublimit import Limited, module_getattr
__getattr__ = module_getattr("google.cloud.storage")
_writes = [0]
_A = os.path.join(os.environ["FAKE_GCS"], "attempts") if "FAKE_GCS" in os.environ else ""
_before = os.path.getsize(_A) if os.path.exists(_A) else 0


def _root():
    return os.environ["FAKE_GCS"]


def _file(name):
    """Object names are no paths: empty, '.' and '..' components are names like others."""
    return "/".join("\x02" + x if x in ("", ".", "..") else x for x in name.split("/"))


def _name(path):
    return "/".join(x[1:] if x in ("\x02", "\x02.", "\x02..") else x for x in path.split("/"))


def _log(**kw):
    with open(os.path.join(_root(), "log.jsonl"), "a") as f:
        f.write(json.dumps(kw) + "\n")


class Blob(Limited):
    def __init__(self, name, bucket):
        self.name, self.bucket = name, bucket

    def _path(self):
        return os.path.join(_root(), self.bucket.name, _file(self.name))

    @property
    def size(self):
        return os.path.getsize(self._path())

    @property
    def path(self):
        return "/b/%s/o/%s" % (self.bucket.name, self.name)

    def exists(self, client=None, **kw):
        return os.path.exists(self._path())

    def reload(self, **kw):
        pass

    def download_as_bytes(self, **kw):
        return open(self._path(), "rb").read()
    download_as_string = download_as_bytes

    def download_to_file(self, file_obj, **kw):
        file_obj.write(self.download_as_bytes())

    def upload_from_file(self, file_obj, rewind=False, **kw):
        if rewind:
            file_obj.seek(0)
        self._write(file_obj.read())

    def _write(self, data, **kw):
        with open(_A, "ab", 0) as f:     # counted over all processes
            f.write(b".")
            _writes[0] = f.tell() - _before
        crash, _, when = os.environ.get("FAKE_GCS_CRASH", "").partition(":")
        if crash and int(crash) == _writes[0] and not when:
            os._exit(77)
        os.makedirs(os.path.dirname(self._path()), exist_ok=True)
        _log(write=self.name, bucket=self.bucket.name, existed=self.exists(), **kw)
        with open(self._path() + "~", "wb") as f:
            f.write(data)
        os.replace(self._path() + "~", self._path())
        if crash and int(crash) == _writes[0]:
            os._exit(77)

    def compose(self, sources, client=None, **kw):
        sources = list(sources)
        if not 1 <= len(sources) <= 32:
            raise ValueError("400 The number of source components provided (%d) is not between 1 and 32" % len(sources))
        for s in sources:
            if s.bucket.name != self.bucket.name and False:
                raise ValueError("400 sources must be in the bucket of the destination")
        self._write(b"".join(s.download_as_bytes() for s in sources), compose=[s.name for s in sources])

    def upload_from_string(self, data, **kw):
        self._write(data.encode() if isinstance(data, str) else data)

    def __repr__(self):
        return "<Blob: %s, %s>" % (self.bucket.name, self.name)


class Bucket(Limited):
    def __init__(self, client, name=None, **kw):
        self.client, self.name = client, name

    def list_blobs(self, max_results=None, prefix=None, delimiter=None, **kw):
        out, base = [], os.path.join(_root(), self.name)
        for d, _, fs in os.walk(base):
            for f in fs:
                n = _name(os.path.relpath(os.path.join(d, f), base))
                if n.startswith(prefix or "") and not n.endswith("~"):
                    out.append(n)
        return iter([Blob(n, self) for n in sorted(out, key=lambda s: s.encode())])

    def blob(self, name, **kw):
        return Blob(name, self)

    def get_blob(self, name, **kw):
        b = Blob(name, self)
        return b if b.exists() else None


class Client(Limited):
    def __init__(self, *a, **kw):
        pass

    def bucket(self, name, **kw):
        return Bucket(self, name)
    get_bucket = bucket

    def list_blobs(self, bucket_or_name, prefix=None, **kw):
        b = bucket_or_name if isinstance(bucket_or_name, Bucket) else Bucket(self, bucket_or_name)
        return b.list_blobs(prefix=prefix)
