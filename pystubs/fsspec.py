"""Files of https://... below $FAKE_HF; $FAKE_HF_STOP=n:kind ends the n-th request with an interrupt (int) or an error (err);
more than $FAKE_HF_MOST requests end the process."""
import io, os, sys, urllib.parse
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("fsspec")
_n = [0]


class _Https(Limited):
    def __init__(self, headers):
        self._ok = (headers or {}).get("Authorization") == "Bearer " + os.environ.get("FAKE_HF_TOKEN", "secret")

    def _path(self, url):
        stop, _, kind = os.environ.get("FAKE_HF_STOP", "").partition(":")
        _n[0] += 1
        if _n[0] > int(os.environ.get("FAKE_HF_MOST", 10 ** 9)):
            print("the server refuses: %d requests, the last for %s" % (_n[0], url), file=sys.stderr, flush=True)
            os._exit(78)
        if stop and int(stop) == _n[0]:
            raise KeyboardInterrupt() if kind == "int" else OSError("the connection was lost (injected)")
        u = urllib.parse.urlparse(url)
        if u.scheme != "https":
            raise ValueError("not an https url: %r" % url)
        return os.path.join(os.environ["FAKE_HF"], u.netloc, urllib.parse.unquote(u.path).lstrip("/")) if self._ok else os.path.join(os.environ["FAKE_HF"], "401")

    def exists(self, path, **kw):
        return os.path.isfile(self._path(path))

    def open(self, path, mode="rb", **kw):
        p = self._path(path)
        if mode not in ("rb", "r") or kw:
            limit("open(mode=%r, %s)" % (mode, sorted(kw)))
        if not os.path.isfile(p):
            raise FileNotFoundError(path)
        return open(p, mode)


def filesystem(protocol, headers=None, **kw):
    if protocol != "https" or kw:
        limit("filesystem(%r, %s)" % (protocol, sorted(kw)))
    return _Https(headers)
