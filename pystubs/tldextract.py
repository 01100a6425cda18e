import collections, re
from urllib.parse import urlsplit
from _stublimit import module_getattr
__getattr__ = module_getattr("tldextract")
SUFFIXES = {"com", "org", "net", "de", "uk", "co.uk", "org.uk", "ac.uk", "edu", "io", "com.au", "au", "jp", "co.jp", "info"}
ExtractResult = collections.namedtuple("ExtractResult", "subdomain domain suffix is_private")
ExtractResult.__new__.__defaults__ = (False,)


def extract(url, include_psl_private_domains=None, session=None):
    host = urlsplit(url if "//" in url else "//" + url).netloc.rpartition("@")[2]
    host = host.partition(":")[0].strip(".").lower()
    if re.fullmatch(r"[0-9.]+", host):
        return ExtractResult("", host, "")
    labels = host.split(".")
    for i in range(len(labels)):
        s = ".".join(labels[i:])
        if s in SUFFIXES:
            return ExtractResult(".".join(labels[:max(0, i - 1)]), labels[i - 1] if i else "", s)
    return ExtractResult(".".join(labels[:-1]), labels[-1], "")


class TLDExtract:
    def __init__(self, *a, **kw):
        pass

    def __call__(self, url, *a, **kw):
        return extract(url)
    extract_str = __call__
