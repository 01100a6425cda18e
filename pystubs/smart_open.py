"""Local files only; compression by suffix, like the real package."""
import builtins, bz2, gzip, lzma
from _stublimit import limit, module_getattr
__getattr__ = module_getattr("smart_open")


def open(uri, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None, compression="infer_from_extension", transport_params=None):
    uri = str(uri)
    if "://" in uri:
        limit("smart_open of " + uri)
    if uri.endswith(".gz") and compression != "disable" or compression == ".gz":
        if "b" not in mode and "t" not in mode:
            mode += "t"
        if "b" in mode:
            return gzip.open(uri, mode)
        return gzip.open(uri, mode, encoding=encoding, errors=errors, newline=newline)
    if uri.endswith((".bz2", ".xz", ".zst")):
        limit("smart_open of " + uri)
    return builtins.open(uri, mode, buffering, encoding, errors, newline)
