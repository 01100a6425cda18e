"""A detector that is deterministic in the text alone: the first word decides."""
import hashlib
from _stublimit import module_getattr
__getattr__ = module_getattr("pycld2")
LANGS = [("ENGLISH", "en"), ("GERMAN", "de"), ("FRENCH", "fr"), ("Chinese", "zh"), ("PORTUGUESE", "pt")]


class error(Exception):
    pass


def detect(text, isPlainText=False, *a, **kw):
    if not isinstance(text, (str, bytes)):
        raise TypeError("string expected")
    if isinstance(text, str):
        text = text.encode("utf-8", "surrogatepass")
    if b"\x01" in text:
        raise error("input contains invalid UTF-8 around byte %d (of %d)" % (text.index(b"\x01"), len(text)))
    h = hashlib.md5(text).digest()
    name, code = LANGS[h[0] % len(LANGS)]
    reliable = h[1] % 4 != 0
    rest = (("Unknown", "un", 0, 0.0),) * 2
    return reliable, len(text), ((name, code, 97, 1234.0),) + rest
