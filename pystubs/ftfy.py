"""A few repairs."""
from _stublimit import module_getattr
__getattr__ = module_getattr("ftfy")
_R = [("\u00e2\u20ac\u2122", "'"), ("\u00c3\u00a9", "\u00e9"), ("\r\n", "\n"), ("\x00", "")]


def fix_text(text):
    for a, b in _R:
        text = text.replace(a, b)
    return text


ftfy = fix_text
