"""Words as UAX #29 sees plain text: runs of word characters, runs of blanks, CR LF, single other characters."""
import re
from _stublimit import module_getattr
__getattr__ = module_getattr("uniseg.wordbreak")
_SEG = re.compile(r"\w+(?:['.]\w+)*| +|\r\n|[^\w ]", re.S)


def words(s, tailor=None):
    return iter(_SEG.findall(s))
