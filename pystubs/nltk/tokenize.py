import re
from _stublimit import module_getattr
__getattr__ = module_getattr("nltk.tokenize")
_WP = re.compile(r"\w+|[^\w\s]+")


def wordpunct_tokenize(text):
    return _WP.findall(text)


class WordPunctTokenizer:
    def tokenize(self, text):
        return _WP.findall(text)
