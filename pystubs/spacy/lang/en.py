"""A sentencizer and tokenizer: sentences end after runs of . ! ? ; tokens are words and single punctuation marks."""
import re
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("spacy.lang.en")
_SENT = re.compile(r"[^.!?]*[.!?]+\s*|[^.!?]+$", re.S)
_TOK = re.compile(r"\w+|[^\w\s]|\s+")
LEXICON = {"good": 0.7, "great": 0.8, "nice": 0.6, "bad": -0.7, "terrible": -1.0, "poor": -0.4, "happy": 0.8, "sad": -0.5, "best": 1.0, "worst": -1.0}


def sentences(text):
    return [s for s in _SENT.findall(text) if s]


def polarity(text):
    v = [LEXICON[w] for w in re.findall(r"\w+", text.lower()) if w in LEXICON]
    return sum(v) / len(v) if v else 0.0


class Token(Limited):
    def __init__(self, text):
        self.text = text
        self.lower_ = text.lower()
        self.orth_ = text
        self.is_space = text.isspace()

    def __str__(self):
        return self.text

    def __len__(self):
        return len(self.text)


class _Blob(Limited):
    def __init__(self, text):
        self.polarity = polarity(text)


class _Ext(Limited):
    def __init__(self, text, sentiment):
        if sentiment:
            self.blob = _Blob(text)
            self.polarity = self.blob.polarity


class Span(Limited):
    def __init__(self, text, sentiment=False):
        self.text = text
        self._ = _Ext(text, sentiment)

    def __iter__(self):
        return iter(Token(t) for t in _TOK.findall(self.text))

    def __len__(self):
        return len(_TOK.findall(self.text))

    def __str__(self):
        return self.text


class Doc(Span):
    def __init__(self, text, pipes):
        Span.__init__(self, text, "spacytextblob" in pipes)
        self._pipes = pipes

    @property
    def sents(self):
        if "sentencizer" not in self._pipes:
            raise ValueError("[E030] Sentence boundaries unset.")
        return (Span(s, "spacytextblob" in self._pipes) for s in sentences(self.text))


class English(Limited):
    def __init__(self):
        self.max_length = 1000000
        self.pipe_names = []

    def add_pipe(self, name, *a, **kw):
        self.pipe_names.append(name)

    def __call__(self, text):
        if not isinstance(text, str):
            raise ValueError("[E1041] Expected a string as input")
        if len(text) > self.max_length:
            raise ValueError("[E088] Text of length %d exceeds maximum of %d" % (len(text), self.max_length))
        return Doc(text, list(self.pipe_names))

    def pipe(self, texts, as_tuples=False, batch_size=None, **kw):
        for t in texts:
            if as_tuples:
                yield self(t[0]), t[1]
            else:
                yield self(t)
