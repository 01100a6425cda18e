"""tf.train.Example from its wire format, as far as mC4 uses it (features of bytes)."""
from types import SimpleNamespace
from _stublimit import Limited, limit, module_getattr
_mg = module_getattr("tensorflow")


def __getattr__(name):
    if name == "python":
        raise AttributeError(name)
    return _mg(name)


def _varint(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        s, i = s + 7, i + 1
        if not b[i - 1] & 128:
            return n, i


def fields(b):
    i, out = 0, []
    while i < len(b):
        k, i = _varint(b, i)
        if k & 7 != 2:
            limit("wire type %d" % (k & 7))
        n, i = _varint(b, i)
        if i + n > len(b):
            raise ValueError("Error parsing message")
        out.append((k >> 3, b[i:i + n]))
        i += n
    return out


class Feature(Limited):
    def __init__(self, data=b""):
        self.bytes_list = SimpleNamespace(value=[v for k, l in fields(data) if k == 1 for f, v in fields(l) if f == 1])


class Example(Limited):
    @classmethod
    def FromString(cls, data):
        self, m = cls(), {}
        for _, features in fields(bytes(data)):
            for _, entry in fields(features):
                e = dict(fields(entry))
                m[e[1].decode()] = Feature(e.get(2, b""))
        self.features = SimpleNamespace(feature=Map(m))
        return self


class Map(dict):
    def __missing__(self, k):      # as protobuf maps do
        self[k] = Feature()
        return self[k]


class _Train(Limited):
    Example = Example


train = _Train()


# the other direction, for the harness

def _enc(n):
    out = b""
    while n > 127:
        out, n = out + bytes([n & 127 | 128]), n >> 7
    return out + bytes([n])


def _msg(k, v):
    return _enc(k << 3 | 2) + _enc(len(v)) + v


def encode_example(d):
    return _msg(1, b"".join(_msg(1, _msg(1, k.encode()) + _msg(2, _msg(1, _msg(1, v)))) for k, v in d.items()))
