"""Files in the framing of TFRecord; the checksums are not verified."""
import struct
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("tensorflow.python.data")


class DataLossError(Exception):
    pass


class _Record(Limited):
    def __init__(self, b): self._b = b
    def numpy(self): return self._b


class TFRecordDataset(Limited):
    def __init__(self, filenames, **kw):
        if kw or not isinstance(filenames, str):
            limit("TFRecordDataset(%r, %s)" % (filenames, sorted(kw)))
        self._f = filenames

    def __iter__(self):
        with open(self._f, "rb") as f:
            while True:
                h = f.read(12)
                if not h:
                    return
                n = struct.unpack("<Q", h[:8])[0] if len(h) == 12 else -1
                d = f.read(n + 4) if n >= 0 else b""
                if len(d) != n + 4:
                    raise DataLossError("truncated record")
                yield _Record(d[:-4])


def encode_records(records):
    return b"".join(struct.pack("<Q", len(r)) + b"crc." + r + b"crc." for r in records)
