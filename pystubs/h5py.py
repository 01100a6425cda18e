"""One-dimensional datasets of variable-length strings, kept in a JSON file."""
import json, os
import numpy as np
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("h5py")


class _StrType:
    def __init__(self, encoding): self.encoding = encoding


def string_dtype(encoding="utf-8", length=None):
    return _StrType(encoding)


special_dtype = lambda vlen=None: _StrType("utf-8")


class Dataset(Limited):
    def __init__(self, file, data, maxshape):
        self._file, self._data, self.maxshape = file, data, maxshape

    @property
    def shape(self): return (len(self._data),)
    @property
    def size(self): return len(self._data)
    def __len__(self): return len(self._data)

    def __iter__(self):
        for i in range(len(self._data)):
            yield self[i]

    def resize(self, size, axis=None):
        n = size[0] if isinstance(size, (tuple, list)) else size
        if self.maxshape is None or (self.maxshape[0] is not None and n > self.maxshape[0]):
            raise TypeError("Only chunked datasets can be resized")
        self._file._writable()
        self._data[n:] = []
        self._data += [""] * (n - len(self._data))

    def _idx(self, i):
        if isinstance(i, (int, np.integer)):
            if not -len(self._data) <= i < len(self._data):
                raise IndexError("Index (%d) out of range for (0-%d)" % (i, len(self._data) - 1))
            return int(i)
        return i

    def __getitem__(self, i):
        i = self._idx(i)
        if isinstance(i, int):
            return self._data[i].encode()
        if isinstance(i, slice):
            return np.array([x.encode() for x in self._data[i]] or [], dtype=object)
        if isinstance(i, (list, np.ndarray)):
            l = [int(x) for x in i]
            if any(b <= a for a, b in zip(l, l[1:])):
                raise TypeError("Indexing elements must be in increasing order")
            return np.array([self._data[x].encode() for x in l], dtype=object)
        if i == ():
            return self[0:]
        limit("h5py index %r" % (i,))

    def __setitem__(self, i, v):
        self._file._writable()
        i = self._idx(i)
        if isinstance(i, int):
            self._data[i] = v.decode() if isinstance(v, bytes) else str(v)
            return
        if not isinstance(i, slice):
            limit("h5py assignment to %r" % (i,))
        if isinstance(v, np.ndarray):
            if v.dtype.kind not in "OS":
                raise TypeError("No conversion path for dtype: %r" % v.dtype)
        elif isinstance(v, (list, tuple)) and not v:
            raise TypeError("No conversion path for dtype: dtype('float64')")
        v = [x.decode() if isinstance(x, bytes) else x for x in list(v)]
        if not all(isinstance(x, str) for x in v):
            raise TypeError("Can't implicitly convert non-string objects to strings")
        n = len(range(*i.indices(len(self._data))))
        if n != len(v):
            raise TypeError("Can't broadcast (%d,) -> (%d,)" % (len(v), n))
        self._data[i] = v


class File(Limited):
    def __init__(self, name, mode="r", **kw):
        if not isinstance(name, (str, bytes, os.PathLike)):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(name).__name__)
        self._name, self._mode = str(name), mode
        if mode in ("w", "w+") or (mode in ("w-", "x") and not os.path.exists(name)) or (mode == "a" and not os.path.exists(name)):
            self._sets = {}
            self._save()
        else:
            if not os.path.exists(name):
                raise FileNotFoundError("Unable to open file (%s)" % name)
            d = json.load(open(name))
            self._sets = {k: Dataset(self, v["data"], tuple(v["maxshape"]) if v["maxshape"] else None) for k, v in d.items()}
        self._open = True

    def _writable(self):
        if self._mode == "r":
            raise OSError("Can't write data (no write intent on file)")

    def _save(self):
        with open(self._name, "w") as f:
            json.dump({k: {"data": d._data, "maxshape": d.maxshape} for k, d in self._sets.items()}, f)

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, **kw):
        self._writable()
        if name in self._sets:
            raise ValueError("Unable to create dataset (name already exists)")
        vals = [x.decode() if isinstance(x, bytes) else str(x) for x in data] if data is not None else [""] * (shape[0] if isinstance(shape, tuple) else shape or 0)
        self._sets[name] = Dataset(self, vals, maxshape)
        return self._sets[name]

    def __getitem__(self, k):
        if k not in self._sets:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % k)
        return self._sets[k]

    def __contains__(self, k): return k in self._sets
    def keys(self): return self._sets.keys()
    def flush(self): self._save() if self._mode != "r" else None

    def close(self):
        if self._open and self._mode != "r":
            self._save()
        self._open = False

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
