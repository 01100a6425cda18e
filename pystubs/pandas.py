"""The few operations on small tables that the scripts use."""
import csv, json
import numpy as np
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("pandas")
nan = float("nan")


def isna(x):
    return x is None or x != x


class Series(Limited):
    def __init__(self, data=None, index=None, dtype=None):
        if isinstance(data, dict):
            index, data = list(data), list(data.values())
        self.values = list(data if data is not None else [])
        self.index = list(index) if index is not None else list(range(len(self.values)))

    def _op(self, other, f):
        if isinstance(other, Series):
            idx = list(self.index) + [i for i in other.index if i not in set(self.index)]
            if set(self.index) != set(other.index):
                idx = sorted(idx)
            a, b = dict(zip(self.index, self.values)), dict(zip(other.index, other.values))
            return Series([f(a.get(i, nan), b.get(i, nan)) for i in idx], idx)
        return Series([f(v, other) for v in self.values], self.index)

    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._op(o, lambda a, b: (a / b if b else (nan if a != a or a == 0 else float("inf") * (1 if a > 0 else -1))))
    div = truediv = divide = __truediv__
    def __and__(self, o): return self._op(o, lambda a, b: bool(a and b))
    def __or__(self, o): return self._op(o, lambda a, b: bool(a or b))
    def __invert__(self): return Series([not v for v in self.values], self.index)
    __hash__ = None
    def isin(self, xs): return Series([v in set(xs) for v in self.values], self.index)
    def tolist(self): return list(self.values)
    to_list = tolist
    def unique(self): return np.array(list(dict.fromkeys(self.values)), dtype=object)
    def to_dict(self, into=dict): return into(zip(self.index, self.values))
    def items(self): return zip(self.index, self.values)
    def __len__(self): return len(self.values)
    def __iter__(self): return iter(self.values)
    def dropna(self): return self._pick([not isna(v) for v in self.values])
    def apply(self, f): return Series([f(v) for v in self.values], self.index)
    map = apply
    def fillna(self, x): return Series([x if isna(v) else v for v in self.values], self.index)
    def astype(self, t): return Series([t(v) for v in self.values], self.index) if callable(t) else limit("Series.astype(%r)" % t)
    def sum(self): return sum(v for v in self.values if not isna(v))

    def _pick(self, mask):
        return Series([v for v, m in zip(self.values, mask) if m], [i for i, m in zip(self.index, mask) if m])

    def __getitem__(self, k):
        if isinstance(k, Series):
            return self._pick(k.values)
        return self.values[self.index.index(k)]


class _Loc(Limited):
    def __init__(self, df): self.df = df
    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.df[k[0]][k[1]]
        if isinstance(k, Series):
            return self.df[k]
        return Series([self.df.cols[c][self.df.index.index(k)] for c in self.df.cols], list(self.df.cols))


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        self.cols, self.index = {}, list(index) if index is not None else None
        if isinstance(data, dict):
            if any(isinstance(v, (dict, Series)) for v in data.values()):
                data = {k: v.to_dict() if isinstance(v, Series) else v for k, v in data.items()}
                idx = list(dict.fromkeys(i for v in data.values() for i in v))
                self.index = idx
                self.cols = {k: [v.get(i, nan) for i in idx] for k, v in data.items()}
            else:
                self.cols = {k: list(v) for k, v in data.items()}
        elif data is not None:
            limit("DataFrame(%s)" % type(data).__name__)
        if self.index is None:
            self.index = list(range(len(next(iter(self.cols.values()), []))))
        self.columns = list(self.cols)

    def __getitem__(self, k):
        if isinstance(k, Series):
            out = DataFrame({c: [x for x, m in zip(v, k.values) if m] for c, v in self.cols.items()}, index=[i for i, m in zip(self.index, k.values) if m])
            return out
        if isinstance(k, list):
            return DataFrame({c: self.cols[c] for c in k}, index=self.index)
        return Series(self.cols[k], self.index)

    def __setitem__(self, k, v):
        self.cols[k] = v.values if isinstance(v, Series) else list(v) if isinstance(v, (list, tuple)) else [v] * len(self.index)
        self.columns = list(self.cols)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("cols", "index", "columns"):
            raise AttributeError(name)
        if name in self.cols:
            return self[name]
        if name == "loc":
            return _Loc(self)
        if name == "T":
            return DataFrame({i: {c: self.cols[c][n] for c in self.cols} for n, i in enumerate(self.index)})
        limit("DataFrame." + name)

    @property
    def empty(self): return len(self.index) == 0 or not self.cols
    def __len__(self): return len(self.index)
    def __contains__(self, k): return k in self.cols
    def fillna(self, x): return DataFrame({c: [x if isna(v) else v for v in col] for c, col in self.cols.items()}, index=self.index)
    def dropna(self, **kw):
        keep = [not any(isna(col[n]) for col in self.cols.values()) for n in range(len(self.index))]
        return self[Series(keep, self.index)]
    def to_dict(self, orient="dict"):
        if orient == "dict":
            return {c: dict(zip(self.index, v)) for c, v in self.cols.items()}
        if orient == "index":
            return {i: {c: v[n] for c, v in self.cols.items()} for n, i in enumerate(self.index)}
        if orient == "records":
            return [{c: v[n] for c, v in self.cols.items()} for n in range(len(self.index))]
        limit("to_dict(%r)" % orient)
    def rename(self, columns=None, **kw):
        if kw or columns is None:
            limit("rename(%s)" % ",".join(kw))
        return DataFrame({columns.get(c, c): v for c, v in self.cols.items()}, index=self.index)
    def filter(self, items=None, **kw):
        if kw or items is None:
            limit("filter(%s)" % ",".join(kw))
        return DataFrame({c: self.cols[c] for c in items if c in self.cols}, index=self.index)
    def drop(self, columns=None, **kw):
        if kw or columns is None:
            limit("drop(%s)" % ",".join(kw))
        for x in columns:
            self.cols[x]
        return DataFrame({c: v for c, v in self.cols.items() if c not in columns}, index=self.index)
    def to_json(self, path=None, orient=None, lines=False, force_ascii=True, **kw):
        if orient != "records" or not lines or kw:
            limit("to_json(orient=%r)" % orient)
        js = "".join(json.dumps(_plain(r), ensure_ascii=force_ascii, separators=(",", ":")).replace("/", "\\/") + "\n" for r in self.to_dict("records"))
        if path is None:
            return js
        if str(path).endswith(".gz"):
            import gzip
            with gzip.open(path, "wt", encoding="utf-8") as f:
                f.write(js)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(js)
    def iterrows(self):
        for n, i in enumerate(self.index):
            yield i, Series([v[n] for v in self.cols.values()], list(self.cols))
    def itertuples(self, **kw): limit("itertuples")
    def groupby(self, by, **kw):
        seen = {}
        for v, i in zip(self.cols[by], range(len(self.index))):
            seen.setdefault(v, []).append(i)
        return [(k, DataFrame({c: [col[i] for i in ix] for c, col in self.cols.items()}, index=[self.index[i] for i in ix])) for k, ix in sorted(seen.items())]


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return None if isinstance(x, float) and x != x else x


def read_parquet(f, **kw):
    """A table written by the harness as JSON: {column: [values]}"""
    if kw:
        limit("read_parquet(%s)" % ",".join(kw))
    return DataFrame(json.load(f if hasattr(f, "read") else open(f)))


def read_csv(path, sep=",", names=None, **kw):
    if kw:
        limit("read_csv(%s)" % ",".join(kw))
    with open(path, newline="", encoding="utf-8") as f:
        rows = [r for r in csv.reader(f, delimiter=sep) if r]
    if names is None:
        names, rows = rows[0], rows[1:]
    cols = {}
    NA = {"", "NA", "N/A", "nan", "NaN", "NULL", "null", "None", "n/a", "#N/A", "<NA>"}
    for i, c in enumerate(names):
        col = [nan if len(r) <= i or r[i] in NA else r[i] for r in rows]
        for t in (int, float):
            try:
                col = [v if v != v else t(v) for v in col]
                if t is int and any(v != v for v in col):
                    col = [float(v) for v in col]
                break
            except ValueError:
                pass
        cols[c] = col
    return DataFrame(cols)
