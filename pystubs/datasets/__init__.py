"""Datasets from $FAKE_DATASETS/NAME[/SUB].json: {split: [example, ...]}; $FAKE_DATASETS_FAIL=n raises after n examples."""
import json, os, threading
from types import SimpleNamespace
from _stublimit import Limited, limit, module_getattr
_mg = module_getattr("datasets")
config = SimpleNamespace(DEFAULT_MAX_BATCH_SIZE=1000)


def __getattr__(name):
    if name in ("builder", "load", "features"):
        raise AttributeError(name)
    return _mg(name)


def disable_caching():
    pass


_left = [int(os.environ.get("FAKE_DATASETS_FAIL", "-1"))]


class IterableDataset(Limited):
    def __init__(self, rows):
        self._rows = rows
        self.features = {k: None for r in rows[:1] for k in r}

    def __iter__(self):
        for r in self._rows:
            if _left[0] == 0:
                raise ConnectionError("the connection was lost (injected)")
            _left[0] -= 1
            yield json.loads(json.dumps(r))

    def skip(self, n):
        return IterableDataset(self._rows[n:])

    def take(self, n):
        return IterableDataset(self._rows[:n])

    def rename_column(self, a, b):
        return IterableDataset([{(b if k == a else k): v for k, v in r.items()} for r in self._rows])

    def map(self, f, **kw):
        if kw:
            limit("map(%s)" % ",".join(kw))
        return IterableDataset([f(dict(r)) for r in self._rows])


class Dataset(IterableDataset):
    def __len__(self):
        return len(self._rows)

    @property
    def column_names(self):
        return list(self.features)

    @property
    def num_rows(self):
        return len(self._rows)

    def __getitem__(self, k):
        if isinstance(k, str):
            return [r[k] for r in self._rows]
        if isinstance(k, int):
            return dict(self._rows[k])
        return {f: [r[f] for r in self._rows[k]] for f in self.features}


def load_dataset(path, name=None, split=None, streaming=False, cache_dir=None, **kw):
    p = os.path.join(os.environ["FAKE_DATASETS"], path + ("/" + name if name else "") + ".json")
    d = {k: (IterableDataset if streaming else Dataset)(v) for k, v in json.load(open(p)).items()}
    return d[split] if split else d
