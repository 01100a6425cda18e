"""Bulk helpers with the contract of elasticsearch-py 8."""
import itertools
from _stublimit import module_getattr
from .exceptions import ApiError
__getattr__ = module_getattr("elasticsearch.helpers")
META = ("_id", "_index", "_if_seq_no", "_if_primary_term", "_parent", "_percolate", "_retry_on_conflict", "_routing", "_timestamp", "_type", "_version", "_version_type", "if_seq_no", "if_primary_term", "parent",
        "pipeline", "retry_on_conflict", "routing", "version", "version_type", "_if_seq_no", "_if_primary_term")


class BulkIndexError(Exception):
    @property
    def errors(self):
        return self.args[1]


def _expand(data):
    if isinstance(data, (bytes, str)):
        return "index", {}, data
    data = dict(data)
    op = data.pop("_op_type", "index")
    meta = {k: data.pop(k) for k in META if k in data}
    return op, meta, data.get("_source", data)


def streaming_bulk(client, actions, chunk_size=500, max_chunk_bytes=100 * 1024 * 1024, raise_on_error=True, expand_action_callback=None, raise_on_exception=True, max_retries=0, initial_backoff=2, max_backoff=600,
                   yield_ok=True, ignore_status=(), *args, **kw):
    ignore = {ignore_status} if isinstance(ignore_status, int) else set(ignore_status)
    it = map(_expand, iter(actions))
    while chunk := list(itertools.islice(it, chunk_size)):
        errors = []
        for (op, meta, src), item in zip(chunk, client.bulk_items(chunk)):
            (op, item), = item.items()
            ok = 200 <= item["status"] < 300
            if not ok and raise_on_error and item["status"] not in ignore:
                errors.append({op: dict(item, data=src)})
            if ok and yield_ok or (not ok and not errors):
                yield ok, {op: item}
        if errors:
            raise BulkIndexError("%d document(s) failed to index." % len(errors), errors)


def parallel_bulk(client, actions, thread_count=4, chunk_size=500, max_chunk_bytes=100 * 1024 * 1024, queue_size=4, expand_action_callback=None, ignore_status=(), *args, **kw):
    kw.pop("refresh", None)
    yield from streaming_bulk(client, actions, chunk_size=chunk_size, ignore_status=ignore_status, **kw)


def bulk(client, actions, stats_only=False, ignore_status=(), *args, **kw):
    ok, errs = 0, []
    for good, item in streaming_bulk(client, actions, ignore_status=ignore_status, yield_ok=True, **kw):
        if good:
            ok += 1
        else:
            errs.append(item)
    return ok, (len(errs) if stats_only else errs)


def scan(*a, **kw):
    from _stublimit import limit
    limit("helpers.scan")
