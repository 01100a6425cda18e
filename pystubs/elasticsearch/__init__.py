"""An in-memory search server that executes the requests wimbd sends, with the semantics of Elasticsearch 8 for the
calls that wimbd makes, and a log of what it was asked. With $FAKE_ES its state is kept in that file, so that
several processes see the same server."""
import builtins, copy, fcntl, json, os, re, zlib
from _stublimit import Limited, limit, module_getattr
from .exceptions import *
from .exceptions import ApiError, BadRequestError, NotFoundError, ConflictError

_mg = module_getattr("elasticsearch")


def __getattr__(name):
    if name in ("helpers", "exceptions"):
        raise AttributeError(name)
    return _mg(name)


def analyze(text):
    return re.findall(r"\w+", text.lower()) if isinstance(text, str) else []


def bad(msg):
    raise BadRequestError("[400] " + msg)


def phrase_in(toks, phrase, slop=0):
    """Sloppy phrase match: places for all terms whose displacements differ by at most `slop`."""
    if not phrase:
        return False
    places = [[i for i, t in enumerate(toks) if t == p] for p in phrase]
    if not all(places):
        return False
    if slop == 0:
        return any(toks[i:i + len(phrase)] == phrase for i in places[0])

    def rec(k, used, lo, hi):
        if k == len(phrase):
            return True
        for p in places[k]:
            d = p - k
            if p not in used and max(hi, d) - min(lo, d) <= slop and rec(k + 1, used | {p}, min(lo, d), max(hi, d)):
                return True
        return False
    return any(rec(1, {p}, p, p) for p in places[0])


TEXT_FIELDS = ("text",)
OTHER = {"query_string", "wildcard", "span_near", "simple_query_string", "multi_match", "nested", "prefix", "fuzzy", "function_score", "intervals", "script", "range", "combined_fields", "match_bool_prefix",
         "match_phrase_prefix", "more_like_this", "knn", "span_term", "span_or", "boosting", "term_set", "wrapper"}


def field_of(src, f):
    f = f[:-8] if f.endswith(".keyword") else f
    v = src
    for p in f.split("."):
        if not isinstance(v, dict):
            return None
        v = v.get(p)
    return v


def same(v, x):
    if isinstance(v, list):
        return any(same(e, x) for e in v)
    if isinstance(v, bool) or isinstance(x, bool):
        return str(v).lower() == str(x).lower()
    return v is not None and str(v) == str(x)


def matches(q, doc):
    """doc: (id, source)"""
    if not isinstance(q, dict) or len(q) != 1:
        bad("query malformed, expected one clause, found %r" % (q,))
    (kind, arg), = q.items()
    src = doc[1]
    if kind == "match_all":
        return True
    if kind == "match_none":
        return False
    if kind == "constant_score":
        return matches(arg["filter"], doc)
    if kind == "dis_max":
        return any(matches(x, doc) for x in arg["queries"])
    if kind == "exists":
        return field_of(src, arg["field"]) is not None
    if kind == "ids":
        return doc[0] in [str(v) for v in arg["values"]]
    if kind == "bool":
        if not isinstance(arg, dict):
            bad("[bool] query malformed")
        for k in arg:
            if k not in ("must", "should", "filter", "must_not", "minimum_should_match", "boost", "_name", "adjust_pure_negative"):
                bad("[bool] query does not support [%s]" % k)

        def lst(k):
            v = arg.get(k)
            if v is None:
                return []
            v = v if isinstance(v, list) else [v]
            for x in v:
                if not isinstance(x, dict):
                    bad("[%s] query malformed, no start_object after query name" % k)
            return v
        res = {k: [matches(x, doc) for x in lst(k)] for k in ("must", "filter", "should", "must_not")}
        msm = arg.get("minimum_should_match")
        if msm is None:
            msm = 1 if res["should"] and not (res["must"] or res["filter"]) else 0
        msm = int(msm)
        if msm < 0:
            msm = max(0, len(res["should"]) + msm)
        if not any(res.values()) and not any(arg.get(k) for k in res):
            return True
        if res["should"]:
            if sum(res["should"]) < msm:
                return False
        elif msm > 0 and not (res["must"] or res["filter"] or res["must_not"]):
            return True
        elif msm > 0:
            return False
        return all(res["must"]) and all(res["filter"]) and not any(res["must_not"])
    if kind in ("match", "match_phrase", "term", "terms", "regexp"):
        if not isinstance(arg, dict) or not arg:
            bad("[%s] query malformed, no field" % kind)
        arg = {k: v for k, v in arg.items() if k not in ("boost", "_name")}
        if len(arg) != 1:
            bad("[%s] query doesn't support multiple fields" % kind)
        (f, v), = arg.items()
        val = field_of(src, f)
        analyzed = f in TEXT_FIELDS
        toks = analyze(val) if analyzed else [val]
        if kind == "terms":
            if not isinstance(v, list):
                bad("[terms] query requires an array")
            return any((x in toks) if analyzed else same(val, x) for x in v)
        if kind == "term":
            if isinstance(v, dict):
                for k in v:
                    if k not in ("value", "boost", "case_insensitive", "_name"):
                        bad("[term] query does not support [%s]" % k)
                if v.get("case_insensitive"):
                    return same(str(val).lower(), str(v["value"]).lower()) if not analyzed else str(v["value"]).lower() in toks
                v = v["value"]
            if isinstance(v, list) or v is None:
                bad("[term] query does not support array of values")
            return (str(v) in toks) if analyzed else same(val, v)
        if kind == "regexp":
            o = v if isinstance(v, dict) else {"value": v}
            for k in o:
                if k not in ("value", "flags", "flags_value", "case_insensitive", "max_determinized_states", "rewrite", "boost", "_name"):
                    bad("[regexp] query does not support [%s]" % k)
            try:
                rx = re.compile(o["value"], re.I if o.get("case_insensitive") else 0)
            except re.error as e:
                bad("failed to parse regexp: %s" % e)
            return any(rx.fullmatch(str(t)) for t in toks if t is not None)
        o = v if isinstance(v, dict) else {"query": v}
        if not isinstance(o.get("query"), (str, int, float)):
            bad("[%s] unknown token in query" % kind)
        ok = {"match": ("query", "operator", "minimum_should_match", "boost", "_name", "zero_terms_query", "lenient"), "match_phrase": ("query", "slop", "analyzer", "boost", "_name", "zero_terms_query")}[kind]
        for k in o:
            if k not in ok:
                if k in ("fuzziness", "analyzer", "prefix_length", "max_expansions", "auto_generate_synonyms_phrase_query"):
                    limit("match." + k)
                bad("[%s] query does not support [%s]" % (kind, k))
        qs = analyze(str(o["query"]))
        if kind == "match_phrase":
            return phrase_in(toks, qs, int(o.get("slop", 0))) if analyzed else same(val, o["query"])
        if not analyzed:
            return same(val, o["query"])
        hit = [t in toks for t in qs]
        return bool(hit) and (all(hit) if str(o.get("operator", "or")).lower() == "and" else any(hit))
    if kind in OTHER:
        limit("query " + kind)
    bad("unknown query [%s]" % kind)


class Server:
    def __init__(self):
        self.indices = {}        # name -> {"shards": n, "replicas": r, "docs": {id: source}}
        self.pits = {}           # id -> snapshot of the index, name
        self.next_pit = 0
        self.rotate_pits = False
        self.track_cap = 10000   # totals are exact up to here only, unless asked otherwise
        self.log = []
        self.after_search = None
        self.auth = None

    def index(self, name):
        if name not in self.indices:
            raise NotFoundError("[404] no such index [%s]" % name)
        return self.indices[name]


SERVER = Server()


def shard_of(doc_id, n):
    return zlib.crc32(str(doc_id).encode("utf-8", "surrogatepass")) % n


class _Persist:
    """Loads and stores the shared server around every request, under a lock."""

    def __enter__(self):
        p = os.environ.get("FAKE_ES")
        self.f = None
        if p:
            self.f = builtins.open(p, "a+")
            fcntl.flock(self.f, fcntl.LOCK_EX)
            self.f.seek(0)
            d = self.f.read()
            if d:
                d = json.loads(d)
                SERVER.indices, SERVER.log = d["indices"], d["log"]
        return SERVER

    def __exit__(self, *a):
        if self.f:
            self.f.seek(0)
            self.f.truncate()
            json.dump({"indices": SERVER.indices, "log": SERVER.log}, self.f)
            self.f.flush()
            fcntl.flock(self.f, fcntl.LOCK_UN)
            self.f.close()


def jsonable(x):
    """What is sent over the wire: raises what the client's serializer would."""
    return json.loads(json.dumps(x))


def parse_sort(sort, with_pit):
    if sort is None:
        keys = [] if not with_pit else []
    else:
        keys = []
        for s in (sort if isinstance(sort, list) else sort.split(",") if isinstance(sort, str) else [sort]):
            if isinstance(s, str):
                f, _, o = s.partition(":")
                o = o or ("desc" if f == "_score" else "asc")
            else:
                if len(s) != 1:
                    bad("sort clause with several fields")
                (f, o), = s.items()
                if isinstance(o, dict):
                    for k in o:
                        if k not in ("order", "missing", "format", "unmapped_type", "mode", "numeric_type"):
                            bad("unknown sort option " + k)
                    o = o.get("order", "asc")
            if o not in ("asc", "desc"):
                bad("unknown sort order %r" % (o,))
            keys.append((f, o == "desc"))
    if with_pit and not any(f == "_shard_doc" for f, _ in keys):
        keys.append(("_shard_doc", False))
    return keys


class _Key:
    """Compares sort values, also of unlike types, with the direction of every key."""

    def __init__(self, vals, desc):
        self.v, self.d = vals, desc

    def __lt__(self, o):
        for a, b, d in zip(self.v, o.v, self.d):
            if a == b:
                continue
            if a is None or b is None:
                return b is None          # missing last
            if isinstance(a, str) != isinstance(b, str):
                a, b = str(a), str(b)
            return (a > b) if d else (a < b)
        return False


def run_search(s, name, docs, shards, query=None, size=10, from_=0, sort=None, search_after=None, with_pit=False, only_shard=None, track_total_hits=None, total_as_int=False, stored_fields=None, source=True):
    size = 10 if size is None else int(size)
    if size < 0:
        bad("[size] parameter cannot be negative")
    if (from_ or 0) + size > 10000:
        bad("Result window is too large, from + size must be less than or equal to: [10000]")
    hits = []
    for pos, (i, src) in enumerate(docs.items()):
        sh = shard_of(i, shards)
        if only_shard is not None and sh != only_shard:
            continue
        if query is None or matches(query, (i, src)):
            hits.append((i, src, (sh << 32) + pos))
    total = len(hits)
    keys = parse_sort(sort, with_pit)
    fields = [f for f, _ in keys]
    for f in fields:
        if not f.startswith("_") and docs and not any(field_of(src, f) is not None for src in docs.values()):
            bad("No mapping found for [%s] in order to sort on" % f)
        if f in TEXT_FIELDS:
            bad("Fielddata is disabled on [%s]" % f)
        if f == "_shard_doc" and not with_pit:
            bad("[_shard_doc] sort field cannot be used without [point in time]")
    desc = [d for _, d in keys]

    def val(h, f):
        return h[2] if f in ("_shard_doc", "_doc") else h[0] if f == "_id" else 1.0 if f == "_score" else field_of(h[1], f)
    if keys:
        hits.sort(key=lambda h: _Key([val(h, f) for f in fields] + ([] if "_shard_doc" in fields else [h[2]]), desc + [False]))
        if search_after is not None:
            if not isinstance(search_after, list) or len(search_after) != len(keys):
                bad("search_after has %s value(s) but sort has %d." % (len(search_after) if isinstance(search_after, list) else "?", len(keys)))
            ref = _Key(search_after, desc)
            hits = [h for h in hits if ref < _Key([val(h, f) for f in fields], desc)]
    elif search_after is not None:
        bad("Sort must contain at least one field when using search_after")
    out = []
    for h in hits[from_ or 0:(from_ or 0) + size]:
        d = {"_index": name, "_id": h[0], "_score": None if keys else 1.0}
        if source is not False and stored_fields is None:
            d["_source"] = copy.deepcopy(h[1])
        if keys:
            d["sort"] = [val(h, f) for f in fields]
        out.append(d)
    res = {"hits": out, "max_score": None if keys or not out else 1.0}
    if track_total_hits is not False:
        cap = None if track_total_hits is True else (s.track_cap if track_total_hits is None else int(track_total_hits))
        n, rel = (total, "eq") if cap is None or total <= cap else (cap, "gte")
        res["total"] = n if total_as_int else {"value": n, "relation": rel}
    return res


SEARCH_ARGS = {"query", "size", "from_", "sort", "search_after", "pit", "preference", "stored_fields", "track_total_hits", "index", "source", "search_type", "timeout", "track_scores", "allow_partial_search_results",
               "rest_total_hits_as_int", "request_cache", "batched_reduce_size", "_source"}


class _Sub(Limited):
    def __init__(self, es):
        self._es = es


class _Cat(_Sub):
    def shards(self, index=None, format=None, **kw):
        with _Persist() as s:
            s.log.append({"op": "cat.shards", "index": index})
            ix = s.index(index)
            out = []
            for i in range(ix["shards"]):
                for r in range(1 + ix.get("replicas", 0)):
                    out.append({"index": index, "shard": str(i), "prirep": "p" if r == 0 else "r", "state": "STARTED", "docs": str(sum(shard_of(d, ix["shards"]) == i for d in ix["docs"]))})
            return out if format == "json" else limit("cat.shards without format=json")

    def indices(self, index=None, format=None, **kw):
        with _Persist() as s:
            s.log.append({"op": "cat.indices"})
            return [{"index": n, "docs.count": str(len(ix["docs"])), "health": "green", "status": "open", "pri": str(ix["shards"])} for n, ix in s.indices.items()] if format == "json" else limit("cat.indices without format=json")


class _Indices(_Sub):
    def get(self, index="*", **kw):
        with _Persist() as s:
            s.log.append({"op": "indices.get", "index": index})
            if index not in ("*", "_all") and index not in s.indices:
                raise NotFoundError("[404] no such index [%s]" % index)
            return {n: {"settings": {"index": {"number_of_shards": str(ix["shards"])}}} for n, ix in s.indices.items() if index in ("*", "_all", n)}

    def get_alias(self, index="*", **kw):
        return self.get(index=index)

    def get_mapping(self, index=None, **kw):
        with _Persist() as s:
            names = index if isinstance(index, list) else [index] if index else list(s.indices)
            return {n: {"mappings": {"properties": {f: {"type": "text"} for d in s.index(n)["docs"].values() for f in d}}} for n in names}

    def exists(self, index=None, **kw):
        with _Persist() as s:
            return index in s.indices

    def create(self, index=None, settings=None, mappings=None, **kw):
        with _Persist() as s:
            settings = dict(settings or {})
            n = settings.get("index.number_of_shards", settings.get("number_of_shards", settings.get("index", {}).get("number_of_shards", 1) if isinstance(settings.get("index"), dict) else 1))
            s.log.append({"op": "indices.create", "index": index, "shards": n})
            if index != index.lower():
                bad("Invalid index name [%s], must be lowercase" % index)
            if index in s.indices:
                bad("resource_already_exists_exception: index [%s] already exists" % index)
            s.indices[index] = {"shards": int(n), "replicas": 0, "docs": {}}
            return {"acknowledged": True, "index": index}

    def refresh(self, **kw):
        return {}


class Elasticsearch(Limited):
    def __init__(self, hosts=None, **kw):
        self.cat, self.indices, self._kw = _Cat(self), _Indices(self), kw
        want = os.environ.get("FAKE_ES_AUTH")            # CLOUD|KEY: the only cluster there is
        if want and "%s|%s" % (kw.get("cloud_id"), kw.get("api_key")) != want:
            raise RuntimeError("the cluster %s does not exist or refuses the key" % kw.get("cloud_id"))

    def options(self, **kw):
        return self

    def ping(self, **kw):
        return True

    def close(self):
        pass

    def count(self, index=None, query=None, body=None, **kw):
        if kw:
            limit("count(%s)" % ",".join(kw))
        with _Persist() as s:
            if body is not None:
                query = body.get("query")
            query = jsonable(query)
            s.log.append({"op": "count", "index": index, "query": query})
            ix = s.index(index)
            return {"count": sum(query is None or matches(query, d) for d in ix["docs"].items()), "_shards": {"total": ix["shards"], "failed": 0}}

    def search(self, **kw):
        body = kw.pop("body", None)
        if body:
            kw.update({("from_" if k == "from" else k): v for k, v in body.items()})
        if "_source" in kw:
            kw["source"] = kw.pop("_source")
        for k in kw:
            if k not in SEARCH_ARGS:
                limit("search(%s)" % k)
        kw = jsonable({k: v for k, v in kw.items() if v is not None})
        with _Persist() as s:
            s.log.append(dict(kw, op="search"))
            pit, pref = kw.get("pit"), kw.get("preference")
            if pit:
                if kw.get("index"):
                    bad("Validation Failed: 1: [index] cannot be used with point in time;")
                if pref:
                    bad("Validation Failed: 1: [preference] cannot be used with point in time;")
                if pit.get("id") not in s.pits:
                    raise NotFoundError("[404] search_context_missing_exception")
                name, docs, shards = s.pits[pit["id"]]
            else:
                name = kw.get("index")
                docs, shards = s.index(name)["docs"], s.index(name)["shards"]
            only = None
            if pref and pref.startswith("_shards:"):
                only = int(pref[8:].split("|")[0])
            hits = run_search(s, name, docs, shards, kw.get("query"), kw.get("size"), kw.get("from_", 0), kw.get("sort"), kw.get("search_after"), bool(pit), only, kw.get("track_total_hits"),
                              kw.get("rest_total_hits_as_int", False), kw.get("stored_fields"), kw.get("source", True))
            res = {"took": 1, "timed_out": False, "_shards": {"total": shards, "successful": shards, "failed": 0}, "hits": hits}
            if pit:
                pid = pit["id"]
                if s.rotate_pits:
                    s.next_pit += 1
                    new = "pit-%d" % s.next_pit
                    s.pits[new] = s.pits.pop(pid)
                    pid = new
                res["pit_id"] = pid
            if s.after_search:
                s.after_search(s)
            return res

    def msearch(self, searches=None, index=None, operations=None, body=None, search_type=None, rest_total_hits_as_int=False, **kw):
        for k in kw:
            if k not in ("max_concurrent_searches", "ccs_minimize_roundtrips", "typed_keys"):
                limit("msearch(%s)" % k)
        searches = jsonable(searches if searches is not None else operations if operations is not None else body)
        if not searches:
            bad("Validation Failed: 1: no requests added;")
        if len(searches) % 2:
            bad("msearch: header without body")
        with _Persist() as s:
            s.log.append({"op": "msearch", "index": index, "searches": searches})
            out = []
            for h, b in zip(searches[::2], searches[1::2]):
                for k in h:
                    if k not in ("index", "search_type", "preference", "routing", "request_cache"):
                        bad("key [%s] is not supported in the metadata section" % k)
                name = h.get("index", index)
                try:
                    ix = s.index(name)
                    for k in b:
                        if k not in ("query", "size", "from", "sort", "stored_fields", "timeout", "track_scores", "track_total_hits", "_source", "terminate_after", "min_score"):
                            bad("unknown key [%s] in the search" % k)
                        if k in ("terminate_after", "min_score"):
                            limit("msearch " + k)
                    hits = run_search(s, name, ix["docs"], ix["shards"], b.get("query"), b.get("size"), b.get("from", 0), b.get("sort"), None, False, None, b.get("track_total_hits"), rest_total_hits_as_int, b.get("stored_fields"), b.get("_source", True))
                    out.append({"took": 1, "timed_out": False, "hits": hits, "status": 200})
                except ApiError as e:
                    out.append({"error": {"reason": str(e)}, "status": e.status_code})
            return {"took": 1, "responses": out}

    def open_point_in_time(self, index=None, keep_alive=None, **kw):
        with _Persist() as s:
            s.next_pit += 1
            i = "pit-%d" % s.next_pit
            s.pits[i] = (index, copy.deepcopy(s.index(index)["docs"]), s.index(index)["shards"])
            s.log.append({"op": "open_pit", "id": i, "index": index})
            return {"id": i}

    def close_point_in_time(self, id=None, body=None, **kw):
        with _Persist() as s:
            i = id if id is not None else (body or {}).get("id")
            s.log.append({"op": "close_pit", "id": i})
            if i not in s.pits:
                raise NotFoundError("[404] not found")
            del s.pits[i]
            return {"succeeded": True, "num_freed": 1}

    def termvectors(self, index=None, id=None, fields=None, positions=True, offsets=True, payloads=True, term_statistics=False, field_statistics=True, preference=None, realtime=None, **kw):
        if kw:
            limit("termvectors(%s)" % ",".join(kw))
        with _Persist() as s:
            s.log.append({"op": "termvectors", "index": index, "id": id, "preference": preference})
            ix = s.index(index)
            if id not in ix["docs"]:
                return {"_index": index, "_id": id, "found": False}
            sh = shard_of(id, ix["shards"])
            out = {}
            for f in (fields.split(",") if isinstance(fields, str) else fields or TEXT_FIELDS):
                mine = analyze(field_of(ix["docs"][id], f))
                terms = {}
                for t in dict.fromkeys(mine):
                    terms[t] = {"term_freq": mine.count(t)}
                    if term_statistics:
                        per = [analyze(field_of(src, f)).count(t) for d, src in ix["docs"].items() if shard_of(d, ix["shards"]) == sh]
                        terms[t].update(ttf=sum(per), doc_freq=sum(x > 0 for x in per))
                out[f] = {"terms": terms}
            return {"_index": index, "_id": id, "found": True, "term_vectors": out}

    def get(self, index=None, id=None, **kw):
        with _Persist() as s:
            s.log.append({"op": "get", "index": index, "id": id})
            ix = s.index(index)
            if id not in ix["docs"]:
                raise NotFoundError("[404] {'_index': %r, '_id': %r, 'found': False}" % (index, id))
            return {"_index": index, "_id": id, "found": True, "_source": copy.deepcopy(ix["docs"][id])}

    def mget(self, index=None, ids=None, docs=None, **kw):
        with _Persist() as s:
            if docs is not None:
                pairs = [(d.get("_index", index), d["_id"]) for d in docs]
            else:
                pairs = [(index, i) for i in (ids or [])]
            if not pairs:
                bad("Validation Failed: 1: no documents to get;")
            pairs = jsonable(pairs)
            s.log.append({"op": "mget", "ids": pairs})
            out = []
            for ixn, i in pairs:
                ix = s.indices.get(ixn)
                if ix and i in ix["docs"]:
                    out.append({"_index": ixn, "_id": i, "found": True, "_source": copy.deepcopy(ix["docs"][i])})
                else:
                    out.append({"_index": ixn, "_id": i, "found": False})
            return {"docs": out}

    def bulk_items(self, actions):
        """Used by elasticsearch.helpers: executes prepared (op, meta, source) triples."""
        faults = json.loads(os.environ.get("FAKE_ES_FAULTS", "{}"))
        with _Persist() as s:
            items = []
            for op, meta, src in actions:
                name, i = meta.get("_index"), meta.get("_id")
                src = jsonable(src)
                if i is None:
                    i = "auto-%d" % len(s.log)
                i = str(i)
                s.log.append({"op": "bulk", "type": op, "index": name, "id": i})
                key = next((k for k in faults if k in json.dumps(src)), None)
                if name not in s.indices:
                    s.indices[name] = {"shards": 1, "replicas": 0, "docs": {}}
                docs = s.indices[name]["docs"]
                if key is not None:
                    items.append({op: {"_index": name, "_id": i, "status": faults[key], "error": {"type": "injected", "reason": "injected fault"}}})
                elif len(i.encode("utf-8")) > 512 or i == "":
                    items.append({op: {"_index": name, "_id": i, "status": 400, "error": {"type": "illegal_argument_exception", "reason": "id is too long"}}})
                elif op == "create" and i in docs:
                    items.append({op: {"_index": name, "_id": i, "status": 409, "error": {"type": "version_conflict_engine_exception", "reason": "document already exists"}}})
                else:
                    new = i not in docs
                    docs[i] = src
                    items.append({op: {"_index": name, "_id": i, "_version": 1, "result": "created" if new else "updated", "status": 201 if new else 200}})
            return items
