"""Runs calls of wimbd.es against the in-memory server: es_driver.py SCENARIO.json OUT.json"""
import copy, json, sys
import elasticsearch
from elasticsearch import SERVER, Elasticsearch
import wimbd.es as target


def resolve(x, shared):
    return shared[x["$ref"]] if isinstance(x, dict) and set(x) == {"$ref"} else x


def mutator(steps):
    steps = iter(steps)

    def after(server):
        for op, index, i, src in next(steps, []):
            docs = server.indices[index]["docs"]
            if op == "put":
                docs[i] = src
            else:
                docs.pop(i, None)
    return after


def main(path, out):
    sc = json.load(open(path))
    shared, results = sc.get("shared", {}), []
    for call in sc["calls"]:
        SERVER.indices = copy.deepcopy(sc["indices"])
        SERVER.track_cap, SERVER.rotate_pits, SERVER.log = sc.get("track_cap", 10000), call.get("rotate_pits", False), []
        SERVER.pits = {}
        SERVER.after_search = mutator(call["mutations"]) if call.get("mutations") else None
        args = {k: resolve(v, shared) for k, v in call["kwargs"].items()}
        before = copy.deepcopy(args)
        if call.get("own_client", True):
            args["es"] = Elasticsearch()
        r = {}
        try:
            v = getattr(target, call["fn"])(**args)
            if call.get("listed"):
                v = list(v)
            r["result"] = v
        except Exception as e:
            import traceback
            r["error"] = traceback.format_exc()
        args.pop("es", None)
        r["changed"] = [k for k in args if args[k] != before[k]]
        r["log"], r["pits"] = copy.deepcopy(SERVER.log), list(SERVER.pits)
        results.append(r)
    json.dump(results, open(out, "w"))


main(*sys.argv[1:])
