"""Applies a sequence of changes to prompt templates and reports what is in memory and, read afresh, on disk."""
import json, logging, sys
import wimbd.contamination.templates as T

logging.disable(logging.WARNING)
plan = json.load(open(sys.argv[1]))
T.TEMPLATES_FOLDER_PATH = plan["base"]
live, errors = {}, []


def meta(o):
    return T.Template.Metadata(o["original_task"], o["choices_in_prompt"], o["metrics"], o["languages"])


def show(ts):
    return {n: {"jinja": t.jinja, "reference": t.get_reference(), "answer_choices": t.get_answer_choices_expr(), "original_task": t.metadata.original_task, "choices_in_prompt": t.metadata.choices_in_prompt,
                "metrics": t.metadata.metrics, "languages": t.metadata.languages} for n in ts.all_template_names for t in [ts[n]] if t.get_name() == n}


for o in plan["ops"]:
    if o["op"] == "reopen":
        live.clear()
        continue
    k = tuple(o["ds"])
    if k not in live:
        live[k] = T.DatasetTemplates(*k)
    ts = live[k]
    if o["op"] == "add":
        ts.add_template(T.Template(o["name"], o["jinja"], o["reference"], meta(o), o["answer_choices"]))
    elif o["op"] == "update":
        ts.update_template(o["name"], o["new"], o["jinja"], o["reference"], meta(o), o["answer_choices"])
    else:
        try:
            ts.remove_template(o["name"])
            if o.get("fails"):
                errors.append("removing a template that does not exist succeeded")
        except ValueError:
            if not o.get("fails"):
                raise
col = T.TemplateCollection()
sets = set(live) | set(col.keys) | {tuple(o["ds"]) for o in plan["ops"] if "ds" in o}
memory = {json.dumps(k): show(live.get(k) or T.DatasetTemplates(*k)) for k in sets}
disk = {json.dumps(k): show(T.DatasetTemplates(*k)) for k in sets}
print(json.dumps({"errors": errors, "memory": memory, "disk": disk, "counts": col.get_templates_count(), "length": len(col), "names": {json.dumps(k): col.get_dataset(*k).all_template_names for k in col.keys},
                  "ids": {json.dumps(k): [t.get_id() for t in T.DatasetTemplates(*k).templates.values()] for k in col.keys}}))
