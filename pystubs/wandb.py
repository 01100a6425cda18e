import json, os


class _Run:
    def __init__(self):
        self.summary = {}

    def log(self, d, **kw):
        self.summary.update(d)

    def finish(self):
        pass


run = None


def init(**kw):
    global run
    run = _Run()
    return run


def log(d, **kw):
    run.summary.update(d)


def finish():
    p = os.environ.get("FAKE_WANDB")
    if p and run:
        json.dump(run.summary, open(p, "w"))


import atexit
atexit.register(finish)
