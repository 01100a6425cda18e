"""Maps with a forked process for each item, a few at a time, and the results in order."""
import os, pickle, random, sys, time
from _stublimit import limit, module_getattr
__getattr__ = module_getattr("bettermap")


def map_per_process(fn, iterable, *, serialize=None, parallelism=None):
    rng = random.Random(os.environ.get("PARALLEL_SEED", "0"))
    most = parallelism or int(os.environ.get("PARALLEL_JOBS", "4"))
    running, items = [], list(iterable)
    while items or running:
        while items and len(running) < most:
            x, delay = items.pop(0), rng.choice([0, 0, 0.01])
            sys.stdout.flush()
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                time.sleep(delay)
                try:
                    res = (True, fn(x))
                except Exception as e:
                    res = (False, repr(e))
                except BaseException:
                    os._exit(255)
                sys.stdout.flush()
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            running.append((pid, r))
        pid, r = running.pop(0)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if st == 77:                       # the whole job was interrupted
            for p, _ in running:
                os.kill(p, 9)
                os.waitpid(p, 0)
            os._exit(77)
        if st == 255:
            os._exit(255)
        ok, v = pickle.loads(data)
        if not ok:
            raise Exception("in a worker process: " + v)
        yield v
