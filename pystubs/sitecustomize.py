"""Schedule noise for Python: with PYNOISE="seed probability microseconds", every executed line of wimbd's own
modules may be preceded by a short sleep, in every thread and every forked worker. With PYCRASH=n the process ends
without any clean-up at the n-th executed line of wimbd's own modules or of the modules that write compressed files."""
import os, sys

if os.environ.get("PYNOISE") or os.environ.get("PYCRASH"):
    import gzip, random, threading, time
    _seed, _p, _us = os.environ.get("PYNOISE", "0 0 0").split()
    _left = [int(os.environ.get("PYCRASH", "0"))]
    _roots = (os.environ.get("PYNOISE_ROOT", "/repo/wimbd"),) + ((gzip.__file__,) if _left[0] else ())
    _p, _us = float(_p), float(_us) * 1e-6
    _state = {}

    def _rng():
        k = (os.getpid(), threading.get_ident())
        r = _state.get(k)
        if r is None:
            r = _state[k] = random.Random("%s/%s/%d" % (_seed, len(_state), os.getpid()))
        return r

    def _line(frame, event, arg):
        if event == "line":
            if _left[0]:
                _left[0] -= 1
                if not _left[0]:
                    os._exit(86)
            r = _rng()
            if r.random() < _p:
                time.sleep(r.random() * _us)
        return _line

    def _call(frame, event, arg):
        return _line if frame.f_code.co_filename.startswith(_roots) else None

    if _left[0] < 0:       # only count
        import atexit
        _n0 = _left[0]
        atexit.register(lambda: open(os.environ["PYCRASH_OUT"], "w").write(str(_n0 - _left[0])))
    sys.settrace(_call)
    threading.settrace(_call)
