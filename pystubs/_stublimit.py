"""The stubs stand in for packages that are not installed here. Anything they do not model is reported with a
mark, so that the check counts the run as inconclusive instead of blaming wimbd for it."""
import os, sys
MARK = "VERIF-STUB-LIMIT"


class StubLimit(BaseException):
    pass


def limit(what):
    sys.stderr.write("%s: %s\n" % (MARK, what))
    sys.stderr.flush()
    path = os.environ.get("VERIF_STUB_LIMITS")
    if path:
        with open(path, "a") as f:
            f.write(what + "\n")
    raise StubLimit(what)


class Limited:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        limit("%s.%s" % (type(self).__name__, name))


def module_getattr(mod):
    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        limit("%s.%s" % (mod, name))
    return __getattr__
