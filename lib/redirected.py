"""Runs a script with every path below one directory redirected to another: redirected.py SCRIPT FROM TO"""
import builtins, io, os, runpy, sys
script, src, dst = sys.argv[1:4]
sys.argv = [script]


def move(p):
    if isinstance(p, (str, os.PathLike)):
        s = os.fspath(p)
        if isinstance(s, str) and (s == src or s.startswith(src + "/")):
            return dst + s[len(src):]
    return p


def wrap(mod, name, n=1):
    f = getattr(mod, name)

    def g(*a, **kw):
        a = tuple(move(x) if i < n else x for i, x in enumerate(a))
        return f(*a, **{k: move(v) if k in ("path", "file", "src", "dst") else v for k, v in kw.items()})
    setattr(mod, name, g)


for name in ("open", "listdir", "scandir", "stat", "lstat", "mkdir", "unlink", "remove", "rmdir", "access", "chdir", "readlink", "utime", "truncate"):
    wrap(os, name)
for name in ("rename", "replace"):
    wrap(os, name, 2)
wrap(builtins, "open")
wrap(io, "open")
runpy.run_path(script, run_name="__main__")
