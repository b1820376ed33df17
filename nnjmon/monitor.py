"""Instrumentation of the real nnj code.

Every public method of every class of the nnj package is wrapped (class attributes are replaced in this process only;
/repo is not edited).  Each call produces an event, at every nesting level; calls made by the workload itself (depth 0)
are additionally handed to the registered observers together with their outcome, and the observers decide.
"""
import collections
import functools
import importlib
import inspect
import os
import pkgutil
import sys
import threading
import warnings

METHODS = ("forward", "jacobian", "jvp", "jmp", "jmjTp", "vjp", "mjp", "jTmjp", "get_weight", "set_weight", "gradient", "ggn")
ARGS = {
    "jacobian": ("x", "val", "wrt", "diag"),
    "jvp": ("x", "val", "vector", "wrt"),
    "vjp": ("x", "val", "vector", "wrt"),
    "jmp": ("x", "val", "matrix", "wrt"),
    "mjp": ("x", "val", "matrix", "wrt"),
    "jmjTp": ("x", "val", "matrix", "wrt", "from_diag", "to_diag", "diag_backprop"),
    "jTmjp": ("x", "val", "matrix", "wrt", "from_diag", "to_diag", "diag_backprop"),
    "gradient": ("x", "model", "target", "wrt"),
    "ggn": ("x", "model", "target", "wrt"),
}


REPO = os.environ.get("NNJMON_REPO", "/repo")  # another tree only when the checks themselves are being tested


def import_nnj(repo=REPO):
    if repo not in sys.path:
        sys.path.insert(0, repo)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import nnj

        for m in pkgutil.walk_packages(nnj.__path__, "nnj."):
            importlib.import_module(m.name)
    assert nnj.__file__.startswith(repo + "/"), nnj.__file__
    return nnj


class Event:
    __slots__ = ("obj", "cls", "op", "args", "kwargs", "named", "result", "exc")


class Monitor:
    def __init__(self, nnj):
        self.nnj = nnj
        self.local = threading.local()
        self.counts = collections.Counter()  # (class, op, detail) at any depth
        self.top = 0
        self.inner = 0
        self.max_depth = 0
        self.before = []  # f(event)
        self.after = []  # f(event)
        self.enabled = True
        self.wrapped = []

    def install(self):
        seen = set()
        for name, mod in list(sys.modules.items()):
            if name != "nnj" and not name.startswith("nnj."):
                continue
            for cls in list(vars(mod).values()):
                if not inspect.isclass(cls) or not cls.__module__.startswith("nnj") or cls in seen:
                    continue
                seen.add(cls)
                if not any(hasattr(cls, m) for m in ("jacobian", "ggn")):
                    continue
                for m in METHODS:
                    f = cls.__dict__.get(m)
                    if inspect.isfunction(f):
                        setattr(cls, m, self._wrap(cls, m, f))
                        self.wrapped.append(f"{cls.__name__}.{m}")
        return self

    def _wrap(self, cls, op, f):
        mon = self

        @functools.wraps(f)
        def wrapper(obj, *args, **kwargs):
            if not mon.enabled:
                return f(obj, *args, **kwargs)
            depth = getattr(mon.local, "depth", 0)
            mon.local.depth = depth + 1
            mon.max_depth = max(mon.max_depth, depth + 1)
            e = None
            try:
                mon.counts[(type(obj).__name__, op, mon._detail(op, args, kwargs))] += 1
                if depth:
                    mon.inner += 1
                    return f(obj, *args, **kwargs)
                mon.top += 1
                e = Event()
                e.obj, e.cls, e.op, e.args, e.kwargs = obj, cls, op, args, kwargs
                e.named = dict(zip(ARGS.get(op, ()), args))
                e.named.update(kwargs)
                e.result = e.exc = None
                mon._notify(mon.before, e)
                try:
                    e.result = f(obj, *args, **kwargs)
                except Exception as ex:
                    e.exc = ex
                    raise
                return e.result
            finally:
                mon.local.depth = depth
                if e is not None:
                    mon._notify(mon.after, e)

        return wrapper

    def _notify(self, fs, e):
        if not fs:
            return
        self.enabled = False
        try:
            for f in fs:
                f(e)
        finally:
            self.enabled = True

    @staticmethod
    def _detail(op, args, kwargs):
        names = ARGS.get(op)
        if not names:
            return ""
        d = dict(zip(names, args))
        d.update(kwargs)
        s = str(d.get("wrt", "input"))
        if op in ("jmjTp", "jTmjp"):
            s += "/" + ("d" if d.get("from_diag") else "f") + ("d" if d.get("to_diag") else "f") + ("~" if d.get("diag_backprop") else "")
        if op in ("jmp", "mjp", "jmjTp", "jTmjp") and d.get("matrix", 0) is None:
            s += "/None"
        if d.get("val") is not None:
            s += "/val"
        return s

    def paused(self):
        mon = self

        class _P:
            def __enter__(self):
                self.was = mon.enabled
                mon.enabled = False

            def __exit__(self, *a):
                mon.enabled = self.was

        return _P()
