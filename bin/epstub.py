"""Runs generated entry-point scripts (one JSON request per line) with stubs for the modules they import, and
reports what they called and how they exited."""
import sys, json, types, importlib.abc, importlib.machinery, io, os, tempfile, runpy, re

CALLS = []
RET = [None]
ALLOWED = set()


class Obj:
    def __init__(self, mod, path):
        self.__dict__["_m"], self.__dict__["_p"] = mod, path

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Obj(self._m, self._p + [n])

    def __call__(self, *a, **k):
        CALLS.append({"mod": self._m, "obj": ".".join(self._p), "args": len(a) + len(k)})
        return RET[0]


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") or self.__name__ + "." + n in ALLOWED:
            raise AttributeError(n)
        return Obj(self.__name__, [n])


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name in ALLOWED:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return Mod(spec.name)

    def exec_module(self, module):
        pass


sys.meta_path.insert(0, Finder())
real_out = sys.stdout
for line in sys.stdin:
    req = json.loads(line)
    for m in list(sys.modules):
        if m in ALLOWED:
            del sys.modules[m]
    ALLOWED.clear()
    for m in req["mods"]:
        parts = m.split(".")
        for i in range(len(parts)):
            ALLOWED.add(".".join(parts[:i + 1]))
    del CALLS[:]
    RET[0] = req["ret"]
    d = tempfile.mkdtemp(prefix="case-")
    f = os.path.join(d, "script.py")
    res = {"calls": [], "exit": "", "exc": ""}
    try:
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(req["script"])
        sys.argv = [f, "arg"]
        sys.stdout = io.StringIO()
        try:
            runpy.run_path(f, run_name="__main__")
            res["exc"] = "it did not exit"
        except SystemExit as e:
            res["exit"] = json.dumps(e.code)
        except BaseException as e:
            res["exc"] = re.sub(r"[^ -~]", "?", "%s: %s" % (type(e).__name__, e))[:200]
    finally:
        sys.stdout = real_out
        os.unlink(f)
        os.rmdir(d)
    res["calls"] = list(CALLS)
    real_out.write(json.dumps(res) + "\n")
    real_out.flush()
