"""Load the zksk sources of the current /repo tree into a private module registry.

Each run (symbolic path or concrete replay) gets its own fresh instances of the modules,
with petlib/bplib/hashlib/random/... bound to the given stand-ins (or to the real ones).
"""

import builtins
import os
import sys
import types

REPO = os.environ.get("ZKSK_REPO", "/repo")
_code = {}
executed = set()


def _compile(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _code[path] = c
    return c


def _find(name, roots):
    for root in roots:
        base = os.path.join(root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
    return None, False


class Registry:
    """A tiny import system: stubs first, then zksk from REPO (and petlib.pack by source)."""

    def __init__(self, stubs, pack_path=None, extra_globals=None, post=None):
        self.mods = dict(stubs)
        self.post = post or {}
        self.pack_path = pack_path
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.print = lambda *a, **k: None
        if extra_globals:
            b.__dict__.update(extra_globals)
        self.builtins = b.__dict__

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name == "petlib.pack" and self.pack_path:
            return self._exec(name, self.pack_path, False)
        if name == "zksk" or name.startswith("zksk."):
            if "." in name:
                self.load(name.rpartition(".")[0])
                if name in self.mods:
                    return self.mods[name]
            path, pkg = _find(name, [REPO])
            if path is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return self._exec(name, path, pkg)
        return None

    def _exec(self, name, path, pkg):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if name in self.post:
            self.post[name](m)
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.partition(".")[0]
        if name in self.mods or top in ("zksk", "petlib", "bplib"):
            m = self.load(name)
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a) and getattr(m, "__path__", None) is not None:
                        try:
                            self.load(name + "." + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods.get(top) or self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)


def monitor_functions():
    """Record which functions of REPO get executed (sys.monitoring, first hit only)."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "zksk-verif")
    except ValueError:
        return
    root = os.path.join(REPO, "zksk") + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            executed.add(fn[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
