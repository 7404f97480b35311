"""Loading and running the repository's scripts in-process."""
import contextlib
import importlib.util
import io
import sys
from unittest import mock

from .boot import SRC

_cache = {}


def load(rel):
    """Module object of a script file under src (not executed as __main__)."""
    if rel not in _cache:
        name = "vp_script_" + rel.replace("/", "_").replace(".py", "")
        spec = importlib.util.spec_from_file_location(name, SRC / rel)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        path = list(sys.path)
        spec.loader.exec_module(mod)
        sys.path[:] = path
        _cache[rel] = mod
    return _cache[rel]


def main_output(rel, argv):
    mod = load(rel)
    out, err = io.StringIO(), io.StringIO()
    with mock.patch.object(sys, "argv", [rel] + [str(a) for a in argv]), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        mod.main()
    return out.getvalue()
