"""Loads the z3 Python bindings (pure ctypes) into the interpreter of the
project (PyPy + numpy 1.26) without exposing the other packages of the
verification venv."""
import glob
import importlib.util
import os
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"):
        init = os.path.join(d, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[d])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    raise ImportError("z3 bindings not found")


z3 = load()
