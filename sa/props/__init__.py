import importlib
import os

REG = {}
META = {}


def prop(pid, **meta):
    def deco(fn):
        REG[pid] = fn
        META[pid] = meta
        return fn

    return deco


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("sa.props." + f[:-3])
    return REG
