import importlib
import os


def load():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_") and f != "core.py":
            importlib.import_module("replay." + f[:-3])
