import importlib
import os


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
