"""property id -> rule function"""
import importlib, os, pkgutil

RULES = {}
TITLES = {}
for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
    mod = importlib.import_module("rules." + m)
    for k, f in getattr(mod, "RULES", {}).items():
        RULES[k] = f
