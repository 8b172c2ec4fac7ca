import importlib
import os
CHECKS = {}


def check(prop, explanation, assumptions=(), technique="", note=""):
    def deco(f):
        CHECKS[prop] = {"fn": f, "explanation": explanation, "assumptions": list(assumptions), "technique": technique, "note": note}
        return f
    return deco


def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("checks." + f[:-3])
