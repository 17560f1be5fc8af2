import importlib
import os

FLOOR = {}
EXPLAIN = {}
ASSUMPTIONS = [
    "numeric behaviour is modelled over exact reals (floating-point rounding is outside the model)",
    "NumPy/SciPy primitives behave as documented (their models are in sa/npmodel.py)",
    "numeric options range over their documented domain (sa/domain.py); string options over the advertised names",
]


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f not in ("__init__.py", "base.py"):
            importlib.import_module("rules." + f[:-3])
