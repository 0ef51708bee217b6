import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw  # noqa: E402

WHERE = {}
for n in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))):
    if n.endswith(".py") and n != "__init__.py":
        mod = importlib.import_module("checks." + n[:-3])
        for k, f in getattr(mod, "CHECKS", {}).items():
            WHERE[k] = f

fw.main(lambda p: WHERE[p])
