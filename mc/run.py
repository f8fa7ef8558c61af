import importlib, sys
from . import env  # noqa: F401  (imports the library under test)
from . import core

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    sys.exit(core.main(mod, sys.argv[2:]))
