"""One module of rules per subsystem."""
import importlib
import pkgutil

for _m in sorted(m.name for m in pkgutil.iter_modules(__path__)):
    importlib.import_module(__name__ + "." + _m)
