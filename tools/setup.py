"""Nothing to build: verifies that the interpreter can import what the checks need."""
import importlib, sys, os
for m in ("numpy", "scipy", "pandas", "netCDF4", "bs4", "matplotlib", "requests"):
    importlib.import_module(m)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay"), exist_ok=True)
print("ok", sys.version)
