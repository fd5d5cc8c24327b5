#!/opt/venv/bin/python
"""run_check.py <property id> [--replay file]: decides one property on /repo's current tree."""
import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mc import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1].upper(), sys.argv[2:]))
