#!/usr/bin/env python3
"""check.py PROPERTY: decide one property from the current source of /repo."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cddmlint.main import main
if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
