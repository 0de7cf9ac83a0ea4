#!/opt/venv/bin/python
"""Run the check of one property: run.py C01 [--replay FILE] [--cases N] [--jobs N]."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import core

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
