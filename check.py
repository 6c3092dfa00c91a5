#!/usr/bin/env python3
"""check.py C01..C20 [--tier quick|thorough] [--family F[,F]] [--case I] [--scale X] [--replay FILE]"""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))

if __name__ == "__main__":
    import harness
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    code = harness.main(mod.CHECK, sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
