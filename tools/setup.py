#!/usr/bin/env python3
"""Build the harness once; check that the verification tools are there."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import build, tlc
if not all(os.path.exists(p) for p in tlc.CP.split(":")):
    sys.exit("TLC is not installed")
print(build.build())
