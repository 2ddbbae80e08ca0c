#!/usr/bin/env python3
"""Builds the engine and extracts the standard library's bitcode (nothing from /repo: the checks do that)."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsymlib as R

try:
    print(R.build_engine())
    print(R.std_bitcode())
except R.CheckError as x:
    print("ERROR:", x)
    sys.exit(2)
