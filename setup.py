#!/usr/bin/env python3
"""Builds the MIR driver and extracts /repo once, so that the checks start warm (each check also does this by itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import extract
extract.build_driver()
extract.load_shim()
for c in extract.CONFIGS:
    extract.extract(c)
print("ok")
