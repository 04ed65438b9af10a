#!/usr/bin/env python3
"""Builds every driver once; the checks rebuild incrementally from /repo's working tree."""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "lib")
import vf
vf.build("all", timeout=1700)
print("setup done")
