#!/usr/bin/env python3
"""Builds the driver (both profiles) and the oracle, and runs the oracle's self-test."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
for f in engine.build().values():
    os.remove(f)
print("setup done")
