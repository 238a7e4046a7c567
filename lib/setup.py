#!/usr/bin/env python3
"""Warms the build cache (every check also builds what it needs on its own)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for r in vlib.pmap(vlib.build, ["plain", "asan", "count", "tsan", "grayc-asan"], 2):
    print("built", r.root)
print("built", vlib.build_cli())
