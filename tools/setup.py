#!/usr/bin/env python3
"""Builds the harness (the checks only rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, parts
for f in ["full", "none"] + parts.SUBSETS:
    try:
        print(vlib.build(f))
    except vlib.NoAnswer as e:
        print(e)
        sys.exit(1)
