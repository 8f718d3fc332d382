#!/usr/bin/env python3
"""Builds the harness once; the checks rebuild whatever changed."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    print(vlib.build_harness())
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
