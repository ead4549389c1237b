#!/usr/bin/env python3
"""Builds the harness once (every check rebuilds it from /repo's tree anyway)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vlib
try:
    print(vlib.build_harness('default'))
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
