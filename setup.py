#!/usr/bin/env python3
"""Builds the simulators for /repo's current tree (checks rebuild them when the tree changes)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import psimlib
psimlib.build()
try:
    import props_g
except ImportError:
    props_g = None
if props_g:
    props_g.build()
