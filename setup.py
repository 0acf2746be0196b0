#!/usr/bin/env python3
"""Builds the conformance harness once (each check rebuilds it against the tree it sees)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vp
print("built in %.1f s" % vp.build())
