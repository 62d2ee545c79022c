#!/usr/bin/env python3
"""Builds the default configuration once, so that a broken toolchain shows up before any check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vb
lib = vb.build_lib(vb.config("default"))
print("built %d objects" % len(lib.objs))
