#!/usr/bin/env python3
"""Builds the symbolic executor (checks also build it on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.engine())
