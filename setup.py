#!/usr/bin/env python3
"""Builds the bitcode normaliser used by every check."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kpsr import build  # noqa: E402

print(build.tool())
