#!/usr/bin/env python3
"""Builds what the checks use; each check builds whatever is missing."""
import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

if check.build_harness(False) is None:
    sys.exit(1)
