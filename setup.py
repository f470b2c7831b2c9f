#!/usr/bin/env python3
"""Warms the build cache of the harness (the checks build everything they need themselves)."""
import os
import shutil
import sys
import tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check  # noqa: E402

scr = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(scr, False, "/repo")
    check.build(scr, True, "/repo")
finally:
    shutil.rmtree(scr, ignore_errors=True)
print("ok")
