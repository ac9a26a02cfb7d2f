#!/usr/bin/env python3
"""Unpack the offline dependencies (each check does so itself if needed)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from lib import boot  # noqa: E402

print('dependencies in', boot.ensure_deps(HERE))
