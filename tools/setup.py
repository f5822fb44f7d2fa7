#!/usr/bin/env python3
"""Builds both variants of the driver against /repo as it is."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import run  # noqa: E402

for alloc in (True, False):
    print(run.build(alloc))
