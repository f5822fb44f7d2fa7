#!/usr/bin/env python3
"""Records the constants of the sources the checks were written for."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import fresh
i, c = fresh.all_literals()
json.dump({"ints": {str(k): v for k, v in sorted(i.items())}, "chars": dict(sorted(c.items()))}, open(fresh.BASE, "w"), indent=0)
