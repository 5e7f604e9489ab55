#!/usr/bin/env python3
"""Builds everything once, so that the Go build cache is warm and missing tools are noticed early."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Run

r = Run("setup", "quick", 1)
try:
    for v in ["plain", "small", "hold", "sched", "schedmid", "schedlock", "schedbig", "stmt", "batch", "schedbatch"]:
        r.build(v)
        print("built", v)
finally:
    r.close()
