#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   or   check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, plans  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(plans.PLANS))
