#!/usr/bin/env python3
"""Build the fact driver and extract the facts of the current tree once, so that the dependencies are compiled."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

os.environ["VERIF_TIER"] = "quick"
print(check.facts("/repo", "quick"))
