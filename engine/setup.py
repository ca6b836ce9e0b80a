#!/usr/bin/env python3
"""Builds the fact extractor and extracts the facts of /repo's current tree (cached; re-extracted when the tree changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import facts
facts.ensure_facts()
p = facts.load()
print("facts:", len(p.fns), "bodies")
