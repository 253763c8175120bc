#!/usr/bin/env python3
"""Builds the fact extractor (and warms the fact cache) from the committed files."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ion import facts
facts.build_extractor()
try:
    facts.extract()
except facts.AnalysisBroken as e:
    print("facts not extracted now:", e)
