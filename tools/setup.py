#!/usr/bin/env python3
"""Builds the MIR extractor and warms the cache (every check does this itself when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build
build.extract()
