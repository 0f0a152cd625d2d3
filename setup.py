#!/usr/bin/env python3
"""Builds the MIR exporter and exports the current tree once (offline)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import extract
print(extract.driver())
try:
    extract.extract(build='release')
    p = extract.extract()
    print(len(p['fns']), 'functions exported')
except extract.ExtractError as e:
    print(e)
