#!/usr/bin/env python3
"""Build the MIR exporter offline and export the current tree once."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from xa import export
export.driver()
print(export.export()[0])
