#!/usr/bin/env python3
"""setup_cmd: compile the simulated disk (the checks do it on demand too)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst.engine import shim_path  # noqa: E402
print(shim_path())
