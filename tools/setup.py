#!/usr/bin/env python3
"""Prebuild every check's executable (the checks rebuild whatever changed in /repo)."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from config import ORDER
for i in ORDER:
    r = subprocess.run([sys.executable, os.path.join(here, 'check.py'), i, '--build-only'])
    if r.returncode:
        sys.exit(r.returncode)
