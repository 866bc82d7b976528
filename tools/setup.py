#!/usr/bin/python3
"""offline sanity of the toolchain; nothing is built (the checks run the specification and /repo's source directly)"""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(f"{ROOT}/evidence", exist_ok=True)
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/venv/bin/python"):
    if not os.path.exists(p):
        sys.exit(f"missing {p}")
sys.exit(subprocess.run(["java", "-version"], stderr=subprocess.DEVNULL).returncode)
