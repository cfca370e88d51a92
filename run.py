#!/usr/bin/env python3
"""run.py <property> [--replay FILE] [--tier quick|thorough] [--seed N]: see vlib.py"""
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
if not sys.executable.startswith("/opt/venv/"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", *sys.argv])

import vlib  # noqa

if __name__ == "__main__":
    sys.exit(vlib.main(sys.argv[1:]))
