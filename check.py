#!/usr/bin/env python3
"""check.py <property-id>  [--tier quick|thorough] [--repo DIR]

Decides one property from the current source of the repository (never imports or runs it)."""
import os
import sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks.base import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:], HERE))
