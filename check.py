#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property
check.py replay <property> <file>       re-run a replay file
check.py build                          build every harness (for local use)
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from driver import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
