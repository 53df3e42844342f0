#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: see DESIGN.md"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.run import main  # noqa: E402

sys.exit(main())
