#!/usr/bin/env python3
"""run.py <ID> [quick|thorough] [--replay FILE] [--seed N]   |   run.py setup"""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, core
if sys.argv[1] == "setup":
    tc = build.Toolchain()
    tc.need("tools", "lcl")
    print("built into", tc.dir)
    sys.exit(0)
sys.exit(core.main(importlib.import_module("checks." + sys.argv[1]), sys.argv[2:]))
