#!/usr/local/bin/python3
"""Run once before any check: makes sure that what the checks build with is there, and builds."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner

c = runner.Check("setup", "quick", 1)
c.harness("dev")
c.harness("release")
import shutil
shutil.rmtree(c.tmp, ignore_errors=True)
print("ready")
