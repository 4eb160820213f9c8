#!/usr/local/bin/python3
"""Decides one property on /repo's current working tree: check.py C01 [--replay FILE]

Exit 0: the monitors saw no violation. Exit 1, with a VIOLATION line: they saw one. Exit 2: no
verdict (something other than the library under test failed; never reported as a violation).
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
